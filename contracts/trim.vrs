pub trait Text { fn trimw_start(&self) -> &Self; }
pub proof fn lemma_trim(s: Seq<u8>, n: int)
  requires 0 <= n <= s.len(), forall|j: int| 0 <= j < n ==> s[j] <= 32u8, n < s.len() ==> s[n] > 32u8
  ensures blank_trim(s) =~= s.subrange(n, s.len() as int)
  decreases n
{
    if n > 0 {
        assert(s.drop_first() =~= s.subrange(1, s.len() as int));
        lemma_trim(s.drop_first(), n - 1);
        assert(s.drop_first().subrange(n - 1, s.len() - 1) =~= s.subrange(n, s.len() as int));
    } else { assert(s.subrange(0, s.len() as int) =~= s); }
}
impl Text for [u8] {
//@fn src/text.rs <[u8] as Text>::trimw_start (r)
  ensures r@ == blank_trim(self@)
//@sigsub /&Self/ => &[u8]
//@before /if vp0 < self.len\(\)/
  proof { lemma_trim(self@, vp0 as int); }
//@end
}
