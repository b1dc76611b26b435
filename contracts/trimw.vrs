pub open spec fn rtrim(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() > 0 && s.last() <= 32u8 { rtrim(s.drop_last()) } else { s }
}
/// the text without its leading and trailing blanks
pub open spec fn btrim(s: Seq<u8>) -> Seq<u8> { rtrim(blank_trim(s)) }
pub proof fn lemma_ltrim(s: Seq<u8>, n: int)
  requires 0 <= n <= s.len(), forall|j: int| 0 <= j < n ==> s[j] <= 32u8, n < s.len() ==> s[n] > 32u8
  ensures blank_trim(s) =~= s.subrange(n, s.len() as int)
  decreases n
{
    if n > 0 {
        assert(s.drop_first() =~= s.subrange(1, s.len() as int));
        lemma_ltrim(s.drop_first(), n - 1);
        assert(s.drop_first().subrange(n - 1, s.len() - 1) =~= s.subrange(n, s.len() as int));
    } else { assert(s.subrange(0, s.len() as int) =~= s); }
}
pub proof fn lemma_rtrim(s: Seq<u8>, n: int)
  requires 0 <= n <= s.len(), forall|j: int| n <= j < s.len() ==> s[j] <= 32u8, n > 0 ==> s[n - 1] > 32u8
  ensures rtrim(s) =~= s.subrange(0, n)
  decreases s.len() - n
{
    if n < s.len() {
        lemma_rtrim(s.drop_last(), n);
        assert(s.drop_last().subrange(0, n) =~= s.subrange(0, n));
    } else { assert(s.subrange(0, s.len() as int) =~= s); }
}
pub proof fn lemma_btrim(s: Seq<u8>, f: int, t: int)
  requires 0 <= f <= t < s.len(), forall|j: int| 0 <= j < f ==> s[j] <= 32u8, s[f] > 32u8,
    forall|j: int| t < j < s.len() ==> s[j] <= 32u8, s[t] > 32u8
  ensures btrim(s) == s.subrange(f, t + 1)
{
    lemma_ltrim(s, f);
    let u = s.subrange(f, s.len() as int);
    lemma_rtrim(u, t + 1 - f);
    assert(u.subrange(0, t + 1 - f) =~= s.subrange(f, t + 1));
}
pub trait Text { fn trimw(&self) -> &Self; }
impl Text for [u8] {
//@fn src/text.rs <[u8] as Text>::trimw (r)
  ensures r@ == btrim(self@)
//@sigsub /&Self/ => &[u8]
//@sub /\[(\w+)\.\.=(\w+)\]/ => [\1..\2 + 1]
//@start
  proof {
    assert forall|s: Seq<u8>| (forall|j: int| 0 <= j < s.len() ==> s[j] <= 32u8) implies btrim(s) == #[trigger] s.subrange(0, 0) by { lemma_ltrim(s, s.len() as int); assert(btrim(s) =~= s.subrange(0, 0)); }
    assert forall|f: int, t: int| #![trigger self@.subrange(f, t + 1)] 0 <= f <= t < self@.len() && (forall|j: int| 0 <= j < f ==> self@[j] <= 32u8) && self@[f] > 32u8
      && (forall|j: int| t < j < self@.len() ==> self@[j] <= 32u8) && self@[t] > 32u8 implies btrim(self@) == self@.subrange(f, t + 1) by { lemma_btrim(self@, f, t); }
  }
//@end
}
