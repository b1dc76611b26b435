// reading one record: shared by C07 and C18
pub open spec fn even(s: Seq<u8>) -> bool { occurs(s, 34u8) % 2 == 0 }
pub open spec fn rec_end(s: Seq<u8>, n: int, e: u8) -> bool { 0 < n <= s.len() && even(s.subrange(0, n)) && s[n - 1] == e }
/// n is the length of the first record of s
pub open spec fn is_rec(s: Seq<u8>, n: int, e: u8) -> bool { 0 <= n <= s.len() && (forall|k: int| 0 < k < n ==> !#[trigger] rec_end(s, k, e)) && (rec_end(s, n, e) || n == s.len()) }
pub open spec fn as_line(s: Seq<u8>, e: u8) -> Seq<u8> { if s.len() > 0 && s.last() != e { s.push(e) } else { s } }
impl TextFileMode {
//@fn src/util.rs TextFileMode::ensure_eof (r)
  requires old(line)@.len() > 0,
  ensures r is Ok && r->Ok_0 == false, final(line)@ == as_line(old(line)@, self.line_break),
//@end
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@fn src/util.rs TextFileMode::read_line (r)
  ensures r matches Ok(eof) ==> eof == (old(f).rest().len() == 0) && exists|n: int| (if self.col_mode == QuoteMode::Quote { is_rec(old(f).rest(), n, self.line_break) } else { n == upto(old(f).rest(), self.line_break).len() }) && 0 <= n <= old(f).rest().len() && final(line)@ == as_line(#[trigger] old(f).rest().subrange(0, n), self.line_break) && final(f).rest() == old(f).rest().skip(n),
//@start
  let ghost r0 = f.rest(); let ghost e = self.line_break;
  proof { lemma_upto(r0, e); assert(r0.subrange(0, 0) =~= seq![]); assert(r0.skip(0) =~= r0); assert(forall|x: Seq<u8>| Seq::<u8>::empty() + x =~= x); }
//@sub /for ch in line\.iter\(\)\.skip\(skip\) \{/ => let mut vk: usize = skip; while vk < line.len() { let ch = &line[vk]; vk += 1;
//@beforeloop 0
  proof { assert(line@.subrange(0, 0) =~= seq![]); assert(line@ == r0.subrange(0, line@.len() as int)); }
//@loop 0 l
  invariant 0 < line@.len() <= r0.len(), line@ == r0.subrange(0, line@.len() as int), f.rest() == r0.skip(line@.len() as int), 0 <= skip <= line@.len(), within == !even(line@.subrange(0, skip as int)),
    forall|k: int| 0 < k < line@.len() ==> !#[trigger] rec_end(r0, k, e), line@.last() == e || line@.len() == r0.len(),
  decreases f.rest().len(),
//@loop 1 w
  invariant skip <= vk <= line@.len(), within == !even(line@.subrange(0, vk as int)),
  decreases line@.len() - vk,
//@loopend 1
  proof { assert(line@.subrange(0, vk as int).drop_last() =~= line@.subrange(0, vk - 1)); assert(line@.subrange(0, vk as int).last() == line@[vk - 1]); }
//@afterloop 1
  let ghost n = line@.len() as int;
  proof {
    assert(line@.subrange(0, vk as int) =~= line@);
    assert(line@.subrange(0, n) =~= line@);
    assert(within ==> !rec_end(r0, n, e));
    assert(!within ==> is_rec(r0, n, e));
    lemma_upto(f.rest(), e);
  }
//@loopend 0
  proof {
    let l = upto(r0.skip(n), e);
    assert(line@ =~= r0.subrange(0, n + l.len()));
    assert(f.rest() =~= r0.skip(n + l.len()));
    assert forall|k: int| 0 < k < n + l.len() implies !#[trigger] rec_end(r0, k, e) by { if k > n { assert(l[k - 1 - n] == r0[k - 1]); } }
    assert(line@.subrange(0, n) =~= r0.subrange(0, n));
    if line@.last() != e { assert(l.last() == line@.last()); assert(l == r0.skip(n)); }
  }
//@end
}
