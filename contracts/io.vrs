// Assumed contracts of std::io: a writer appends exactly the bytes it is given or reports an error; a reader hands out the bytes of its stream in order.
pub trait Write {
    /// everything written so far
    spec fn out(&self) -> Seq<u8>;
    fn write_all(&mut self, b: &[u8]) -> (r: Result<()>) ensures r is Ok ==> final(self).out() == old(self).out() + b@;
}
/// the bytes of a stream up to and including the first d (all of it, if there is none)
pub open spec fn upto(s: Seq<u8>, d: u8) -> Seq<u8> decreases s.len() { if s.len() == 0 { seq![] } else if s[0] == d { seq![d] } else { seq![s[0]] + upto(s.skip(1), d) } }
pub trait BufRead {
    /// the bytes not yet read
    spec fn rest(&self) -> Seq<u8>;
    fn read_until(&mut self, d: u8, buf: &mut Vec<u8>) -> (r: Result<usize>)
      ensures r matches Ok(n) ==> ({ let l = upto(old(self).rest(), d); n == l.len() && final(buf)@ == old(buf)@ + l && final(self).rest() == old(self).rest().skip(l.len() as int) });
    fn fill_buf(&mut self) -> (r: Result<&[u8]>)
      ensures final(self).rest() == old(self).rest(), r matches Ok(b) ==> b@.len() <= old(self).rest().len() && b@ == old(self).rest().subrange(0, b@.len() as int) && (b@.len() == 0 ==> old(self).rest().len() == 0);
}
pub proof fn lemma_upto(s: Seq<u8>, d: u8)
  ensures upto(s, d).len() <= s.len(), upto(s, d) == s.subrange(0, upto(s, d).len() as int), s.len() > 0 ==> upto(s, d).len() > 0,
    forall|i: int| 0 <= i < upto(s, d).len() - 1 ==> upto(s, d)[i] != d,
    s.len() > 0 && upto(s, d).last() != d ==> upto(s, d) == s,
  decreases s.len(),
{
    if s.len() > 0 {
        let t = s.skip(1); lemma_upto(t, d);
        assert(upto(s, d) =~= s.subrange(0, upto(s, d).len() as int)) by { if s[0] != d { assert(upto(t, d) == t.subrange(0, upto(t, d).len() as int)); assert forall|i: int| 0 <= i < upto(s, d).len() implies upto(s, d)[i] == s[i] by { if i > 0 { assert(upto(t, d)[i - 1] == t[i - 1]); } } } }
        if s[0] != d { assert forall|i: int| 0 <= i < upto(s, d).len() - 1 implies upto(s, d)[i] != d by { if i > 0 { assert(upto(s, d)[i] == upto(t, d)[i - 1]); } } 
          if upto(s, d).last() != d { if t.len() > 0 { assert(upto(s, d).last() == upto(t, d).last()); } assert(upto(s, d) =~= s); } }
    }
}
