use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
//@include std.vrs
//@include cols.vrs
//@include io.vrs
#[derive(Copy, Clone)]
//@item src/util.rs struct FakeSlice
//@item src/util.rs struct TextLine
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/util.rs enum HeadMode
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/util.rs enum QuoteMode
//@item src/util.rs struct TextFileMode
impl FakeSlice {
    pub open spec fn ok(self, n: int) -> bool { self.begin <= self.end <= n }
    pub open spec fn of(self, s: Seq<u8>) -> Seq<u8> { s.subrange(self.begin as int, self.end as int) }
//@fn src/util.rs FakeSlice::get (r)
  requires self.ok(data@.len() as int),
  ensures r@ == self.of(data@),
//@end
//@fn src/util.rs FakeSlice::get_safe (r)
  requires self.begin <= self.end,
  ensures self.ok(data@.len() as int) ==> r@ == self.of(data@),
//@sub /cmp::min/ => verif_min
//@end
//@fn src/util.rs FakeSlice::len (r) noconst
  requires self.begin <= self.end,
  ensures r == self.end - self.begin,
//@end
//@fn src/util.rs FakeSlice::is_empty (r) noconst
  ensures r == (self.begin == self.end),
//@end
}
pub fn verif_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
/// these slices of the text are these columns
pub open spec fn marks(parts: Seq<FakeSlice>, s: Seq<u8>, c: Seq<Seq<u8>>) -> bool {
    parts.len() == c.len() && forall|i: int| 0 <= i < parts.len() ==> (#[trigger] parts[i]).ok(s.len() as int) && parts[i].of(s) == c[i]
}
pub proof fn lemma_newline(s: Seq<u8>, d: u8)
  requires s.len() > 0, s.last() == 10u8, d != 10u8,
  ensures pieces(s, d) == pieces(s.drop_last(), d).drop_last().push(pieces(s.drop_last(), d).last().push(10u8)), pieces(s, d).len() == pieces(s.drop_last(), d).len(),
{ lemma_pieces_len(s.drop_last(), d); }
#[verifier::loop_isolation(false)]
//@fn src/util.rs split_plain
  requires line@.len() < u32::MAX, delim != 10u8,
  ensures line@.len() > 0 ==> marks(final(parts)@, line@, columns(line@, delim)), line@.len() == 0 ==> final(parts)@.len() == 0,
//@sub /for ch in line \{/ => for ch in line.iter() {
//@loop 0 d
  invariant vi0 == end, vi0 <= line@.len(), begin <= end, ({ let p = pieces(line@.subrange(0, end as int), delim); p.len() == parts@.len() + 1 && marks(parts@, line@, p.drop_last()) && p.last() == line@.subrange(begin as int, end as int) }),
  decreases line@.len() - vi0,
//@beforeloop 0
  proof { assert(line@.subrange(0, 0) =~= seq![]); assert(line@.subrange(0, 0) =~= seq![]); assert(pieces(line@.subrange(0, 0), delim).drop_last() =~= seq![]); }
//@loopstart 0
  let ghost p0 = pieces(line@.subrange(0, end as int), delim); let ghost e0 = end as int; let ghost b0 = begin as int; let ghost q0 = parts@;
//@loopend 0
  proof {
    assert(line@.subrange(0, end as int).drop_last() =~= line@.subrange(0, e0));
    let p = pieces(line@.subrange(0, end as int), delim);
    if line@[e0] == delim {
      assert(p.drop_last() =~= p0);
      assert(p.last() =~= line@.subrange(begin as int, end as int));
      assert forall|i: int| 0 <= i < parts@.len() implies (#[trigger] parts@[i]).ok(line@.len() as int) && parts@[i].of(line@) == p0[i] by { if i < q0.len() { assert(parts@[i] == q0[i]); assert(p0.drop_last()[i] == p0[i]); } }
    } else {
      assert(p.drop_last() =~= p0.drop_last());
      assert(p.last() =~= line@.subrange(begin as int, end as int));
    }
  }
//@afterloop 0
  let ghost qa = parts@; let ghost pa = pieces(line@, delim); let ghost be = begin as int;
  proof { assert(line@.subrange(0, end as int) =~= line@); }
//@before /\}\s*$/
  proof { if line@.len() > 0 {
    lemma_pieces_len(line@, delim);
    let c = columns(line@, delim);
    if line@.last() == 10u8 { lemma_newline(line@, delim); assert(c.drop_last() =~= pa.drop_last()); assert(c.last() =~= line@.subrange(be, line@.len() - 1)); assert(c.last().push(10u8) == line@.subrange(be, line@.len() as int)); }
    assert forall|i: int| 0 <= i < parts@.len() implies (#[trigger] parts@[i]).ok(line@.len() as int) && parts@[i].of(line@) == c[i] by {
      if i < qa.len() { assert(parts@[i] == qa[i]); assert(pa.drop_last()[i] == c[i]); }
    }
  } }
//@end
impl TextLine {
    /// what the parts stand for
    pub open spec fn cols(&self, c: Seq<Seq<u8>>) -> bool { marks(self.parts@, self.line@, c) }
    pub open spec fn good(&self) -> bool { forall|i: int| 0 <= i < self.parts@.len() ==> (#[trigger] self.parts@[i]).ok(self.line@.len() as int) }
//@fn src/util.rs TextLine::line (r)
  ensures r@ == (if self.orig@.len() == 0 { self.line@ } else { self.orig@ }),
//@sub /&self\.line$/ => self.line.as_slice()
//@sub /&self\.line\n/ => self.line.as_slice()
//@sub /&self\.orig\n/ => self.orig.as_slice()
//@end
//@fn src/util.rs TextLine::line_nl (r)
  requires self.line@.len() > 0,
  ensures r@ == self.line@.drop_last(),
//@sub /&self\.line\[0?\.\.self\.line\.len\(\) - 1\]/ => vslice(&self.line, 0, self.line.len() - 1)
//@end
//@fn src/util.rs TextLine::len (r)
  ensures r == self.parts@.len(),
//@end
//@fn src/util.rs TextLine::strlen (r)
  ensures r == self.line@.len(),
//@end
//@fn src/util.rs TextLine::get (r)
  requires self.good(),
  ensures index < self.parts@.len() ==> r@ == self.parts@[index as int].of(self.line@), index >= self.parts@.len() ==> r@.len() == 0,
    forall|c: Seq<Seq<u8>>| #[trigger] self.cols(c) ==> r@ == (if index < c.len() { c[index as int] } else { seq![] }),
//@sub /&self\.line\[0\.\.0\]/ => vslice(&self.line, 0, 0)
//@sub /&self\.line\[self\.parts\[index\]\.begin as usize\.\.self\.parts\[index\]\.end as usize\]/ => vslice(&self.line, self.parts[index].begin as usize, self.parts[index].end as usize)
//@end
//@fn src/util.rs TextLine::split
  requires old(self).line@.len() < u32::MAX, text.delim != 10u8,
  ensures final(self).line == old(self).line, final(self).orig == old(self).orig, old(self).line@.len() > 0 ==> final(self).cols(columns(old(self).line@, text.delim)), final(self).good(),
//@end
//@fn src/util.rs TextLine::assign
  ensures final(self).line@ == x.line@, final(self).parts@ == x.parts@, final(self).orig@ == x.orig@,
//@sub /&x\.(\w+)\[\.\.\]/ => x.\1.as_slice()
//@end
/// one line of the stream, with its newline supplied where the stream ends without
//@fn src/util.rs TextLine::read (r)
  ensures r matches Ok(eof) ==> eof == (old(f).rest().len() == 0) && final(self).parts@.len() == 0 && final(self).orig@.len() == 0 && final(self).line@ == as_line(upto(old(f).rest(), 10u8), 10u8)
    && final(f).rest() == old(f).rest().skip(upto(old(f).rest(), 10u8).len() as int) && is_line(final(self).line@) && (!eof ==> final(self).line@.last() == 10u8),
//@start
  proof { lemma_upto(f.rest(), 10u8); }
//@sub /self\.line\.last\(\) != Some\(&(.*?)\)/ => (self.line.len() == 0 || self.line[self.line.len() - 1] != \1)
//@end
//@fn src/util.rs TextLine::clear
  ensures final(self).line@.len() == 0, final(self).parts@.len() == 0, final(self).orig@.len() == 0,
//@end
}
pub open spec fn as_line(s: Seq<u8>, e: u8) -> Seq<u8> { if s.len() > 0 && s.last() != e { s.push(e) } else { s } }
//@item src/util.rs struct TextLineIter
impl<'a> TextLineIter<'a> {
/// the iterator hands out the columns in order
//@fn src/util.rs <TextLineIter as Iterator>::next (r)
  requires old(self).line.good(),
  ensures final(self).line == old(self).line, old(self).index < old(self).line.parts@.len() ==> final(self).index == old(self).index + 1 && (r matches Some(x) && x@ == old(self).line.parts@[old(self).index as int].of(old(self).line.line@)), old(self).index >= old(self).line.parts@.len() ==> r is None && final(self).index == old(self).index,
//@sub /Self::Item/ => &'a [u8]
//@sigsub /Self::Item/ => &'a [u8]
//@sub /&self\.line\[self\.index - 1\]/ => self.line.get(self.index - 1)
//@end
}
impl TextFileMode {
//@fn src/util.rs TextFileMode::ensure_eof (r)
  requires old(line)@.len() > 0,
  ensures r is Ok && r->Ok_0 == false, final(line)@ == as_line(old(line)@, self.line_break),
//@end
}
pub fn vslice<'a>(v: &'a Vec<u8>, a: usize, b: usize) -> (r: &'a [u8]) requires a <= b <= v@.len() ensures r@ == v@.subrange(a as int, b as int) { vstd::slice::slice_subrange(v.as_slice(), a, b) }
/// slice::split by one byte, as the standard library does it
#[verifier::external_body]
pub fn verif_split(s: &[u8], d: u8) -> (r: Vec<&[u8]>) ensures r@.len() == pieces(s@, d).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == pieces(s@, d)[i] { unimplemented!() }
/// a line: no newline but at the end
pub open spec fn is_line(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() - 1 ==> s[i] != 10u8 }
pub proof fn lemma_no_newline(s: Seq<u8>, d: u8)
  requires forall|i: int| 0 <= i < s.len() ==> s[i] != 10u8,
  ensures forall|i: int| 0 <= i < pieces(s, d).len() && pieces(s, d)[i].len() > 0 ==> (#[trigger] pieces(s, d)[i]).last() != 10u8,
  decreases s.len(),
{ lemma_pieces_len(s, d); if s.len() > 0 { lemma_no_newline(s.drop_last(), d); lemma_pieces_len(s.drop_last(), d); } }
#[verifier::loop_isolation(false)]
//@fn src/column.rs get_col (r)
  requires delim != 10u8, is_line(data@),
  ensures r@ == (if col < columns(data@, delim).len() { columns(data@, delim)[col as int] } else { seq![] }),
//@sub /for \(n, s\) in data\.split\(\|(\w+)\| \*\1 == delim\)\.enumerate\(\) \{/ => let vsp = verif_split(data, delim); for (n, s) in vsp.iter().enumerate() {
//@sub /&data\[0\.\.0\]/ => vstd::slice::slice_subrange(data, 0, 0)
//@sub /&s\[0?\.\.s\.len\(\) - 1\]/ => vstd::slice::slice_subrange(s, 0, s.len() - 1)
//@beforeloop 0
  proof {
    let l = if data@.len() > 0 && data@.last() == 10u8 { data@.drop_last() } else { data@ };
    lemma_no_newline(l, delim); lemma_pieces_len(l, delim);
    if data@.len() > 0 && data@.last() == 10u8 { lemma_newline(data@, delim); let c = columns(data@, delim); assert(c.last() =~= c.last().push(10u8).drop_last()); }
  }
//@loop 0 d
  invariant vi0 <= vsp@.len(), vi0 <= col, vsp@.len() == pieces(data@, delim).len(), forall|i: int| 0 <= i < vsp@.len() ==> (#[trigger] vsp@[i])@ == pieces(data@, delim)[i],
    delim != 10u8,
  decreases vsp@.len() - vi0,
//@end
}
fn main(){}
