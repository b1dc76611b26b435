// C11: join writes one line for each pair of lines with equal keys, and the lines without a partner where asked
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@include std.vrs
//@include io.vrs
//@include reader.vrs
//@gsub /&mut \*self\.yes_match\b/ => &mut self.yes_match.0
//@gsub /self\.yes_match\.write_all/ => self.yes_match.0.write_all
/// the key of a line of file f
pub uninterp spec fn key(o: int, f: int, l: Seq<u8>) -> Seq<u8>;
pub open spec fn kord(o: int, f: int, a: Seq<u8>, g: int, b: Seq<u8>) -> Ordering { ord(o, key(o, f, a), key(o, g, b)) }
impl LineCompList {
    #[verifier::external_body]
    pub fn comp_cols_n(&mut self, a: &TextLine, b: &TextLine, f: usize, g: usize) -> (r: Ordering) requires tl_split(*a), tl_split(*b), ensures order(*final(self)) == order(*old(self)), r == kord(order(*old(self)), f as int, tl_line(*a), g as int, tl_line(*b)) { unimplemented!() }
}
#[verifier::external_body]
pub struct Sink { x: u8 }
pub uninterp spec fn sunk(s: Sink) -> Seq<u8>;
impl Write for Sink {
    open spec fn out(&self) -> Seq<u8> { sunk(*self) }
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> (r: Result<()>) { unimplemented!() }
}
pub struct Outfile(pub Sink, pub String);
pub struct OutCol { pub num: usize, pub name: String }
//@item src/join.rs struct OneOutCol
//@item src/join.rs struct Joiner
#[derive(Copy, Clone, PartialEq, Eq)]
//@item src/join.rs enum JoinType
pub assume_specification [<JoinType as PartialEq<JoinType>>::eq] (a: &JoinType, b: &JoinType) -> (r: bool) ensures r == (*a == *b);
//@item src/join.rs struct NoMatch
#[verifier::external_body]
pub struct ScopedValue { x: u8 }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct DupColHandling { x: u8 }
/// a column specification (C08): the numbers it selects among these names
#[verifier::external_body]
pub struct ColumnSet { x: u8 }
pub uninterp spec fn cs_id(c: ColumnSet) -> int;
pub uninterp spec fn cs_cols(c: ColumnSet) -> Seq<OutCol>;
pub uninterp spec fn selected(id: int, names: Seq<Seq<char>>) -> Seq<int>;
impl ColumnSet {
    #[verifier::external_body]
    pub fn lookup(&mut self, names: &Vec<&str>) -> (r: Result<()>) ensures cs_id(*final(self)) == cs_id(*old(self)), r is Ok ==> nums(cs_cols(*final(self))) == selected(cs_id(*old(self)), sviews(names@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_cols(&self) -> (r: &Vec<OutCol>) ensures r@ == cs_cols(*self) { unimplemented!() }
}
pub open spec fn nums(c: Seq<OutCol>) -> Seq<int> { Seq::new(c.len(), |i: int| c[i].num as int) }
pub open spec fn sviews(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
//@item src/join.rs struct OutColSpec
#[verifier::external_body]
pub fn verif_clone_spec(x: &OutColSpec) -> (r: OutColSpec) ensures r.file == x.file, cs_id(r.cols) == cs_id(x.cols) { unimplemented!() }
#[verifier::external_body]
pub fn verif_clone_col(x: &OutCol) -> (r: OutCol) ensures r.num == x.num { unimplemented!() }
impl OutCol {
    #[verifier::external_body]
    pub fn from_num(n: usize) -> (r: OutCol) ensures r.num == n { unimplemented!() }
}
//@item src/join.rs struct JoinConfig
pub type Ls = Seq<Seq<u8>>;
pub open spec fn val(c: OneOutCol, l: Seq<u8>, r: Seq<u8>) -> Seq<u8> { colv(if c.file == 0 { l } else { r }, c.col.num as int) }
/// the first n columns of the output line
pub open spec fn cells(c: Seq<OneOutCol>, d: u8, n: int, l: Seq<u8>, r: Seq<u8>) -> Seq<u8> decreases n { if n <= 0 { seq![] } else if n == 1 { val(c[0], l, r) } else { cells(c, d, n - 1, l, r) + seq![d] + val(c[n - 1], l, r) } }
pub open spec fn row(c: Seq<OneOutCol>, d: u8, l: Seq<u8>, r: Seq<u8>) -> Seq<u8> { cells(c, d, c.len() as int, l, r) + seq![10u8] }
/// line l of the first file with each of the first m lines of the second
pub open spec fn pairs(o: int, c: Seq<OneOutCol>, d: u8, l: Seq<u8>, b: Ls, m: int) -> Seq<u8> decreases m { if m <= 0 { seq![] } else { pairs(o, c, d, l, b, m - 1) + (if kord(o, 0, l, 1, b[m - 1]) == Ordering::Equal { row(c, d, l, b[m - 1]) } else { seq![] }) } }
/// every pair of the first n lines of a and lines of b with equal keys
pub open spec fn joined(o: int, c: Seq<OneOutCol>, d: u8, a: Ls, b: Ls, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else { joined(o, c, d, a, b, n - 1) + pairs(o, c, d, a[n - 1], b, b.len() as int) } }
/// l of file f has a partner among b, of file g
pub open spec fn paired(o: int, f: int, l: Seq<u8>, g: int, b: Ls) -> bool { exists|j: int| 0 <= j < b.len() && kord(o, f, l, g, #[trigger] b[j]) == Ordering::Equal }
pub open spec fn lone(o: int, f: int, a: Ls, g: int, b: Ls, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else { lone(o, f, a, g, b, n - 1) + (if paired(o, f, a[n - 1], g, b) { seq![] } else { a[n - 1] }) } }
pub open spec fn sorted(o: int, f: int, a: Ls) -> bool { forall|i: int, j: int| 0 <= i <= j < a.len() ==> kord(o, f, #[trigger] a[i], f, #[trigger] a[j]) != Ordering::Greater }
pub open spec fn strictly(o: int, f: int, a: Ls) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> kord(o, f, #[trigger] a[i], f, #[trigger] a[j]) == Ordering::Less }
/// everything before i and j is dealt with
pub open spec fn below(o: int, a: Ls, b: Ls, i: int, j: int) -> bool { 0 <= i <= a.len() && 0 <= j <= b.len() && (i < a.len() ==> forall|k: int| 0 <= k < j ==> kord(o, 1, #[trigger] b[k], 0, a[i]) == Ordering::Less) && (j < b.len() ==> forall|k: int| 0 <= k < i ==> kord(o, 0, #[trigger] a[k], 1, b[j]) == Ordering::Less) }
/// the same, but b[j] may have had partners already, the last line of a before i among them
pub open spec fn within(o: int, a: Ls, b: Ls, i: int, j: int) -> bool { 0 <= i < a.len() && 0 <= j < b.len() && (forall|k: int| 0 <= k < j ==> kord(o, 1, #[trigger] b[k], 0, a[i]) == Ordering::Less) && (forall|k: int| 0 <= k < i ==> kord(o, 0, #[trigger] a[k], 1, b[j]) != Ordering::Greater) }
pub proof fn lemma_lt(o: int, x: Seq<u8>, y: Seq<u8>, z: Seq<u8>) requires ord(o, x, y) != Ordering::Greater, ord(o, y, z) != Ordering::Greater, ord(o, x, y) == Ordering::Less || ord(o, y, z) == Ordering::Less, ensures ord(o, x, z) == Ordering::Less
{ axiom_ord_trans(o, x, y, z); if ord(o, x, z) == Ordering::Equal { axiom_ord_flip(o, x, z); axiom_ord_flip(o, x, y); axiom_ord_flip(o, y, z); if ord(o, x, y) == Ordering::Less { axiom_ord_trans(o, y, z, x); } else { axiom_ord_trans(o, z, x, y); } } }
pub proof fn lemma_le(o: int, x: Seq<u8>, y: Seq<u8>, z: Seq<u8>) requires ord(o, x, y) != Ordering::Greater, ord(o, y, z) != Ordering::Greater, ensures ord(o, x, z) != Ordering::Greater { axiom_ord_trans(o, x, y, z); }
/// no line of b has the key of l
pub proof fn lemma_nopair(o: int, c: Seq<OneOutCol>, d: u8, l: Seq<u8>, b: Ls, m: int) requires 0 <= m <= b.len(), forall|j: int| 0 <= j < m ==> kord(o, 0, l, 1, #[trigger] b[j]) != Ordering::Equal, ensures pairs(o, c, d, l, b, m) =~= seq![] decreases m { if m > 0 { lemma_nopair(o, c, d, l, b, m - 1); } }
pub proof fn lemma_onepair(o: int, c: Seq<OneOutCol>, d: u8, l: Seq<u8>, b: Ls, q: int, m: int) requires 0 <= q < m <= b.len(), kord(o, 0, l, 1, b[q]) == Ordering::Equal, forall|j: int| 0 <= j < m && j != q ==> kord(o, 0, l, 1, #[trigger] b[j]) != Ordering::Equal, ensures pairs(o, c, d, l, b, m) =~= row(c, d, l, b[q]) decreases m
{ if m == q + 1 { lemma_nopair(o, c, d, l, b, q); } else { lemma_onepair(o, c, d, l, b, q, m - 1); } }
/// a[i] is before every line of b not passed
pub proof fn lemma_less(o: int, c: Seq<OneOutCol>, d: u8, a: Ls, b: Ls, i: int, j: int)
  requires sorted(o, 0, a), strictly(o, 1, b), below(o, a, b, i, j), i < a.len(), j < b.len() ==> kord(o, 0, a[i], 1, b[j]) == Ordering::Less,
  ensures below(o, a, b, i + 1, j), !paired(o, 0, a[i], 1, b), joined(o, c, d, a, b, i + 1) == joined(o, c, d, a, b, i), lone(o, 0, a, 1, b, i + 1) == lone(o, 0, a, 1, b, i) + a[i],
{
    assert forall|k: int| 0 <= k < b.len() implies kord(o, 0, a[i], 1, #[trigger] b[k]) != Ordering::Equal by {
        axiom_ord_flip(o, key(o, 0, a[i]), key(o, 1, b[k]));
        if k > j { lemma_lt(o, key(o, 0, a[i]), key(o, 1, b[j]), key(o, 1, b[k])); }
    }
    lemma_nopair(o, c, d, a[i], b, b.len() as int);
    assert(joined(o, c, d, a, b, i + 1) =~= joined(o, c, d, a, b, i));
    if i + 1 < a.len() { assert forall|k: int| 0 <= k < j implies kord(o, 1, #[trigger] b[k], 0, a[i + 1]) == Ordering::Less by { lemma_lt(o, key(o, 1, b[k]), key(o, 0, a[i]), key(o, 0, a[i + 1])); } }
}
pub proof fn lemma_greater(o: int, a: Ls, b: Ls, i: int, j: int)
  requires sorted(o, 0, a), strictly(o, 1, b), below(o, a, b, i, j), j < b.len(), i < a.len() ==> kord(o, 0, a[i], 1, b[j]) == Ordering::Greater,
  ensures below(o, a, b, i, j + 1), !paired(o, 1, b[j], 0, a), lone(o, 1, b, 0, a, j + 1) == lone(o, 1, b, 0, a, j) + b[j],
{
    if i < a.len() { axiom_ord_flip(o, key(o, 0, a[i]), key(o, 1, b[j])); }
    assert forall|k: int| 0 <= k < a.len() implies kord(o, 1, b[j], 0, #[trigger] a[k]) != Ordering::Equal by {
        axiom_ord_flip(o, key(o, 1, b[j]), key(o, 0, a[k]));
        if k > i { lemma_lt(o, key(o, 1, b[j]), key(o, 0, a[i]), key(o, 0, a[k])); }
    }
    if j + 1 < b.len() { assert forall|k: int| 0 <= k < i implies kord(o, 0, #[trigger] a[k], 1, b[j + 1]) == Ordering::Less by { lemma_lt(o, key(o, 0, a[k]), key(o, 1, b[j]), key(o, 1, b[j + 1])); } }
}
/// a[i] matches b[j]
pub proof fn lemma_equal(o: int, c: Seq<OneOutCol>, d: u8, a: Ls, b: Ls, i: int, j: int)
  requires sorted(o, 0, a), strictly(o, 1, b), within(o, a, b, i, j), kord(o, 0, a[i], 1, b[j]) == Ordering::Equal,
  ensures joined(o, c, d, a, b, i + 1) == joined(o, c, d, a, b, i) + row(c, d, a[i], b[j]), lone(o, 0, a, 1, b, i + 1) =~= lone(o, 0, a, 1, b, i), lone(o, 1, b, 0, a, j + 1) =~= lone(o, 1, b, 0, a, j),
    i + 1 == a.len() ==> below(o, a, b, i + 1, j + 1),
    i + 1 < a.len() ==> kord(o, 0, a[i + 1], 1, b[j]) != Ordering::Less && within(o, a, b, i + 1, j) && (kord(o, 0, a[i + 1], 1, b[j]) == Ordering::Greater ==> below(o, a, b, i + 1, j + 1)),
{
    let x = key(o, 0, a[i]); let y = key(o, 1, b[j]);
    axiom_ord_flip(o, x, y);
    assert forall|k: int| 0 <= k < b.len() && k != j implies kord(o, 0, a[i], 1, #[trigger] b[k]) != Ordering::Equal by {
        axiom_ord_flip(o, x, key(o, 1, b[k]));
        if k > j { lemma_lt(o, x, y, key(o, 1, b[k])); }
    }
    lemma_onepair(o, c, d, a[i], b, j, b.len() as int);
    assert(paired(o, 0, a[i], 1, b));
    assert(kord(o, 1, b[j], 0, a[i]) == Ordering::Equal);
    assert(paired(o, 1, b[j], 0, a));
    assert forall|k: int| 0 <= k < i + 1 && j + 1 < b.len() implies kord(o, 0, #[trigger] a[k], 1, b[j + 1]) == Ordering::Less by { lemma_lt(o, key(o, 0, a[k]), y, key(o, 1, b[j + 1])); }
    if i + 1 < a.len() {
        let z = key(o, 0, a[i + 1]);
        lemma_le(o, y, x, z); axiom_ord_flip(o, z, y);
        assert forall|k: int| 0 <= k < j implies kord(o, 1, #[trigger] b[k], 0, a[i + 1]) == Ordering::Less by { lemma_lt(o, key(o, 1, b[k]), x, z); }
    }
}
impl OneOutCol {
//@fn src/join.rs OneOutCol::new (r)
  ensures r.file == file, r.col.num == col.num,
//@sub /col\.clone\(\)/ => verif_clone_col(col)
//@end
//@fn src/join.rs OneOutCol::new_plain (r) noconst
  ensures r.file == file, r.col.num == col,
//@end
//@fn src/join.rs OneOutCol::name (r)
  requires self.file < f@.len(),
  ensures r@ == sl_name(rd_header(f@[self.file as int]), self.col.num as int),
//@end
//@fn src/join.rs OneOutCol::write (r)
  requires self.file < f@.len(), f@[self.file as int].splits(), f@[self.file as int].pos() < f@[self.file as int].lines().len(),
  ensures r is Ok ==> final(w).out() == old(w).out() + colv(f@[self.file as int].lines()[f@[self.file as int].pos()], self.col.num as int),
//@sigsub /fn write\(/ => fn write<W: Write>(
//@sigsub /mut w: impl Write/ => w: &mut W
//@end
}
pub open spec fn wrote(x: Option<Outfile>, y: Option<Outfile>, t: Seq<u8>) -> bool { match x { Some(f) => y is Some && (y->0).1 == f.1 && (y->0).0.out() =~= f.0.out() + t, None => y is None } }
pub open spec fn rd(r: Seq<Reader>, a: Ls, b: Ls) -> bool { r.len() == 2 && r[0].ok() && r[1].ok() && r[0].splits() && r[1].splits() && r[0].lines() == a && r[1].lines() == b }
impl Joiner {
    pub open spec fn st(&self, o: int, c: Seq<OneOutCol>, d: u8, a: Ls, b: Ls, j0: Joiner, i: int, j: int) -> bool {
        &&& self.no_match@.len() == 2 && self.out_cols@ == c && order(self.comp) == o && rd(self.r@, a, b)
        &&& self.yes_match.1 == j0.yes_match.1 && self.yes_match.0.out() =~= j0.yes_match.0.out() + joined(o, c, d, a, b, i)
        &&& wrote(j0.no_match@[0], self.no_match@[0], lone(o, 0, a, 1, b, i)) && wrote(j0.no_match@[1], self.no_match@[1], lone(o, 1, b, 0, a, j))
    }
//@fn src/join.rs Joiner::join_quick (r)
  requires rd(old(self).r@, old(self).r@[0].lines(), old(self).r@[1].lines()), old(self).r@[0].pos() == 0, old(self).r@[1].pos() == 0, old(self).no_match@.len() == 2, old(self).out_cols@.len() > 0,
    forall|k: int| 0 <= k < old(self).out_cols@.len() ==> (#[trigger] old(self).out_cols@[k]).file < 2,
    sorted(order(old(self).comp), 0, old(self).r@[0].lines()), strictly(order(old(self).comp), 1, old(self).r@[1].lines()),
  ensures r is Ok ==> final(self).st(order(old(self).comp), old(self).out_cols@, config.out_delim, old(self).r@[0].lines(), old(self).r@[1].lines(), *old(self), old(self).r@[0].lines().len() as int, old(self).r@[1].lines().len() as int),
//@start
  let ghost a = self.r@[0].lines(); let ghost b = self.r@[1].lines(); let ghost o = order(self.comp); let ghost c = self.out_cols@; let ghost d = config.out_delim; let ghost j0 = *self;
  proof { assert(self.yes_match.0.out() =~= j0.yes_match.0.out() + joined(o, c, d, a, b, 0)); assert(wrote(j0.no_match@[0], self.no_match@[0], lone(o, 0, a, 1, b, 0))) by { if j0.no_match@[0] is Some { assert((j0.no_match@[0]->0).0.out() =~= (j0.no_match@[0]->0).0.out() + lone(o, 0, a, 1, b, 0)); } } assert(wrote(j0.no_match@[1], self.no_match@[1], lone(o, 1, b, 0, a, 0))) by { if j0.no_match@[1] is Some { assert((j0.no_match@[1]->0).0.out() =~= (j0.no_match@[1]->0).0.out() + lone(o, 1, b, 0, a, 0)); } } }
//@loop 0 l
  invariant_except_break self.r@[0].pos() < a.len(), self.r@[1].pos() < b.len(), cmp == kord(o, 0, a[self.r@[0].pos()], 1, b[self.r@[1].pos()]),
  invariant self.st(o, c, d, a, b, j0, self.r@[0].pos(), self.r@[1].pos()), below(o, a, b, self.r@[0].pos(), self.r@[1].pos()), sorted(o, 0, a), strictly(o, 1, b), c.len() > 0, forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).file < 2, d == config.out_delim,
  ensures self.r@[0].pos() == a.len() || self.r@[1].pos() == b.len(),
  decreases a.len() - self.r@[0].pos() + b.len() - self.r@[1].pos(),
//@loopstart 0
  let ghost i0 = self.r@[0].pos(); let ghost q0 = self.r@[1].pos();
  proof { if cmp == Ordering::Less { lemma_less(o, c, d, a, b, i0, q0); } if cmp == Ordering::Greater { lemma_greater(o, a, b, i0, q0); } }
//@loop 1 l
  invariant_except_break cmp == Ordering::Equal, self.r@[0].pos() < a.len(), self.r@[1].pos() == q0, cmp == kord(o, 0, a[self.r@[0].pos()], 1, b[self.r@[1].pos()]), within(o, a, b, self.r@[0].pos(), self.r@[1].pos()),
  invariant self.st(o, c, d, a, b, j0, self.r@[0].pos(), self.r@[1].pos()), i0 <= self.r@[0].pos(), 0 <= q0 < b.len(), sorted(o, 0, a), strictly(o, 1, b), c.len() > 0, forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).file < 2, d == config.out_delim,
  ensures below(o, a, b, self.r@[0].pos(), self.r@[1].pos()), self.r@[1].pos() == q0 + 1, self.r@[0].pos() < a.len(), self.r@[1].pos() < b.len(), cmp == kord(o, 0, a[self.r@[0].pos()], 1, b[self.r@[1].pos()]),
  decreases a.len() - self.r@[0].pos(),
//@loopstart 1
  let ghost i = self.r@[0].pos(); proof { lemma_equal(o, c, d, a, b, i, q0); }
//@beforeloop 2
  let ghost y0 = j0.yes_match.0.out() + joined(o, c, d, a, b, i); let ghost nm = self.no_match@; let ghost rr = self.r@;
//@loop 2 d
  invariant 1 <= vi2 <= c.len(), c == self.out_cols@, self.r@ == rr, rd(rr, a, b), self.yes_match.1 == j0.yes_match.1, rr[0].pos() == i, rr[1].pos() == q0, i < a.len(), q0 < b.len(), self.no_match@ == nm, order(self.comp) == o, self.yes_match.0.out() =~= y0 + cells(c, d, vi2 as int, a[i], b[q0]), sorted(o, 0, a), strictly(o, 1, b), c.len() > 0, forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).file < 2, d == config.out_delim,
  decreases c.len() - vi2,
//@afterloop 2
  proof { assert(y0 + cells(c, d, c.len() as int, a[i], b[q0]) + seq![10u8] =~= j0.yes_match.0.out() + (joined(o, c, d, a, b, i) + row(c, d, a[i], b[q0]))); }
//@loop 3 w
  invariant self.st(o, c, d, a, b, j0, self.r@[0].pos(), self.r@[1].pos()), below(o, a, b, self.r@[0].pos(), self.r@[1].pos()), sorted(o, 0, a), strictly(o, 1, b), c.len() > 0, forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).file < 2, d == config.out_delim, self.r@[0].pos() == a.len() || self.r@[1].pos() == b.len(),
  decreases a.len() - self.r@[0].pos(),
//@loopstart 3
  let ghost i = self.r@[0].pos(); let ghost q = self.r@[1].pos(); proof { lemma_less(o, c, d, a, b, i, q); }
//@loop 4 w
  invariant self.st(o, c, d, a, b, j0, self.r@[0].pos(), self.r@[1].pos()), below(o, a, b, self.r@[0].pos(), self.r@[1].pos()), sorted(o, 0, a), strictly(o, 1, b), c.len() > 0, forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).file < 2, d == config.out_delim, self.r@[0].pos() == a.len(),
  decreases b.len() - self.r@[1].pos(),
//@loopstart 4
  let ghost i = self.r@[0].pos(); let ghost q = self.r@[1].pos(); proof { lemma_greater(o, a, b, i, q); }
//@end
}
// ---- the whole command: which files, columns, headers and outputs ----
#[verifier::external_body]
pub struct StringLine { x: u8 }
pub uninterp spec fn sl_name(t: StringLine, n: int) -> Seq<char>;
impl StringLine {
    #[verifier::external_body]
    pub fn get(&self, n: usize) -> (r: &str) ensures r@ == sl_name(*self, n as int) { unimplemented!() }
}
pub uninterp spec fn rd_header(r: Reader) -> StringLine;
pub uninterp spec fn rd_names(r: Reader) -> Seq<Seq<char>>;
pub uninterp spec fn rd_has(r: Reader) -> bool;
/// the text of the header line
pub uninterp spec fn head_line(h: StringLine) -> Seq<u8>;
/// an input: its header line, whether it has one, its columns' names, its data lines
pub ghost struct JFile { pub head: StringLine, pub has: bool, pub names: Seq<Seq<char>>, pub lines: Ls }
pub uninterp spec fn jfile(name: Seq<char>) -> JFile;
pub open spec fn opened(r: Reader, f: JFile) -> bool { r.ok() && r.pos() == 0 && r.splits() && r.lines() == f.lines && rd_header(r) == f.head && rd_names(r) == f.names && rd_has(r) == f.has }
impl Reader {
    #[verifier::external_body]
    pub fn new_open2(name: &str) -> (r: Result<Reader>) ensures r is Ok ==> opened(r->Ok_0, jfile(name@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn has_header(&self) -> (r: bool) ensures r == rd_has(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn header(&self) -> (r: &StringLine) ensures *r == rd_header(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn names(&self) -> (r: Vec<&str>) ensures sviews(r@) == rd_names(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_header<W: Write>(&self, w: &mut W) -> (r: Result<()>) ensures r is Ok ==> final(w).out() == old(w).out() + head_line(rd_header(*self)) { unimplemented!() }
}
/// opens the named output, empty
#[verifier::external_body]
pub fn get_writer(name: &str) -> (r: Result<Outfile>) ensures r matches Ok(w) ==> w.0.out() == Seq::<u8>::empty() && w.1@ == name@ { unimplemented!() }
/// the key list: what was asked for, and the columns' names of the files it was looked up for
pub uninterp spec fn lc_specs(c: LineCompList) -> Seq<Seq<char>>;
pub uninterp spec fn lc_names(c: LineCompList) -> Map<int, Seq<Seq<char>>>;
pub uninterp spec fn order_of(specs: Seq<Seq<char>>, names: Map<int, Seq<Seq<char>>>) -> int;
/// the columns of file f that the keys look at
pub uninterp spec fn key_cols(specs: Seq<Seq<char>>, names: Map<int, Seq<Seq<char>>>, f: int) -> Seq<int>;
pub uninterp spec fn lcmp_spec(c: LineComp) -> Seq<char>;
pub struct CompMaker { x: u8 }
impl CompMaker {
    #[verifier::external_body]
    pub fn make_line_comp(s: &str) -> (r: Result<LineComp>) ensures r matches Ok(c) ==> lcmp_spec(c) == s@ { unimplemented!() }
}
pub open spec fn ints(v: Seq<usize>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i] as int) }
impl LineCompList {
    #[verifier::external_body]
    pub fn new() -> (r: LineCompList) ensures lc_specs(r) == Seq::<Seq<char>>::empty(), lc_names(r) == Map::<int, Seq<Seq<char>>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: LineComp) ensures lc_specs(*final(self)) == lc_specs(*old(self)).push(lcmp_spec(c)), lc_names(*final(self)) == lc_names(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn lookup_n(&mut self, names: &Vec<&str>, f: usize) -> (r: Result<()>) ensures lc_specs(*final(self)) == lc_specs(*old(self)), r is Ok ==> lc_names(*final(self)) == lc_names(*old(self)).insert(f as int, sviews(names@)) && order(*final(self)) == order_of(lc_specs(*final(self)), lc_names(*final(self))) { unimplemented!() }
    #[verifier::external_body]
    pub fn used_cols(&self, f: usize) -> (r: Vec<usize>) ensures ints(r@) == key_cols(lc_specs(*self), lc_names(*self), f as int) { unimplemented!() }
}
#[verifier::external_body]
pub fn verif_contains(v: &Vec<usize>, x: usize) -> (r: bool) ensures r == ints(v@).contains(x as int) { unimplemented!() }
/// the output header (C20)
#[verifier::external_body]
pub struct ColumnHeader { x: u8 }
pub uninterp spec fn final_names(dups: DupColHandling, given: Seq<Seq<char>>) -> Seq<Seq<char>>;
impl ColumnHeader {
    pub uninterp spec fn given(&self) -> Seq<Seq<char>>;
    pub uninterp spec fn policy(&self) -> DupColHandling;
    #[verifier::external_body]
    pub fn new() -> (r: ColumnHeader) ensures r.given() == Seq::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_handling(&mut self, d: DupColHandling) ensures final(self).given() == old(self).given(), final(self).policy() == d { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, name: &str) -> (r: Result<()>) ensures final(self).policy() == old(self).policy(), r is Ok ==> final(self).given() == old(self).given().push(name@) { unimplemented!() }
    #[verifier::external_body]
    pub fn fieldnames(&self) -> (r: Vec<&str>) ensures sviews(r@) == final_names(self.policy(), self.given()) { unimplemented!() }
}
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn verif_bytes(a: &str) -> (r: &[u8]) ensures r@ == utf8(a@) { unimplemented!() }
#[verifier::external_body]
pub fn verif_cdx() -> (r: &'static [u8]) ensures r@ == seq![32u8, 67u8, 68u8, 88u8] { unimplemented!() }
#[verifier::external_body]
pub fn verif_one() -> (r: &'static str) ensures r@ == seq!['1'] { unimplemented!() }
/// which of the first k requests asks for file f's lone lines
pub open spec fn asked(u: Seq<NoMatch>, f: int, k: int) -> Option<int> decreases k { if k <= 0 { None } else if u[k - 1].file_num == f { Some(k - 1) } else { asked(u, f, k - 1) } }
pub open spec fn also_head(f: JFile) -> Seq<u8> { if f.has { head_line(f.head) } else { seq![] } }
pub open spec fn also_ok(nm: Option<Outfile>, u: Seq<NoMatch>, f: int, file: JFile, k: int) -> bool {
    match asked(u, f, k) { None => nm is None, Some(i) => nm is Some && (nm->0).1@ == u[i].file_name@ && (nm->0).0.out() == also_head(file) }
}
/// the keys in use: those given, else the first column
pub open spec fn keys_of(k: Seq<String>) -> Seq<Seq<char>> { if k.len() == 0 { seq![seq!['1']] } else { Seq::new(k.len(), |i: int| k[i]@) } }
pub open spec fn names2(a: JFile, b: JFile) -> Map<int, Seq<Seq<char>>> { Map::<int, Seq<Seq<char>>>::empty().insert(0, a.names).insert(1, b.names) }
pub open spec fn picks(c: Seq<OneOutCol>) -> Seq<(int, int)> { Seq::new(c.len(), |i: int| (c[i].file as int, c[i].col.num as int)) }
/// by default: every column of the first file, then those of the second that are not keys
pub open spec fn rest_cols(used: Seq<int>, n: int) -> Seq<(int, int)> decreases n { if n <= 0 { seq![] } else if used.contains(n - 1) { rest_cols(used, n - 1) } else { rest_cols(used, n - 1).push((1, n - 1)) } }
pub open spec fn first_cols(n: int) -> Seq<(int, int)> { Seq::new(n as nat, |i: int| (0int, i)) }
/// the columns asked for
pub open spec fn spec_cols(c: Seq<OutColSpec>, a: JFile, b: JFile, k: int) -> Seq<(int, int)> decreases k { if k <= 0 { seq![] } else { spec_cols(c, a, b, k - 1) + pairs_of(c[k - 1].file as int, selected(cs_id(c[k - 1].cols), if c[k - 1].file == 0 { a.names } else { b.names })) } }
pub open spec fn pairs_of(f: int, n: Seq<int>) -> Seq<(int, int)> { Seq::new(n.len(), |i: int| (f, n[i])) }
pub open spec fn want(cfg: JoinConfig, a: JFile, b: JFile) -> Seq<(int, int)> {
    if cfg.col_specs@.len() == 0 { first_cols(a.names.len() as int) + rest_cols(key_cols(keys_of(cfg.keys@), names2(a, b), 1), b.names.len() as int) }
    else { spec_cols(cfg.col_specs@, a, b, cfg.col_specs@.len() as int) }
}
/// the names the header is made of
pub open spec fn given_names(w: Seq<(int, int)>, a: JFile, b: JFile) -> Seq<Seq<char>> { Seq::new(w.len(), |i: int| sl_name(if w[i].0 == 0 { a.head } else { b.head }, w[i].1)) }
pub open spec fn delimited(names: Seq<Seq<char>>, d: u8, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else { delimited(names, d, n - 1) + seq![d] + utf8(names[n - 1]) } }
pub open spec fn join_head(cfg: JoinConfig, a: JFile, b: JFile) -> Seq<u8> {
    let n = final_names(cfg.dups, given_names(want(cfg, a, b), a, b));
    if a.has { seq![32u8, 67u8, 68u8, 88u8] + delimited(n, cfg.out_delim, n.len() as int) + seq![10u8] } else { seq![] }
}
pub open spec fn both(r: Seq<Reader>, a: JFile, b: JFile) -> bool { r.len() == 2 && opened(r[0], a) && opened(r[1], b) }
impl Joiner {
//@fn src/join.rs Joiner::new (r)
  ensures r matches Ok(j) ==> j.r@.len() == 0 && j.no_match@.len() == 0 && j.out_cols@.len() == 0 && j.yes_match.1@ == config.match_out@ && j.yes_match.0.out().len() == 0 && lc_specs(j.comp).len() == 0 && lc_names(j.comp) == Map::<int, Seq<Seq<char>>>::empty(),
//@end
#[verifier::loop_isolation(false)] #[verifier::rlimit(80)] #[verifier::spinoff_prover]
//@fn src/join.rs Joiner::join (r)
  requires old(self).r@.len() == 0, old(self).no_match@.len() == 0, old(self).out_cols@.len() == 0, old(self).yes_match.0.out().len() == 0, lc_specs(old(self).comp).len() == 0, lc_names(old(self).comp) == Map::<int, Seq<Seq<char>>>::empty(),
    config.infiles@.len() == 2 ==> ({ let a = jfile(config.infiles@[0]@); let b = jfile(config.infiles@[1]@); let o = order_of(keys_of(config.keys@), names2(a, b)); sorted(o, 0, a.lines) && strictly(o, 1, b.lines) }),
  ensures r is Ok ==> config.infiles@.len() == 2 && config.jtype == JoinType::Quick && ({
      let a = jfile(config.infiles@[0]@); let b = jfile(config.infiles@[1]@); let o = order_of(keys_of(config.keys@), names2(a, b)); let c = final(self).out_cols@;
      &&& picks(c) == want(*config, a, b)
      &&& final(self).yes_match.0.out() == join_head(*config, a, b) + joined(o, c, config.out_delim, a.lines, b.lines, a.lines.len() as int)
      &&& final(self).yes_match.1 == old(self).yes_match.1
      &&& match asked(config.unmatch_out@, 1, config.unmatch_out@.len() as int) { None => final(self).no_match@[0] is None, Some(i) => final(self).no_match@[0] is Some && (final(self).no_match@[0]->0).1@ == config.unmatch_out@[i].file_name@ && (final(self).no_match@[0]->0).0.out() == also_head(a) + lone(o, 0, a.lines, 1, b.lines, a.lines.len() as int) }
      &&& match asked(config.unmatch_out@, 2, config.unmatch_out@.len() as int) { None => final(self).no_match@[1] is None, Some(i) => final(self).no_match@[1] is Some && (final(self).no_match@[1]->0).1@ == config.unmatch_out@[i].file_name@ && (final(self).no_match@[1]->0).0.out() == also_head(b) + lone(o, 1, b.lines, 0, a.lines, b.lines.len() as int) } }),
//@sub /self\.r\[num\]\.write_header\(&mut \*w\)/ => self.r[num].write_header(&mut w.0)
//@sub /make_line_comp\("1"\)/ => make_line_comp(verif_one())
//@sub /used\.contains\(&x\)/ => verif_contains(&used, x)
//@sub /let mut x = x\.clone\(\)/ => let mut x = verif_clone_spec(x)
//@sub /b" CDX"/ => verif_cdx()
//@sub /x\.as_bytes\(\)/ => verif_bytes(x)
//@start
  let ghost fa = jfile(config.infiles@[0]@); let ghost fb = jfile(config.infiles@[1]@); let ghost u = config.unmatch_out@; let ghost ks = keys_of(config.keys@); let ghost o = order_of(ks, names2(fa, fb)); let ghost d = config.out_delim;
//@loop 0 d
  invariant vi0 <= 2, config.infiles@.len() == 2, self.no_match@.len() == 0, self.out_cols@.len() == 0, self.yes_match == old(self).yes_match, self.comp == old(self).comp, self.r@.len() == vi0, vi0 > 0 ==> opened(self.r@[0], fa), vi0 > 1 ==> opened(self.r@[1], fb),
  decreases 2 - vi0,
//@loop 1 f
  invariant self.out_cols@.len() == 0, self.yes_match == old(self).yes_match, self.comp == old(self).comp, both(self.r@, fa, fb), self.no_match@.len() == _x, forall|i: int| 0 <= i < _x ==> (#[trigger] self.no_match@[i]) is None,
//@loop 2 d
  invariant vi2 <= u.len(), self.out_cols@.len() == 0, self.yes_match == old(self).yes_match, self.comp == old(self).comp, both(self.r@, fa, fb), self.no_match@.len() == 2, also_ok(self.no_match@[0], u, 1, fa, vi2 as int), also_ok(self.no_match@[1], u, 2, fb, vi2 as int),
  decreases u.len() - vi2,
//@loop 3 d
  invariant vi3 <= config.keys@.len(), self.out_cols@.len() == 0, self.yes_match == old(self).yes_match, both(self.r@, fa, fb), self.no_match@.len() == 2, also_ok(self.no_match@[0], u, 1, fa, u.len() as int), also_ok(self.no_match@[1], u, 2, fb, u.len() as int), lc_names(self.comp) == Map::<int, Seq<Seq<char>>>::empty(), lc_specs(self.comp) =~= ks.subrange(0, vi3 as int),
  decreases config.keys@.len() - vi3,
//@afterloop 3
  proof { assert(ks.subrange(0, ks.len() as int) =~= ks); }
//@loop 4 r
  invariant vi4 <= 2, self.yes_match == old(self).yes_match, both(self.r@, fa, fb), self.no_match@.len() == 2, also_ok(self.no_match@[0], u, 1, fa, u.len() as int), also_ok(self.no_match@[1], u, 2, fb, u.len() as int), self.out_cols@.len() == 0, lc_specs(self.comp) =~= ks, lc_names(self.comp) == (if vi4 == 0 { Map::<int, Seq<Seq<char>>>::empty() } else if vi4 == 1 { Map::<int, Seq<Seq<char>>>::empty().insert(0, fa.names) } else { names2(fa, fb) }), vi4 == 2 ==> order(self.comp) == o,
  decreases 2 - vi4,
//@loop 5 r
  invariant vi5 <= 2, self.yes_match == old(self).yes_match, both(self.r@, fa, fb), self.no_match@.len() == 2, also_ok(self.no_match@[0], u, 1, fa, u.len() as int), also_ok(self.no_match@[1], u, 2, fb, u.len() as int), lc_specs(self.comp) == ks, lc_names(self.comp) == names2(fa, fb), order(self.comp) == o,  picks(self.out_cols@) =~= (if vi5 == 0 { seq![] } else if vi5 == 1 { first_cols(fa.names.len() as int) } else { first_cols(fa.names.len() as int) + rest_cols(key_cols(ks, names2(fa, fb), 1), fb.names.len() as int) }), forall|k: int| 0 <= k < self.out_cols@.len() ==> (#[trigger] self.out_cols@[k]).file < 2,
  decreases 2 - vi5,
//@loop 6 r
  invariant f < 2, f + 1 == vi5, vend6 == (if f == 0 { fa.names.len() } else { fb.names.len() }), vi6 <= vend6, 0 <= vi6 <= (if f == 0 { fa.names.len() } else { fb.names.len() }), ints(used@) == key_cols(ks, names2(fa, fb), f as int), self.yes_match == old(self).yes_match, both(self.r@, fa, fb), self.no_match@.len() == 2, also_ok(self.no_match@[0], u, 1, fa, u.len() as int), also_ok(self.no_match@[1], u, 2, fb, u.len() as int), lc_specs(self.comp) == ks, lc_names(self.comp) == names2(fa, fb), order(self.comp) == o,  picks(self.out_cols@) =~= (if f == 0 { first_cols(vi6 as int) } else { first_cols(fa.names.len() as int) + rest_cols(key_cols(ks, names2(fa, fb), 1), vi6 as int) }), forall|k: int| 0 <= k < self.out_cols@.len() ==> (#[trigger] self.out_cols@[k]).file < 2,
  decreases vend6 - vi6,
//@loopstart 6
  let ghost c6 = self.out_cols@;
//@loopend 6
  proof { let n = vi6 - 1; if self.out_cols@.len() > c6.len() { assert(self.out_cols@.drop_last() =~= c6); assert(picks(self.out_cols@) =~= picks(c6).push((f as int, n))); } assert(first_cols(n + 1) =~= first_cols(n).push((0, n))); let q = key_cols(ks, names2(fa, fb), 1); assert(first_cols(fa.names.len() as int) + rest_cols(q, n).push((1, n)) =~= (first_cols(fa.names.len() as int) + rest_cols(q, n)).push((1, n))); }
//@loop 7 d
  invariant vi7 <= config.col_specs@.len(), self.yes_match == old(self).yes_match, both(self.r@, fa, fb), self.no_match@.len() == 2, also_ok(self.no_match@[0], u, 1, fa, u.len() as int), also_ok(self.no_match@[1], u, 2, fb, u.len() as int), lc_specs(self.comp) == ks, lc_names(self.comp) == names2(fa, fb), order(self.comp) == o,  picks(self.out_cols@) =~= spec_cols(config.col_specs@, fa, fb, vi7 as int), forall|k: int| 0 <= k < self.out_cols@.len() ==> (#[trigger] self.out_cols@[k]).file < 2,
  decreases config.col_specs@.len() - vi7,
//@beforeloop 8
  let ghost p0 = picks(self.out_cols@); let ghost sel = selected(cs_id(x.cols), if x.file == 0 { fa.names } else { fb.names }); proof { assert(p0 + pairs_of(x.file as int, sel.subrange(0, 0)) =~= p0); }
//@loop 8 d
  invariant vi8 <= vs8@.len(), x.file < 2, nums(vs8@) == sel, self.yes_match == old(self).yes_match, both(self.r@, fa, fb), self.no_match@.len() == 2, also_ok(self.no_match@[0], u, 1, fa, u.len() as int), also_ok(self.no_match@[1], u, 2, fb, u.len() as int), lc_specs(self.comp) == ks, lc_names(self.comp) == names2(fa, fb), order(self.comp) == o,  picks(self.out_cols@) =~= p0 + pairs_of(x.file as int, sel.subrange(0, vi8 as int)), forall|k: int| 0 <= k < self.out_cols@.len() ==> (#[trigger] self.out_cols@[k]).file < 2,
  decreases vs8@.len() - vi8,
//@loopstart 8
  let ghost c8 = self.out_cols@; proof { assert(nums(vs8@)[vi8 as int] == vs8@[vi8 as int].num); }
//@loopend 8
  proof { let n = vi8 - 1; assert(self.out_cols@.drop_last() =~= c8); assert(picks(self.out_cols@) =~= picks(c8).push((x.file as int, sel[n]))); assert(pairs_of(x.file as int, sel.subrange(0, n + 1)) =~= pairs_of(x.file as int, sel.subrange(0, n)).push((x.file as int, sel[n]))); }
//@afterloop 8
  proof { assert(sel.subrange(0, sel.len() as int) =~= sel); }
//@beforeloop 9
  let ghost w = want(*config, fa, fb); proof { assert(picks(self.out_cols@) == w); assert(given_names(w.subrange(0, 0), fa, fb) =~= seq![]); }
//@loop 9 d
  invariant vi9 <= self.out_cols@.len(), head.policy() == config.dups, self.yes_match == old(self).yes_match, both(self.r@, fa, fb), self.no_match@.len() == 2, also_ok(self.no_match@[0], u, 1, fa, u.len() as int), also_ok(self.no_match@[1], u, 2, fb, u.len() as int), lc_specs(self.comp) == ks, lc_names(self.comp) == names2(fa, fb), order(self.comp) == o,  picks(self.out_cols@) == w, forall|k: int| 0 <= k < self.out_cols@.len() ==> (#[trigger] self.out_cols@[k]).file < 2, head.given() =~= given_names(w.subrange(0, vi9 as int), fa, fb),
  decreases self.out_cols@.len() - vi9,
//@loopstart 9
  proof { assert(picks(self.out_cols@)[vi9 as int] == w[vi9 as int]); }
//@afterloop 9
  proof { assert(w.subrange(0, w.len() as int) =~= w); }
//@beforeloop 10
  let ghost y1 = self.yes_match.0.out(); let ghost hn = final_names(config.dups, given_names(w, fa, fb)); proof { assert(y1 + delimited(hn, d, 0) =~= y1); }
//@loop 10 d
  invariant vi10 <= vs10@.len(), sviews(vs10@) == hn, both(self.r@, fa, fb), self.no_match@.len() == 2, also_ok(self.no_match@[0], u, 1, fa, u.len() as int), also_ok(self.no_match@[1], u, 2, fb, u.len() as int), lc_specs(self.comp) == ks, lc_names(self.comp) == names2(fa, fb), order(self.comp) == o,  picks(self.out_cols@) == w, forall|k: int| 0 <= k < self.out_cols@.len() ==> (#[trigger] self.out_cols@[k]).file < 2, self.yes_match.1 == old(self).yes_match.1, self.yes_match.0.out() =~= y1 + delimited(hn, d, vi10 as int),
  decreases vs10@.len() - vi10,
//@loopstart 10
  proof { assert(sviews(vs10@)[vi10 as int] == vs10@[vi10 as int]@); }
//@end
}
fn main() {}
}
