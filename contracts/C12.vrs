// C12: uniq writes one line for each run of equal lines
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@include std.vrs
//@include io.vrs
//@include str.vrs
//@include reader.vrs
//@gsub /write!\(w, "\{\}\{\}", num, delim as char\)/ => verif_write_nd(w, num, delim)
//@gsub /writeln!\(w, "\{\}\{\}", delim as char, num\)/ => verif_write_dn(w, delim, num)
//@gsub /(\w+)\.eq_ignore_ascii_case\(("\w+")\)/ => verif_nocase(\1, \2)
//@gsub /(\w+)\.split_once\(','\)/ => verif_split_once(\1, ',')
//@gsub /\b(a|b|spec)\.is_empty\(\)/ => verif_s_empty(\1)
//@gsub /("count"|a|spec)\.to_string\(\)/ => verif_to_string(\1)
/// the decimal digits of a number
pub uninterp spec fn dec(n: int) -> Seq<u8>;
/// write!(w, "{}{}", num, delim as char), the delimiter being ASCII
#[verifier::external_body]
pub fn verif_write_nd<W: Write>(w: &mut W, num: usize, delim: u8) -> (r: Result<()>) ensures r is Ok ==> final(w).out() == old(w).out() + dec(num as int) + seq![delim] { unimplemented!() }
#[verifier::external_body]
pub fn verif_write_dn<W: Write>(w: &mut W, delim: u8, num: usize) -> (r: Result<()>) ensures r is Ok ==> final(w).out() == old(w).out() + seq![delim] + dec(num as int) + seq![10u8] { unimplemented!() }
/// equal but for ASCII letter case
pub uninterp spec fn nocase(a: Seq<char>, b: Seq<char>) -> bool;
#[verifier::external_body]
pub fn verif_nocase(a: &str, b: &str) -> (r: bool) ensures r == nocase(a@, b@) { unimplemented!() }
pub struct CompMaker {}
pub uninterp spec fn meaning(s: Seq<char>) -> int;
impl CompMaker {
    #[verifier::external_body]
    pub fn make_line_comp(s: &str) -> (r: Result<LineComp>) ensures r matches Ok(c) ==> order1(c) == meaning(s@) { unimplemented!() }
}
#[derive(PartialEq, Eq, Structural)]
//@item src/bin/cdx/uniq_main.rs enum CountPos
#[derive(PartialEq, Eq, Structural)]
//@item src/bin/cdx/uniq_main.rs enum Which
//@item src/bin/cdx/uniq_main.rs struct Count
// ---- the aggregators and the writer that shows them (they share their state): C23's subject
#[verifier::external_body]
pub struct LineAggList { x: u8 }
impl LineAggList {
    pub uninterp spec fn none(&self) -> bool;
    /// what was added since the last reset
    pub uninterp spec fn vals(&self) -> Seq<Seq<u8>>;
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == self.none() { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&mut self, l: &TextLine) requires tl_split(*l), ensures final(self).vals() == old(self).vals().push(tl_line(*l)), final(self).id() == old(self).id(), final(self).none() == old(self).none() { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self) ensures final(self).vals() == Seq::<Seq<u8>>::empty(), final(self).id() == old(self).id(), final(self).none() == old(self).none() { unimplemented!() }
}
/// the output line for a group: its chosen line, with the values of its aggregators
pub uninterp spec fn agg_form(id: int, vals: Seq<Seq<u8>>, line: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub struct Writer { x: u8 }
/// c_write.write(w, line): c_write was filled from agg
#[verifier::external_body]
pub fn verif_agg_write<W: Write>(c: &mut Writer, a: &LineAggList, w: &mut W, l: &TextLine) -> (r: Result<()>) requires tl_split(*l), ensures r is Ok ==> final(w).out() == old(w).out() + agg_form(a.id(), a.vals(), tl_line(*l)) { unimplemented!() }
pub struct OutBox<W: Write>(pub W);
// ---- what uniq has to write
/// where the run of line j begins
pub open spec fn start_of(o: int, d: Seq<Seq<u8>>, j: int) -> int decreases j { if j <= 0 || !eqv(o, d[j - 1], d[j]) { j } else { start_of(o, d, j - 1) } }
pub struct Mode { pub o: int, pub which: Which, pub oc: int, pub pos: CountPos, pub delim: u8, pub agg: Option<int> }
/// c may stand for lines s..e
pub open spec fn is_pick(m: Mode, d: Seq<Seq<u8>>, s: int, e: int, c: Seq<u8>) -> bool {
    match m.which {
        Which::First => c == d[s],
        Which::Last => c == d[e - 1],
        Which::Min => (exists|k: int| s <= k < e && c == #[trigger] d[k]) && forall|k: int| s <= k < e ==> ord(m.oc, c, #[trigger] d[k]) != Ordering::Greater,
        Which::Max => (exists|k: int| s <= k < e && c == #[trigger] d[k]) && forall|k: int| s <= k < e ==> ord(m.oc, c, #[trigger] d[k]) != Ordering::Less,
    }
}
pub open spec fn counted(pos: CountPos, delim: u8, n: int, c: Seq<u8>) -> Seq<u8> {
    match pos { CountPos::None => c, CountPos::Begin => dec(n) + seq![delim] + c, CountPos::End => nonl(c) + seq![delim] + dec(n) + seq![10u8] }
}
pub open spec fn form(m: Mode, d: Seq<Seq<u8>>, s: int, e: int, c: Seq<u8>) -> Seq<u8> { match m.agg { Some(id) => agg_form(id, d.subrange(s, e), c), None => counted(m.pos, m.delim, e - s, c) } }
/// out is one line for each run of the first e lines, e being the end of a run
#[verifier::opaque]
pub open spec fn runs_out(m: Mode, d: Seq<Seq<u8>>, e: int, out: Seq<u8>) -> bool decreases e {
    if e <= 0 { out.len() == 0 } else { let s = start_of(m.o, d, e - 1); 0 <= s && exists|c: Seq<u8>, p: Seq<u8>| s < e && is_pick(m, d, s, e, c) && runs_out(m, d, s, p) && out == #[trigger] (p + form(m, d, s, e, c)) }
}
pub proof fn lemma_start(o: int, d: Seq<Seq<u8>>, j: int) requires 0 <= j, ensures 0 <= start_of(o, d, j) <= j decreases j { if j > 0 && eqv(o, d[j - 1], d[j]) { lemma_start(o, d, j - 1); } }
pub proof fn lemma_none(m: Mode, d: Seq<Seq<u8>>) ensures runs_out(m, d, 0, seq![]) { reveal(runs_out); }
pub proof fn lemma_run(m: Mode, d: Seq<Seq<u8>>, s: int, e: int, c: Seq<u8>, p: Seq<u8>)
  requires 0 <= s < e, s == start_of(m.o, d, e - 1), is_pick(m, d, s, e, c), runs_out(m, d, s, p), ensures runs_out(m, d, e, p + form(m, d, s, e, c))
{ reveal(runs_out); assert(p + form(m, d, s, e, c) == p + form(m, d, s, e, c)); }
/// the choice goes on being right with one more line
pub proof fn lemma_pick(m: Mode, d: Seq<Seq<u8>>, s: int, e: int, c: Seq<u8>, c2: Seq<u8>)
  requires 0 <= s < e < d.len(), is_pick(m, d, s, e, c), is_next(m.which, m.oc, c, d[e], c2), ensures is_pick(m, d, s, e + 1, c2)
{
    if m.which is Min || m.which is Max {
        let k0 = choose|k: int| s <= k < e && c == #[trigger] d[k];
        assert(c2 == d[e] || c2 == d[k0]);
        assert forall|k: int| s <= k < e + 1 implies (if m.which is Min { ord(m.oc, c2, #[trigger] d[k]) != Ordering::Greater } else { ord(m.oc, c2, d[k]) != Ordering::Less }) by {
            axiom_ord_flip(m.oc, d[e], d[e]); axiom_ord_flip(m.oc, c, d[e]); axiom_ord_flip(m.oc, c2, d[k]);
            if k < e && !(c2 == c && (if m.which is Min { ord(m.oc, c, d[e]) != Ordering::Greater } else { ord(m.oc, c, d[e]) != Ordering::Less })) { axiom_ord_flip(m.oc, c, d[k]); if m.which is Min { axiom_ord_trans(m.oc, d[e], c, d[k]); } else { axiom_ord_trans(m.oc, d[k], c, d[e]); } }
        }
    }
}
/// c2 is the better of c and n (either, when they are equal)
pub open spec fn is_next(w: Which, oc: int, c: Seq<u8>, n: Seq<u8>, c2: Seq<u8>) -> bool {
    match w { Which::First => c2 == c, Which::Last => c2 == n,
      Which::Min => (c2 == c && ord(oc, c, n) != Ordering::Greater) || (c2 == n && ord(oc, n, c) != Ordering::Greater),
      Which::Max => (c2 == c && ord(oc, c, n) != Ordering::Less) || (c2 == n && ord(oc, n, c) != Ordering::Less) }
}
//@fn src/bin/cdx/uniq_main.rs chomp (r)
  ensures r@ == nonl(x@),
//@sub /&x\[0?\.\.len\]/ => verif_upto(x, len)
//@start
  proof { if x@.len() > 0 { assert(x@.subrange(0, x@.len() - 1) =~= x@.drop_last()); } }
//@end
#[verifier::external_body]
pub fn verif_upto(x: &[u8], n: usize) -> (r: &[u8]) requires n <= x@.len(), ensures r@ == x@.subrange(0, n as int) { &x[..n] }
impl Count {
//@fn src/bin/cdx/uniq_main.rs Count::is_plain (r)
  ensures r == (self.pos is None),
//@end
//@fn src/bin/cdx/uniq_main.rs Count::write (r)
  ensures r is Ok ==> final(w).out() == old(w).out() + counted(self.pos, delim, num as int, line@),
//@sigsub /w: &mut impl Write/ => w: &mut W
//@sigsub /fn write\(/ => fn write<W: Write>(
//@start
  let ghost o0 = w.out();
//@before /Ok\(\(\)\)/
  proof { assert(w.out() =~= o0 + counted(self.pos, delim, num as int, line@)); }
//@end
//@fn src/bin/cdx/uniq_main.rs Count::assign (r)
  requires self.which is Min || self.which is Max ==> needs(order1(old(self).comp)) ==> tl_split(*old(tmp)) && tl_split(*new),
  ensures final(self).which == old(self).which, final(self).pos == old(self).pos, order1(final(self).comp) == order1(old(self).comp), tl_split(*old(tmp)) && tl_split(*new) ==> tl_split(*final(tmp)),
    tl_line(*final(tmp)) == tl_line(*old(tmp)) || tl_line(*final(tmp)) == tl_line(*new), is_next(old(self).which, order1(old(self).comp), tl_line(*old(tmp)), tl_line(*new), tl_line(*final(tmp))),
//@start
  proof { axiom_ord_flip(order1(self.comp), tl_line(*tmp), tl_line(*new)); }
//@end
}
pub open spec fn which_of(s: Seq<char>) -> Option<Which> { if nocase(s, "first"@) { Some(Which::First) } else if nocase(s, "last"@) { Some(Which::Last) } else if nocase(s, "min"@) { Some(Which::Min) } else if nocase(s, "max"@) { Some(Which::Max) } else { None } }
pub open spec fn pos_of(s: Seq<char>) -> Option<CountPos> { if s.len() == 0 || nocase(s, "begin"@) || nocase(s, "start"@) || nocase(s, "first"@) { Some(CountPos::Begin) } else if nocase(s, "stop"@) || nocase(s, "end"@) || nocase(s, "last"@) { Some(CountPos::End) } else { None } }
pub open spec fn name_of(s: Seq<char>) -> Seq<char> { if s.len() == 0 { "count"@ } else { s } }
pub open spec fn left(s: Seq<char>) -> Seq<char> { if index_of(s, ',') >= 0 { s.subrange(0, index_of(s, ',')) } else { s } }
pub open spec fn right(s: Seq<char>) -> Seq<char> { if index_of(s, ',') >= 0 { s.skip(index_of(s, ',') + 1) } else { seq![] } }
impl Count {
//@fn src/bin/cdx/uniq_main.rs Count::get_which2 (r)
  ensures final(self).pos == old(self).pos, final(self).name == old(self).name, r is Ok ==> which_of(which@) == Some(final(self).which) && order1(final(self).comp) == meaning(pattern@),
//@end
//@fn src/bin/cdx/uniq_main.rs Count::get_which (r)
  ensures final(self).pos == old(self).pos, final(self).name == old(self).name, r is Ok ==> which_of(left(spec@)) == Some(final(self).which) && order1(final(self).comp) == meaning(right(spec@)),
//@start
  proof { reveal_strlit(""); assert(""@ =~= seq![]); }
//@end
//@fn src/bin/cdx/uniq_main.rs Count::get_count (r)
  ensures final(self).which == old(self).which, final(self).comp == old(self).comp, r is Ok ==> Some(final(self).pos) == pos_of(right(spec@)) && final(self).name@ == name_of(left(spec@)),
//@end
}
pub proof fn lemma_first(m: Mode, d: Seq<Seq<u8>>, s: int) requires 0 <= s < d.len(), ensures is_pick(m, d, s, s + 1, d[s]) { axiom_ord_flip(m.oc, d[s], d[s]); assert(d[s] == d[s]); }
pub open spec fn mode(o: int, c: &Count, delim: u8, a: &LineAggList) -> Mode { Mode { o, which: c.which, oc: order1(c.comp), pos: c.pos, delim, agg: if a.none() { None } else { Some(a.id()) } } }
/// standing at line e of the run that began at s, with p written for the runs before it
pub open spec fn within(m: Mode, d: Seq<Seq<u8>>, s: int, e: int, p: Seq<u8>) -> bool { 0 <= s < e <= d.len() && s == start_of(m.o, d, e - 1) && runs_out(m, d, s, p) }
//@fn src/bin/cdx/uniq_main.rs main (r)
  requires old(f).ok(), old(f).pos() == 0, old(f).lines().len() > 0, old(f).splits(), old(agg).vals() == Seq::<Seq<u8>>::empty(),
  ensures r is Ok ==> exists|p: Seq<u8>| final(w).0.out() == old(w).0.out() + p && #[trigger] runs_out(mode(order(*old(comp)), old(count), old(f).delimiter(), old(agg)), old(f).lines(), old(f).lines().len() as int, p),
//@from /f\.do_split\(/
//@sig fn uniq_lines<W: Write>(comp: &mut LineCompList, count: &mut Count, agg: &mut LineAggList, c_write: &mut Writer, f: &mut Reader, w: &mut OutBox<W>) -> Result<()>
//@sub /c_write\.write\(&mut w\.0, &tmp\)/ => verif_agg_write(c_write, agg, &mut w.0, &tmp)
//@start
  let ghost d = f.lines(); let ghost o = order(*comp); let ghost m = mode(o, count, f.delimiter(), agg); let ghost o0 = w.0.out(); let ghost mut p: Seq<u8> = seq![]; let ghost mut s: int = 0; let ghost c0 = *count;
  proof { lemma_none(m, d); lemma_first(m, d, 0); assert(o0 + p =~= o0); }
//@sub /let mut matches = 1;/ => let ghost sp = f.splits(); let mut matches = 1;
//@loop 0 l
  invariant_except_break 0 <= f.pos() < d.len(), within(m, d, s, f.pos() + 1, p), agg.vals() == d.subrange(s, f.pos() + 1), w.0.out() == o0 + p, is_pick(m, d, s, f.pos() + 1, tl_line(tmp)),
  invariant d.len() < usize::MAX, f.lines() == d, f.delimiter() == m.delim, f.splits() == sp, needs(o) ==> sp, m.o == o, order(*comp) == o, count.which == m.which, count.pos == m.pos, order1(count.comp) == m.oc, agg.id() == m.agg->0, m.agg is Some, tl_split(tmp), sp,
  ensures within(m, d, s, d.len() as int, p), is_pick(m, d, s, d.len() as int, tl_line(tmp)), w.0.out() == o0 + p + form(m, d, s, d.len() as int, tl_line(tmp)),
  decreases d.len() - f.pos(),
//@loopstart 0
  let ghost c = tl_line(tmp); let ghost i = f.pos() + 1; proof { if i < d.len() { lemma_first(m, d, i); assert(d.subrange(i, i + 1) =~= seq![d[i]]); assert(d.subrange(s, i + 1) =~= d.subrange(s, i).push(d[i])); } }
//@loopend 0
  proof { if eqv(o, d[i - 1], d[i]) { lemma_pick(m, d, s, i, c, tl_line(tmp)); } else { lemma_run(m, d, s, i, c, p); assert(w.0.out() =~= o0 + (p + form(m, d, s, i, c))); p = p + form(m, d, s, i, c); s = i; } }
//@afterloop 0
  proof { lemma_run(m, d, s, d.len() as int, tl_line(tmp), p); assert(w.0.out() =~= o0 + (p + form(m, d, s, d.len() as int, tl_line(tmp)))); }
//@loop 1 l
  invariant_except_break 0 <= f.pos() < d.len(), within(m, d, s, f.pos() + 1, p), matches == f.pos() + 1 - s, w.0.out() == o0 + p,
  invariant d.len() < usize::MAX, f.lines() == d, f.delimiter() == m.delim, f.splits() == sp, needs(o) ==> sp, m.o == o, order(*comp) == o, count.which == m.which, count.pos == m.pos, order1(count.comp) == m.oc, m.agg is None, m.which is Last,
  ensures within(m, d, s, d.len() as int, p), w.0.out() == o0 + p + form(m, d, s, d.len() as int, d[d.len() - 1]),
  decreases d.len() - f.pos(),
//@loopstart 1
  let ghost i = f.pos() + 1;
//@loopend 1
  proof { if !eqv(o, d[i - 1], d[i]) { lemma_run(m, d, s, i, d[i - 1], p); assert(w.0.out() =~= o0 + (p + form(m, d, s, i, d[i - 1]))); p = p + form(m, d, s, i, d[i - 1]); s = i; } }
//@afterloop 1
  proof { let c = d[d.len() - 1]; lemma_run(m, d, s, d.len() as int, c, p); assert(w.0.out() =~= o0 + (p + form(m, d, s, d.len() as int, c))); }
//@loop 2 l
  invariant_except_break 0 <= f.pos() < d.len(), within(m, d, s, f.pos() + 1, p), w.0.out() == o0 + p + d[s],
  invariant d.len() < usize::MAX, f.lines() == d, f.delimiter() == m.delim, f.splits() == sp, needs(o) ==> sp, m.o == o, order(*comp) == o, count.which == m.which, count.pos == m.pos, order1(count.comp) == m.oc, m.agg is None, m.which is First, m.pos is None,
  ensures within(m, d, s, d.len() as int, p), w.0.out() == o0 + p + d[s],
  decreases d.len() - f.pos(),
//@loopstart 2
  let ghost i = f.pos() + 1;
//@loopend 2
  proof { if !eqv(o, d[i - 1], d[i]) { lemma_run(m, d, s, i, d[s], p); assert(w.0.out() =~= o0 + (p + form(m, d, s, i, d[s])) + d[i]); p = p + form(m, d, s, i, d[s]); s = i; } }
//@afterloop 2
  proof { lemma_run(m, d, s, d.len() as int, d[s], p); assert(w.0.out() =~= o0 + (p + form(m, d, s, d.len() as int, d[s]))); }
//@loop 3 l
  invariant_except_break 0 <= f.pos() < d.len(), within(m, d, s, f.pos() + 1, p), matches == f.pos() + 1 - s, w.0.out() == o0 + p, is_pick(m, d, s, f.pos() + 1, tl_line(tmp)),
  invariant d.len() < usize::MAX, f.lines() == d, f.delimiter() == m.delim, f.splits() == sp, needs(o) ==> sp, m.o == o, order(*comp) == o, count.which == m.which, count.pos == m.pos, order1(count.comp) == m.oc, m.agg is None, sp ==> tl_split(tmp), needs(m.oc) ==> sp,
  ensures within(m, d, s, d.len() as int, p), is_pick(m, d, s, d.len() as int, tl_line(tmp)), w.0.out() == o0 + p + form(m, d, s, d.len() as int, tl_line(tmp)),
  decreases d.len() - f.pos(),
//@loopstart 3
  let ghost c = tl_line(tmp); let ghost i = f.pos() + 1; proof { if i < d.len() { lemma_first(m, d, i); } }
//@loopend 3
  proof { if eqv(o, d[i - 1], d[i]) { lemma_pick(m, d, s, i, c, tl_line(tmp)); } else { lemma_run(m, d, s, i, c, p); assert(w.0.out() =~= o0 + (p + form(m, d, s, i, c))); p = p + form(m, d, s, i, c); s = i; } }
//@afterloop 3
  proof { lemma_run(m, d, s, d.len() as int, tl_line(tmp), p); assert(w.0.out() =~= o0 + (p + form(m, d, s, d.len() as int, tl_line(tmp)))); }
//@end
fn main() {}
}
