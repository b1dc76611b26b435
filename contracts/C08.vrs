use vstd::prelude::*;
use std::cmp::Ordering;
use std::collections::HashSet;
verus!{
broadcast use vstd::std_specs::hash::group_hash_axioms;
//@include std.vrs
//@include str.vrs
//@include bpos.vrs
//@include io.vrs
//@include lines.vrs
#[verifier::external_body] pub struct TransList { x: u8 }
//@item src/column.rs struct ColSetPart
//@item src/column.rs struct OutCol
//@item src/column.rs struct ColumnSet
//@item src/column.rs struct NamedCol
//@item src/util.rs enum HeadMode
//@item src/util.rs enum QuoteMode
//@item src/util.rs struct TextFileMode
pub type Names = Seq<Seq<char>>;
pub open spec fn views(v: Seq<&str>) -> Names { Seq::new(v.len(), |i: int| v[i]@) }
// ---- numbers, matchers: what the text means is the subject of C21 and C16 ----
pub uninterp spec fn whole(s: Seq<char>) -> Option<usize>;
#[verifier::external_body]
pub fn verif_to_usize_whole(s: &str) -> (r: Result<usize>) ensures r is Ok == whole(s@) is Some, r matches Ok(x) ==> whole(s@) == Some(x), { unimplemented!() }
#[verifier::external_body] pub struct Matcher { x: u8 }
pub uninterp spec fn accepts(pat: Seq<char>, name: Seq<char>) -> bool;
pub uninterp spec fn pattern_ok(pat: Seq<char>) -> bool;
impl Matcher {
    pub uninterp spec fn pat(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn smatch(&self, s: &str) -> (r: bool) ensures r == accepts(self.pat(), s@), { unimplemented!() }
}
#[verifier::external_body]
pub fn verif_make_matcher(s: &str) -> (r: Result<Matcher>) ensures r is Ok == pattern_ok(s@), r matches Ok(m) ==> m.pat() == s@, { unimplemented!() }
// ---- what a specification means ----
pub open spec fn find_name(names: Names, s: Seq<char>) -> int decreases names.len() { if names.len() == 0 { -1 } else { let n = find_name(names.drop_last(), s); if n >= 0 { n } else if names.last() == s { names.len() - 1 } else { -1 } } }
/// one column: N from the left, +N from the right, or a name
pub open spec fn one_col(names: Names, s: Seq<char>) -> Option<int> {
    if s.len() > 0 && s[0] == '+' { match whole(s.skip(1)) { Some(n) => if 1 <= n <= names.len() { Some(names.len() - n) } else { None }, None => None } }
    else if s.len() > 0 && '1' <= s[0] && s[0] <= '9' { match whole(s) { Some(n) => if n >= 1 { Some(n - 1) } else { None }, None => None } }
    else if find_name(names, s) >= 0 { Some(find_name(names, s)) } else { None }
}
pub open spec fn upto_n(a: int, b: int) -> Seq<int> { Seq::new((b + 1 - a) as nat, |i: int| a + i) }
/// the columns whose name the pattern accepts, in file order
pub open spec fn matching(names: Names, pat: Seq<char>) -> Seq<int> decreases names.len() { if names.len() == 0 { seq![] } else { let m = matching(names.drop_last(), pat); if accepts(pat, names.last()) { m.push(names.len() - 1) } else { m } } }
pub open spec fn after_colon(s: Seq<char>) -> Seq<char> { if index_of(s, ':') >= 0 { s.skip(index_of(s, ':') + 1) } else { s } }
pub open spec fn before_colon(s: Seq<char>) -> Seq<char> { if index_of(s, ':') >= 0 { s.subrange(0, index_of(s, ':')) } else { seq![] } }
pub open spec fn dflt(s: Seq<char>, d: Seq<char>) -> Seq<char> { if s.len() == 0 { d } else { s } }
/// the columns of one part of a specification: Name:Range
pub open spec fn part_cols(names: Names, s: Seq<char>) -> Option<Seq<int>> {
    let r = after_colon(s);
    if s.len() == 0 || r.len() == 0 { None }
    else if r[0] == '(' { if r.last() == ')' && r.len() >= 2 && pattern_ok(r.subrange(1, r.len() - 1)) { Some(matching(names, r.subrange(1, r.len() - 1))) } else { None } }
    else {
        let p = spieces(r, '-');
        if p.len() > 2 { None } else {
            let a = one_col(names, dflt(p[0], seq!['1'])); let b = if p.len() == 1 { a } else { one_col(names, dflt(p[1], seq!['+', '1'])) };
            match (a, b) { (Some(x), Some(y)) => if x <= y { Some(upto_n(x, y)) } else { None }, _ => None }
        }
    }
}
/// a column of the output: number, name, transformation
pub ghost struct Col { pub num: int, pub name: Seq<char>, pub trans: Option<usize> }
pub open spec fn cols_are(v: Seq<OutCol>, c: Seq<Col>) -> bool { v.len() == c.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).num == c[i].num && v[i].name@ == c[i].name && v[i].trans == c[i].trans }
pub open spec fn pushed(a: Seq<ColSetPart>, b: Seq<ColSetPart>, v: Seq<char>, t: Option<usize>) -> bool { a.len() == b.len() + 1 && a.drop_last() =~= b && a.last().val@ == v && a.last().trans == t }
/// is this column excluded by one of the first k parts?
pub open spec fn out(neg: Seq<ColSetPart>, names: Names, k: int, x: int) -> bool { exists|i: int| 0 <= i < k && part_has(names, (#[trigger] neg[i]).val@, x) }
pub open spec fn part_has(names: Names, s: Seq<char>, x: int) -> bool { part_cols(names, s) is Some && part_cols(names, s)->Some_0.contains(x) }
pub open spec fn neg_ok(neg: Seq<ColSetPart>, names: Names, k: int) -> bool { forall|i: int| 0 <= i < k ==> part_cols(names, (#[trigger] neg[i]).val@) is Some }
/// these columns, as long as they are not excluded
pub open spec fn keep(n: Seq<int>, name: Seq<char>, t: Option<usize>, neg: Seq<ColSetPart>, names: Names) -> Seq<Col> decreases n.len() {
    if n.len() == 0 { seq![] } else { let k = keep(n.drop_last(), name, t, neg, names); if out(neg, names, neg.len() as int, n.last()) { k } else { k.push(Col { num: n.last(), name, trans: t }) } }
}
pub open spec fn picked(pos: Seq<ColSetPart>, names: Names, neg: Seq<ColSetPart>) -> Option<Seq<Col>> decreases pos.len() {
    if pos.len() == 0 { Some(seq![]) } else { match (picked(pos.drop_last(), names, neg), part_cols(names, pos.last().val@)) { (Some(a), Some(b)) => Some(a + keep(b, before_colon(pos.last().val@), pos.last().trans, neg, names)), _ => None } }
}
/// the columns a specification stands for, in its order
pub open spec fn wanted(pos: Seq<ColSetPart>, neg: Seq<ColSetPart>, names: Names) -> Option<Seq<Col>> {
    if !neg_ok(neg, names, neg.len() as int) { None } else if pos.len() == 0 { Some(keep(upto_n(0, names.len() - 1), seq![], None, neg, names)) } else { picked(pos, names, neg) }
}
pub proof fn lemma_picked_prefix(pos: Seq<ColSetPart>, names: Names, no: Seq<ColSetPart>, k: int)
  requires 0 <= k <= pos.len(), picked(pos.subrange(0, k), names, no) is None,
  ensures picked(pos, names, no) is None,
  decreases pos.len() - k,
{ if k == pos.len() { assert(pos.subrange(0, k) =~= pos); } else { assert(pos.subrange(0, k + 1).drop_last() =~= pos.subrange(0, k)); lemma_picked_prefix(pos, names, no, k + 1); } }
#[verifier::opaque]
pub open spec fn has(h: Set<usize>, neg: Seq<ColSetPart>, names: Names, k: int) -> bool { forall|x: usize| h.contains(x) == #[trigger] out(neg, names, k, x as int) }
pub proof fn lemma_has(h: Set<usize>, neg: Seq<ColSetPart>, names: Names, x: usize) requires has(h, neg, names, neg.len() as int), ensures h.contains(x) == out(neg, names, neg.len() as int, x as int), { reveal(has); }
pub proof fn lemma_has_step(h0: Set<usize>, h: Set<usize>, vr: Seq<OutCol>, neg: Seq<ColSetPart>, names: Names, k: int)
  requires 0 <= k < neg.len(), has(h0, neg, names, k), part_cols(names, neg[k].val@) is Some, shows(vr, part_cols(names, neg[k].val@)->Some_0, before_colon(neg[k].val@)), adds(h0, h, vr, vr.len() as int),
  ensures has(h, neg, names, k + 1),
{
    reveal(has);
    let pc = part_cols(names, neg[k].val@)->Some_0;
    assert forall|x: usize| h.contains(x) == #[trigger] out(neg, names, k + 1, x as int) by {
        assert(h0.contains(x) == out(neg, names, k, x as int));
        if out(neg, names, k, x as int) { let i = choose|i: int| 0 <= i < k && part_has(names, (#[trigger] neg[i]).val@, x as int); assert(part_has(names, neg[i].val@, x as int)); }
        if exists|j: int| 0 <= j < vr.len() && (#[trigger] vr[j]).num == x { let j = choose|j: int| 0 <= j < vr.len() && (#[trigger] vr[j]).num == x; assert(pc[j] == x as int); assert(part_has(names, neg[k].val@, x as int)); }
        if out(neg, names, k + 1, x as int) { let i = choose|i: int| 0 <= i < k + 1 && part_has(names, (#[trigger] neg[i]).val@, x as int); if i < k { assert(part_has(names, neg[i].val@, x as int)); assert(out(neg, names, k, x as int)); } else { let j = choose|j: int| 0 <= j < pc.len() && pc[j] == x as int; assert(vr[j].num == x); } }
    }
}
/// the numbers of the first k output columns were added
pub open spec fn adds(h0: Set<usize>, h: Set<usize>, vr: Seq<OutCol>, k: int) -> bool { forall|x: usize| #[trigger] h.contains(x) == (h0.contains(x) || exists|j: int| 0 <= j < k && (#[trigger] vr[j]).num == x) }
pub proof fn lemma_adds(h0: Set<usize>, h: Set<usize>, vr: Seq<OutCol>, k: int)
  requires 0 <= k < vr.len(), adds(h0, h, vr, k),
  ensures adds(h0, h.insert(vr[k].num), vr, k + 1),
{
    let h1 = h.insert(vr[k].num);
    assert forall|x: usize| #[trigger] h1.contains(x) == (h0.contains(x) || exists|j: int| 0 <= j < k + 1 && (#[trigger] vr[j]).num == x) by {
        assert(h1.contains(x) == (h.contains(x) || x == vr[k].num));
        if x == vr[k].num { assert(vr[k].num == x); }
        if exists|j: int| 0 <= j < k + 1 && (#[trigger] vr[j]).num == x { let j = choose|j: int| 0 <= j < k + 1 && (#[trigger] vr[j]).num == x; if j < k { assert(h.contains(x)); } }
    }
}
pub proof fn lemma_keep(c: Seq<OutCol>, p: Seq<Col>, n: Seq<int>, name: Seq<char>, t: Option<usize>, neg: Seq<ColSetPart>, names: Names, c2: Seq<OutCol>)
  requires n.len() > 0, cols_are(c, p + keep(n.drop_last(), name, t, neg, names)),
    if out(neg, names, neg.len() as int, n.last()) { c2 == c } else { c2.len() == c.len() + 1 && c2.drop_last() == c && c2.last().num == n.last() && c2.last().name@ == name && c2.last().trans == t },
  ensures cols_are(c2, p + keep(n, name, t, neg, names)),
{ let k0 = keep(n.drop_last(), name, t, neg, names); let k1 = keep(n, name, t, neg, names);
  assert forall|i: int| 0 <= i < c2.len() implies (#[trigger] c2[i]).num == (p + k1)[i].num && c2[i].name@ == (p + k1)[i].name && c2[i].trans == (p + k1)[i].trans by { if i < c.len() { assert(c2[i] == c[i]); assert((p + k1)[i] == (p + k0)[i]); } } }
impl ColSetPart {
//@fn src/column.rs ColSetPart::new (r)
  ensures r.val@ == spec@, r.trans == trans,
//@sub /spec\.to_string\(\)/ => verif_to_string(spec)
//@end
}
impl OutCol {
//@fn src/column.rs OutCol::new (r)
  ensures r.num == num, r.name@ == name@, r.trans is None,
//@sub /name\.to_string\(\)/ => verif_to_string(name)
//@end
//@fn src/column.rs OutCol::from_num (r) noconst
  ensures r.num == num, r.name@.len() == 0, r.trans is None,
//@end
}
#[verifier::external_body]
pub fn verif_outcol(x: &OutCol) -> (r: OutCol) ensures r == *x { unimplemented!() }
/// these output columns are these column numbers, all with this name
pub open spec fn shows(v: Seq<OutCol>, n: Seq<int>, name: Seq<char>) -> bool { v.len() == n.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).num == n[i] && v[i].name@ == name && v[i].trans is None }
impl ColumnSet {
//@fn src/column.rs ColumnSet::lookup_col (r)
  ensures r is Ok == (find_name(views(fieldnames@), colname@) >= 0), r matches Ok(n) ==> n == find_name(views(fieldnames@), colname@),
//@sub /for f in fieldnames\.iter\(\)\.enumerate\(\) \{/ => for (f_0, f_1) in fieldnames.iter().enumerate() {
//@sub /f\.1 == &colname/ => verif_s_eq(f_1, colname)
//@sub /f\.0/ => f_0
//@start
  proof { assert(views(fieldnames@.subrange(0, 0)) =~= seq![]); }
//@loop 0 d
  invariant vi0 <= fieldnames@.len(), find_name(views(fieldnames@.subrange(0, vi0 as int)), colname@) < 0,
  decreases fieldnames@.len() - vi0,
//@loopstart 0
  proof { assert(views(fieldnames@.subrange(0, vi0 + 1)).drop_last() =~= views(fieldnames@.subrange(0, vi0 as int))); assert(views(fieldnames@).subrange(0, vi0 + 1) =~= views(fieldnames@.subrange(0, vi0 + 1))); if find_name(views(fieldnames@.subrange(0, vi0 + 1)), colname@) >= 0 { lemma_find_prefix(views(fieldnames@), colname@, vi0 + 1); } }
//@afterloop 0
  proof { assert(fieldnames@.subrange(0, fieldnames@.len() as int) =~= fieldnames@); }
//@end
//@fn src/column.rs ColumnSet::single (r)
  requires colname@.len() > 0,
  ensures r is Ok == one_col(views(fieldnames@), colname@) is Some, r matches Ok(n) ==> one_col(views(fieldnames@), colname@) == Some(n as int) && n < usize::MAX,
//@start
  let vnum = fieldnames.len(); proof { lemma_find_len(views(fieldnames@), colname@); }
//@sub /colname\.strip_prefix\('\+'\)/ => verif_strip(colname, '+')
//@sub /stripped\.to_usize_whole\(colname\.as_bytes\(\), "column"\)/ => verif_to_usize_whole(stripped)
//@sub /colname\.to_usize_whole\(colname\.as_bytes\(\), "column"\)/ => verif_to_usize_whole(colname)
//@sub /colname\.first\(\)/ => verif_s_first(colname)
//@sub /ch\.is_ascii_digit\(\)/ => verif_char_digit(ch)
//@end
//@fn src/column.rs ColumnSet::match_range (r)
  ensures r is Ok == pattern_ok(rng@), r matches Ok(v) ==> v@.map_values(|x: usize| x as int) == matching(views(fieldnames@), rng@),
//@sub /MatchMaker::make\(rng\)/ => verif_make_matcher(rng)
//@sub /for f in fieldnames\.iter\(\)\.enumerate\(\) \{/ => for (f_0, f_1) in fieldnames.iter().enumerate() {
//@sub /f\.1/ => f_1
//@sub /f\.0/ => f_0
//@sub /Vec::new\(\)/ => Vec::<usize>::new()
//@start
  proof { assert(views(fieldnames@.subrange(0, 0)) =~= seq![]); }
//@beforeloop 0
  proof { assert(ret@.map_values(|x: usize| x as int) =~= seq![]); }
//@loop 0 d
  invariant vi0 <= fieldnames@.len(), c.pat() == rng@, ret@.map_values(|x: usize| x as int) == matching(views(fieldnames@.subrange(0, vi0 as int)), rng@),
  decreases fieldnames@.len() - vi0,
//@loopstart 0
  let ghost r0 = ret@;
  proof { assert(views(fieldnames@.subrange(0, vi0 + 1)).drop_last() =~= views(fieldnames@.subrange(0, vi0 as int))); assert(r0.push(vi0).map_values(|x: usize| x as int) =~= r0.map_values(|x: usize| x as int).push(vi0 as int)); }
//@afterloop 0
  proof { assert(fieldnames@.subrange(0, fieldnames@.len() as int) =~= fieldnames@); }
//@end
//@fn src/column.rs ColumnSet::to_outcols (r)
  ensures shows(r@, data@.map_values(|x: usize| x as int), name@),
//@sub /Vec::with_capacity\(data\.len\(\)\)/ => Vec::new()
//@sub /for x in data \{/ => for x in data.iter() {
//@loop 0 d
  invariant vi0 <= data@.len(), shows(ret@, data@.subrange(0, vi0 as int).map_values(|x: usize| x as int), name@),
  decreases data@.len() - vi0,
//@afterloop 0
  proof { assert(data@.subrange(0, data@.len() as int) =~= data@); }
//@end
//@fn src/column.rs ColumnSet::add_one
  ensures final(self).columns == old(self).columns, final(self).trans == old(self).trans, final(self).did_lookup == old(self).did_lookup,
    ({ let no = s@.len() > 0 && s@[0] == '~'; let v = if no { s@.skip(1) } else { s@ };
      if no != negate { final(self).pos == old(self).pos && pushed(final(self).neg@, old(self).neg@, v, trans) } else { final(self).neg == old(self).neg && pushed(final(self).pos@, old(self).pos@, v, trans) } }),
//@sub /s\.strip_prefix\('~'\)/ => verif_strip(s, '~')
//@end
#[verifier::loop_isolation(false)]
#[verifier::rlimit(80)]
#[verifier::spinoff_prover]
//@fn src/column.rs ColumnSet::lookup (r)
  ensures final(self).pos == old(self).pos, final(self).neg == old(self).neg, final(self).trans == old(self).trans, final(self).did_lookup,
    r is Ok == wanted(old(self).pos@, old(self).neg@, views(fieldnames@)) is Some, r is Ok ==> cols_are(final(self).columns@, wanted(old(self).pos@, old(self).neg@, views(fieldnames@))->Some_0),
//@start
  let ghost names = views(fieldnames@); let ghost neg = self.neg@; let ghost pos = self.pos@; let vnum = fieldnames.len();
//@sub /for x in Self::range\(fieldnames, &s\.val\)\? \{/ => let vr = Self::range(fieldnames, verif_as_str(&s.val))?; for x in vr.iter() {
//@sub /for mut x in Self::range\(fieldnames, &s\.val\)\? \{/ => let vr = Self::range(fieldnames, verif_as_str(&s.val))?; for x0 in vr.iter() { let mut x = verif_outcol(x0);
//@beforeloop 0
  proof { reveal(has); }
//@loop 0 d
  invariant vi0 <= neg.len(), self.pos == old(self).pos, self.neg == old(self).neg, neg == self.neg@, pos == self.pos@, self.trans == old(self).trans, self.did_lookup, self.columns@.len() == 0, names == views(fieldnames@), neg_ok(neg, names, vi0 as int), has(no_cols@, neg, names, vi0 as int),
  decreases neg.len() - vi0,
//@loopstart 0
  let ghost h0 = no_cols@; let ghost k0 = vi0 as int;
//@loop 1 d
  invariant vi1 <= vr@.len(), adds(h0, no_cols@, vr@, vi1 as int),
  decreases vr@.len() - vi1,
//@loopstart 1
  proof { lemma_adds(h0, no_cols@, vr@, vi1 as int); }
//@loopend 0
  proof { lemma_has_step(h0, no_cols@, vr@, neg, names, k0); }
//@loop 2 f
  invariant self.pos == old(self).pos, self.neg == old(self).neg, self.trans == old(self).trans, self.did_lookup, neg == self.neg@, pos == self.pos@, vnum == fieldnames@.len(), neg_ok(neg, names, neg.len() as int), has(no_cols@, neg, names, neg.len() as int), cols_are(self.columns@, Seq::<Col>::empty() + keep(upto_n(0, x - 1), seq![], None, neg, names)),
//@beforeloop 2
  proof { assert(upto_n(0, -1) =~= seq![]); assert(Seq::<Col>::empty() + keep(seq![], seq![], None, neg, names) =~= seq![]); }
//@loopstart 2
  let ghost c0 = self.columns@; proof { lemma_has(no_cols@, neg, names, x); assert(upto_n(0, x as int).drop_last() =~= upto_n(0, x - 1)); }
//@loopend 2
  proof { if self.columns@.len() > c0.len() { assert(self.columns@.drop_last() =~= c0); assert(self.columns@.last().name@ =~= seq![]); } lemma_keep(c0, seq![], upto_n(0, x as int), seq![], None, neg, names, self.columns@); }
//@afterloop 2
  proof { let k = keep(upto_n(0, names.len() - 1), seq![], None, neg, names); assert(Seq::<Col>::empty() + k =~= k); }
//@loop 3 d
  invariant vi3 <= pos.len(), self.pos == old(self).pos, self.neg == old(self).neg, self.trans == old(self).trans, self.did_lookup, neg == self.neg@, pos == self.pos@, has(no_cols@, neg, names, neg.len() as int), names == views(fieldnames@), picked(pos.subrange(0, vi3 as int), names, neg) is Some, cols_are(self.columns@, picked(pos.subrange(0, vi3 as int), names, neg)->Some_0),
  decreases pos.len() - vi3,
//@beforeloop 3
  proof { assert(pos.subrange(0, 0) =~= seq![]); }
//@loopstart 3
  let ghost pg = pos.subrange(0, vi3 + 1); let ghost c0 = picked(pos.subrange(0, vi3 as int), names, neg)->Some_0;
  proof { assert(pg.drop_last() =~= pos.subrange(0, vi3 as int)); if picked(pg, names, neg) is None { lemma_picked_prefix(pos, names, neg, vi3 + 1); } }
//@beforeloop 4
  let ghost pc = part_cols(names, s.val@)->Some_0; proof { assert(pc.subrange(0, 0) =~= seq![]); assert(c0 + keep(seq![], before_colon(s.val@), s.trans, neg, names) =~= c0); }
//@loop 4 d
  invariant vi4 <= vr@.len(), self.pos == old(self).pos, self.neg == old(self).neg, self.trans == old(self).trans, self.did_lookup, cols_are(self.columns@, c0 + keep(pc.subrange(0, vi4 as int), before_colon(s.val@), s.trans, neg, names)),
  decreases vr@.len() - vi4,
//@loopstart 4
  let ghost c1 = self.columns@;
  proof { lemma_has(no_cols@, neg, names, vr@[vi4 as int].num); assert(pc.subrange(0, vi4 + 1).drop_last() =~= pc.subrange(0, vi4 as int)); }
//@loopend 4
  proof { if self.columns@.len() > c1.len() { assert(self.columns@.drop_last() =~= c1); } lemma_keep(c1, c0, pc.subrange(0, vi4 as int), before_colon(s.val@), s.trans, neg, names, self.columns@); }
//@loopend 3
  proof { assert(pc.subrange(0, pc.len() as int) =~= pc); }
//@afterloop 3
  proof { assert(pos.subrange(0, pos.len() as int) =~= pos); }
//@end
//@fn src/column.rs ColumnSet::range (r)
  ensures r is Ok == part_cols(views(fieldnames@), rng@) is Some, r matches Ok(v) ==> shows(v@, part_cols(views(fieldnames@), rng@)->Some_0, before_colon(rng@)),
//@sub /rng\.is_empty\(\)/ => verif_s_empty(rng)
//@sub /rng\.split_once\(':'\)/ => verif_split_once(rng, ':')
//@sub /range\.is_empty\(\)/ => verif_s_empty(range)
//@sub /range\.first\(\)/ => verif_s_first(range)
//@sub /range\.ends_with\('\)'\)/ => verif_ends_with(range, ')')
//@sub /&range\[1\.\.range\.len\(\) - 1\]/ => verif_inner(range)
//@sub /range\.split\('-'\)\.collect\(\)/ => verif_s_split(range, '-')
//@sub /parts\[(\d)\]\.is_empty\(\)/ => verif_s_empty(parts[\1])
//@sub /for i in start\.\.=end \{/ => for i in start..end + 1 {
//@sub /"1";/ => "1"; proof { reveal_strlit("1"); assert(parts@[0]@ =~= seq!['1']); }
//@sub /"\+1";/ => "+1"; proof { reveal_strlit("+1"); assert(parts@[1]@ =~= seq!['+', '1']); }
//@start
  proof { reveal_strlit(""); assert(""@ =~= seq![]); lemma_spieces_len(after_colon(rng@), '-'); }
//@beforeloop 0
  proof { assert(upto_n(start as int, end as int).subrange(0, 0) =~= seq![]); }
//@loop 0 f
  invariant start <= end < usize::MAX, shows(res@, upto_n(start as int, end as int).subrange(0, i - start), name@),
//@afterloop 0
  proof { let u = upto_n(start as int, end as int); assert(u.subrange(0, u.len() as int) =~= u); assert(name@ =~= before_colon(rng@)); }
//@end
}
pub proof fn lemma_find_len(names: Names, s: Seq<char>) ensures find_name(names, s) < names.len(), decreases names.len(), { if names.len() > 0 { lemma_find_len(names.drop_last(), s); } }
pub proof fn lemma_find_prefix(names: Names, s: Seq<char>, k: int)
  requires 0 <= k <= names.len(), find_name(names.subrange(0, k), s) >= 0,
  ensures find_name(names, s) == find_name(names.subrange(0, k), s),
  decreases names.len() - k,
{ if k == names.len() { assert(names.subrange(0, k) =~= names); } else { assert(names.subrange(0, k + 1).drop_last() =~= names.subrange(0, k)); lemma_find_prefix(names, s, k + 1); } }
/// everything but the first and the last byte, which are parentheses
#[verifier::external_body]
pub fn verif_inner(s: &str) -> (r: &str) requires s@.len() >= 2, ensures r@ == s@.subrange(1, s@.len() - 1) { unimplemented!() }

// ---- reading a specification ----
/// after k bytes, how many more were opened than closed
pub open spec fn dep(b: Seq<u8>, o: u8, c: u8, k: int) -> int decreases k { if k <= 0 { 0 } else { dep(b, o, c, k - 1) + (if b[k - 1] == o { 1int } else if b[k - 1] == c { -1 } else { 0 }) } }
pub open spec fn first_zero(b: Seq<u8>, o: u8, c: u8, k: int) -> Option<int> decreases b.len() - k + 1 { if k > b.len() { None } else if dep(b, o, c, k) == 0 { Some(k) } else { first_zero(b, o, c, k + 1) } }
pub open spec fn closer_of(c: u8) -> Option<u8> { if c == 40 { Some(41u8) } else if c == 123 { Some(125u8) } else if c == 91 { Some(93u8) } else if c == 60 { Some(62u8) } else { None } }
/// up to and including the bracket that closes the one the text starts with
pub open spec fn close_len(b: Seq<u8>) -> Option<int> { if b.len() == 0 || closer_of(b[0]) is None { None } else { first_zero(b, b[0], closer_of(b[0]).unwrap(), 1) } }
//@fn src/util.rs closer (r)
  ensures r is Ok == closer_of(ch) is Some, r matches Ok(x) ==> closer_of(ch) == Some(x),
//@end
#[verifier::loop_isolation(false)]
//@fn src/util.rs find_close (r)
  requires utf8(spec@).len() < 0x7fff_ffff,
  ensures r is Ok == close_len(utf8(spec@)) is Some, r matches Ok(x) ==> close_len(utf8(spec@)) == Some(x as int),
//@sub /spec\.is_empty\(\)/ => verif_s_empty(spec)
//@sub /spec\.as_bytes\(\)/ => verif_bytes(spec)
//@sub /let mut depth = 0;/ => let mut depth: i32 = 0;
//@start
  let ghost b = utf8(spec@);
  proof { axiom_utf8(spec@); if spec@.len() > 0 { lemma_bpos(spec@, 0, spec@.len() as int); } }
//@loop 0 d
  invariant vi0 <= b.len(), depth == dep(b, open, close, vi0 as int), depth <= vi0, depth >= 0 - vi0, vi0 > 0 ==> close_len(b) == first_zero(b, open, close, vi0 + 1),
  decreases b.len() - vi0
//@end
/// in a text that starts with (, the bracket found is a ) further on, and a place where the text can be cut
pub proof fn lemma_paren(s: Seq<char>)
  requires s.len() > 0, s[0] == '(',
  ensures close_len(utf8(s)) matches Some(n) ==> bnd(s, n) && 2 <= chr(s, n) <= s.len() && bpos(s, chr(s, n)) == n && s[chr(s, n) - 1] == ')',
{
    axiom_utf8(s); assert(bpos(s, 1) == 1) by { assert(bpos(s, 0) == 0); } lemma_chr(s, 1); lemma_bpos(s, 0, s.len() as int);
    let b = utf8(s); assert(b[bpos(s, 0)] == 40);
    if close_len(b) is Some {
        let n = close_len(b).unwrap(); let o = 40u8; let c = 41u8;
        assert(dep(b, o, c, 0) == 0); assert(dep(b, o, c, 1) == 1);
        lemma_close2(b, 1);
        assert(b[n - 1] == 41);
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] bpos(s, i) == n - 1 && s[i] as int == b[n - 1] as int;
        assert(s[i] == ')'); assert(bpos(s, i + 1) == n);
        lemma_chr(s, i); lemma_chr(s, i + 1);
        if i == 0 { assert(s[0] == ')'); }
    }
}
pub proof fn lemma_close2(b: Seq<u8>, k: int)
  requires 1 <= k, dep(b, 40u8, 41u8, k) > 0 || k > b.len(),
  ensures first_zero(b, 40u8, 41u8, k) matches Some(n) ==> k < n <= b.len() && b[n - 1] == 41,
  decreases b.len() - k + 1
{ if k <= b.len() { if k + 1 <= b.len() { if dep(b, 40u8, 41u8, k + 1) > 0 { lemma_close2(b, k + 1); } else { assert(dep(b, 40u8, 41u8, k + 1) == 0); assert(first_zero(b, 40u8, 41u8, k + 1) == Some(k + 1)); } assert(first_zero(b, 40u8, 41u8, k) == first_zero(b, 40u8, 41u8, k + 1)); } else { assert(first_zero(b, 40u8, 41u8, k + 1) is None); } } }
/// the bytes of the rest
pub proof fn lemma_bpos_skip(s: Seq<char>, p: int, k: int) requires 0 <= p, 0 <= k, p + k <= s.len(), ensures bpos(s, p + k) == bpos(s, p) + bpos(s.skip(p), k), decreases k, { if k > 0 { lemma_bpos_skip(s, p, k - 1); assert(s.skip(p)[k - 1] == s[p + k - 1]); } }
pub proof fn lemma_ulen(s: Seq<char>) ensures utf8(s).len() == bpos(s, s.len() as int) { axiom_utf8(s); }
pub proof fn lemma_skip_len(s: Seq<char>, p: int) requires 0 <= p <= s.len(), ensures utf8(s.skip(p)).len() <= utf8(s).len(), { lemma_ulen(s); lemma_ulen(s.skip(p)); lemma_bpos_skip(s, p, s.len() - p); lemma_bpos(s, 0, p); }
/// the first ( or ,
pub open spec fn first_mark(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { -1 } else if s[0] == '(' || s[0] == ',' { 0 } else { let n = first_mark(s.skip(1)); if n < 0 { n } else { n + 1 } } }
pub proof fn lemma_mark(s: Seq<char>) ensures first_mark(s) < s.len(), first_mark(s) >= 0 ==> s[first_mark(s)] == '(' || s[first_mark(s)] == ',', decreases s.len(), { if s.len() > 0 { lemma_mark(s.skip(1)); } }
pub proof fn lemma_index(s: Seq<char>, c: char) ensures index_of(s, c) < s.len(), index_of(s, c) >= 0 ==> s[index_of(s, c)] == c, decreases s.len(), { if s.len() > 0 { lemma_index(s.skip(1), c); } }
/// s.find(['(', ',']): the byte where it is
#[verifier::external_body]
pub fn verif_find_mark(s: &str) -> (r: Option<usize>) ensures r is Some == (first_mark(s@) >= 0), r matches Some(b) ==> b == bpos(s@, first_mark(s@)) { s.find(['(', ',']) }
#[verifier::external_body]
pub fn verif_find_char(s: &str, c: char) -> (r: Option<usize>) ensures r is Some == (index_of(s@, c) >= 0), r matches Some(b) ==> b == bpos(s@, index_of(s@, c)) { s.find(c) }
#[verifier::external_body]
pub fn verif_starts_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
#[verifier::external_body]
pub fn verif_split_at(s: &str, b: usize) -> (r: (&str, &str)) requires bnd(s@, b as int), ensures forall|i: int| 0 <= i <= s@.len() && #[trigger] bpos(s@, i) == b ==> r.0@ == s@.subrange(0, i) && r.1@ == s@.skip(i) { s.split_at(b) }
/// a part ends at the next comma; if it is a (matcher), perhaps after ~ or Name:, where that is closed
pub open spec fn part_n(s: Seq<char>) -> Option<int> {
    let p = first_mark(s);
    if p < 0 { Some(s.len() as int) } else if s[p] == ',' { Some(p) }
    else if p == 0 || s[p - 1] == '~' || s[p - 1] == ':' { match close_len(utf8(s.skip(p))) { Some(n) => Some(p + chr(s.skip(p), n)), None => None } }
    else if index_of(s, ',') >= 0 { Some(index_of(s, ',')) } else { Some(s.len() as int) }
}
/// the parts of a list, if it is one
pub open spec fn parts_of(s: Seq<char>) -> Option<Seq<Seq<char>>> decreases s.len() {
    match part_n(s) {
        None => None,
        Some(n) => if n < 0 || n > s.len() { None } else if n == s.len() { Some(seq![s]) } else if s[n] != ',' { None } else { match parts_of(s.skip(n + 1)) { None => None, Some(v) => Some(seq![s.subrange(0, n)] + v) } }
    }
}
/// where the + of +transformation is: a plus sign before a letter, two in a row not counting
pub uninterp spec fn letter(c: char) -> bool;
#[verifier::external_body]
pub fn verif_letter(c: char) -> (r: bool) ensures r == letter(c) { c.is_alphabetic() }
pub open spec fn trans_at(s: Seq<char>, i: int, plus: bool) -> Option<int> decreases s.len() - i {
    if i < 0 || i >= s.len() { None } else if plus { if letter(s[i]) { Some(i - 1) } else { trans_at(s, i + 1, false) } } else { trans_at(s, i + 1, s[i] == '+') }
}
#[verifier::external_body]
pub fn verif_char_indices(s: &str) -> (r: Vec<(usize, char)>) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> (#[trigger] r@[i]).0 == bpos(s@, i) && r@[i].1 == s@[i], bpos(s@, s@.len() as int) <= isize::MAX { s.char_indices().collect() }
pub uninterp spec fn trans_ok(s: Seq<char>) -> bool;
impl TransList {
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: Result<TransList>) ensures r is Ok == trans_ok(s@) { unimplemented!() }
}
/// what is put into the set: text and transformation
pub open spec fn vals(v: Seq<ColSetPart>) -> Seq<(Seq<char>, Option<usize>)> { Seq::new(v.len(), |i: int| (v[i].val@, v[i].trans)) }
pub open spec fn tilde(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '~' }
pub open spec fn bare(s: Seq<char>) -> Seq<char> { if tilde(s) { s.skip(1) } else { s } }
/// those of the parts that start with ~ (or not), in order
pub open spec fn sel(p: Seq<Seq<char>>, no: bool, t: Option<usize>) -> Seq<(Seq<char>, Option<usize>)> decreases p.len() { if p.len() == 0 { seq![] } else { let r = sel(p.drop_last(), no, t); if tilde(p.last()) == no { r.push((bare(p.last()), t)) } else { r } } }
/// the list proper, without +transformation
pub open spec fn list_text(s: Seq<char>) -> Seq<char> { match trans_at(s, 0, false) { Some(k) => s.subrange(0, k), None => s } }
/// which of the set's transformations it is
pub open spec fn list_trans(s: Seq<char>, n: int) -> Option<usize> { match trans_at(s, 0, false) { Some(k) => Some(n as usize), None => None } }
pub open spec fn well_formed(s: Seq<char>) -> bool { parts_of(list_text(s)) is Some && (trans_at(s, 0, false) matches Some(k) ==> trans_ok(s.skip(k + 1))) }
pub open spec fn added(a: ColumnSet, b: ColumnSet, s: Seq<char>, negate: bool) -> bool {
    let p = parts_of(list_text(s))->Some_0; let t = list_trans(s, a.trans@.len() as int);
    vals(b.pos@) == vals(a.pos@) + sel(p, negate, t) && vals(b.neg@) == vals(a.neg@) + sel(p, !negate, t)
}
pub proof fn lemma_sel(d: Seq<Seq<char>>, x: Seq<char>, no: bool, t: Option<usize>) ensures sel(d.push(x), no, t) == (if tilde(x) == no { sel(d, no, t).push((bare(x), t)) } else { sel(d, no, t) }), { assert(d.push(x).drop_last() =~= d); }
pub proof fn lemma_trans_at(s: Seq<char>, i: int, plus: bool) requires 0 <= i, plus ==> i > 0 && s[i - 1] == '+', ensures trans_at(s, i, plus) matches Some(k) ==> 0 <= k < s.len() && s[k] == '+' && k + 1 < s.len(), decreases s.len() - i, { if i < s.len() { if !plus || !letter(s[i]) { lemma_trans_at(s, i + 1, !plus && s[i] == '+'); } } }
#[verifier::external_body]
pub fn verif_no_columns() -> (r: ColumnSet) ensures r.pos@.len() == 0, r.neg@.len() == 0, r.trans@.len() == 0, r.columns@.len() == 0, !r.did_lookup { unimplemented!() }
impl ColumnSet {
//@fn src/column.rs ColumnSet::part_len (r)
  requires utf8(spec@).len() < 0x7fff_ffff,
  ensures r is Ok == part_n(spec@) is Some, r matches Ok(x) ==> 0 <= part_n(spec@)->Some_0 <= spec@.len() && x == bpos(spec@, part_n(spec@)->Some_0),
//@sub /spec\.find\(\['\(', ','\]\)/ => verif_find_mark(spec)
//@sub /spec\[pos\.\.\]\.starts_with\('\('\)/ => verif_starts_char(verif_from(spec, pos), '(')
//@sub /spec\[0?\.\.pos\]\.ends_with\(\['~', ':'\]\)/ => (verif_ends_with(verif_upto(spec, pos), '~') || verif_ends_with(verif_upto(spec, pos), ':'))
//@sub /&spec\[pos\.\.\]/ => verif_from(spec, pos)
//@sub /spec\.find\(','\)/ => verif_find_char(spec, ',')
//@sub /spec\.len\(\)/ => verif_blen(spec)
//@start
  let ghost s = spec@; let ghost p = first_mark(s);
  proof { axiom_utf8(s); lemma_mark(s); lemma_index(s, ','); if p >= 0 { lemma_chr(s, p); lemma_bpos(s, 0, p); lemma_bpos(s, p, s.len() as int); lemma_skip_len(s, p); if p > 0 { lemma_bpos(s, 0, p); assert(s.subrange(0, p).last() == s[p - 1]); } if s[p] == '(' { lemma_paren(s.skip(p)); if close_len(utf8(s.skip(p))) is Some { let n = chr(s.skip(p), close_len(utf8(s.skip(p))).unwrap()); lemma_bpos_skip(s, p, n); lemma_bpos(s, 0, p + n); lemma_bpos(s, p + n, s.len() as int); } } } }
//@end
//@fn src/column.rs ColumnSet::find_trans (r)
  ensures r is Some == trans_at(spec@, 0, false) is Some, r matches Some((a, b)) ==> a@ == spec@.subrange(0, trans_at(spec@, 0, false)->Some_0) && b@ == spec@.skip(trans_at(spec@, 0, false)->Some_0 + 1),
//@sub /for \(i, x\) in spec\.char_indices\(\) \{/ => let vcs = verif_char_indices(spec); for vp in vcs.iter() { let i = vp.0; let x = vp.1;
//@sub /x\.is_alphabetic\(\)/ => verif_letter(x)
//@sub /&spec\[0?\.\.i - 1\]/ => verif_upto(spec, i - 1)
//@sub /&spec\[i\.\.\]/ => verif_from(spec, i)
//@loop 0 d
  invariant vi0 <= vcs@.len(), vcs@.len() == spec@.len(), forall|i: int| 0 <= i < spec@.len() ==> (#[trigger] vcs@[i]).0 == bpos(spec@, i) && vcs@[i].1 == spec@[i], last_was_plus ==> vi0 > 0 && spec@[vi0 - 1] == '+', trans_at(spec@, 0, false) == trans_at(spec@, vi0 as int, last_was_plus),
  decreases vcs@.len() - vi0
//@loopstart 0
  proof { lemma_chr(spec@, vi0 as int); if vi0 > 0 { lemma_chr(spec@, vi0 - 1); if last_was_plus { assert(bpos(spec@, vi0 as int) == bpos(spec@, vi0 - 1) + 1); lemma_bpos(spec@, 0, vi0 - 1); } } }
//@end
#[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@fn src/column.rs ColumnSet::add (r)
  requires utf8(spec@).len() < 0x7fff_ffff, old(self).trans@.len() < usize::MAX,
  ensures final(self).columns == old(self).columns, final(self).did_lookup == old(self).did_lookup, r is Ok == well_formed(spec@), r is Ok ==> added(*old(self), *final(self), spec@, negate),
    r is Ok && trans_at(spec@, 0, false) is None ==> final(self).trans == old(self).trans,
//@sub /spc\.split_at\((Self::part_len\(spc\)\?)\)/ => { let vl = \1; proof { lemma_chr(spc@, part_n(spc@)->Some_0); } verif_split_at(spc, vl) }
//@sub /rest\.is_empty\(\)/ => verif_s_empty(rest)
//@sub /rest\.strip_prefix\(','\)/ => verif_strip(rest, ',')
//@start
  let ghost a0 = *self; let ghost lt = list_text(spec@); proof { lemma_trans_at(spec@, 0, false); if trans_at(spec@, 0, false) is Some { let k = trans_at(spec@, 0, false)->Some_0; lemma_upto_len(spec@, k); } }
//@beforeloop 0
  let ghost mut done: Seq<Seq<char>> = seq![]; proof { assert(spc@ =~= lt); assert(trans == list_trans(spec@, a0.trans@.len() as int)); assert(vals(self.pos@) =~= vals(a0.pos@) + sel(done, negate, trans)); assert(vals(self.neg@) =~= vals(a0.neg@) + sel(done, !negate, trans)); if parts_of(lt) is Some { assert(done + parts_of(spc@)->Some_0 =~= parts_of(lt)->Some_0); } }
//@loop 0 l
  invariant_except_break parts_of(lt) is Some == parts_of(spc@) is Some, parts_of(lt) is Some ==> parts_of(lt)->Some_0 == done + parts_of(spc@)->Some_0, vals(self.pos@) =~= vals(a0.pos@) + sel(done, negate, trans), vals(self.neg@) =~= vals(a0.neg@) + sel(done, !negate, trans),
  invariant a0 == *old(self), utf8(spc@).len() < 0x7fff_ffff, self.columns == a0.columns, self.did_lookup == a0.did_lookup, trans == list_trans(spec@, a0.trans@.len() as int), trans is None ==> self.trans == a0.trans, lt == list_text(spec@), trans_at(spec@, 0, false) matches Some(k) ==> trans_ok(spec@.skip(k + 1)),
  ensures parts_of(lt) is Some, vals(self.pos@) == vals(a0.pos@) + sel(parts_of(lt)->Some_0, negate, trans), vals(self.neg@) == vals(a0.neg@) + sel(parts_of(lt)->Some_0, !negate, trans),
  decreases spc@.len()
//@loopstart 0
  let ghost s0 = spc@; let ghost vp0 = vals(self.pos@); let ghost vn0 = vals(self.neg@); let ghost d0 = done;
//@after /self\.add_one\([^;]*\);/
  proof { let n = part_n(s0)->Some_0; lemma_sel(d0, part@, negate, trans); lemma_sel(d0, part@, !negate, trans); done = d0.push(part@); assert(vals(self.pos@) =~= (if tilde(part@) == negate { vp0.push((bare(part@), trans)) } else { vp0 })); assert(vals(self.neg@) =~= (if tilde(part@) != negate { vn0.push((bare(part@), trans)) } else { vn0 })); assert(vals(self.pos@) =~= vals(a0.pos@) + sel(done, negate, trans)); assert(vals(self.neg@) =~= vals(a0.neg@) + sel(done, !negate, trans)); assert(part@ == s0.subrange(0, n)); assert(rest@ == s0.skip(n)); if n == s0.len() { assert(s0.subrange(0, n) =~= s0); if parts_of(lt) is Some { assert(done =~= parts_of(lt)->Some_0); } } else { assert(rest@[0] == s0[n]); assert(s0.skip(n).skip(1) =~= s0.skip(n + 1)); lemma_skip_len(s0, n + 1); if parts_of(s0) is Some { assert(done + parts_of(s0.skip(n + 1))->Some_0 =~= d0 + parts_of(s0)->Some_0); } } }
//@end
//@fn src/column.rs ColumnSet::add_yes (r)
  requires utf8(spec@).len() < 0x7fff_ffff, old(self).trans@.len() < usize::MAX,
  ensures final(self).columns == old(self).columns, final(self).did_lookup == old(self).did_lookup, r is Ok == well_formed(spec@), r is Ok ==> added(*old(self), *final(self), spec@, false),
//@end
//@fn src/column.rs ColumnSet::add_no (r)
  requires utf8(spec@).len() < 0x7fff_ffff, old(self).trans@.len() < usize::MAX,
  ensures final(self).columns == old(self).columns, final(self).did_lookup == old(self).did_lookup, r is Ok == well_formed(spec@), r is Ok ==> added(*old(self), *final(self), spec@, true),
//@end
//@fn src/column.rs ColumnSet::new (r)
  ensures r.pos@.len() == 0, r.neg@.len() == 0, r.trans@.len() == 0,
//@sub /Self::default\(\)/ => verif_no_columns()
//@end
//@fn src/column.rs ColumnSet::from_spec (r)
  requires utf8(spec@).len() < 0x7fff_ffff,
  ensures r is Ok == well_formed(spec@), r matches Ok(c) ==> means(c, spec@),
//@sub /Self::default\(\)/ => verif_no_columns()
//@start
  proof { lemma_means(spec@); }
//@end
/// the columns, in the order of the specification
//@fn src/column.rs ColumnSet::lookup_cols (r)
  requires utf8(spec@).len() < 0x7fff_ffff,
  ensures r matches Ok(v) ==> exists|c: ColumnSet| means(c, spec@) && #[trigger] wanted(c.pos@, c.neg@, views(names@)) is Some && v@.map_values(|x: usize| x as int) =~= wanted(c.pos@, c.neg@, views(names@))->Some_0.map_values(|x: Col| x.num),
//@start
  proof { lemma_means(spec@); }
//@sub /Ok\(s\.get_cols_num\(\)\)/ => proof { assert(means(s, spec@)); } Ok(s.get_cols_num())
//@end
//@fn src/column.rs ColumnSet::lookup_cols_full (r)
  requires utf8(spec@).len() < 0x7fff_ffff,
  ensures r matches Ok(v) ==> exists|c: ColumnSet| means(c, spec@) && #[trigger] wanted(c.pos@, c.neg@, views(names@)) is Some && cols_are(v@, wanted(c.pos@, c.neg@, views(names@))->Some_0),
//@start
  proof { lemma_means(spec@); }
//@sub /Ok\(s\.get_cols_full\(\)\)/ => proof { assert(means(s, spec@)); } Ok(s.get_cols_full())
//@end
/// a single column
//@fn src/column.rs ColumnSet::lookup1 (r)
  requires utf8(spec@).len() < 0x7fff_ffff,
  ensures r matches Ok(v) ==> exists|c: ColumnSet| means(c, spec@) && #[trigger] wanted(c.pos@, c.neg@, views(names@)) is Some && wanted(c.pos@, c.neg@, views(names@))->Some_0.len() == 1 && wanted(c.pos@, c.neg@, views(names@))->Some_0[0].num == v,
//@start
  proof { lemma_means(spec@); }
//@sub /Ok\(s\.get_cols_num\(\)\[0\]\)/ => proof { assert(means(s, spec@)); } let vn = s.get_cols_num(); proof { let g = vn@.map_values(|x: usize| x as int); assert(g[0] == vn@[0]); assert(g[0] == s.columns@.map_values(|x: OutCol| x.num as int)[0]); } Ok(vn[0])
//@end
}
/// the set holds what the specification asks for
pub open spec fn means(c: ColumnSet, s: Seq<char>) -> bool { well_formed(s) && vals(c.pos@) == sel(parts_of(list_text(s))->Some_0, false, list_trans(s, 0)) && vals(c.neg@) == sel(parts_of(list_text(s))->Some_0, true, list_trans(s, 0)) }
pub proof fn lemma_means(s: Seq<char>) ensures forall|a: ColumnSet, b: ColumnSet| a.pos@.len() == 0 && a.neg@.len() == 0 && a.trans@.len() == 0 && well_formed(s) && #[trigger] added(a, b, s, false) ==> means(b, s),
{ assert forall|a: ColumnSet, b: ColumnSet| a.pos@.len() == 0 && a.neg@.len() == 0 && a.trans@.len() == 0 && well_formed(s) && #[trigger] added(a, b, s, false) implies means(b, s) by { let p = parts_of(list_text(s))->Some_0; let t = list_trans(s, 0); assert(vals(a.pos@) + sel(p, false, t) =~= sel(p, false, t)); assert(vals(a.neg@) + sel(p, true, t) =~= sel(p, true, t)); } }
pub proof fn lemma_upto_len(s: Seq<char>, k: int) requires 0 <= k <= s.len(), ensures utf8(s.subrange(0, k)).len() <= utf8(s).len(), { lemma_ulen(s); lemma_ulen(s.subrange(0, k)); lemma_bpos_upto(s, k, k); lemma_bpos(s, k, s.len() as int); }
pub proof fn lemma_bpos_upto(s: Seq<char>, k: int, i: int) requires 0 <= i <= k <= s.len(), ensures bpos(s.subrange(0, k), i) == bpos(s, i), decreases i, { if i > 0 { lemma_bpos_upto(s, k, i - 1); } }

// ---- writing the selected columns ----
pub enum CdxError { NeedLookup }
#[verifier::external_body]
pub fn cdx_err<T>(e: CdxError) -> (r: Result<T>) ensures r is Err { unimplemented!() }
pub struct StringLine { x: u8 }
pub uninterp spec fn sl_col(t: StringLine, n: int) -> Seq<u8>;
#[verifier::external_body]
pub fn verif_sl_bytes(t: &StringLine, n: usize) -> (r: &[u8]) ensures r@ == sl_col(*t, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn verif_tl_index(t: &TextLine, n: usize) -> (r: &[u8]) ensures r@ == tl_col(*t, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn verif_clone<T: Clone>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
pub fn verif_first<T>(v: &Vec<T>) -> (r: Option<&T>) ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r == Some(&v@[0]), { if v.len() == 0 { None } else { Some(&v[0]) } }
pub fn verif_rest<T>(v: &Vec<T>) -> (r: &[T]) ensures r@ == if v@.len() > 0 { v@.skip(1) } else { seq![] }, { if v.len() == 0 { vstd::slice::slice_subrange(v.as_slice(), 0, 0) } else { let r = vstd::slice::slice_subrange(v.as_slice(), 1, v.len()); proof { assert(r@ =~= v@.skip(1)); } r } }
/// the texts one after the other, with the delimiter between them
pub open spec fn row(t: Seq<Seq<u8>>, d: Seq<u8>) -> Seq<u8> decreases t.len() { if t.len() == 0 { seq![] } else if t.len() == 1 { t[0] } else { row(t.drop_last(), d) + d + t.last() } }
pub open spec fn texts(c: Seq<OutCol>, f: spec_fn(int) -> Seq<u8>) -> Seq<Seq<u8>> { Seq::new(c.len(), |i: int| f(c[i].num as int)) }
pub proof fn lemma_row(c: Seq<OutCol>, f: spec_fn(int) -> Seq<u8>, d: Seq<u8>, k: int)
  requires 0 < k < c.len(),
  ensures row(texts(c.subrange(0, k + 1), f), d) == row(texts(c.subrange(0, k), f), d) + d + f(c[k].num as int),
{ assert(texts(c.subrange(0, k + 1), f).drop_last() =~= texts(c.subrange(0, k), f)); }
pub uninterp spec fn shown(t: TextFileMode, b: Seq<u8>) -> Seq<u8>;
impl TextFileMode {
    #[verifier::external_body]
    pub fn write(&self, w: &mut dyn Write, b: &[u8]) -> (r: Result<()>) ensures r is Ok ==> final(w).out() == old(w).out() + shown(*self, b@) { unimplemented!() }
}
pub uninterp spec fn tr(id: int, b: Seq<u8>, line: TextLine) -> Seq<u8>;
impl TransList {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn trans<'a>(&'a mut self, b: &'a [u8], l: &'a TextLine) -> (r: Result<&'a [u8]>) ensures final(self).id() == old(self).id(), r matches Ok(x) ==> x@ == tr(old(self).id(), b@, *l), { unimplemented!() }
}
pub open spec fn ids(v: Seq<TransList>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i].id()) }
pub open spec fn value(c: OutCol, t: Seq<int>, line: TextLine) -> Seq<u8> { match c.trans { None => tl_col(line, c.num as int), Some(i) => tr(t[i as int], tl_col(line, c.num as int), line) } }
pub open spec fn values(c: Seq<OutCol>, t: Seq<int>, line: TextLine, m: TextFileMode) -> Seq<Seq<u8>> { Seq::new(c.len(), |i: int| shown(m, value(c[i], t, line))) }
pub proof fn lemma_values(c: Seq<OutCol>, t: Seq<int>, line: TextLine, m: TextFileMode, d: Seq<u8>, k: int)
  requires 0 < k < c.len(),
  ensures row(values(c.subrange(0, k + 1), t, line, m), d) == row(values(c.subrange(0, k), t, line, m), d) + d + shown(m, value(c[k], t, line)),
{ assert(values(c.subrange(0, k + 1), t, line, m).drop_last() =~= values(c.subrange(0, k), t, line, m)); }
impl ColumnSet {
//@fn src/column.rs ColumnSet::select (r)
  ensures r is Ok == (self.did_lookup && forall|i: int| 0 <= i < self.columns@.len() ==> (#[trigger] self.columns@[i]).num < cols@.len()),
    r is Ok ==> final(result)@.len() == self.columns@.len() && forall|i: int| 0 <= i < self.columns@.len() ==> #[trigger] final(result)@[i] == cols@[self.columns@[i].num as int],
//@sigsub /AsRef<str> \+ Clone/ => Clone
//@sub /cols\[x\.num\]\.clone\(\)/ => verif_clone(&cols[x.num])
//@loop 0 d
  invariant vi0 <= self.columns@.len(), result@.len() == vi0, self.did_lookup, forall|i: int| 0 <= i < vi0 ==> (#[trigger] self.columns@[i]).num < cols@.len() && result@[i] == cols@[self.columns@[i].num as int],
  decreases self.columns@.len() - vi0,
//@end
//@fn src/column.rs ColumnSet::select_sloppy (r)
  ensures r is Ok == self.did_lookup,
    r is Ok ==> final(result)@.len() == self.columns@.len() && forall|i: int| 0 <= i < self.columns@.len() ==> #[trigger] final(result)@[i] == if self.columns@[i].num < cols@.len() { cols@[self.columns@[i].num as int] } else { *restval },
//@sigsub /AsRef<str> \+ Clone/ => Clone
//@sub /cols\[x\.num\]\.clone\(\)/ => verif_clone(&cols[x.num])
//@sub /restval\.clone\(\)/ => verif_clone(restval)
//@loop 0 d
  invariant vi0 <= self.columns@.len(), result@.len() == vi0, self.did_lookup, forall|i: int| 0 <= i < vi0 ==> #[trigger] result@[i] == if self.columns@[i].num < cols@.len() { cols@[self.columns@[i].num as int] } else { *restval },
  decreases self.columns@.len() - vi0,
//@end
//@fn src/column.rs ColumnSet::write2 (r)
  ensures r is Ok ==> self.did_lookup && final(w).out() == old(w).out() + row(texts(self.columns@, |n: int| tl_col(*cols, n)), seq![delim]) + seq![10u8],
//@sub /let mut iter = self\.columns\.iter\(\);/ => let vrest = verif_rest(&self.columns); let ghost c = self.columns@; let ghost f = |n: int| tl_col(*cols, n); let ghost d = seq![delim]; proof { assert(old(w).out() + row(texts(c, f), d) =~= old(w).out() + row(texts(c, f), d)); assert(old(w).out() + Seq::<u8>::empty() =~= old(w).out()); }
//@sub /iter\.next\(\)/ => verif_first(&self.columns)
//@sub /for x in iter \{/ => for x in vrest.iter() {
//@sub /&cols\[first\.num\]/ => verif_tl_index(cols, first.num)
//@beforeloop 0
  proof { assert(texts(c.subrange(0, 1), f)[0] == f(c[0].num as int)); }
//@loop 0 d
  invariant vi0 <= vrest@.len(), vrest@ == c.skip(1), c == self.columns@, c.len() > 0, f == (|n: int| tl_col(*cols, n)), d == seq![delim], w.out() =~= old(w).out() + row(texts(c.subrange(0, vi0 + 1), f), d),
  decreases vrest@.len() - vi0,
//@loopstart 0
  proof { lemma_row(c, f, d, vi0 + 1); }
//@afterloop 0
  proof { assert(c.subrange(0, c.len() as int) =~= c); }
//@end
//@fn src/column.rs ColumnSet::write3s (r)
  ensures r is Ok ==> self.did_lookup && final(w).out() == old(w).out() + row(texts(self.columns@, |n: int| sl_col(*cols, n)), seq![delim]),
//@sub /let mut iter = self\.columns\.iter\(\);/ => let vrest = verif_rest(&self.columns); let ghost c = self.columns@; let ghost f = |n: int| sl_col(*cols, n); let ghost d = seq![delim]; proof { assert(old(w).out() + Seq::<u8>::empty() =~= old(w).out()); }
//@sub /iter\.next\(\)/ => verif_first(&self.columns)
//@sub /for x in iter \{/ => for x in vrest.iter() {
//@sub /cols\.get\((first|x)\.num\)\.as_bytes\(\)/ => verif_sl_bytes(cols, \1.num)
//@beforeloop 0
  proof { assert(texts(c.subrange(0, 1), f)[0] == f(c[0].num as int)); }
//@loop 0 d
  invariant vi0 <= vrest@.len(), vrest@ == c.skip(1), c == self.columns@, c.len() > 0, f == (|n: int| sl_col(*cols, n)), d == seq![delim], w.out() =~= old(w).out() + row(texts(c.subrange(0, vi0 + 1), f), d),
  decreases vrest@.len() - vi0,
//@loopstart 0
  proof { lemma_row(c, f, d, vi0 + 1); }
//@afterloop 0
  proof { assert(c.subrange(0, c.len() as int) =~= c); }
//@end
//@fn src/column.rs ColumnSet::fetch (r)
  requires col < old(self).columns@.len(), old(self).columns@[col as int].trans matches Some(t) ==> t < old(self).trans@.len(),
  ensures final(self).columns == old(self).columns, final(self).pos == old(self).pos, final(self).neg == old(self).neg, final(self).did_lookup == old(self).did_lookup, ids(final(self).trans@) =~= ids(old(self).trans@),
    r matches Ok(x) ==> x@ == value(old(self).columns@[col as int], ids(old(self).trans@), *cols),
//@end
//@fn src/column.rs ColumnSet::write3 (r)
  requires forall|i: int| 0 <= i < old(self).columns@.len() ==> ((#[trigger] old(self).columns@[i]).trans matches Some(t) ==> t < old(self).trans@.len()),
  ensures final(self).columns == old(self).columns, final(self).pos == old(self).pos, final(self).neg == old(self).neg, ids(final(self).trans@) == ids(old(self).trans@), r is Ok ==> old(self).did_lookup && final(w).out() == old(w).out() + row(values(old(self).columns@, ids(old(self).trans@), *cols, *text), seq![text.delim]),
//@start
  let vnum = self.columns.len(); let ghost c = self.columns@; let ghost t = ids(self.trans@); let ghost d = seq![text.delim]; proof { assert(old(w).out() + Seq::<u8>::empty() =~= old(w).out()); }
//@sub /for i in 1\.\.self\.columns\.len\(\)/ => for i in 1..vnum
//@beforeloop 0
  proof { assert(values(c.subrange(0, 1), t, *cols, *text)[0] == shown(*text, value(c[0], t, *cols))); }
//@loop 0 f
  invariant vnum == c.len(), c == self.columns@, self.columns == old(self).columns, self.pos == old(self).pos, self.neg == old(self).neg, old(self).did_lookup, t == ids(old(self).trans@), t =~= ids(self.trans@), c.len() > 0, d == seq![text.delim], forall|j: int| 0 <= j < c.len() ==> ((#[trigger] c[j]).trans matches Some(x) ==> x < t.len()),
    w.out() =~= old(w).out() + row(values(c.subrange(0, i as int), t, *cols, *text), d),
//@loopstart 0
  proof { lemma_values(c, t, *cols, *text, d, i as int); assert(ids(self.trans@).len() == self.trans@.len()); }
//@afterloop 0
  proof { assert(c.subrange(0, c.len() as int) =~= c); }
//@end
//@fn src/column.rs ColumnSet::get_cols_num (r)
  ensures r@.map_values(|x: usize| x as int) =~= self.columns@.map_values(|x: OutCol| x.num as int),
//@sub /Vec::with_capacity\(self\.columns\.len\(\)\)/ => Vec::<usize>::new()
//@loop 0 d
  invariant vi0 <= self.columns@.len(), v@.len() == vi0, forall|i: int| 0 <= i < vi0 ==> #[trigger] v@[i] == self.columns@[i].num,
  decreases self.columns@.len() - vi0,
//@end
//@fn src/column.rs ColumnSet::get_cols (r) noconst
  ensures *r == self.columns,
//@end
//@fn src/column.rs ColumnSet::get_cols_full (r)
  ensures r == self.columns,
//@end
//@fn src/column.rs ColumnSet::is_empty (r)
  ensures r == (self.pos@.len() == 0 && self.neg@.len() == 0),
//@end
}

// ---- cut: every line's columns, file after file ----
/// what a part of the command line asks for
pub ghost enum Asked { Cols { pos: Seq<ColSetPart>, neg: Seq<ColSetPart>, t: Seq<int> }, Clump { name: Seq<char>, m: TextFileMode, inner: Box<Asked> }, Other { name: Seq<char>, id: int } }
/// what that is for the columns of one file
pub ghost enum Part { Cols { c: Seq<OutCol>, t: Seq<int> }, Clump { name: Seq<char>, m: TextFileMode, inner: Box<Part> }, Other { name: Seq<char>, id: int, names: Names } }
/// the text of an expression's value
pub uninterp spec fn expr_text(id: int, names: Names, line: TextLine) -> Seq<u8>;
pub open spec fn show(p: Part, line: TextLine, m: TextFileMode) -> Seq<u8> decreases p {
    match p { Part::Cols { c, t } => row(values(c, t, line, m), seq![m.delim]), Part::Clump { m: m2, inner, .. } => show(*inner, line, m2), Part::Other { id, names, .. } => expr_text(id, names, line) }
}
pub open spec fn none(p: Part) -> bool { p matches Part::Cols { c, .. } && c.len() == 0 }
pub open spec fn part_ok(p: Part) -> bool decreases p { match p { Part::Cols { c, t } => forall|i: int| 0 <= i < c.len() ==> ((#[trigger] c[i]).trans matches Some(x) ==> x < t.len()), Part::Clump { inner, .. } => part_ok(*inner), _ => true } }
pub open spec fn asked_ok(a: Asked) -> bool decreases a { match a { Asked::Cols { pos, t, .. } => forall|i: int| 0 <= i < pos.len() ==> ((#[trigger] pos[i]).trans matches Some(x) ==> x < t.len()), Asked::Clump { inner, .. } => asked_ok(*inner), _ => true } }
/// p is what a is for columns of these names
pub open spec fn resolves(a: Asked, names: Names, p: Part) -> bool decreases a {
    match (a, p) {
        (Asked::Cols { pos, neg, t }, Part::Cols { c, t: t2 }) => t == t2 && wanted(pos, neg, names) is Some && cols_are(c, wanted(pos, neg, names)->Some_0),
        (Asked::Clump { name, m, inner }, Part::Clump { name: n2, m: m2, inner: i2 }) => name == n2 && m == m2 && resolves(*inner, names, *i2),
        (Asked::Other { name, id }, Part::Other { name: n2, id: i2, names: ns }) => name == n2 && id == i2 && names == ns,
        _ => false,
    }
}
// the same by meaning, without naming p
pub open spec fn col_values(c: Seq<Col>, t: Seq<int>, line: TextLine, m: TextFileMode) -> Seq<Seq<u8>> { Seq::new(c.len(), |i: int| shown(m, match c[i].trans { None => tl_col(line, c[i].num), Some(k) => tr(t[k as int], tl_col(line, c[i].num), line) })) }
/// what is written for a line: the wanted columns' text, in their order
pub open spec fn text_of(a: Asked, names: Names, line: TextLine, m: TextFileMode) -> Seq<u8> decreases a {
    match a { Asked::Cols { pos, neg, t } => row(col_values(wanted(pos, neg, names)->Some_0, t, line, m), seq![m.delim]), Asked::Clump { m: m2, inner, .. } => text_of(*inner, names, line, m2), Asked::Other { id, .. } => expr_text(id, names, line) }
}
pub open spec fn nothing(a: Asked, names: Names) -> bool { a matches Asked::Cols { pos, neg, .. } && wanted(pos, neg, names)->Some_0.len() == 0 }
/// the names it gives its columns: as specified, else those in the file
pub open spec fn col_names(c: Seq<OutCol>, head: StringLine) -> Seq<Seq<char>> { Seq::new(c.len(), |i: int| if c[i].name@.len() > 0 { c[i].name@ } else { sl_name(head, c[i].num as int) }) }
pub open spec fn names_shown(p: Part, head: StringLine) -> Seq<Seq<char>> { match p { Part::Cols { c, .. } => col_names(c, head), Part::Clump { name, .. } => seq![name], Part::Other { name, .. } => seq![name] } }
pub open spec fn names_asked(a: Asked, names: Names, head: StringLine) -> Seq<Seq<char>> {
    match a { Asked::Cols { pos, neg, .. } => ({ let c = wanted(pos, neg, names)->Some_0; Seq::new(c.len(), |i: int| if c[i].name.len() > 0 { c[i].name } else { sl_name(head, c[i].num) }) }), Asked::Clump { name, .. } => seq![name], Asked::Other { name, .. } => seq![name] }
}
pub uninterp spec fn sl_name(t: StringLine, n: int) -> Seq<char>;
#[verifier::external_body]
pub fn verif_sl_name(t: &StringLine, n: usize) -> (r: &str) ensures r@ == sl_name(*t, n as int) { unimplemented!() }
pub proof fn lemma_resolved(a: Asked, names: Names, p: Part, line: TextLine, m: TextFileMode, head: StringLine)
  requires resolves(a, names, p),
  ensures show(p, line, m) == text_of(a, names, line, m), none(p) == nothing(a, names), names_shown(p, head) == names_asked(a, names, head),
  decreases a,
{
    match (a, p) {
        (Asked::Cols { pos, neg, t }, Part::Cols { c, t: t2 }) => { let w = wanted(pos, neg, names)->Some_0; assert(values(c, t, line, m) =~= col_values(w, t, line, m)); assert(names_shown(p, head) =~= names_asked(a, names, head)); }
        (Asked::Clump { name, m: m2, inner }, Part::Clump { name: n2, m: m3, inner: i2 }) => { lemma_resolved(*inner, names, *i2, line, m2, head); }
        _ => {}
    }
}
pub proof fn lemma_keep_trans(n: Seq<int>, name: Seq<char>, t: Option<usize>, neg: Seq<ColSetPart>, names: Names) ensures forall|i: int| 0 <= i < keep(n, name, t, neg, names).len() ==> (#[trigger] keep(n, name, t, neg, names)[i]).trans == t decreases n.len() { if n.len() > 0 { lemma_keep_trans(n.drop_last(), name, t, neg, names); } }
pub proof fn lemma_picked_trans(pos: Seq<ColSetPart>, names: Names, neg: Seq<ColSetPart>, k: int)
  requires forall|i: int| 0 <= i < pos.len() ==> ((#[trigger] pos[i]).trans matches Some(x) ==> x < k), picked(pos, names, neg) is Some,
  ensures forall|i: int| 0 <= i < picked(pos, names, neg)->Some_0.len() ==> ((#[trigger] picked(pos, names, neg)->Some_0[i]).trans matches Some(x) ==> x < k),
  decreases pos.len(),
{ if pos.len() > 0 { let l = pos.last(); assert(l == pos[pos.len() - 1]); assert forall|i: int| 0 <= i < pos.drop_last().len() implies ((#[trigger] pos.drop_last()[i]).trans matches Some(x) ==> x < k) by { assert(pos.drop_last()[i] == pos[i]); } lemma_picked_trans(pos.drop_last(), names, neg, k); lemma_keep_trans(part_cols(names, l.val@)->Some_0, before_colon(l.val@), l.trans, neg, names); } }
pub proof fn lemma_part_ok(a: Asked, names: Names, p: Part) requires asked_ok(a), resolves(a, names, p), ensures part_ok(p) decreases a {
    match (a, p) {
        (Asked::Cols { pos, neg, t }, Part::Cols { c, t: t2 }) => { lemma_keep_trans(upto_n(0, names.len() - 1), seq![], None, neg, names); if pos.len() > 0 { lemma_picked_trans(pos, names, neg, t.len() as int); } }
        (Asked::Clump { name, m: m2, inner }, Part::Clump { name: n2, m: m3, inner: i2 }) => { lemma_part_ok(*inner, names, *i2); }
        _ => {}
    }
}
/// the output header (C20): the names it was given, in order
#[verifier::external_body]
pub struct ColumnHeader { x: u8 }
impl ColumnHeader {
    pub uninterp spec fn given(&self) -> Seq<Seq<char>>;
    pub uninterp spec fn policy(&self) -> int;
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).given() == Seq::<Seq<char>>::empty(), final(self).policy() == old(self).policy() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, name: &str) -> (r: Result<()>) ensures final(self).policy() == old(self).policy(), r is Ok ==> final(self).given() == old(self).given().push(name@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_head(&self, text: &TextFileMode) -> (r: String) ensures r@ == head_text(self.policy(), self.given(), *text) { unimplemented!() }
}
pub uninterp spec fn head_text(policy: int, given: Seq<Seq<char>>, text: TextFileMode) -> Seq<char>;
pub trait ColumnFun {
    spec fn asked(&self) -> Asked;
    spec fn part(&self) -> Part;
    fn add_names(&self, w: &mut ColumnHeader, head: &StringLine) -> (r: Result<()>)
      ensures final(w).policy() == old(w).policy(), r is Ok ==> final(w).given() == old(w).given() + names_shown(self.part(), *head);
    fn write(&mut self, w: &mut dyn Write, line: &TextLine, text: &TextFileMode) -> (r: Result<()>)
      requires part_ok(old(self).part()), ensures final(self).asked() == old(self).asked(), final(self).part() == old(self).part(), r is Ok ==> final(w).out() == old(w).out() + show(old(self).part(), *line, *text);
    fn lookup(&mut self, fieldnames: &[&str]) -> (r: Result<()>)
      ensures final(self).asked() == old(self).asked(), r is Ok ==> resolves(old(self).asked(), views(fieldnames@), final(self).part());
    fn is_empty(&self) -> (r: bool) ensures r == none(self.part());
}
//@item src/column.rs struct ReaderColumns
impl ColumnFun for ReaderColumns {
    open spec fn asked(&self) -> Asked { Asked::Cols { pos: self.columns.pos@, neg: self.columns.neg@, t: ids(self.columns.trans@) } }
    open spec fn part(&self) -> Part { Part::Cols { c: self.columns.columns@, t: ids(self.columns.trans@) } }
//@fn src/column.rs <ReaderColumns as ColumnFun>::write (r)
//@start
  proof { assert(ids(self.columns.trans@).len() == self.columns.trans@.len()); }
//@end
//@fn src/column.rs <ReaderColumns as ColumnFun>::add_names (r)
//@sub /x\.name\.is_empty\(\)/ => verif_s_empty(verif_as_str(&x.name))
//@sub /head\.get\(x\.num\)/ => verif_sl_name(head, x.num)
//@sub /&x\.name\b(?!\))/ => verif_as_str(&x.name)
//@start
  let ghost g0 = w.given(); proof { assert(g0 + col_names(self.columns.columns@.subrange(0, 0), *head) =~= g0); }
//@loop 0 d
  invariant vi0 <= vs0@.len(), vs0@ == self.columns.columns@, w.policy() == old(w).policy(), w.given() =~= g0 + col_names(self.columns.columns@.subrange(0, vi0 as int), *head),
  decreases vs0@.len() - vi0,
//@afterloop 0
  proof { assert(self.columns.columns@.subrange(0, self.columns.columns@.len() as int) =~= self.columns.columns@); assert(self.part() == Part::Cols { c: self.columns.columns@, t: ids(self.columns.trans@) }); assert(names_shown(self.part(), *head) == col_names(self.columns.columns@, *head)); assert(w.given() =~= g0 + names_shown(self.part(), *head)); }
//@end
//@fn src/column.rs <ReaderColumns as ColumnFun>::lookup (r)
//@end
//@fn src/column.rs <ReaderColumns as ColumnFun>::is_empty (r)
//@end
}
//@item src/column.rs struct ColumnClump
impl ColumnFun for ColumnClump {
    open spec fn asked(&self) -> Asked { Asked::Clump { name: self.name@, m: self.text, inner: Box::new(self.cols.asked()) } }
    open spec fn part(&self) -> Part { Part::Clump { name: self.name@, m: self.text, inner: Box::new(self.cols.part()) } }
//@fn src/column.rs <ColumnClump as ColumnFun>::write (r)
//@end
//@fn src/column.rs <ColumnClump as ColumnFun>::add_names (r)
//@sub /&self\.name/ => verif_as_str(&self.name)
//@end
//@fn src/column.rs <ColumnClump as ColumnFun>::lookup (r)
//@end
//@fn src/column.rs trait ColumnFun::is_empty (r)
//@end
}
/// an expression (C14): its value depends on the columns' names and the line
#[verifier::external_body]
pub struct Expr { x: u8 }
impl Expr {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn at(&self) -> Names;
    #[verifier::external_body]
    pub fn lookup(&mut self, names: &[&str]) -> (r: Result<()>) ensures final(self).id() == old(self).id(), r is Ok ==> final(self).at() == views(names@) { unimplemented!() }
}
/// write!(w, "{}", e.eval(line))
#[verifier::external_body]
pub fn verif_write_expr(w: &mut dyn Write, e: &mut Expr, line: &TextLine) -> (r: Result<()>) ensures final(e).id() == old(e).id(), final(e).at() == old(e).at(), r is Ok ==> final(w).out() == old(w).out() + expr_text(old(e).id(), old(e).at(), *line) { unimplemented!() }
//@item src/column.rs struct ColumnExpr
impl ColumnFun for ColumnExpr {
    open spec fn asked(&self) -> Asked { Asked::Other { name: self.name@, id: self.expr.id() } }
    open spec fn part(&self) -> Part { Part::Other { name: self.name@, id: self.expr.id(), names: self.expr.at() } }
//@fn src/column.rs <ColumnExpr as ColumnFun>::write (r)
//@sub /write!\(w, "\{\}", self\.expr\.eval\(line\)\)/ => verif_write_expr(w, &mut self.expr, line)
//@end
//@fn src/column.rs <ColumnExpr as ColumnFun>::add_names (r)
//@sub /&self\.name/ => verif_as_str(&self.name)
//@end
//@fn src/column.rs <ColumnExpr as ColumnFun>::lookup (r)
//@end
//@fn src/column.rs trait ColumnFun::is_empty (r)
//@end
}
/// the texts of the parts that write something
pub open spec fn pieces(p: Seq<Part>, line: TextLine, m: TextFileMode) -> Seq<Seq<u8>> decreases p.len() { if p.len() == 0 { seq![] } else if none(p.last()) { pieces(p.drop_last(), line, m) } else { pieces(p.drop_last(), line, m).push(show(p.last(), line, m)) } }
pub open spec fn all_names(p: Seq<Part>, head: StringLine) -> Seq<Seq<char>> decreases p.len() { if p.len() == 0 { seq![] } else { all_names(p.drop_last(), head) + names_shown(p.last(), head) } }
/// the same by meaning
pub open spec fn pieces_of(a: Seq<Asked>, names: Names, line: TextLine, m: TextFileMode) -> Seq<Seq<u8>> decreases a.len() { if a.len() == 0 { seq![] } else if nothing(a.last(), names) { pieces_of(a.drop_last(), names, line, m) } else { pieces_of(a.drop_last(), names, line, m).push(text_of(a.last(), names, line, m)) } }
pub open spec fn names_of(a: Seq<Asked>, names: Names, head: StringLine) -> Seq<Seq<char>> decreases a.len() { if a.len() == 0 { seq![] } else { names_of(a.drop_last(), names, head) + names_asked(a.last(), names, head) } }
#[verifier::opaque]
pub open spec fn resolved(a: Seq<Asked>, names: Names, p: Seq<Part>) -> bool { a.len() == p.len() && forall|i: int| 0 <= i < a.len() ==> resolves(#[trigger] a[i], names, p[i]) }
#[verifier::opaque]
pub open spec fn parts_ok(p: Seq<Part>) -> bool { forall|i: int| 0 <= i < p.len() ==> part_ok(#[trigger] p[i]) }
#[verifier::opaque]
pub open spec fn all_asked_ok(a: Seq<Asked>) -> bool { forall|i: int| 0 <= i < a.len() ==> asked_ok(#[trigger] a[i]) }
pub proof fn lemma_pieces(a: Seq<Asked>, names: Names, p: Seq<Part>, line: TextLine, m: TextFileMode, head: StringLine)
  requires resolved(a, names, p),
  ensures pieces(p, line, m) == pieces_of(a, names, line, m), all_names(p, head) == names_of(a, names, head),
  decreases a.len(),
{
    reveal(resolved);
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.drop_last().len() implies resolves(#[trigger] a.drop_last()[i], names, p.drop_last()[i]) by { assert(a.drop_last()[i] == a[i]); }
        assert(a.last() == a[a.len() - 1]);
        lemma_pieces(a.drop_last(), names, p.drop_last(), line, m, head);
        lemma_resolved(a.last(), names, p.last(), line, m, head);
    }
}
//@item src/column.rs struct Writer
impl Writer {
    pub open spec fn asked(&self) -> Seq<Asked> { Seq::new(self.v@.len(), |i: int| self.v@[i].asked()) }
    pub open spec fn parts(&self) -> Seq<Part> { Seq::new(self.v@.len(), |i: int| self.v@[i].part()) }
//@fn src/column.rs Writer::lookup (r)
  ensures final(self).asked() == old(self).asked(), final(self).text == old(self).text, r is Ok ==> resolved(old(self).asked(), views(fieldnames@), final(self).parts()),
//@start
  proof { reveal(resolved); }
//@loop 0 d
  invariant vi0 <= self.v@.len(), self.v@.len() == old(self).v@.len(), self.text == old(self).text, self.asked() =~= old(self).asked(), forall|i: int| 0 <= i < vi0 ==> resolves(#[trigger] self.asked()[i], views(fieldnames@), self.parts()[i]),
  decreases self.v@.len() - vi0,
//@loopstart 0
  let ghost v0 = *self; let ghost k0 = vi0 as int; let ghost names = views(fieldnames@);
//@loopend 0
  proof { assert forall|i: int| 0 <= i < vi0 implies resolves(#[trigger] self.asked()[i], names, self.parts()[i]) by { if i < k0 { assert(resolves(v0.asked()[i], names, v0.parts()[i])); assert(self.v@[i] == v0.v@[i]); } else { assert(self.asked()[k0] == self.v@[k0].asked()); assert(self.parts()[k0] == self.v@[k0].part()); assert(resolves(v0.v@[k0].asked(), names, self.v@[k0].part())); } } }
//@end
//@fn src/column.rs Writer::add_names (r)
  ensures final(w).policy() == old(w).policy(), r is Ok ==> final(w).given() == old(w).given() + all_names(self.parts(), *head),
//@start
  let ghost g0 = w.given(); let ghost p = self.parts(); proof { assert(g0 + all_names(p.subrange(0, 0), *head) =~= g0); }
//@loop 0 d
  invariant vi0 <= self.v@.len(), p == self.parts(), w.policy() == old(w).policy(), w.given() =~= g0 + all_names(p.subrange(0, vi0 as int), *head),
  decreases self.v@.len() - vi0,
//@loopend 0
  proof { assert(p.subrange(0, vi0 as int).drop_last() =~= p.subrange(0, vi0 - 1)); assert(p.subrange(0, vi0 as int).last() == p[vi0 - 1]); }
//@afterloop 0
  proof { assert(p.subrange(0, p.len() as int) =~= p); }
//@end
//@fn src/column.rs Writer::write (r)
  requires parts_ok(old(self).parts()),
  ensures final(self).asked() == old(self).asked(), final(self).parts() == old(self).parts(), final(self).text == old(self).text, r is Ok ==> final(w).out() == old(w).out() + row(pieces(old(self).parts(), *line, old(self).text), seq![old(self).text.delim]) + seq![10u8],
//@start
  proof { reveal(parts_ok); } let ghost p = self.parts(); let ghost o0 = w.out(); let ghost d = seq![self.text.delim]; proof { assert(o0 + row(pieces(p.subrange(0, 0), *line, self.text), d) =~= o0); }
//@loop 0 d
  invariant vi0 <= self.v@.len(), self.v@.len() == p.len(), p =~= self.parts(), p == old(self).parts(), parts_ok(p), self.text == old(self).text, self.asked() =~= old(self).asked(), d == seq![self.text.delim], need_delim == (pieces(p.subrange(0, vi0 as int), *line, self.text).len() > 0), w.out() =~= o0 + row(pieces(p.subrange(0, vi0 as int), *line, self.text), d),
  decreases self.v@.len() - vi0,
//@loopstart 0
  let ghost k = vi0 as int; proof { assert(p.subrange(0, k + 1).drop_last() =~= p.subrange(0, k)); assert(p.subrange(0, k + 1).last() == p[k]); reveal(parts_ok); assert(part_ok(p[k])); let y = pieces(p.subrange(0, k), *line, self.text); assert(y.push(show(p[k], *line, self.text)).drop_last() =~= y); }
//@afterloop 0
  proof { assert(p.subrange(0, p.len() as int) =~= p); }
//@end
}
/// a file: whether it has no line at all, its columns' names, its header, whether that is in the file, and its data lines
pub ghost struct CFile { pub empty: bool, pub names: Names, pub head: StringLine, pub has: bool, pub lines: Seq<TextLine> }
pub uninterp spec fn cfile_of(name: Seq<char>) -> CFile;
#[verifier::external_body]
pub struct Reader { x: u8 }
impl Reader {
    pub uninterp spec fn file(&self) -> CFile;
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    pub fn new() -> (r: Reader) { unimplemented!() }
    #[verifier::external_body]
    pub fn open(&mut self, name: &str) -> (r: Result<()>) ensures r is Ok ==> final(self).file() == cfile_of(name@) && final(self).at() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == self.file().empty { unimplemented!() }
    #[verifier::external_body]
    pub fn names(&self) -> (r: Vec<&str>) ensures views(r@) == self.file().names { unimplemented!() }
    #[verifier::external_body]
    pub fn header(&self) -> (r: &StringLine) ensures *r == self.file().head { unimplemented!() }
    #[verifier::external_body]
    pub fn has_header(&self) -> (r: bool) ensures r == self.file().has { unimplemented!() }
    #[verifier::external_body]
    pub fn is_done(&self) -> (r: bool) ensures r == (self.at() >= self.file().lines.len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn curr(&self) -> (r: &TextLine) requires 0 <= self.at() < self.file().lines.len(), ensures *r == self.file().lines[self.at()] { unimplemented!() }
    #[verifier::external_body]
    pub fn getline(&mut self) -> (r: Result<bool>) requires old(self).at() < old(self).file().lines.len(), ensures final(self).file() == old(self).file(), r matches Ok(b) ==> final(self).at() == old(self).at() + 1 && b == (final(self).at() == final(self).file().lines.len()) { unimplemented!() }
}
/// the header rule over several files (C09): whether this header is written, and what it goes on from
#[verifier::external_body]
pub struct HeaderChecker { x: u8 }
pub uninterp spec fn hc_writes(st: int, h: Seq<u8>) -> bool;
pub uninterp spec fn hc_after(st: int, h: Seq<u8>) -> int;
impl HeaderChecker {
    pub uninterp spec fn st(&self) -> int;
    #[verifier::external_body]
    pub fn check_header(&mut self, header: &[u8], fname: &str) -> (r: Result<bool>) ensures r matches Ok(b) ==> b == hc_writes(old(self).st(), header@) && final(self).st() == hc_after(old(self).st(), header@) { unimplemented!() }
}
#[verifier::external_body]
pub fn verif_sbytes(s: &String) -> (r: &[u8]) ensures r@ == (if s@.len() == 0 { seq![] } else { utf8(s@) }) { unimplemented!() }
#[verifier::external_body]
pub fn verif_no_string() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
pub open spec fn enc(s: Seq<char>) -> Seq<u8> { if s.len() == 0 { seq![] } else { utf8(s) } }
/// the header for a file: its columns' names under the renaming rules (C20)
pub open spec fn cut_head(a: Seq<Asked>, policy: int, f: CFile, m: TextFileMode) -> Seq<u8> { if f.has { enc(head_text(policy, names_of(a, f.names, f.head), m)) } else { seq![] } }
/// the first n lines: for each the wanted columns, in the order asked for
pub open spec fn cut_lines(a: Seq<Asked>, f: CFile, m: TextFileMode, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else { cut_lines(a, f, m, n - 1) + row(pieces_of(a, f.names, f.lines[n - 1], m), seq![m.delim]) + seq![10u8] } }
pub open spec fn cut_file(a: Seq<Asked>, policy: int, st: int, f: CFile, m: TextFileMode, hm: TextFileMode) -> Seq<u8> {
    let h = cut_head(a, policy, f, hm);
    if f.empty { seq![] } else { (if hc_writes(st, h) { h } else { seq![] }) + cut_lines(a, f, m, f.lines.len() as int) }
}
pub open spec fn cut_st(a: Seq<Asked>, policy: int, st: int, fs: Seq<String>, hm: TextFileMode, k: int) -> int decreases k { if k <= 0 { st } else { let f = cfile_of(fs[k - 1]@); let s = cut_st(a, policy, st, fs, hm, k - 1); if f.empty { s } else { hc_after(s, cut_head(a, policy, f, hm)) } } }
/// what cut writes for the first k files
pub open spec fn cut_all(a: Seq<Asked>, policy: int, st: int, fs: Seq<String>, m: TextFileMode, hm: TextFileMode, k: int) -> Seq<u8> decreases k { if k <= 0 { seq![] } else { cut_all(a, policy, st, fs, m, hm, k - 1) + cut_file(a, policy, cut_st(a, policy, st, fs, hm, k - 1), cfile_of(fs[k - 1]@), m, hm) } }
pub proof fn lemma_parts_ok(a: Seq<Asked>, names: Names, p: Seq<Part>) requires all_asked_ok(a), resolved(a, names, p), ensures parts_ok(p) { reveal(resolved); reveal(parts_ok); reveal(all_asked_ok); assert forall|i: int| 0 <= i < p.len() implies part_ok(#[trigger] p[i]) by { assert(asked_ok(a[i])); lemma_part_ok(a[i], names, p[i]); } }
/// the file loop of cdx cut
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@fn src/bin/cdx/cut_main.rs main (r)
  requires all_asked_ok(old(v).asked()),
  ensures r is Ok ==> final(w).out() == old(w).out() + cut_all(old(v).asked(), old(header).policy(), old(checker).st(), files@, old(v).text, text_out, files@.len() as int),
//@from /let mut not_header = String::new\(\);/
//@sig fn cut_files(v: &mut Writer, header: &mut ColumnHeader, checker: &mut HeaderChecker, text_out: TextFileMode, files: Vec<String>, w: &mut dyn Write) -> Result<()>
//@sub /String::new\(\)/ => verif_no_string()
//@sub /not_header\.clear\(\)/ => not_header = verif_no_string()
//@sub /Reader::new\(&settings\.text_in\)/ => Reader::new()
//@sub /&settings\.text_out\(\)/ => &text_out
//@sub /settings\.checker/ => checker
//@sub /not_header\.as_bytes\(\)/ => verif_sbytes(&not_header)
//@sub /&mut header\b/ => header
//@sub /&mut w\.0/ => w
//@start
  let ghost a = v.asked(); let ghost pol = header.policy(); let ghost st0 = checker.st(); let ghost o0 = w.out(); let ghost m = v.text; proof { assert(o0 + cut_all(a, pol, st0, files@, m, text_out, 0) =~= o0); }
//@loop 0 d
  invariant vi0 <= files@.len(), v.asked() == a, v.text == m, header.policy() == pol, checker.st() == cut_st(a, pol, st0, files@, text_out, vi0 as int), w.out() =~= o0 + cut_all(a, pol, st0, files@, m, text_out, vi0 as int),
  decreases files@.len() - vi0,
//@loopstart 0
  let ghost k0 = vi0 as int; let ghost o1 = w.out(); let ghost cf = cfile_of(files@[k0]@); let ghost s1 = checker.st();
//@after /v\.add_names\([^;]*\)\?;/
  proof { lemma_pieces(a, cf.names, v.parts(), arbitrary(), m, cf.head); lemma_parts_ok(a, cf.names, v.parts()); assert(header.given() =~= names_of(a, cf.names, cf.head)); }
//@loop 1 l
  invariant_except_break 0 <= f.at() < cf.lines.len(),
  invariant v.asked() == a, v.text == m, resolved(a, cf.names, v.parts()), parts_ok(v.parts()), f.file() == cf, 0 <= f.at() <= cf.lines.len(), w.out() =~= o2 + cut_lines(a, cf, m, f.at()),
  ensures f.at() == cf.lines.len(),
  decreases cf.lines.len() - f.at(),
//@beforeloop 1
  let ghost o2 = w.out(); proof { assert(o2 + cut_lines(a, cf, m, 0) =~= o2); }
//@loopstart 1
  proof { lemma_pieces(a, cf.names, v.parts(), cf.lines[f.at()], m, cf.head); }
//@end
}
fn main(){}