use vstd::prelude::*;
use std::cmp::Ordering;
use vstd::multiset::Multiset;
verus!{
global size_of usize == 8;
//@include std.vrs
//@include io.vrs
// ---- the order of lines: the key list, seen through its contract (C02, C03, C19)
pub uninterp spec fn ord(o: int, a: Seq<u8>, b: Seq<u8>) -> Ordering;
pub axiom fn axiom_ord(o: int)
  ensures
    forall|a: Seq<u8>| #[trigger] ord(o, a, a) == Ordering::Equal,
    forall|a: Seq<u8>, b: Seq<u8>| #[trigger] ord(o, a, b) == flip(ord(o, b, a)),
    forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] ord(o, a, b) != Ordering::Greater && #[trigger] ord(o, b, c) != Ordering::Greater ==> ord(o, a, c) != Ordering::Greater;
pub open spec fn le(o: int, a: Seq<u8>, b: Seq<u8>) -> bool { ord(o, a, b) != Ordering::Greater }
pub open spec fn eqv(o: int, a: Seq<u8>, b: Seq<u8>) -> bool { ord(o, a, b) == Ordering::Equal }
pub proof fn lemma_eqv(o: int) ensures
    forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] eqv(o, a, b) && #[trigger] eqv(o, b, c) ==> eqv(o, a, c),
    forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] le(o, a, b) && #[trigger] le(o, b, c) ==> le(o, a, c),
    forall|a: Seq<u8>, b: Seq<u8>| #[trigger] le(o, a, b) || le(o, b, a),
    forall|a: Seq<u8>, b: Seq<u8>| #[trigger] eqv(o, a, b) == (le(o, a, b) && le(o, b, a)),
    forall|a: Seq<u8>| #[trigger] eqv(o, a, a),
{
    axiom_ord(o);
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] eqv(o, a, b) == (le(o, a, b) && le(o, b, a)) by { assert(ord(o, a, b) == flip(ord(o, b, a))); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] le(o, a, b) || le(o, b, a) by { assert(ord(o, a, b) == flip(ord(o, b, a))); }
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] le(o, a, b) && #[trigger] le(o, b, c) implies le(o, a, c) by { assert(ord(o, a, b) != Ordering::Greater && ord(o, b, c) != Ordering::Greater); }
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] eqv(o, a, b) && #[trigger] eqv(o, b, c) implies eqv(o, a, c) by { assert(le(o, a, b) && le(o, b, c) && le(o, c, b) && le(o, b, a)); assert(le(o, a, c) && le(o, c, a)); }
}
pub open spec fn sorted(o: int, w: Seq<Seq<u8>>) -> bool { forall|i: int, j: int| 0 <= i < j < w.len() ==> le(o, #[trigger] w[i], #[trigger] w[j]) }
/// no two equal ones
pub open spec fn distinct(o: int, w: Seq<Seq<u8>>) -> bool { forall|i: int, j: int| 0 <= i < j < w.len() ==> !eqv(o, #[trigger] w[i], #[trigger] w[j]) }
/// k is what remains of the lines a: all of them, or at least one of each class
pub open spec fn kept(o: int, unique: bool, a: Seq<Seq<u8>>, k: Seq<Seq<u8>>) -> bool { if unique { all_in(k, a) && all_had(o, k, a) } else { a.to_multiset() == k.to_multiset() } }
pub open spec fn all_in(k: Seq<Seq<u8>>, a: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < k.len() ==> isin(a, #[trigger] k[i]) }
pub open spec fn all_had(o: int, k: Seq<Seq<u8>>, a: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < a.len() ==> has(o, k, #[trigger] a[i]) }
/// some line of k is equal to x
#[verifier::opaque]
pub open spec fn has(o: int, k: Seq<Seq<u8>>, x: Seq<u8>) -> bool { exists|j: int| 0 <= j < k.len() && eqv(o, x, #[trigger] k[j]) }
#[verifier::opaque]
pub open spec fn isin(a: Seq<Seq<u8>>, x: Seq<u8>) -> bool { exists|j: int| 0 <= j < a.len() && x == #[trigger] a[j] }
pub proof fn has_intro(o: int, k: Seq<Seq<u8>>, x: Seq<u8>, j: int) requires 0 <= j < k.len(), eqv(o, x, k[j]), ensures has(o, k, x) { reveal(has); }
pub proof fn has_elim(o: int, k: Seq<Seq<u8>>, x: Seq<u8>) -> (j: int) requires has(o, k, x), ensures 0 <= j < k.len(), eqv(o, x, k[j]) { reveal(has); choose|j: int| 0 <= j < k.len() && eqv(o, x, #[trigger] k[j]) }
pub proof fn isin_intro(a: Seq<Seq<u8>>, x: Seq<u8>, j: int) requires 0 <= j < a.len(), x == a[j], ensures isin(a, x) { reveal(isin); }
pub proof fn isin_elim(a: Seq<Seq<u8>>, x: Seq<u8>) -> (j: int) requires isin(a, x), ensures 0 <= j < a.len(), x == a[j] { reveal(isin); choose|j: int| 0 <= j < a.len() && x == #[trigger] a[j] }
pub proof fn lemma_perm(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) requires a.to_multiset() == b.to_multiset(), ensures all_in(b, a), a.len() == b.len(),
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert forall|i: int| 0 <= i < b.len() implies isin(a, #[trigger] b[i]) by { assert(b.contains(b[i])); assert(b.to_multiset().count(b[i]) > 0); assert(a.contains(b[i])); reveal(isin); }
}
pub proof fn lemma_kept_add(o: int, u: bool, a1: Seq<Seq<u8>>, k1: Seq<Seq<u8>>, a2: Seq<Seq<u8>>, k2: Seq<Seq<u8>>)
  requires kept(o, u, a1, k1), kept(o, u, a2, k2), ensures kept(o, u, a1 + a2, k1 + k2),
{
    let a = a1 + a2; let k = k1 + k2;
    if u {
        assert forall|i: int| 0 <= i < k.len() implies isin(a, #[trigger] k[i]) by {
            if i < k1.len() { let j = isin_elim(a1, k1[i]); isin_intro(a, k[i], j); }
            else { let j = isin_elim(a2, k2[i - k1.len()]); isin_intro(a, k[i], a1.len() + j); }
        }
        assert forall|i: int| 0 <= i < a.len() implies has(o, k, #[trigger] a[i]) by {
            if i < a1.len() { let j = has_elim(o, k1, a1[i]); has_intro(o, k, a[i], j); }
            else { let j = has_elim(o, k2, a2[i - a1.len()]); has_intro(o, k, a[i], k1.len() + j); }
        }
    } else { vstd::seq_lib::lemma_multiset_commutative(a1, a2); vstd::seq_lib::lemma_multiset_commutative(k1, k2); }
}
pub proof fn lemma_eqv_trans(o: int, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires eqv(o, a, b), eqv(o, b, c), ensures eqv(o, a, c) { lemma_eqv(o); }
pub proof fn lemma_le_trans(o: int, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires le(o, a, b), le(o, b, c), ensures le(o, a, c) { lemma_eqv(o); }
pub proof fn lemma_eqv_refl(o: int, a: Seq<u8>) ensures eqv(o, a, a), le(o, a, a) { axiom_ord(o); }
pub proof fn lemma_perm_kept(o: int, u: bool, a: Seq<Seq<u8>>, k: Seq<Seq<u8>>) requires a.to_multiset() == k.to_multiset(), ensures kept(o, u, a, k) {
    if u {
        lemma_perm(a, k); lemma_perm(k, a);
        assert forall|i: int| 0 <= i < a.len() implies has(o, k, #[trigger] a[i]) by { let j = isin_elim(k, a[i]); lemma_eqv_refl(o, a[i]); has_intro(o, k, a[i], j); }
    }
}
pub proof fn lemma_kept_trans(o: int, u: bool, a: Seq<Seq<u8>>, k: Seq<Seq<u8>>, w: Seq<Seq<u8>>)
  requires kept(o, u, a, k), kept(o, u, k, w), ensures kept(o, u, a, w),
{
    if u {
        assert forall|i: int| 0 <= i < w.len() implies isin(a, #[trigger] w[i]) by { let j = isin_elim(k, w[i]); assert(isin(a, k[j])); }
        assert forall|i: int| 0 <= i < a.len() implies has(o, w, #[trigger] a[i]) by {
            let j = has_elim(o, k, a[i]); let m = has_elim(o, w, k[j]); lemma_eqv_trans(o, a[i], k[j], w[m]); has_intro(o, w, a[i], m);
        }
    }
}
pub proof fn lemma_kept_refl(o: int, u: bool, a: Seq<Seq<u8>>) ensures kept(o, u, a, a), { lemma_perm_kept(o, u, a, a); }
// ---- streams of lines
pub open spec fn flat(w: Seq<Seq<u8>>) -> Seq<u8> decreases w.len() { if w.len() == 0 { seq![] } else { flat(w.drop_last()) + w.last() } }
/// one complete line
pub open spec fn is_line(l: Seq<u8>) -> bool { l.len() > 0 && l.last() == 10u8 && forall|i: int| 0 <= i < l.len() - 1 ==> l[i] != 10u8 }
/// w are the complete lines of s, and what is left has no newline
pub open spec fn all_lines(w: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < w.len() ==> is_line(#[trigger] w[i]) }
pub open spec fn no_newline_in(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != 10u8 }
pub open spec fn ended(s: Seq<u8>) -> bool { s.len() > 0 ==> s.last() == 10u8 }
pub proof fn lemma_flat_push(w: Seq<Seq<u8>>, l: Seq<u8>) ensures flat(w.push(l)) == flat(w) + l { assert(w.push(l).drop_last() =~= w); }
pub proof fn lemma_flat_add(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) ensures flat(a + b) == flat(a) + flat(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(flat(b) =~= seq![]); assert(flat(a) + flat(b) =~= flat(a)); }
    else { lemma_flat_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); assert(flat(a) + (flat(b.drop_last()) + b.last()) =~= (flat(a) + flat(b.drop_last())) + b.last()); }
}
pub proof fn lemma_flat_ended(w: Seq<Seq<u8>>) requires all_lines(w), ensures ended(flat(w)), w.len() > 0 ==> flat(w).len() > 0 { if w.len() > 0 { assert(is_line(w.last())); } }
/// a text has only one reading as a list of lines
pub proof fn lemma_one_reading(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) requires all_lines(a), all_lines(b), flat(a) == flat(b), ensures a == b decreases a.len() {
    lemma_flat_ended(a); lemma_flat_ended(b);
    if a.len() == 0 { assert(b.len() == 0); assert(a =~= b); }
    else if b.len() == 0 { assert(false); }
    else {
        let x = a.last(); let y = b.last(); let s = flat(a);
        assert(is_line(x) && is_line(y));
        let p = flat(a.drop_last()); let q = flat(b.drop_last());
        assert(s == p + x && s == q + y);
        assert forall|i: int| 0 <= i < a.drop_last().len() implies is_line(#[trigger] a.drop_last()[i]) by { assert(is_line(a[i])); }
        assert forall|i: int| 0 <= i < b.drop_last().len() implies is_line(#[trigger] b.drop_last()[i]) by { assert(is_line(b[i])); }
        lemma_flat_ended(a.drop_last()); lemma_flat_ended(b.drop_last());
        if p.len() < q.len() { assert(s[q.len() - 1] == q.last()); assert(x[q.len() - 1 - p.len()] == s[q.len() - 1]); assert(false); }
        if q.len() < p.len() { assert(s[p.len() - 1] == p.last()); assert(y[p.len() - 1 - q.len()] == s[p.len() - 1]); assert(false); }
        assert(p =~= s.subrange(0, p.len() as int)); assert(q =~= s.subrange(0, q.len() as int));
        assert(x =~= s.skip(p.len() as int)); assert(y =~= s.skip(q.len() as int));
        lemma_one_reading(a.drop_last(), b.drop_last());
        assert(a =~= a.drop_last().push(x)); assert(b =~= b.drop_last().push(y));
    }
}
/// what is kept are lines, if all were
pub proof fn lemma_kept_lines(o: int, u: bool, a: Seq<Seq<u8>>, k: Seq<Seq<u8>>) requires kept(o, u, a, k), all_lines(a), ensures all_lines(k),
{
    if !u { lemma_perm(a, k); }
    assert forall|i: int| 0 <= i < k.len() implies is_line(#[trigger] k[i]) by { assert(isin(a, k[i])); let j = isin_elim(a, k[i]); assert(is_line(a[j])); }
}
#[verifier::external_body]
pub struct LineCompList { x: u8 }
/// which order the keys mean
pub uninterp spec fn order(c: LineCompList) -> int;
/// do the lines have to be split into columns?
pub open spec fn needs(o: int) -> bool { needs_split(keys_of(o)) }
pub uninterp spec fn needs_split(k: int) -> bool;
/// which keys were asked for
pub uninterp spec fn keys_of(o: int) -> int;
#[verifier::external_body]
pub struct TextLine { x: u8 }
pub uninterp spec fn tl_line(t: TextLine) -> Seq<u8>;
pub uninterp spec fn tl_split(t: TextLine) -> bool;
impl TextLine {
    #[verifier::external_body]
    pub fn line(&self) -> (r: &[u8]) ensures r@ == tl_line(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: TextLine) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn assign(&mut self, o: &TextLine) ensures *final(self) == *o { unimplemented!() }
}
//@item src/comp.rs struct Item
impl Clone for Item { #[verifier::external_body] fn clone(&self) -> (r: Item) ensures r == *self { unimplemented!() } }
impl Copy for Item {}
impl Item {
    pub open spec fn sz(&self) -> u32 { self.size_plus & 0x7fff_ffffu32 }
    pub open spec fn inside(&self, base: Seq<u8>) -> bool { self.offset as int + self.sz() as int <= base.len() }
    pub open spec fn text(&self, base: Seq<u8>) -> Seq<u8> { base.subrange(self.offset as int, self.offset as int + self.sz() as int) }
    pub open spec fn same_place(&self, o: &Item) -> bool { self.offset == o.offset && self.sz() == o.sz() }
//@fn src/comp.rs Item::new (r) noconst
//@end
//@fn src/comp.rs Item::size (r)
  ensures r == self.sz(), r <= 0x7fff_ffff,
//@start
  proof { let x = self.size_plus; assert((x & 0x7fff_ffffu32) <= 0x7fff_ffffu32) by (bit_vector); }
//@end
//@fn src/comp.rs Item::begin (r)
  ensures r == self.offset,
//@end
//@fn src/comp.rs Item::end (r)
  ensures r == self.offset + self.sz(),
//@end
//@fn src/comp.rs Item::get (r)
  requires self.inside(base@),
  ensures r@ == self.text(base@),
//@end
}
/// the item's cache is the one the first key computes for its line
pub uninterp spec fn filled(o: int, it: Item, base: Seq<u8>) -> bool;
impl LineCompList {
    #[verifier::external_body]
    pub fn fill_cache_line(&mut self, item: &mut Item, value: &[u8]) requires old(item).inside(value@), ensures order(*final(self)) == order(*old(self)), final(item).same_place(&*old(item)), filled(order(*old(self)), *final(item), value@) { unimplemented!() }
    #[verifier::external_body]
    pub fn comp_cols(&mut self, a: &TextLine, b: &TextLine) -> (r: Ordering) requires needs(order(*old(self))) ==> tl_split(*a) && tl_split(*b), ensures order(*final(self)) == order(*old(self)), r == ord(order(*old(self)), tl_line(*a), tl_line(*b)) { unimplemented!() }
    #[verifier::external_body]
    pub fn equal_cols(&mut self, a: &TextLine, b: &TextLine) -> (r: bool) requires needs(order(*old(self))) ==> tl_split(*a) && tl_split(*b), ensures order(*final(self)) == order(*old(self)), r == eqv(order(*old(self)), tl_line(*a), tl_line(*b)) { unimplemented!() }
    #[verifier::external_body]
    pub fn need_split(&self) -> (r: bool) ensures r == needs(order(*self)) { unimplemented!() }
}
pub open spec fn texts(p: Seq<Item>, d: Seq<u8>) -> Seq<Seq<u8>> { Seq::new(p.len(), |i: int| p[i].text(d)) }
pub open spec fn usable(o: int, p: Seq<Item>, d: Seq<u8>) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).inside(d) && filled(o, p[i], d) }
/// slice::sort_by(|a, b| cmp.comp_items(data, a, b)), by the contract of comp_items (C03)
#[verifier::external_body]
pub fn verif_sort_by(p: &mut Vec<Item>, c: &mut LineCompList, d: &Vec<u8>)
  requires usable(order(*old(c)), old(p)@, d@),
  ensures usable(order(*old(c)), final(p)@, d@), texts(final(p)@, d@).to_multiset() == texts(old(p)@, d@).to_multiset(), sorted(order(*old(c)), texts(final(p)@, d@)), order(*final(c)) == order(*old(c)),
{ unimplemented!() }
/// the alternative algorithm (no option of the tool reaches it): the same
#[verifier::external_body]
pub fn do_sort_lines(d: &[u8], p: &mut Vec<Item>, c: &mut LineCompList)
  requires usable(order(*old(c)), old(p)@, d@),
  ensures usable(order(*old(c)), final(p)@, d@), texts(final(p)@, d@).to_multiset() == texts(old(p)@, d@).to_multiset(), sorted(order(*old(c)), texts(final(p)@, d@)), order(*final(c)) == order(*old(c)),
{ unimplemented!() }
/// Vec::dedup_by(|a, b| cmp.equal_items(data, a, b)): drops every element equal to the last one kept
#[verifier::external_body]
pub fn verif_dedup_by(p: &mut Vec<Item>, c: &mut LineCompList, d: &Vec<u8>)
  requires usable(order(*old(c)), old(p)@, d@), sorted(order(*old(c)), texts(old(p)@, d@)),
  ensures usable(order(*old(c)), final(p)@, d@), sorted(order(*old(c)), texts(final(p)@, d@)), distinct(order(*old(c)), texts(final(p)@, d@)), kept(order(*old(c)), true, texts(old(p)@, d@), texts(final(p)@, d@)), order(*final(c)) == order(*old(c)),
{ unimplemented!() }
// ---- temporary files
/// what is in the file of this name, once it is written: every name is written once
pub uninterp spec fn file_content(name: Seq<char>) -> Seq<u8>;
pub open spec fn file_lines(name: Seq<char>) -> Seq<Seq<u8>> { choose|w: Seq<Seq<u8>>| all_lines(w) && flat(w) == file_content(name) }
pub open spec fn file_good(o: int, name: Seq<char>) -> bool { sorted(o, file_lines(name)) && exists|w: Seq<Seq<u8>>| all_lines(w) && flat(w) == file_content(name) }
pub open spec fn tmp_lines(f: Seq<String>) -> Seq<Seq<u8>> decreases f.len() { if f.len() == 0 { seq![] } else { tmp_lines(f.drop_last()) + file_lines(f.last()@) } }
pub open spec fn tmp_good(o: int, f: Seq<String>) -> bool { forall|i: int| 0 <= i < f.len() ==> file_good(o, (#[trigger] f[i])@) }
#[verifier::external_body]
pub struct Outfile { x: u8 }
impl Outfile { pub uninterp spec fn name(&self) -> Seq<char>; pub uninterp spec fn wrote(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: Result<()>) ensures r is Ok ==> final(self).wrote() == old(self).wrote() + b@, final(self).name() == old(self).name() { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<()>) ensures r is Ok ==> file_content(old(self).name()) == old(self).wrote() { unimplemented!() }
}
#[verifier::external_body]
pub fn get_writer(name: &str) -> (r: Result<Outfile>) ensures r matches Ok(f) ==> f.name() == name@ && f.wrote() == Seq::<u8>::empty() { unimplemented!() }
#[verifier::external_body]
pub struct TempDir { x: u8 }
/// the path of the next temporary file, sort_N.txt for the Nth
#[verifier::external_body]
pub fn verif_tmp_name(t: &TempDir, n: usize) -> (r: String) { unimplemented!() }
/// the header rules, seen through their contract (C09): files have to match
#[verifier::external_body]
pub struct HeaderChecker { x: u8 }
pub open spec fn starts_cdx(l: Seq<u8>) -> bool { l.len() >= 4 && l[0] == 32u8 && l[1] == 67u8 && l[2] == 68u8 && l[3] == 88u8 }
impl HeaderChecker {
    /// was there a line yet?
    pub uninterp spec fn saw(&self) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: HeaderChecker) ensures !r.saw() { unimplemented!() }
    #[verifier::external_body]
    pub fn check(&mut self, l: &[u8], fname: &str) -> (r: Result<bool>) requires l@.len() > 0, ensures r matches Ok(b) ==> final(self).saw() && b == (!starts_cdx(l@) || !old(self).saw()) && (starts_cdx(l@) ==> l@.last() == 10u8) { unimplemented!() }
}
impl HeaderChecker {
    #[verifier::external_body]
    pub fn check_file(&mut self, f: &Reader, fname: &str) -> (r: Result<bool>) ensures r matches Ok(b) ==> final(self).saw() && b == (head_part(f.text()).len() > 0 && !old(self).saw()) { unimplemented!() }
}
#[verifier::external_body]
pub fn is_cdx(l: &[u8]) -> (r: bool) ensures r == starts_cdx(l@) { l.starts_with(b" CDX") }
/// the keys were found once; the generated names c1, c2, ... always mean the same columns
pub uninterp spec fn looked(o: int) -> bool;
/// self.cmp.lookup(&make_header(line).vec())
#[verifier::external_body]
pub fn verif_lookup(c: &mut LineCompList, line: &[u8]) -> (r: Result<()>) ensures r is Ok ==> keys_of(order(*final(c))) == keys_of(order(*old(c))) && looked(order(*final(c))) && (looked(order(*old(c))) ==> order(*final(c)) == order(*old(c))) { unimplemented!() }
/// what is in a file, when it is opened
pub uninterp spec fn file_text(name: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub struct Infile { x: u8 }
impl Infile {
    #[verifier::external_body]
    pub fn read_until(&mut self, d: u8, buf: &mut Vec<u8>) -> (r: Result<usize>)
      ensures r matches Ok(n) ==> ({ let l = upto(old(self).rest(), d); n == l.len() && final(buf)@.len() <= 0x7fff_ffff_ffff_ffff && final(buf)@ == old(buf)@ + l && final(self).rest() == old(self).rest().skip(l.len() as int) })
    { unimplemented!() }
}
impl Read for Infile {
    uninterp spec fn rest(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn read_into(&mut self, v: &mut Vec<u8>, a: usize, b: usize) -> (r: Result<usize>) { unimplemented!() }
}
#[verifier::external_body]
pub fn get_reader(name: &str) -> (r: Result<Infile>) ensures r matches Ok(f) ==> f.rest() == file_text(name@) { unimplemented!() }
pub open spec fn as_lines(s: Seq<u8>) -> Seq<u8> { if ended(s) { s } else { s.push(10u8) } }
/// the lines of a file that are not its header, and its header
pub open spec fn data_part(t: Seq<u8>) -> Seq<u8> { let l = upto(t, 10u8); if starts_cdx(l) { as_lines(t.skip(l.len() as int)) } else { as_lines(t) } }
pub open spec fn head_part(t: Seq<u8>) -> Seq<u8> { let l = upto(t, 10u8); if starts_cdx(l) { l } else { seq![] } }
// ---- Vec<u8> as a buffer
pub uninterp spec fn cap(v: Vec<u8>) -> nat;
#[verifier::external_body]
pub fn verif_cap(v: &Vec<u8>) -> (r: usize) ensures r == cap(*v), r >= v@.len() { v.capacity() }
#[verifier::external_body]
pub fn verif_reserve(v: &mut Vec<u8>, n: usize) ensures final(v)@ == old(v)@, cap(*final(v)) >= old(v)@.len() + n { v.reserve(n) }
#[verifier::external_body]
pub fn verif_resize(v: &mut Vec<u8>, n: usize) requires n <= cap(*old(v)), n >= old(v)@.len(), ensures final(v)@.len() == n, final(v)@.subrange(0, old(v)@.len() as int) == old(v)@, cap(*final(v)) == cap(*old(v)) { v.resize(n, 0) }
/// v[a..b].copy_from_slice(s): panics unless the lengths agree
#[verifier::external_body]
pub fn verif_copy_into(v: &mut Vec<u8>, a: usize, b: usize, s: &[u8]) requires a <= b <= old(v)@.len(), b - a == s@.len(), ensures final(v)@ == old(v)@.subrange(0, a as int) + s@ + old(v)@.skip(b as int) { v[a..b].copy_from_slice(s) }
pub trait Read {
    /// the bytes not yet read
    spec fn rest(&self) -> Seq<u8>;
    /// r.read(&mut v[a..b])
    fn read_into(&mut self, v: &mut Vec<u8>, a: usize, b: usize) -> (r: Result<usize>)
      requires a <= b <= old(v)@.len(),
      ensures final(v)@.len() == old(v)@.len(), final(v)@.subrange(0, a as int) == old(v)@.subrange(0, a as int),
        r matches Ok(n) ==> n <= b - a && n <= old(self).rest().len() && (n == 0 && b > a ==> old(self).rest().len() == 0) && final(self).rest() == old(self).rest().skip(n as int) && final(v)@.subrange(a as int, a + n) == old(self).rest().subrange(0, n as int);
}
// ---- merging
/// all the lines that are left, file after file
pub open spec fn restcat(r: Seq<Seq<Seq<u8>>>) -> Seq<Seq<u8>> decreases r.len() { if r.len() == 0 { seq![] } else { restcat(r.drop_last()) + r.last() } }
pub open spec fn all_empty(r: Seq<Seq<Seq<u8>>>) -> bool { forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).len() == 0 }
pub open spec fn each_sorted(o: int, r: Seq<Seq<Seq<u8>>>) -> bool { forall|i: int| 0 <= i < r.len() ==> sorted(o, #[trigger] r[i]) }
pub open spec fn total(r: Seq<Seq<Seq<u8>>>) -> nat decreases r.len() { if r.len() == 0 { 0 } else { total(r.drop_last()) + r.last().len() } }
pub proof fn lemma_all_empty(r: Seq<Seq<Seq<u8>>>) requires all_empty(r), ensures restcat(r) == Seq::<Seq<u8>>::empty() decreases r.len() { if r.len() > 0 { lemma_all_empty(r.drop_last()); assert(r.last().len() == 0); assert(restcat(r) =~= seq![]); } }
/// taking the first line of one file
pub proof fn lemma_take(r: Seq<Seq<Seq<u8>>>, q: Seq<Seq<Seq<u8>>>, x: int) requires 0 <= x < r.len(), r[x].len() > 0, q == r.update(x, r[x].skip(1)),
  ensures restcat(r).to_multiset() == restcat(q).to_multiset().insert(r[x][0]), total(r) == total(q) + 1,
  decreases r.len(),
{
    let rd = r.drop_last(); let qd = q.drop_last();
    vstd::seq_lib::lemma_multiset_commutative(restcat(rd), r.last()); vstd::seq_lib::lemma_multiset_commutative(restcat(qd), q.last());
    if x == r.len() - 1 {
        assert(rd =~= qd); assert(r.last() =~= seq![r[x][0]] + q.last()); vstd::seq_lib::lemma_multiset_commutative(seq![r[x][0]], q.last());
        seq![r[x][0]].to_multiset_ensures(); assert(seq![r[x][0]].to_multiset() =~= Multiset::singleton(r[x][0])) by { assert(seq![r[x][0]] =~= Seq::<Seq<u8>>::empty().push(r[x][0])); Seq::<Seq<u8>>::empty().to_multiset_ensures(); }
        assert(restcat(r).to_multiset() =~= restcat(q).to_multiset().insert(r[x][0]));
    } else {
        assert(qd =~= rd.update(x, rd[x].skip(1))); lemma_take(rd, qd, x); assert(r.last() == q.last());
        assert(restcat(r).to_multiset() =~= restcat(q).to_multiset().insert(r[x][0]));
    }
}
/// w written, r left, of the lines t
pub open spec fn merging(o: int, u: bool, t: Seq<Seq<u8>>, w: Seq<Seq<u8>>, r: Seq<Seq<Seq<u8>>>) -> bool {
    &&& kept(o, u, t, w + restcat(r)) && sorted(o, w) && each_sorted(o, r) && (u ==> distinct(o, w))
    &&& forall|i: int| 0 <= i < r.len() && (#[trigger] r[i]).len() > 0 && w.len() > 0 ==> le(o, w.last(), r[i][0])
}
pub open spec fn least(o: int, r: Seq<Seq<Seq<u8>>>, x: int) -> bool { 0 <= x < r.len() && r[x].len() > 0 && forall|i: int| 0 <= i < r.len() && (#[trigger] r[i]).len() > 0 ==> le(o, r[x][0], r[i][0]) }
pub proof fn lemma_sorted_skip(o: int, a: Seq<Seq<u8>>) requires sorted(o, a), a.len() > 0, ensures sorted(o, a.skip(1)), a.len() > 1 ==> le(o, a[0], a.skip(1)[0]) {
    assert forall|i: int, j: int| 0 <= i < j < a.skip(1).len() implies le(o, #[trigger] a.skip(1)[i], #[trigger] a.skip(1)[j]) by { assert(le(o, a[i + 1], a[j + 1])); }
}
pub proof fn lemma_swap_one(o: int, u: bool, t: Seq<Seq<u8>>, w: Seq<Seq<u8>>, r: Seq<Seq<Seq<u8>>>, q: Seq<Seq<Seq<u8>>>, x: int) requires 0 <= x < r.len(), r[x].len() > 0, q == r.update(x, r[x].skip(1)), kept(o, u, t, w + restcat(r)), ensures kept(o, u, t, w.push(r[x][0]) + restcat(q)) {
    let h = r[x][0]; lemma_take(r, q, x);
    vstd::seq_lib::lemma_multiset_commutative(w, restcat(r)); vstd::seq_lib::lemma_multiset_commutative(w.push(h), restcat(q)); w.to_multiset_ensures();
    assert((w + restcat(r)).to_multiset() =~= (w.push(h) + restcat(q)).to_multiset());
    lemma_perm_kept(o, u, w + restcat(r), w.push(h) + restcat(q)); lemma_kept_trans(o, u, t, w + restcat(r), w.push(h) + restcat(q));
}
pub proof fn lemma_frontier(o: int, w: Seq<Seq<u8>>, r: Seq<Seq<Seq<u8>>>, q: Seq<Seq<Seq<u8>>>, x: int) requires least(o, r, x), each_sorted(o, r), q == r.update(x, r[x].skip(1)), ensures each_sorted(o, q), forall|i: int| 0 <= i < q.len() && (#[trigger] q[i]).len() > 0 ==> le(o, r[x][0], q[i][0]) {
    lemma_sorted_skip(o, r[x]);
    assert forall|i: int| 0 <= i < q.len() implies sorted(o, #[trigger] q[i]) by { if i != x { assert(q[i] == r[i]); } }
    assert forall|i: int| 0 <= i < q.len() && (#[trigger] q[i]).len() > 0 implies le(o, r[x][0], q[i][0]) by { if i != x { assert(q[i] == r[i]); } }
}
/// the least first line is written
pub proof fn lemma_merge_write(o: int, u: bool, t: Seq<Seq<u8>>, w: Seq<Seq<u8>>, r: Seq<Seq<Seq<u8>>>, q: Seq<Seq<Seq<u8>>>, x: int)
  requires merging(o, u, t, w, r), least(o, r, x), q == r.update(x, r[x].skip(1)), u && w.len() > 0 ==> !eqv(o, w.last(), r[x][0]), ensures merging(o, u, t, w.push(r[x][0]), q)
{
    let h = r[x][0]; let v = w.push(h);
    lemma_swap_one(o, u, t, w, r, q, x); lemma_frontier(o, w, r, q, x);
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies le(o, #[trigger] v[i], #[trigger] v[j]) by { if j == w.len() { lemma_eqv_refl(o, w.last()); if i < w.len() - 1 { assert(le(o, w[i], w[w.len() - 1])); } lemma_le_trans(o, w[i], w.last(), h); } else { assert(le(o, w[i], w[j])); } }
    if u { assert forall|i: int, j: int| 0 <= i < j < v.len() implies !eqv(o, #[trigger] v[i], #[trigger] v[j]) by { if j == w.len() { if i < w.len() - 1 { assert(le(o, w[i], w[w.len() - 1])); assert(!eqv(o, w[i], w[w.len() - 1])); if eqv(o, w[i], h) { lemma_eqv(o); assert(le(o, h, w[i])); lemma_le_trans(o, h, w[i], w.last()); assert(false); } } } else { assert(!eqv(o, w[i], w[j])); } } }
}
/// it is dropped
pub proof fn lemma_merge_drop(o: int, t: Seq<Seq<u8>>, w: Seq<Seq<u8>>, r: Seq<Seq<Seq<u8>>>, q: Seq<Seq<Seq<u8>>>, x: int)
  requires merging(o, true, t, w, r), least(o, r, x), q == r.update(x, r[x].skip(1)), w.len() > 0, eqv(o, w.last(), r[x][0]), ensures merging(o, true, t, w, q)
{
    let h = r[x][0]; let v = w.push(h) + restcat(q); let k = w + restcat(q);
    lemma_swap_one(o, true, t, w, r, q, x); lemma_frontier(o, w, r, q, x);
    assert forall|i: int| 0 <= i < k.len() implies isin(v, #[trigger] k[i]) by { if i < w.len() { isin_intro(v, k[i], i); } else { isin_intro(v, k[i], i + 1); } }
    assert forall|i: int| 0 <= i < v.len() implies has(o, k, #[trigger] v[i]) by { lemma_eqv_refl(o, v[i]); if i < w.len() { has_intro(o, k, v[i], i); } else if i == w.len() { lemma_eqv(o); assert(eqv(o, h, w.last())); has_intro(o, k, v[i], w.len() - 1); } else { has_intro(o, k, v[i], i - 1); } }
    lemma_kept_trans(o, true, t, v, k);
    assert forall|i: int| 0 <= i < q.len() && (#[trigger] q[i]).len() > 0 implies le(o, w.last(), q[i][0]) by { lemma_eqv(o); lemma_le_trans(o, w.last(), h, q[i][0]); }
}
/// the lines of a file that are not its header
pub open spec fn data_lines(name: Seq<char>) -> Seq<Seq<u8>> { choose|w: Seq<Seq<u8>>| all_lines(w) && flat(w) == data_part(file_text(name)) }
pub open spec fn all_lines_of(f: Seq<String>) -> Seq<Seq<Seq<u8>>> { Seq::new(f.len(), |i: int| data_lines(f[i]@)) }
/// the order these keys mean for a file that starts like this
pub uninterp spec fn order_for(k: int, text: Seq<u8>) -> int;
pub open spec fn first_text(f: Seq<String>) -> Seq<u8> decreases f.len() { if f.len() == 0 { seq![] } else if any_seen(f.drop_last()) { first_text(f.drop_last()) } else { file_text(f.last()@) } }
/// the error that says no more than that the answer is no
pub uninterp spec fn silent(e: Error) -> bool;
#[verifier::external_body]
pub fn verif_silent() -> (r: Result<()>) ensures r is Err, silent(r->Err_0) { unimplemented!() }
/// cmp.lookup(&f.names())
#[verifier::external_body]
pub fn verif_lookup_file(c: &mut LineCompList, f: &Reader) -> (r: Result<()>) ensures r is Err ==> !silent(r->Err_0), r is Ok ==> keys_of(order(*final(c))) == keys_of(order(*old(c))) && order(*final(c)) == order_for(keys_of(order(*old(c))), f.text()) { unimplemented!() }
/// an open file: opening and stepping are proved in C18
#[verifier::external_body]
pub struct Reader { x: u8 }
impl Reader {
    /// the lines from the current one on
    pub uninterp spec fn rest(&self) -> Seq<Seq<u8>>;
    /// lines are split as they are read
    pub uninterp spec fn splits(&self) -> bool;
    #[verifier::external_body]
    pub fn is_done(&self) -> (r: bool) ensures r == (self.rest().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn curr_line(&self) -> (r: &TextLine) ensures self.rest().len() > 0 ==> tl_line(*r) == self.rest()[0] && (self.splits() ==> tl_split(*r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn getline(&mut self) -> (r: Result<bool>) requires old(self).rest().len() > 0, ensures final(self).splits() == old(self).splits(), r matches Ok(b) ==> final(self).text() == old(self).text() && final(self).before() == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1) && b == (final(self).rest().len() == 0), r is Err ==> !silent(r->Err_0) { unimplemented!() }
    /// the line before the current one
    pub uninterp spec fn before(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn prev_line(&self, n: usize) -> (r: &TextLine) requires n == 1, ensures tl_line(*r) == self.before(), self.splits() ==> tl_split(*r) { unimplemented!() }
    #[verifier::external_body]
    pub fn line_number(&self) -> (r: usize) ensures r > 0 { unimplemented!() }
    /// what is in the file
    pub uninterp spec fn text(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.text().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn verif_head(&self) -> (r: &[u8]) ensures r@ == head_part(self.text()) { unimplemented!() }
    #[verifier::external_body]
    pub fn new_open2(name: &str) -> (r: Result<Reader>) ensures r is Err ==> !silent(r->Err_0), r matches Ok(f) ==> f.splits() && f.text() == file_text(name@) && f.rest() == data_lines(name@) { unimplemented!() }
    #[verifier::external_body]
    pub fn do_split(&mut self, b: bool) requires old(self).splits(), ensures final(self).splits() == b, final(self).rest() == old(self).rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn new_open(name: &str, t: &TextFileMode) -> (r: Result<Reader>) requires t.head_mode == HeadMode::No, ensures r matches Ok(f) ==> f.splits() && f.rest() == file_lines(name@) { unimplemented!() }
}
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
//@item src/util.rs enum HeadMode
pub struct TextFileMode { pub head_mode: HeadMode }
impl TextFileMode {
    #[verifier::external_body]
    pub fn default() -> (r: TextFileMode) { unimplemented!() }
}
pub open spec fn rests(f: Seq<Reader>) -> Seq<Seq<Seq<u8>>> { Seq::new(f.len(), |i: int| f[i].rest()) }
pub open spec fn then(a: Ordering, b: Ordering) -> Ordering { if a == Ordering::Equal { b } else { a } }
pub assume_specification[ Ordering::then ](a: Ordering, b: Ordering) -> (r: Ordering) ensures r == then(a, b);
//@item src/sort.rs struct MergeContext
/// what the heap's comparator may say of two files: the one with the smaller line is the greater one; files with equal lines come in any fixed order
pub open spec fn heap_ord(m: MergeContext, a: usize, b: usize, r: Ordering) -> bool { let c = ord(order(*m.cmp), m.open@[a as int].rest()[0], m.open@[b as int].rest()[0]); c != Ordering::Equal ==> r == flip(c) }
impl<'a> MergeContext<'a> {
    pub open spec fn o(&self) -> int { order(*self.cmp) }
    pub open spec fn ok(&self, i: int) -> bool { 0 <= i < self.open@.len() && self.open@[i].rest().len() > 0 }
    pub open spec fn split_ok(&self) -> bool { needs(self.o()) ==> forall|i: int| 0 <= i < self.open@.len() ==> (#[trigger] self.open@[i]).splits() }
//@fn src/sort.rs MergeContext::compare (r)
  requires old(self).ok(a as int), old(self).ok(b as int), old(self).split_ok(),
  ensures heap_ord(*old(self), a, b, r), final(self).open == old(self).open, final(self).o() == old(self).o(),
//@end
//@fn src/sort.rs MergeContext::equal (r)
  requires old(self).ok(b as int), old(self).split_ok(), needs(old(self).o()) ==> tl_split(*a),
  ensures r == eqv(old(self).o(), tl_line(*a), old(self).open@[b as int].rest()[0]), final(self).open == old(self).open, final(self).o() == old(self).o(),
//@end
}
/// BinaryHeap<usize> with a comparator: pop takes an element no other is greater than, provided the order of the elements in it has not changed
#[verifier::external_body]
pub struct VHeap { h: Vec<usize> }
impl VHeap {
    /// what is in it, and the line each stood for
    pub uninterp spec fn map(&self) -> Map<usize, Seq<u8>>;
    pub open spec fn fresh(&self, m: MergeContext) -> bool { forall|i: usize| #[trigger] self.map().dom().contains(i) ==> m.ok(i as int) && m.open@[i as int].rest()[0] == self.map()[i] }
    pub open spec fn whole(&self, m: MergeContext) -> bool { self.fresh(m) && forall|i: usize| m.ok(i as int) ==> #[trigger] self.map().dom().contains(i) }
    #[verifier::external_body]
    pub fn new() -> (r: VHeap) ensures r.map() == Map::<usize, Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, i: usize, m: &MergeContext) requires m.ok(i as int), m.split_ok(), old(self).fresh(*m), ensures final(self).map() == old(self).map().insert(i, m.open@[i as int].rest()[0]) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self, m: &MergeContext) -> (r: Option<usize>) requires old(self).fresh(*m), m.split_ok(),
      ensures r is None <==> old(self).map().dom() =~= Set::empty(),
        r matches Some(x) ==> old(self).map().dom().contains(x) && final(self).map() == old(self).map().remove(x) && forall|i: usize| #[trigger] old(self).map().dom().contains(i) ==> exists|c: Ordering| #[trigger] heap_ord(*m, i, x, c) && c != Ordering::Greater,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.map().dom() =~= Set::empty()) { unimplemented!() }
}
pub proof fn lemma_least(m: MergeContext, h: VHeap, x: usize) requires h.whole(m), h.map().dom().contains(x), m.open@.len() <= usize::MAX, forall|i: usize| #[trigger] h.map().dom().contains(i) ==> exists|c: Ordering| #[trigger] heap_ord(m, i, x, c) && c != Ordering::Greater, ensures least(m.o(), rests(m.open@), x as int) {
    let r = rests(m.open@); let o = m.o();
    assert forall|i: int| 0 <= i < r.len() && (#[trigger] r[i]).len() > 0 implies le(o, r[x as int][0], r[i][0]) by { let k = i as usize; assert(m.ok(k as int)); assert(h.map().dom().contains(k)); let c = choose|c: Ordering| #[trigger] heap_ord(m, k, x, c) && c != Ordering::Greater; axiom_ord(o); assert(ord(o, r[x as int][0], r[i][0]) == flip(ord(o, r[i][0], r[x as int][0]))); }
}
/// one file went on by a line
pub open spec fn stepped(a: Seq<Reader>, b: Seq<Reader>, x: int) -> bool { 0 <= x < a.len() && a.len() == b.len() && a[x].rest().len() > 0 && b[x].rest() == a[x].rest().skip(1) && forall|i: int| 0 <= i < a.len() && i != x ==> a[i] == #[trigger] b[i] }
pub proof fn lemma_step(a: Seq<Reader>, b: Seq<Reader>, x: int) requires stepped(a, b, x), ensures rests(b) == rests(a).update(x, rests(a)[x].skip(1)) { assert(rests(b) =~= rests(a).update(x, rests(a)[x].skip(1))); }
pub proof fn lemma_fresh(a: MergeContext, b: MergeContext, h0: VHeap, h: VHeap, x: usize) requires h0.whole(a), h.map() == h0.map().remove(x), stepped(a.open@, b.open@, x as int), ensures h.fresh(b) {
    assert forall|i: usize| #[trigger] h.map().dom().contains(i) implies b.ok(i as int) && b.open@[i as int].rest()[0] == h.map()[i] by { assert(i != x && h0.map().dom().contains(i)); assert(b.open@[i as int] == a.open@[i as int]); }
}
pub proof fn lemma_whole(a: MergeContext, b: MergeContext, h0: VHeap, h: VHeap, x: usize) requires h0.whole(a), stepped(a.open@, b.open@, x as int), h.map() == (if b.open@[x as int].rest().len() > 0 { h0.map().remove(x).insert(x, b.open@[x as int].rest()[0]) } else { h0.map().remove(x) }), ensures h.whole(b) {
    assert forall|i: usize| #[trigger] h.map().dom().contains(i) implies b.ok(i as int) && b.open@[i as int].rest()[0] == h.map()[i] by { if i != x { assert(h0.map().dom().contains(i)); assert(b.open@[i as int] == a.open@[i as int]); } }
    assert forall|i: usize| b.ok(i as int) implies #[trigger] h.map().dom().contains(i) by { if i != x { assert(b.open@[i as int] == a.open@[i as int]); assert(a.ok(i as int)); assert(h0.map().dom().contains(i)); } }
}
// ---- the tree of the other algorithm
//@item src/sort.rs struct LeafData
//@item src/sort.rs struct NodeData
//@item src/sort.rs type NodeType
//@item src/sort.rs enum MergeTreeItem
impl NodeData {
//@fn src/sort.rs NodeData::new (r)
  ensures r.left == left, r.right == right, r.left_data is None, r.right_data is None,
//@end
//@fn src/sort.rs NodeData::left_cols (r)
  requires self.left_data is Some, self.left_data->0 < files@.len(),
  ensures files@[self.left_data->0 as int].rest().len() > 0 ==> tl_line(*r) == files@[self.left_data->0 as int].rest()[0] && (files@[self.left_data->0 as int].splits() ==> tl_split(*r)),
//@end
//@fn src/sort.rs NodeData::right_cols (r)
  requires self.right_data is Some, self.right_data->0 < files@.len(),
  ensures files@[self.right_data->0 as int].rest().len() > 0 ==> tl_line(*r) == files@[self.right_data->0 as int].rest()[0] && (files@[self.right_data->0 as int].splits() ==> tl_split(*r)),
//@end
}
pub open spec fn has_file(t: MergeTreeItem, f: int) -> bool decreases t { match t { MergeTreeItem::Leaf(l) => l.file_num == f, MergeTreeItem::Node(n) => has_file(*n.left, f) || has_file(*n.right, f) } }
pub open spec fn one(r: Seq<Seq<Seq<u8>>>, d: Option<usize>) -> Seq<Seq<u8>> { match d { None => seq![], Some(f) => seq![r[f as int][0]] } }
/// the lines still to come out of the tree
pub open spec fn rem(t: MergeTreeItem, r: Seq<Seq<Seq<u8>>>) -> Seq<Seq<u8>> decreases t { match t {
    MergeTreeItem::Leaf(l) => if l.first || r[l.file_num as int].len() == 0 { r[l.file_num as int] } else { r[l.file_num as int].skip(1) },
    MergeTreeItem::Node(n) => (one(r, n.left_data) + rem(*n.left, r)) + (one(r, n.right_data) + rem(*n.right, r)),
} }
pub open spec fn all_ge(o: int, h: Seq<u8>, s: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < s.len() ==> le(o, h, #[trigger] s[i]) }
pub open spec fn held(o: int, d: Option<usize>, t: MergeTreeItem, r: Seq<Seq<Seq<u8>>>) -> bool { match d { None => true, Some(f) => has_file(t, f as int) && f < r.len() && r[f as int].len() > 0 && all_ge(o, r[f as int][0], rem(t, r)) } }
pub open spec fn tree_ok(o: int, t: MergeTreeItem, r: Seq<Seq<Seq<u8>>>) -> bool decreases t { match t {
    MergeTreeItem::Leaf(l) => l.file_num < r.len(),
    MergeTreeItem::Node(n) => tree_ok(o, *n.left, r) && tree_ok(o, *n.right, r) && held(o, n.left_data, *n.left, r) && held(o, n.right_data, *n.right, r) && (forall|f: int| #[trigger] has_file(*n.left, f) ==> !has_file(*n.right, f)),
} }
pub open spec fn same_else(t: MergeTreeItem, r: Seq<Seq<Seq<u8>>>, q: Seq<Seq<Seq<u8>>>) -> bool { r.len() == q.len() && forall|f: int| 0 <= f < r.len() && !#[trigger] has_file(t, f) ==> r[f] == q[f] }
pub open spec fn same_files(t: MergeTreeItem, u: MergeTreeItem) -> bool { forall|f: int| #![trigger has_file(t, f)] #![trigger has_file(u, f)] has_file(u, f) == has_file(t, f) }
pub open spec fn same_on(t: MergeTreeItem, r: Seq<Seq<Seq<u8>>>, q: Seq<Seq<Seq<u8>>>) -> bool { r.len() == q.len() && forall|f: int| 0 <= f < r.len() && #[trigger] has_file(t, f) ==> r[f] == q[f] }
pub proof fn lemma_frame(o: int, t: MergeTreeItem, r: Seq<Seq<Seq<u8>>>, q: Seq<Seq<Seq<u8>>>) requires tree_ok(o, t, r), same_on(t, r, q), ensures tree_ok(o, t, q), rem(t, q) == rem(t, r), forall|d: Option<usize>| #[trigger] held(o, d, t, r) ==> held(o, d, t, q) && one(r, d) == one(q, d) decreases t {
    match t { MergeTreeItem::Leaf(l) => { assert(has_file(t, l.file_num as int)); }, MergeTreeItem::Node(n) => {
        assert(same_on(*n.left, r, q)) by { assert forall|f: int| 0 <= f < r.len() && #[trigger] has_file(*n.left, f) implies r[f] == q[f] by { assert(has_file(t, f)); } }
        assert(same_on(*n.right, r, q)) by { assert forall|f: int| 0 <= f < r.len() && #[trigger] has_file(*n.right, f) implies r[f] == q[f] by { assert(has_file(t, f)); } }
        lemma_frame(o, *n.left, r, q); lemma_frame(o, *n.right, r, q);
        assert(held(o, n.left_data, *n.left, r) && held(o, n.right_data, *n.right, r));
    } }
    assert forall|d: Option<usize>| #[trigger] held(o, d, t, r) implies held(o, d, t, q) && one(r, d) == one(q, d) by { if let Some(f) = d { assert(has_file(t, f as int)); } }
}
pub proof fn lemma_disjoint(a: MergeTreeItem, b: MergeTreeItem, r: Seq<Seq<Seq<u8>>>, q: Seq<Seq<Seq<u8>>>) requires same_else(a, r, q), (forall|f: int| #[trigger] has_file(a, f) ==> !has_file(b, f)) || (forall|f: int| #[trigger] has_file(b, f) ==> !has_file(a, f)), ensures same_on(b, r, q) {
    assert forall|f: int| 0 <= f < r.len() && #[trigger] has_file(b, f) implies r[f] == q[f] by { if has_file(a, f) {} }
}
pub proof fn lemma_leaf(o: int, a: LeafData, b: LeafData, fa: Seq<Reader>, fb: Seq<Reader>) requires a.file_num < fa.len(), b == (LeafData { first: false, ..a }), if a.first { fa == fb && fa[a.file_num as int].rest().len() > 0 } else { stepped(fa, fb, a.file_num as int) }, each_sorted(o, rests(fa)),
  ensures ({ let t = MergeTreeItem::Leaf(a); let u = MergeTreeItem::Leaf(b); let r = rests(fa); let q = rests(fb); let f = a.file_num;
    &&& tree_ok(o, u, q) && same_else(t, r, q) && each_sorted(o, q) && same_files(t, u)
    &&& if q[f as int].len() == 0 { rem(t, r).len() == 0 && rem(u, q).len() == 0 } else { held(o, Some(f), u, q) && rem(t, r).to_multiset() == rem(u, q).to_multiset().insert(q[f as int][0]) } }),
{
    let t = MergeTreeItem::Leaf(a); let u = MergeTreeItem::Leaf(b); let r = rests(fa); let q = rests(fb); let f = a.file_num as int;
    assert(sorted(o, r[f]));
    if !a.first { lemma_sorted_skip(o, r[f]); }
    assert forall|i: int| 0 <= i < q.len() implies sorted(o, #[trigger] q[i]) by { if i != f { assert(fa[i] == fb[i]); assert(sorted(o, r[i])); } }
    assert forall|i: int| 0 <= i < r.len() && !#[trigger] has_file(t, i) implies r[i] == q[i] by { assert(fa[i] == fb[i]); }
    if q[f].len() > 0 { let h = q[f][0]; let s = rem(u, q); assert(s =~= q[f].skip(1)); lemma_front(h, s); assert(rem(t, r) =~= seq![h] + s); assert forall|i: int| 0 <= i < s.len() implies le(o, h, #[trigger] s[i]) by { assert(le(o, q[f][0], q[f][i + 1])); } }
}
/// what a child still has, with the line it handed up
pub open spec fn slot(d: Option<usize>, t: MergeTreeItem, r: Seq<Seq<Seq<u8>>>) -> Seq<Seq<u8>> { one(r, d) + rem(t, r) }
pub proof fn lemma_slot(o: int, x: Option<usize>, t: MergeTreeItem, u: MergeTreeItem, r: Seq<Seq<Seq<u8>>>, q: Seq<Seq<Seq<u8>>>)
  requires match x { None => rem(t, r).len() == 0 && rem(u, q).len() == 0, Some(f) => rem(t, r).to_multiset() == rem(u, q).to_multiset().insert(q[f as int][0]) },
  ensures slot(None, t, r).to_multiset() == slot(x, u, q).to_multiset(),
{
    assert(slot(None, t, r) =~= rem(t, r));
    match x { None => { assert(slot(x, u, q) =~= rem(t, r)); }, Some(f) => { let h = q[f as int][0]; lemma_front(h, rem(u, q)); assert(slot(x, u, q) =~= seq![h] + rem(u, q)); } }
}
pub proof fn lemma_front(h: Seq<u8>, s: Seq<Seq<u8>>) ensures (seq![h] + s).to_multiset() == s.to_multiset().insert(h) {
    vstd::seq_lib::lemma_multiset_commutative(seq![h], s);
    seq![h].to_multiset_ensures(); assert(seq![h].to_multiset() =~= Multiset::singleton(h)) by { assert(seq![h] =~= Seq::<Seq<u8>>::empty().push(h)); Seq::<Seq<u8>>::empty().to_multiset_ensures(); }
    assert((seq![h] + s).to_multiset() =~= s.to_multiset().insert(h));
}
pub open spec fn at_node(n: NodeData, r: Seq<Seq<Seq<u8>>>) -> Seq<Seq<u8>> { slot(n.left_data, *n.left, r) + slot(n.right_data, *n.right, r) }
pub proof fn lemma_at_node(n: NodeData, m: NodeData, r: Seq<Seq<Seq<u8>>>, q: Seq<Seq<Seq<u8>>>) requires slot(n.left_data, *n.left, r).to_multiset() == slot(m.left_data, *m.left, q).to_multiset(), slot(n.right_data, *n.right, r).to_multiset() == slot(m.right_data, *m.right, q).to_multiset(), ensures rem(MergeTreeItem::Node(n), r).to_multiset() == rem(MergeTreeItem::Node(m), q).to_multiset() {
    vstd::seq_lib::lemma_multiset_commutative(slot(n.left_data, *n.left, r), slot(n.right_data, *n.right, r));
    vstd::seq_lib::lemma_multiset_commutative(slot(m.left_data, *m.left, q), slot(m.right_data, *m.right, q));
    assert(rem(MergeTreeItem::Node(n), r) =~= at_node(n, r)); assert(rem(MergeTreeItem::Node(m), q) =~= at_node(m, q));
}
/// the left line goes up
pub proof fn lemma_pick_left(o: int, n: NodeData, m: NodeData, r: Seq<Seq<Seq<u8>>>)
  requires tree_ok(o, MergeTreeItem::Node(n), r), n.left_data is Some, m == (NodeData { left_data: None, ..n }), match n.right_data { Some(g) => le(o, r[n.left_data->0 as int][0], r[g as int][0]), None => rem(*n.right, r).len() == 0 },
  ensures tree_ok(o, MergeTreeItem::Node(m), r), held(o, n.left_data, MergeTreeItem::Node(m), r), rem(MergeTreeItem::Node(n), r).to_multiset() == rem(MergeTreeItem::Node(m), r).to_multiset().insert(r[n.left_data->0 as int][0]),
{
    let h = r[n.left_data->0 as int][0]; let nn = MergeTreeItem::Node(n); let mm = MergeTreeItem::Node(m);
    lemma_front(h, rem(mm, r)); assert(rem(nn, r) =~= seq![h] + rem(mm, r));
    let a = rem(*n.left, r); let b = rem(*n.right, r); let s = rem(mm, r);
    assert forall|i: int| 0 <= i < s.len() implies le(o, h, #[trigger] s[i]) by {
        if i < a.len() { assert(s[i] == a[i]); }
        else { match n.right_data { None => {}, Some(g) => { let x = r[g as int][0]; if i == a.len() { assert(s[i] == x); } else { assert(s[i] == b[i - a.len() - 1]); lemma_le_trans(o, h, x, s[i]); } } } }
    }
}
pub proof fn lemma_pick_right(o: int, n: NodeData, m: NodeData, r: Seq<Seq<Seq<u8>>>)
  requires tree_ok(o, MergeTreeItem::Node(n), r), n.right_data is Some, m == (NodeData { right_data: None, ..n }), match n.left_data { Some(g) => le(o, r[n.right_data->0 as int][0], r[g as int][0]), None => rem(*n.left, r).len() == 0 },
  ensures tree_ok(o, MergeTreeItem::Node(m), r), held(o, n.right_data, MergeTreeItem::Node(m), r), rem(MergeTreeItem::Node(n), r).to_multiset() == rem(MergeTreeItem::Node(m), r).to_multiset().insert(r[n.right_data->0 as int][0]),
{
    let h = r[n.right_data->0 as int][0]; let nn = MergeTreeItem::Node(n); let mm = MergeTreeItem::Node(m);
    let a = rem(*n.left, r); let b = rem(*n.right, r); let l = slot(n.left_data, *n.left, r); let s = rem(mm, r);
    assert(rem(nn, r) =~= l + (seq![h] + b)); assert(s =~= l + b);
    lemma_front(h, b); vstd::seq_lib::lemma_multiset_commutative(l, seq![h] + b); vstd::seq_lib::lemma_multiset_commutative(l, b);
    assert(rem(nn, r).to_multiset() =~= s.to_multiset().insert(h));
    assert forall|i: int| 0 <= i < s.len() implies le(o, h, #[trigger] s[i]) by {
        if i >= l.len() { assert(s[i] == b[i - l.len()]); }
        else { match n.left_data { None => {}, Some(g) => { let x = r[g as int][0]; if i == 0 { assert(s[i] == x); } else { assert(s[i] == a[i - 1]); lemma_le_trans(o, h, x, s[i]); } } } }
    }
}
pub proof fn lemma_leaf_if(o: int, a: LeafData, b: LeafData, fa: Seq<Reader>, fb: Seq<Reader>) requires a.file_num < fa.len(), each_sorted(o, rests(fa)),
  ensures b == (LeafData { first: false, ..a }) && (if a.first { fa == fb && fa[a.file_num as int].rest().len() > 0 } else { stepped(fa, fb, a.file_num as int) }) ==> ({ let t = MergeTreeItem::Leaf(a); let u = MergeTreeItem::Leaf(b); let r = rests(fa); let q = rests(fb); let f = a.file_num;
    &&& tree_ok(o, u, q) && same_else(t, r, q) && each_sorted(o, q) && same_files(t, u)
    &&& if q[f as int].len() == 0 { rem(t, r).len() == 0 && rem(u, q).len() == 0 } else { held(o, Some(f), u, q) && rem(t, r).to_multiset() == rem(u, q).to_multiset().insert(q[f as int][0]) } }),
{ if b == (LeafData { first: false, ..a }) && (if a.first { fa == fb && fa[a.file_num as int].rest().len() > 0 } else { stepped(fa, fb, a.file_num as int) }) { lemma_leaf(o, a, b, fa, fb); } }
/// whichever side is due, taking its line leaves a good tree
pub proof fn lemma_pick(o: int, n: NodeData, r: Seq<Seq<Seq<u8>>>)
  requires tree_ok(o, MergeTreeItem::Node(n), r), n.left_data is None ==> rem(*n.left, r).len() == 0, n.right_data is None ==> rem(*n.right, r).len() == 0,
  ensures n.left_data is None && n.right_data is None ==> rem(MergeTreeItem::Node(n), r).len() == 0,
    n.left_data is Some && (n.right_data is None || ord(o, r[n.left_data->0 as int][0], r[n.right_data->0 as int][0]) != Ordering::Greater) ==> ({ let m = NodeData { left_data: None, ..n }; tree_ok(o, MergeTreeItem::Node(m), r) && held(o, n.left_data, MergeTreeItem::Node(m), r) && rem(MergeTreeItem::Node(n), r).to_multiset() == rem(MergeTreeItem::Node(m), r).to_multiset().insert(r[n.left_data->0 as int][0]) }),
    n.right_data is Some && (n.left_data is None || ord(o, r[n.left_data->0 as int][0], r[n.right_data->0 as int][0]) != Ordering::Less) ==> ({ let m = NodeData { right_data: None, ..n }; tree_ok(o, MergeTreeItem::Node(m), r) && held(o, n.right_data, MergeTreeItem::Node(m), r) && rem(MergeTreeItem::Node(n), r).to_multiset() == rem(MergeTreeItem::Node(m), r).to_multiset().insert(r[n.right_data->0 as int][0]) }),
{
    axiom_ord(o);
    if n.left_data is Some && n.right_data is Some { let x = r[n.left_data->0 as int][0]; let y = r[n.right_data->0 as int][0]; assert(ord(o, y, x) == flip(ord(o, x, y))); }
    if n.left_data is Some && (n.right_data is None || ord(o, r[n.left_data->0 as int][0], r[n.right_data->0 as int][0]) != Ordering::Greater) { lemma_pick_left(o, n, NodeData { left_data: None, ..n }, r); }
    if n.right_data is Some && (n.left_data is None || ord(o, r[n.left_data->0 as int][0], r[n.right_data->0 as int][0]) != Ordering::Less) { lemma_pick_right(o, n, NodeData { right_data: None, ..n }, r); }
}
impl MergeTreeItem {
#[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@fn src/sort.rs MergeTreeItem::next (res)
  requires tree_ok(order(*old(cmp)), *old(self), rests(old(files)@)), each_sorted(order(*old(cmp)), rests(old(files)@)), needs(order(*old(cmp))) ==> forall|i: int| 0 <= i < old(files)@.len() ==> (#[trigger] old(files)@[i]).splits(),
  ensures order(*final(cmp)) == order(*old(cmp)), final(files)@.len() == old(files)@.len(),
    res matches Ok(x) ==> ({ let o = order(*old(cmp)); let r = rests(old(files)@); let q = rests(final(files)@); 
      &&& tree_ok(o, *final(self), q) && same_else(*old(self), r, q) && same_files(*old(self), *final(self)) && each_sorted(o, q)
      &&& forall|i: int| 0 <= i < old(files)@.len() ==> (#[trigger] final(files)@[i]).splits() == old(files)@[i].splits()
      &&& held(o, x, *final(self), q)
      &&& match x { None => rem(*old(self), r).len() == 0 && rem(*final(self), q).len() == 0, Some(f) => rem(*old(self), r).to_multiset() == rem(*final(self), q).to_multiset().insert(q[f as int][0]) } }),
  decreases *old(self),
//@start
  let ghost o = order(*cmp); let ghost ra = rests(files@); let ghost t0 = *self; let ghost fa = files@;
//@sub /Self::Leaf\(r\) => \{/ => Self::Leaf(r) => { let ghost l0 = *r;
//@sub /return Ok\(None\);/ => proof { lemma_leaf_if(o, l0, *r, fa, files@); } return Ok(None);
//@sub /Ok\(Some\(r\.file_num\)\)/ => proof { lemma_leaf_if(o, l0, *r, fa, files@); } Ok(Some(r.file_num))
//@sub /Self::Node\(n\) => \{/ => Self::Node(n) => { let ghost na = *n;
//@sub /(if n\.left_data\.is_none\(\) \{\s*n\.left_data = n\.left\.next\(cmp, files\)\?;\s*\})/ => \1 let ghost nb = *n; let ghost rb = rests(files@); proof { assert(same_files(*na.left, *nb.left)); assert(na.right == nb.right); assert forall|f: int| #[trigger] has_file(*nb.left, f) implies !has_file(*nb.right, f) by { assert(has_file(*na.left, f)); }  if na.left_data is None { lemma_slot(o, nb.left_data, *na.left, *nb.left, ra, rb); lemma_disjoint(*na.left, *na.right, ra, rb); lemma_frame(o, *na.right, ra, rb); assert(held(o, na.right_data, *na.right, ra)); } }
//@sub /(if n\.right_data\.is_none\(\) \{\s*n\.right_data = n\.right\.next\(cmp, files\)\?;\s*\})/ => \1 let ghost nc = *n; let ghost rc = rests(files@); proof { assert(same_files(*nb.right, *nc.right)); assert(nb.left == nc.left);  if nb.right_data is None { lemma_slot(o, nc.right_data, *nb.right, *nc.right, rb, rc); lemma_disjoint(*nb.right, *nb.left, rb, rc); lemma_frame(o, *nb.left, rb, rc); assert(held(o, nb.left_data, *nb.left, rb)); } lemma_at_node(na, nc, ra, rc); assert forall|f: int| #[trigger] has_file(*nc.left, f) implies !has_file(*nc.right, f) by { assert(has_file(*nb.left, f)); assert(!has_file(*nb.right, f)); } assert(tree_ok(o, MergeTreeItem::Node(nc), rc)); assert(nc.left_data is None ==> rem(*nc.left, rc).len() == 0); assert(nc.right_data is None ==> rem(*nc.right, rc).len() == 0); lemma_perm(rem(MergeTreeItem::Node(na), ra), rem(MergeTreeItem::Node(nc), rc)); assert(t0 == MergeTreeItem::Node(na)); assert forall|f: int| has_file(t0, f) == (#[trigger] has_file(*nc.left, f) || #[trigger] has_file(*nc.right, f)) by { } assert(same_else(t0, ra, rc)) by { assert forall|f: int| 0 <= f < ra.len() && !#[trigger] has_file(t0, f) implies ra[f] == rc[f] by { assert(!has_file(*na.left, f) && !has_file(*na.right, f) && !has_file(*nb.right, f)); assert(ra[f] == rb[f]); assert(rb[f] == rc[f]); } } lemma_pick(o, nc, rc); assert forall|m: NodeData| m.left == nc.left && m.right == nc.right implies #[trigger] same_files(t0, MergeTreeItem::Node(m)) by { assert forall|f: int| has_file(t0, f) == #[trigger] has_file(MergeTreeItem::Node(m), f) by { assert(has_file(*na.left, f) == has_file(*nc.left, f)); assert(has_file(*na.right, f) == has_file(*nc.right, f)); } } }
//@end
}
pub open spec fn mt(o: int, u: bool, t: Seq<Seq<u8>>, w: Seq<Seq<u8>>, s: Seq<Seq<u8>>) -> bool { kept(o, u, t, w + s) && sorted(o, w) && (u ==> distinct(o, w)) && (w.len() > 0 ==> all_ge(o, w.last(), s)) }
pub proof fn lemma_mt_len(s: Seq<Seq<u8>>, q: Seq<Seq<u8>>, h: Seq<u8>) requires s.to_multiset() == q.to_multiset().insert(h), ensures s.len() == q.len() + 1 { s.to_multiset_ensures(); q.to_multiset_ensures(); }
pub proof fn lemma_mt_begin(o: int, u: bool, t: Seq<Seq<u8>>, s: Seq<Seq<u8>>) requires t == s, ensures mt(o, u, t, Seq::empty(), s) { lemma_kept_refl(o, u, t); assert(Seq::<Seq<u8>>::empty() + s =~= s); }
pub proof fn lemma_mt_end(o: int, u: bool, t: Seq<Seq<u8>>, w: Seq<Seq<u8>>, s: Seq<Seq<u8>>) requires mt(o, u, t, w, s), s.len() == 0, ensures merged(o, u, t, w) { assert(w + s =~= w); }
pub proof fn lemma_mt_swap(o: int, u: bool, t: Seq<Seq<u8>>, w: Seq<Seq<u8>>, s: Seq<Seq<u8>>, q: Seq<Seq<u8>>, h: Seq<u8>) requires s.to_multiset() == q.to_multiset().insert(h), kept(o, u, t, w + s), ensures kept(o, u, t, w.push(h) + q), isin(s, h), all_in(q, s) {
    vstd::seq_lib::lemma_multiset_commutative(w, s); vstd::seq_lib::lemma_multiset_commutative(w.push(h), q); w.to_multiset_ensures();
    assert((w + s).to_multiset() =~= (w.push(h) + q).to_multiset());
    lemma_perm_kept(o, u, w + s, w.push(h) + q); lemma_kept_trans(o, u, t, w + s, w.push(h) + q);
    s.to_multiset_ensures(); q.to_multiset_ensures();
    assert(s.to_multiset().count(h) > 0); assert(s.contains(h)); reveal(isin);
    assert forall|i: int| 0 <= i < q.len() implies isin(s, #[trigger] q[i]) by { assert(q.contains(q[i])); assert(q.to_multiset().count(q[i]) > 0); assert(s.to_multiset().count(q[i]) > 0); assert(s.contains(q[i])); }
}
pub proof fn lemma_ge_sub(o: int, x: Seq<u8>, s: Seq<Seq<u8>>, q: Seq<Seq<u8>>) requires all_in(q, s), all_ge(o, x, s), ensures all_ge(o, x, q) { assert forall|i: int| 0 <= i < q.len() implies le(o, x, #[trigger] q[i]) by { let j = isin_elim(s, q[i]); } }
pub proof fn lemma_mt_write(o: int, u: bool, t: Seq<Seq<u8>>, w: Seq<Seq<u8>>, s: Seq<Seq<u8>>, q: Seq<Seq<u8>>, h: Seq<u8>) requires mt(o, u, t, w, s), s.to_multiset() == q.to_multiset().insert(h), all_ge(o, h, q), u && w.len() > 0 ==> !eqv(o, w.last(), h), ensures mt(o, u, t, w.push(h), q) {
    let v = w.push(h);
    lemma_mt_swap(o, u, t, w, s, q, h); let j0 = isin_elim(s, h);
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies le(o, #[trigger] v[i], #[trigger] v[j]) by { if j == w.len() { lemma_eqv_refl(o, w.last()); if i < w.len() - 1 { assert(le(o, w[i], w[w.len() - 1])); } lemma_le_trans(o, w[i], w.last(), h); } else { assert(le(o, w[i], w[j])); } }
    if u { assert forall|i: int, j: int| 0 <= i < j < v.len() implies !eqv(o, #[trigger] v[i], #[trigger] v[j]) by { if j == w.len() { if i < w.len() - 1 { assert(le(o, w[i], w[w.len() - 1])); assert(!eqv(o, w[i], w[w.len() - 1])); if eqv(o, w[i], h) { lemma_eqv(o); assert(le(o, h, w[i])); lemma_le_trans(o, h, w[i], w.last()); assert(false); } } } else { assert(!eqv(o, w[i], w[j])); } } }
}
pub proof fn lemma_mt_drop(o: int, t: Seq<Seq<u8>>, w: Seq<Seq<u8>>, s: Seq<Seq<u8>>, q: Seq<Seq<u8>>, h: Seq<u8>) requires mt(o, true, t, w, s), s.to_multiset() == q.to_multiset().insert(h), w.len() > 0, eqv(o, w.last(), h), ensures mt(o, true, t, w, q) {
    let v = w.push(h) + q; let k = w + q;
    lemma_mt_swap(o, true, t, w, s, q, h); lemma_ge_sub(o, w.last(), s, q);
    assert forall|i: int| 0 <= i < k.len() implies isin(v, #[trigger] k[i]) by { if i < w.len() { isin_intro(v, k[i], i); } else { isin_intro(v, k[i], i + 1); } }
    assert forall|i: int| 0 <= i < v.len() implies has(o, k, #[trigger] v[i]) by { lemma_eqv_refl(o, v[i]); if i < w.len() { has_intro(o, k, v[i], i); } else if i == w.len() { lemma_eqv(o); assert(eqv(o, h, w.last())); has_intro(o, k, v[i], w.len() - 1); } else { has_intro(o, k, v[i], i - 1); } }
    lemma_kept_trans(o, true, t, v, k);
}
#[verifier::external_body]
pub fn verif_upto(n: usize) -> (r: Vec<usize>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == i { (0..n).collect() }
/// the lines of these files
pub open spec fn cat_of(v: Seq<usize>, r: Seq<Seq<Seq<u8>>>) -> Seq<Seq<u8>> decreases v.len() { if v.len() == 0 { seq![] } else { cat_of(v.drop_last(), r) + r[v.last() as int] } }
pub proof fn lemma_cat_add(a: Seq<usize>, b: Seq<usize>, r: Seq<Seq<Seq<u8>>>) ensures cat_of(a + b, r) == cat_of(a, r) + cat_of(b, r) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(cat_of(a, r) + cat_of(b, r) =~= cat_of(a, r)); }
    else { lemma_cat_add(a, b.drop_last(), r); assert((a + b).drop_last() =~= a + b.drop_last()); assert(cat_of(a, r) + (cat_of(b.drop_last(), r) + r[b.last() as int]) =~= (cat_of(a, r) + cat_of(b.drop_last(), r)) + r[b.last() as int]); }
}
pub proof fn lemma_cat_all(v: Seq<usize>, r: Seq<Seq<Seq<u8>>>, n: int) requires 0 <= n <= r.len(), v.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] v[i] == i, ensures cat_of(v, r) == restcat(r.subrange(0, n)) decreases n {
    let s = r.subrange(0, n);
    if n > 0 { lemma_cat_all(v.drop_last(), r, n - 1); assert(s.drop_last() =~= r.subrange(0, n - 1)); assert(s.last() == r[n - 1]); assert(v.last() == n - 1); }
}
/// a new tree holds exactly these files, and nothing was taken
pub open spec fn fresh_tree(t: MergeTreeItem) -> bool decreases t { match t { MergeTreeItem::Leaf(l) => l.first, MergeTreeItem::Node(n) => fresh_tree(*n.left) && fresh_tree(*n.right) && n.left_data is None && n.right_data is None } }
pub open spec fn leaves(t: MergeTreeItem) -> Seq<usize> decreases t { match t { MergeTreeItem::Leaf(l) => seq![l.file_num], MergeTreeItem::Node(n) => leaves(*n.left) + leaves(*n.right) } }
pub proof fn lemma_leaves(t: MergeTreeItem, f: int) ensures has_file(t, f) == (exists|i: int| 0 <= i < leaves(t).len() && #[trigger] leaves(t)[i] == f) decreases t {
    match t { MergeTreeItem::Leaf(l) => { assert(leaves(t)[0] == l.file_num); }, MergeTreeItem::Node(n) => {
        let a = leaves(*n.left); let b = leaves(*n.right);
        lemma_leaves(*n.left, f); lemma_leaves(*n.right, f);
        if has_file(*n.left, f) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == f; assert(leaves(t)[i] == f); }
        if has_file(*n.right, f) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == f; assert(leaves(t)[a.len() + i] == f); }
        if exists|i: int| 0 <= i < leaves(t).len() && #[trigger] leaves(t)[i] == f { let i = choose|i: int| 0 <= i < leaves(t).len() && #[trigger] leaves(t)[i] == f; if i < a.len() { assert(a[i] == f); } else { assert(b[i - a.len()] == f); } }
    } }
}
pub proof fn lemma_fresh_ok(o: int, t: MergeTreeItem, r: Seq<Seq<Seq<u8>>>) requires fresh_tree(t), forall|i: int| 0 <= i < leaves(t).len() ==> (#[trigger] leaves(t)[i]) < r.len(), forall|i: int, j: int| 0 <= i < j < leaves(t).len() ==> #[trigger] leaves(t)[i] != #[trigger] leaves(t)[j], ensures tree_ok(o, t, r), rem(t, r) == cat_of(leaves(t), r) decreases t {
    match t { MergeTreeItem::Leaf(l) => { assert(leaves(t)[0] == l.file_num); assert(leaves(t).drop_last() =~= seq![]); assert(leaves(t).last() == l.file_num); assert(cat_of(leaves(t).drop_last(), r) =~= seq![]); assert(cat_of(leaves(t), r) =~= r[l.file_num as int]); }, MergeTreeItem::Node(n) => {
        let a = leaves(*n.left); let b = leaves(*n.right);
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]) < r.len() by { assert(leaves(t)[i] == a[i]); }
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]) < r.len() by { assert(leaves(t)[a.len() + i] == b[i]); }
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies #[trigger] a[i] != #[trigger] a[j] by { assert(leaves(t)[i] != leaves(t)[j]); }
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] != #[trigger] b[j] by { assert(leaves(t)[a.len() + i] != leaves(t)[a.len() + j]); }
        lemma_fresh_ok(o, *n.left, r); lemma_fresh_ok(o, *n.right, r); lemma_cat_add(a, b, r);
        assert forall|f: int| #[trigger] has_file(*n.left, f) implies !has_file(*n.right, f) by { lemma_leaves(*n.left, f); lemma_leaves(*n.right, f); if has_file(*n.right, f) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == f; let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j] == f; assert(leaves(t)[i] != leaves(t)[a.len() + j]); } }
        assert(rem(t, r) =~= rem(*n.left, r) + rem(*n.right, r));
    } }
}
pub proof fn lemma_new_tree(o: int, t: MergeTreeItem, v: Seq<usize>, r: Seq<Seq<Seq<u8>>>) requires fresh_tree(t), leaves(t) == v, v.len() == r.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == i, ensures tree_ok(o, t, r), rem(t, r) == restcat(r) { lemma_fresh_ok(o, t, r); lemma_cat_all(v, r, r.len() as int); assert(r.subrange(0, r.len() as int) =~= r); }
impl MergeTreeItem {
//@fn src/sort.rs MergeTreeItem::new_leaf (t) noconst
  ensures fresh_tree(t), leaves(t) == seq![r],
//@end
//@fn src/sort.rs MergeTreeItem::new_node (r)
  ensures fresh_tree(*left) && fresh_tree(*right) ==> fresh_tree(r), leaves(r) == leaves(*left) + leaves(*right),
//@end
//@fn src/sort.rs MergeTreeItem::new_tree (r)
  requires nums@.len() > 0,
  ensures fresh_tree(r), leaves(r) == nums@,
  decreases nums@.len(),
//@end
}
/// what a merge of these lines has written
pub open spec fn merged(o: int, u: bool, t: Seq<Seq<u8>>, w: Seq<Seq<u8>>) -> bool { sorted(o, w) && kept(o, u, t, w) && (u ==> distinct(o, w)) }
pub proof fn lemma_merge_end(m: MergeContext, h: VHeap, u: bool, t: Seq<Seq<u8>>, w: Seq<Seq<u8>>) requires h.whole(m), h.map().dom() =~= Set::empty(), merging(m.o(), u, t, w, rests(m.open@)), m.open@.len() <= usize::MAX, ensures merged(m.o(), u, t, w) {
    let r = rests(m.open@);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).len() == 0 by { let k = i as usize; if r[i].len() > 0 { assert(m.ok(k as int)); assert(h.map().dom().contains(k)); } }
    lemma_all_empty(r); assert(w + restcat(r) =~= w);
}
pub open spec fn wrote(o: int, u: bool, t: Seq<Seq<u8>>, out0: Seq<u8>, out1: Seq<u8>) -> bool { exists|w: Seq<Seq<u8>>| merged(o, u, t, w) && out1 == out0 + #[trigger] flat(w) }
pub proof fn lemma_merge_begin(o: int, u: bool, r: Seq<Seq<Seq<u8>>>) requires each_sorted(o, r), ensures merging(o, u, restcat(r), Seq::empty(), r) { lemma_kept_refl(o, u, restcat(r)); assert(Seq::<Seq<u8>>::empty() + restcat(r) =~= restcat(r)); }
//@item src/sort.rs struct SortConfig
impl SortConfig {
//@gsub /mc\.borrow(_mut)?\(\)\./ => mc.
//@gsub /let mcm = mc\.borrow\(\);/ => let mcm = &mc;
//@gsub /heap\.push\((\w+)\)/ => heap.push(\1, &mc)
//@gsub /heap\.pop\(\)/ => heap.pop(&mc)
#[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@fn src/sort.rs SortConfig::merge_open2 (r)
  requires each_sorted(order(*old(cmp)), rests(open@)), needs(order(*old(cmp))) ==> forall|i: int| 0 <= i < open@.len() ==> (#[trigger] open@[i]).splits(),
  ensures r is Ok ==> wrote(order(*old(cmp)), unique, restcat(rests(open@)), old(w).out(), final(w).out()),
//@sigsub /mut w: impl Write/ => w: &mut W
//@sigsub /fn merge_open2\(/ => fn merge_open2<W: Write>(
//@sub /let mc = Rc::new\(RefCell::new\(MergeContext \{ open, cmp \}\)\);/ => let ghost o = order(*cmp); let ghost r0 = rests(open@); let ghost t = restcat(r0); let ghost wr: Seq<Seq<u8>> = seq![]; let mut mc = MergeContext { open, cmp }; proof { lemma_merge_begin(o, unique, r0); }
//@sub /let mut heap = BinaryHeap::new_by\(\|a: &usize, b: &usize\| mc\.borrow_mut\(\)\.compare\(\*a, \*b\)\);/ => let mut heap = VHeap::new(); let ghost out0 = w.out();
//@loop 0 f
  invariant mc.open@.len() == num_files, mc.o() == o, mc.split_ok(), rests(mc.open@) == r0, heap.fresh(mc), forall|j: usize| j < i && mc.ok(j as int) ==> #[trigger] heap.map().dom().contains(j),
//@afterloop 0
  proof { assert(heap.whole(mc)); assert(flat(wr) =~= seq![]); assert(out0 + flat(wr) =~= out0); }
//@sub /if heap\.is_empty\(\) \{/ => if heap.is_empty() { proof { lemma_merge_end(mc, heap, unique, t, wr); }
//@sub /let first = heap\.pop\(\)\.unwrap\(\);/ => let ghost h0 = heap; let first = heap.pop().unwrap(); proof { lemma_least(mc, h0, first); } let ghost m0 = mc; let ghost r1 = rests(mc.open@); let ghost line = r1[first as int][0];
//@sub /if !mc\.borrow_mut\(\)\.open\[first\]\.getline\(\)\? \{\s*heap\.push\(first\);\s*\}/ => let vlast = mc.open[first].getline()?; proof { lemma_fresh(m0, mc, h0, heap, first); } if !vlast { heap.push(first); } proof { lemma_step(m0.open@, mc.open@, first as int); lemma_whole(m0, mc, h0, heap, first); lemma_take(r1, rests(mc.open@), first as int); }
//@sub /w\.write_all\(prev\.line\(\)\)\?;/ => proof { lemma_merge_write(o, unique, t, wr, r1, rests(mc.open@), first as int); lemma_flat_push(wr, line); } w.write_all(prev.line())?; proof { wr = wr.push(line); assert(out0 + flat(wr) =~= w.out()); }
//@loop 1 w
  invariant mc.open@.len() == num_files, mc.o() == o, mc.split_ok(), heap.whole(mc), unique, merging(o, unique, t, wr, rests(mc.open@)), w.out() == out0 + flat(wr), wr.len() > 0, tl_line(prev) == wr.last(), needs(o) ==> tl_split(prev),
  decreases total(rests(mc.open@)),
//@afterloop 1
  proof { lemma_merge_end(mc, heap, unique, t, wr); }
//@loop 2 w
  invariant mc.open@.len() == num_files, mc.o() == o, mc.split_ok(), heap.whole(mc), !unique, merging(o, unique, t, wr, rests(mc.open@)), w.out() == out0 + flat(wr),
  decreases total(rests(mc.open@)),
//@afterloop 2
  proof { lemma_merge_end(mc, heap, unique, t, wr); }
//@sub /if let Some\(x\) = heap\.pop\(\) \{/ => let ghost h0 = heap; if let Some(x) = heap.pop() { proof { lemma_least(mc, h0, x); } let ghost m0 = mc; let ghost r1 = rests(mc.open@); let ghost line = r1[x as int][0]; let ghost wr0 = wr; let ghost outb = w.out();
//@sub /prev\.assign\(mcm\.open\[x\]\.curr_line\(\)\);/ => prev.assign(mcm.open[x].curr_line()); proof { lemma_flat_push(wr0, line); wr = wr0.push(line); assert(out0 + flat(wr) =~= w.out()); }
//@sub /w\.write_all\(mc\.borrow_mut\(\)\.open\[x\]\.curr_line\(\)\.line\(\)\)\?;/ => w.write_all(mc.open[x].curr_line().line())?; proof { lemma_flat_push(wr0, line); wr = wr0.push(line); assert(out0 + flat(wr) =~= w.out()); }
//@sub /if !mc\.borrow_mut\(\)\.open\[x\]\.getline\(\)\? \{\s*heap\.push\(x\);\s*\}/ => let ghost m1 = mc; let vlast = mc.open[x].getline()?; proof { lemma_fresh(m1, mc, h0, heap, x); } if !vlast { heap.push(x); } proof { lemma_step(m1.open@, mc.open@, x as int); lemma_whole(m1, mc, h0, heap, x); lemma_take(r1, rests(mc.open@), x as int); if wr.len() > wr0.len() { lemma_merge_write(o, unique, t, wr0, r1, rests(mc.open@), x as int); } else { lemma_merge_drop(o, t, wr0, r1, rests(mc.open@), x as int); } }
//@end
//@fn src/sort.rs SortConfig::merge_open1 (r)
  requires open_files@.len() > 0, each_sorted(order(*old(cmp)), rests(open_files@)), needs(order(*old(cmp))) ==> forall|i: int| 0 <= i < open_files@.len() ==> (#[trigger] open_files@[i]).splits(),
  ensures r is Ok ==> wrote(order(*old(cmp)), unique, restcat(rests(open_files@)), old(w).out(), final(w).out()),
//@sigsub /mut w: impl Write/ => w: &mut W
//@sigsub /mut open_files: Vec<Reader>/ => open_files: Vec<Reader>
//@sigsub /fn merge_open1\(/ => fn merge_open1<W: Write>(
//@sub /let nums: Vec<usize> = \(0\.\.open_files\.len\(\)\)\.collect\(\);/ => let mut open_files = open_files; let nums: Vec<usize> = verif_upto(open_files.len()); let ghost o = order(*cmp); let ghost r0 = rests(open_files@); let ghost t = restcat(r0); let ghost wr: Seq<Seq<u8>> = seq![]; let ghost out0 = w.out(); let ghost nf = open_files@.len();
//@sub /let mut mm = MergeTreeItem::new_tree\(&nums\);/ => let mut mm = MergeTreeItem::new_tree(&nums); proof { lemma_new_tree(o, mm, nums@, r0); lemma_mt_begin(o, unique, t, rem(mm, r0)); assert(flat(wr) =~= seq![]); assert(out0 + flat(wr) =~= out0); }
//@sub /let x = mm\.next\(cmp, &mut open_files\)\?;/ => let ghost s0 = rem(mm, rests(open_files@)); let vf = open_files.as_mut_slice(); let x = mm.next(cmp, vf)?;
//@sub /let x = x\.unwrap\(\);/ => let x = x.unwrap(); let ghost line = rests(open_files@)[x as int][0]; let ghost s1 = rem(mm, rests(open_files@)); let ghost wr0 = wr; 
//@sub /if x\.is_none\(\) \{/ => proof { if x is None { lemma_mt_end(o, unique, t, wr, s0); } } if x.is_none() {
//@sub /let mut prev = open_files\[x\]\.curr_line\(\)\.clone\(\);/ => proof { lemma_mt_write(o, unique, t, wr, s0, s1, line); lemma_flat_push(wr, line); wr = wr.push(line); assert(out0 + flat(wr) =~= w.out()); lemma_eqv_refl(o, line); } let mut prev = open_files[x].curr_line().clone();
//@loop 0 l
  invariant unique, open_files@.len() == nf, order(*cmp) == o, tree_ok(o, mm, rests(open_files@)), each_sorted(o, rests(open_files@)), needs(o) ==> forall|i: int| 0 <= i < open_files@.len() ==> (#[trigger] open_files@[i]).splits(), mt(o, unique, t, wr, rem(mm, rests(open_files@))), w.out() == out0 + flat(wr), wr.len() > 0, eqv(o, tl_line(prev), wr.last()), needs(o) ==> tl_split(prev),
  ensures merged(o, unique, t, wr), w.out() == out0 + flat(wr),
  decreases rem(mm, rests(open_files@)).len(),
//@sub /if !cmp\.equal_cols\(/ => let ghost prev0 = tl_line(prev); let ghost outb = w.out(); if !cmp.equal_cols(
//@sub /prev\.assign\(open_files\[x\]\.curr_line\(\)\);/ => prev.assign(open_files[x].curr_line()); proof { lemma_mt_len(s0, s1, line); lemma_flat_push(wr0, line); lemma_eqv_refl(o, line); if eqv(o, prev0, line) { lemma_eqv(o); lemma_eqv_trans(o, wr0.last(), prev0, line); lemma_mt_drop(o, t, wr0, s0, s1, line); assert(eqv(o, line, wr0.last())); } else { if eqv(o, wr0.last(), line) { lemma_eqv_trans(o, prev0, wr0.last(), line); } lemma_mt_write(o, unique, t, wr0, s0, s1, line); wr = wr0.push(line); assert(out0 + flat(wr) =~= w.out()); } }
//@loop 1 l
  invariant !unique, open_files@.len() == nf, order(*cmp) == o, tree_ok(o, mm, rests(open_files@)), each_sorted(o, rests(open_files@)), needs(o) ==> forall|i: int| 0 <= i < open_files@.len() ==> (#[trigger] open_files@[i]).splits(), mt(o, unique, t, wr, rem(mm, rests(open_files@))), w.out() == out0 + flat(wr),
  ensures merged(o, unique, t, wr), w.out() == out0 + flat(wr),
  decreases rem(mm, rests(open_files@)).len(),
//@loopend 1
  proof { lemma_mt_len(s0, s1, line); lemma_flat_push(wr0, line); lemma_mt_write(o, unique, t, wr0, s0, s1, line); wr = wr0.push(line); assert(out0 + flat(wr) =~= w.out()); }
//@end
//@fn src/sort.rs SortConfig::merge_sorted (r)
  requires tmp_good(order(*old(cmp)), in_files@), in_files@.len() > 0,
  ensures r is Ok ==> wrote(order(*old(cmp)), unique, tmp_lines(in_files@), old(w).out(), final(w).out()),
//@sigsub /w: impl Write/ => w: &mut W
//@sigsub /fn merge_sorted\(/ => fn merge_sorted<W: Write>(
//@sub /for x in in_files \{/ => for x in in_files.iter() {
//@loop 0 d
  invariant vi0 <= in_files@.len(), open_files@.len() == vi0, text.head_mode == HeadMode::No, order(*cmp) == order(*old(cmp)), forall|i: int| 0 <= i < vi0 ==> (#[trigger] open_files@[i]).rest() == file_lines(in_files@[i]@) && open_files@[i].splits() == needs(order(*cmp)),
  decreases in_files@.len() - vi0,
//@afterloop 0
  proof { lemma_open_all(in_files@, rests(open_files@)); let o = order(*cmp); assert forall|i: int| 0 <= i < open_files@.len() implies sorted(o, #[trigger] rests(open_files@)[i]) by { assert(file_good(o, in_files@[i]@)); } }
//@end
}
pub proof fn lemma_open_all(f: Seq<String>, r: Seq<Seq<Seq<u8>>>) requires f.len() == r.len(), forall|i: int| 0 <= i < f.len() ==> #[trigger] r[i] == file_lines(f[i]@), ensures restcat(r) == tmp_lines(f) decreases f.len() {
    if f.len() > 0 { lemma_open_all(f.drop_last(), r.drop_last()); assert(r[r.len() - 1] == file_lines(f.last()@)); }
}
pub proof fn lemma_kept_nil(o: int, u: bool, a: Seq<Seq<u8>>) requires kept(o, u, a, Seq::empty()), ensures a =~= Seq::empty() {
    if a.len() > 0 { if u { assert(has(o, Seq::empty(), a[0])); let j = has_elim(o, Seq::empty(), a[0]); } else { lemma_perm(Seq::empty(), a); } }
}
/// the lines of s, merged into one output
pub open spec fn sorted_out(o: int, u: bool, s: Seq<u8>, out0: Seq<u8>, out1: Seq<u8>) -> bool { exists|a: Seq<Seq<u8>>| all_lines(a) && s == #[trigger] flat(a) && wrote(o, u, a, out0, out1) }
//@item src/sort.rs const MAX_DATA
//@item src/sort.rs struct Sorter
pub open spec fn buf(s: &Sorter) -> Seq<u8> { s.data@.subrange(0, s.data_used as int) }
pub open spec fn flushed_of(o: int, u: bool, f: Seq<String>, a: Seq<Seq<u8>>) -> bool { all_lines(a) && kept(o, u, a, tmp_lines(f)) }
#[verifier::opaque]
pub open spec fn content_of(o: int, u: bool, f: Seq<String>, b: Seq<u8>, s: Seq<u8>) -> bool { exists|a: Seq<Seq<u8>>| flushed_of(o, u, f, a) && s == #[trigger] flat(a) + b }
/// the buffer ends like what was read: neither has an open line, or both have the same
pub open spec fn tail_of(b: Seq<u8>, d: Seq<u8>) -> bool { (ended(d) ==> ended(b)) && (!ended(d) ==> !ended(b)) }
pub proof fn lemma_content_more(a: &Sorter, b: &Sorter, s: Seq<u8>, x: Seq<u8>) requires a.content(s), a.frame(b), b.tmp_files@ == a.tmp_files@, buf(b) == buf(a) + x, ensures b.content(s + x) {
    reveal(content_of);
    let l = choose|l: Seq<Seq<u8>>| a.flushed(l) && s == #[trigger] flat(l) + buf(a); assert(b.flushed(l)); assert(s + x =~= flat(l) + buf(b));
}
/// nothing of it is lost
pub open spec fn carried(a: &Sorter, b: &Sorter) -> bool { forall|s: Seq<u8>| a.content(s) ==> #[trigger] b.content(s) }
pub proof fn lemma_carried_same(a: &Sorter, b: &Sorter) requires a.frame(b), a.tmp_files@ == b.tmp_files@, buf(a) == buf(b), ensures carried(a, b) { }
pub proof fn lemma_carried_two(a: &Sorter, b: &Sorter, c: &Sorter) requires carried(a, b), carried(b, c), ensures carried(a, c) { assert forall|s: Seq<u8>| a.content(s) implies #[trigger] c.content(s) by { assert(b.content(s)); } }
/// the lines t0 of the buffer went to a file as t1
pub proof fn lemma_carried_out(a: &Sorter, b: &Sorter, t0: Seq<Seq<u8>>, t1: Seq<Seq<u8>>) requires a.frame(b), all_lines(t0), kept(a.o(), a.unique, t0, t1), tmp_lines(b.tmp_files@) == tmp_lines(a.tmp_files@) + t1, buf(a) == flat(t0) + buf(b), ensures carried(a, b) {
    assert forall|s: Seq<u8>| a.content(s) implies #[trigger] b.content(s) by {
        reveal(content_of);
        let l = choose|l: Seq<Seq<u8>>| flushed_of(a.o(), a.unique, a.tmp_files@, l) && s == #[trigger] flat(l) + buf(a);
        lemma_kept_add(a.o(), a.unique, l, tmp_lines(a.tmp_files@), t0, t1); assert(all_lines(l + t0)); lemma_flat_add(l, t0); assert(flushed_of(b.o(), b.unique, b.tmp_files@, l + t0));
        assert(s =~= flat(l + t0) + buf(b));
    }
}
pub proof fn lemma_tail(d: Seq<u8>, c: int, e: int, tt: Seq<Seq<u8>>) requires 0 <= c <= e <= d.len(), all_lines(tt), flat(tt) == d.subrange(0, c), no_newline_in(d.subrange(c, e)), ensures if ended(d.subrange(0, e)) { c == e } else { c < e && !ended(d.subrange(c, e)) } {
    let b = d.subrange(0, e); let t = d.subrange(c, e); lemma_flat_ended(tt);
    if t.len() > 0 { assert(t[t.len() - 1] == b[b.len() - 1]); } else { assert(b =~= d.subrange(0, c)); }
}
pub open spec fn grew(a: &Sorter, b: &Sorter, d: Seq<u8>) -> bool { forall|s: Seq<u8>| #[trigger] a.content(s) ==> b.content(s + d) }
pub proof fn lemma_grew(s0: &Sorter, a: &Sorter, b: &Sorter, d: Seq<u8>, x: Seq<u8>) requires grew(s0, a, d), a.frame(b), b.tmp_files@ == a.tmp_files@, buf(b) == buf(a) + x, ensures grew(s0, b, d + x) {
    assert forall|s: Seq<u8>| #[trigger] s0.content(s) implies b.content(s + (d + x)) by { lemma_content_more(a, b, s + d, x); assert((s + d) + x =~= s + (d + x)); }
}
pub proof fn lemma_grew_none(a: &Sorter, b: &Sorter) requires carried(a, b), ensures grew(a, b, seq![]) { assert forall|s: Seq<u8>| #[trigger] a.content(s) implies b.content(s + seq![]) by { assert(s + seq![] =~= s); assert(b.content(s)); } }
pub proof fn lemma_grew_flush(s0: &Sorter, a: &Sorter, b: &Sorter, d: Seq<u8>) requires grew(s0, a, d), carried(a, b), ensures grew(s0, b, d) {
    assert forall|s: Seq<u8>| #[trigger] s0.content(s) implies b.content(s + d) by { assert(a.content(s + d)); }
}
pub proof fn lemma_grew_two(s0: &Sorter, a: &Sorter, b: &Sorter, d: Seq<u8>, x: Seq<u8>) requires grew(s0, a, d), grew(a, b, x), ensures grew(s0, b, d + x) {
    assert forall|s: Seq<u8>| #[trigger] s0.content(s) implies b.content(s + (d + x)) by { assert(a.content(s + d)); assert((s + d) + x =~= s + (d + x)); }
}
/// the keys may still change while there is nothing
pub proof fn lemma_new_keys(a: &Sorter, b: &Sorter) requires a.ready(), b.tmp_files == a.tmp_files, buf(b) == buf(a), a.unique == b.unique, a.checker.saw() ==> a.o() == b.o(), ensures forall|s: Seq<u8>| #[trigger] a.content(s) ==> b.content(s), tmp_good(a.o(), a.tmp_files@) ==> tmp_good(b.o(), b.tmp_files@) {
    assert forall|s: Seq<u8>| #[trigger] a.content(s) implies b.content(s) by { reveal(content_of); if !a.checker.saw() { let l = choose|l: Seq<Seq<u8>>| flushed_of(a.o(), a.unique, a.tmp_files@, l) && s == #[trigger] flat(l) + buf(a); lemma_kept_nil(a.o(), a.unique, l); lemma_kept_refl(b.o(), b.unique, l); assert(flushed_of(b.o(), b.unique, b.tmp_files@, l)); } }
}
pub proof fn lemma_buf_more(d4: Seq<u8>, d5: Seq<u8>, u: int, n: int, x: Seq<u8>) requires 0 <= u <= d4.len(), d4.len() == d5.len(), 0 <= n, u + n <= d5.len(), d5.subrange(0, u) == d4.subrange(0, u), d5.subrange(u, u + n) == x, ensures d5.subrange(0, u + n) == d4.subrange(0, u) + x {
    assert forall|i: int| 0 <= i < u + n implies d5.subrange(0, u + n)[i] == (d4.subrange(0, u) + x)[i] by { if i < u { assert(d5.subrange(0, u)[i] == d4.subrange(0, u)[i]); } else { assert(d5.subrange(u, u + n)[i - u] == x[i - u]); } }
    assert(d5.subrange(0, u + n) =~= d4.subrange(0, u) + x);
}
impl Sorter {
    pub open spec fn o(&self) -> int { order(self.cmp) }
    pub open spec fn good(&self) -> bool { self.data_calc + self.data_nonl <= self.data_used && self.data_nonl == 0 && self.data_used <= self.data@.len() <= MAX_DATA && tmp_good(self.o(), self.tmp_files@) }
    /// these lines went to temporary files
    pub open spec fn flushed(&self, a: Seq<Seq<u8>>) -> bool { flushed_of(self.o(), self.unique, self.tmp_files@, a) }
    /// everything added so far
    pub open spec fn content(&self, s: Seq<u8>) -> bool { content_of(self.o(), self.unique, self.tmp_files@, buf(self), s) }
    pub open spec fn frame(&self, n: &Sorter) -> bool { self.o() == n.o() && self.unique == n.unique && self.config == n.config && self.checker == n.checker }
//@gsub /self\.data\.capacity\(\)/ => verif_cap(&self.data)
//@gsub /self\.data\.resize\((\w+), 0\)/ => verif_resize(&mut self.data, \1)
//@gsub /self\.data\.reserve\(([^;]*)\);/ => { let vextra = \1; verif_reserve(&mut self.data, vextra); }
//@gsub /self\.data\[self\.data_used\.\.self\.data_used \+ in_data\.len\(\)\]\.copy_from_slice\(in_data\)/ => verif_copy_into(&mut self.data, self.data_used, self.data_used + in_data.len(), in_data)
//@gsub /r\.read\(&mut self\.data\[self\.data_used\.\.self\.data_used \+ sz\]\)/ => r.read_into(&mut self.data, self.data_used, self.data_used + sz)
//@fn src/sort.rs Sorter::check (r)
  requires self.good(),
  ensures r,
//@end
//@fn src/sort.rs Sorter::avail (r)
  requires self.data_used <= self.data@.len(),
  ensures r == self.data@.len() - self.data_used,
//@end
//@fn src/sort.rs Sorter::prepare (r)
  requires old(self).good(), n <= 0x8000_0000_0000_0000,
  ensures final(self).good(), old(self).frame(final(self)), final(self).tmp_files == old(self).tmp_files, final(self).data_used == old(self).data_used, buf(final(self)) == buf(old(self)),
    r <= n, final(self).data_used + r <= final(self).data@.len(), forall|m: nat| m <= n && cap(old(self).data) >= old(self).data_used + m && #[trigger] (old(self).data_used + m) <= MAX_DATA ==> r >= m,
//@sub /(?s)\}\s*$/ => }
//@before /let avail = self\.avail\(\);/
  proof { assert(buf(self) =~= buf(&*old(self))) by { let a = self.data@; let b = old(self).data@; assert forall|i: int| 0 <= i < old(self).data_used implies a[i] == b[i] by { assert(a.subrange(0, b.len() as int)[i] == a[i]); } } }
//@end
//@fn src/sort.rs Sorter::grow (r)
  requires old(self).good(), n <= 0x8000_0000_0000_0000,
  ensures final(self).good(), old(self).frame(final(self)), final(self).tmp_files == old(self).tmp_files, final(self).data_used == old(self).data_used, buf(final(self)) == buf(old(self)),
    r is Ok ==> cap(final(self).data) >= old(self).data_used + n && old(self).data_used + n <= MAX_DATA,
//@end
//@fn src/sort.rs Sorter::end_line
  requires old(self).good(), old(self).data_used < old(self).data@.len() || ended(buf(old(self))),
  ensures final(self).good(), old(self).frame(final(self)), final(self).tmp_files == old(self).tmp_files, buf(final(self)) == as_lines(buf(old(self))),
//@start
  let ghost b0 = buf(self); let ghost d0 = self.data@; proof { if b0.len() > 0 { assert(b0.last() == d0[self.data_used - 1]); } }
//@sub /self\.data_used \+= 1;/ => self.data_used += 1; proof { assert(buf(self) =~= b0.push(10u8)); }
//@end
//@fn src/sort.rs Sorter::calc
  requires old(self).good(),
  ensures final(self).good(), old(self).frame(final(self)), final(self).tmp_files == old(self).tmp_files, final(self).data == old(self).data, final(self).data_used == old(self).data_used, final(self).data_calc <= final(self).data_used,
    usable(final(self).o(), final(self).ptrs@, final(self).data@), all_lines(texts(final(self).ptrs@, final(self).data@)), flat(texts(final(self).ptrs@, final(self).data@)) == final(self).data@.subrange(0, final(self).data_calc as int), no_newline_in(final(self).data@.subrange(final(self).data_calc as int, final(self).data_used as int)),
//@loop 0 w
  invariant self.good(), old(self).frame(self), self.tmp_files == old(self).tmp_files, self.data == old(self).data, self.data_used == old(self).data_used,
    off <= vk <= self.data_used, usable(self.o(), self.ptrs@, self.data@), all_lines(texts(self.ptrs@, self.data@)), flat(texts(self.ptrs@, self.data@)) == self.data@.subrange(0, off as int), no_newline_in(self.data@.subrange(off as int, vk as int)),
  decreases self.data_used - vk,
//@loopstart 0
  let ghost p0 = self.ptrs@; let ghost k = vk as int; let ghost off0 = off as int; let ghost d = self.data@;
//@sub /for iter in self\.data\[0?\.\.self\.data_used\]\.iter\(\)\.enumerate\(\) \{/ => let mut vk: usize = 0; proof { assert(texts(self.ptrs@, self.data@) =~= seq![]); assert(self.data@.subrange(0, 0) =~= seq![]); } while vk < self.data_used { let iter = (vk, &self.data[vk]); vk += 1;
//@sub /self\.ptrs\.push\(item\);/ => self.ptrs.push(item); proof { let l = d.subrange(off0, k + 1); assert(sz0 & 0x7fff_ffffu32 == sz0) by (bit_vector) requires sz0 <= 0x7fff_ffffu32; assert(item.text(d) == l); assert(texts(self.ptrs@, d) =~= texts(p0, d).push(l)); assert forall|i: int| 0 <= i < l.len() - 1 implies l[i] != 10u8 by { assert(d.subrange(off0, k)[i] == l[i]); } assert(is_line(l)); lemma_flat_push(texts(p0, d), l); assert(d.subrange(0, off0) + l =~= d.subrange(0, k + 1)); }
//@sub /(item\.size_plus = [^;]*;)/ => \1 let ghost sz0 = item.size_plus; proof { assert(sz0 & 0x7fff_ffffu32 == sz0) by (bit_vector) requires sz0 <= 0x7fff_ffffu32; }
//@loopend 0
  proof { if d[k] != 10u8 { assert(d.subrange(off0, k + 1) =~= d.subrange(off0, k).push(d[k])); } else { assert(d.subrange(k + 1, k + 1).len() == 0); } }
//@end
//@fn src/sort.rs Sorter::do_sort
  requires old(self).good(), usable(old(self).o(), old(self).ptrs@, old(self).data@),
  ensures final(self).good(), old(self).frame(final(self)), final(self).tmp_files == old(self).tmp_files, final(self).data == old(self).data, final(self).data_used == old(self).data_used, final(self).data_calc == old(self).data_calc,
    usable(final(self).o(), final(self).ptrs@, final(self).data@), sorted(final(self).o(), texts(final(self).ptrs@, final(self).data@)), old(self).unique ==> distinct(final(self).o(), texts(final(self).ptrs@, final(self).data@)),
    kept(final(self).o(), old(self).unique, texts(old(self).ptrs@, old(self).data@), texts(final(self).ptrs@, final(self).data@)),
//@start
  let ghost t0 = texts(self.ptrs@, self.data@); let ghost o = self.o();
//@sub /self\.ptrs\s*\.sort_by\(\|a, b\| self\.cmp\.comp_items\(&self\.data, a, b\)\);/ => verif_sort_by(&mut self.ptrs, &mut self.cmp, &self.data);
//@before /if self\.unique/
  let ghost t1 = texts(self.ptrs@, self.data@); proof { lemma_perm_kept(o, self.unique, t0, t1); }
//@sub /self\.ptrs\s*\.dedup_by\(\|a, b\| self\.cmp\.equal_items\(&self\.data, a, b\)\);/ => verif_dedup_by(&mut self.ptrs, &mut self.cmp, &self.data); proof { lemma_kept_trans(o, true, t0, t1, texts(self.ptrs@, self.data@)); }
//@end
//@fn src/sort.rs Sorter::write_tmp (r)
  requires old(self).good(), old(self).data_calc <= old(self).data_used, usable(old(self).o(), old(self).ptrs@, old(self).data@), all_lines(texts(old(self).ptrs@, old(self).data@)), sorted(old(self).o(), texts(old(self).ptrs@, old(self).data@)),
  ensures old(self).frame(final(self)), r is Ok ==> final(self).good() && final(self).tmp_files@.len() == old(self).tmp_files@.len() + 1 && tmp_lines(final(self).tmp_files@) == tmp_lines(old(self).tmp_files@) + texts(old(self).ptrs@, old(self).data@)
    && buf(final(self)) == old(self).data@.subrange(old(self).data_calc as int, old(self).data_used as int),
//@start
  let ghost t0 = texts(self.ptrs@, self.data@); let ghost d0 = self.data@; let ghost c0 = self.data_calc as int; let ghost f0 = self.tmp_files@; let ghost o = self.o();
//@sub /(?s)let mut tmp_file = .*?;\s*tmp_file\.push\([^;]*\);\s*let tmp_name = [^;]*;/ => let vname = verif_tmp_name(&self.tmp, self.tmp_files.len()); let tmp_name = vname.as_str();
//@beforeloop 0
  proof { assert(t0.subrange(0, 0) =~= seq![]); }
//@loop 0 d
  invariant vi0 <= self.ptrs@.len(), self.frame(&*old(self)), *self == *old(self), t0 == texts(self.ptrs@, self.data@), usable(old(self).o(), self.ptrs@, self.data@), new_w.name() == tmp_name@, new_w.wrote() == flat(t0.subrange(0, vi0 as int)),
  decreases self.ptrs@.len() - vi0,
//@loopend 0
  proof { assert(t0.subrange(0, vi0 as int) =~= t0.subrange(0, vi0 - 1).push(t0[vi0 - 1])); lemma_flat_push(t0.subrange(0, vi0 - 1), t0[vi0 - 1]); }
//@afterloop 0
  proof { assert(t0.subrange(0, t0.len() as int) =~= t0); }
//@sub /self\.tmp_files\.push\(tmp_name\.to_string\(\)\);/ => proof { let w = file_lines(tmp_name@); assert(all_lines(t0) && flat(t0) == file_content(tmp_name@)); lemma_one_reading(w, t0); assert(file_good(o, tmp_name@)); } self.tmp_files.push(vname.clone()); proof { assert(self.tmp_files@.drop_last() =~= f0); }
//@beforeloop 1
  let ghost e0 = self.data_used as int; 
//@loop 1 f
  invariant self.data@.len() == d0.len(), e0 <= d0.len(), c0 + nsize == e0, self.data_calc == c0, c0 >= 0, old(self).frame(self), self.data_used == e0, self.tmp_files@.len() == f0.len() + 1, self.tmp_files@.drop_last() == f0, tmp_lines(self.tmp_files@) == tmp_lines(f0) + t0, tmp_good(o, self.tmp_files@), o == self.o(), d0.len() <= MAX_DATA,
    forall|j: int| 0 <= j < i ==> self.data@[j] == d0[c0 + j], forall|j: int| i <= j < d0.len() ==> self.data@[j] == d0[j],
//@afterloop 1
  proof { assert(self.data@.subrange(0, nsize as int) =~= d0.subrange(c0, e0)); }
//@end
//@fn src/sort.rs Sorter::flush (r)
  requires old(self).good(),
  ensures old(self).frame(final(self)), r is Ok ==> final(self).good() && carried(old(self), final(self)) && (if ended(buf(old(self))) { buf(final(self)).len() == 0 } else { !ended(buf(final(self))) }),
//@sub /self\.calc\(\);/ => self.calc(); let ghost s1 = *self; proof { lemma_tail(s1.data@, s1.data_calc as int, s1.data_used as int, texts(s1.ptrs@, s1.data@)); lemma_carried_same(&*old(self), &s1); assert(s1.ptrs@.len() == 0 ==> texts(s1.ptrs@, s1.data@) =~= seq![]); }
//@sub /self\.do_sort\(\);/ => self.do_sort(); let ghost t0 = texts(s1.ptrs@, s1.data@); let ghost t1 = texts(self.ptrs@, self.data@); proof { lemma_kept_lines(self.o(), self.unique, t0, t1); }
//@sub /self\.write_tmp\(\)\?;/ => self.write_tmp()?; proof { assert(s1.data@.subrange(0, s1.data_used as int) =~= s1.data@.subrange(0, s1.data_calc as int) + buf(self)); lemma_carried_out(&s1, self, t0, t1); lemma_carried_two(&*old(self), &s1, self); }
//@end
//@fn src/sort.rs Sorter::add_data (r)
  requires old(self).good(), ended(buf(old(self))), in_data@.len() <= 0x7fff_ffff_ffff_ffff,
  ensures old(self).frame(final(self)), r is Ok ==> final(self).good() && ended(buf(final(self))) && grew(old(self), final(self), as_lines(in_data@)),
//@start
  let ghost vo = *self; let ghost sm = *self; proof { lemma_carried_same(&vo, &sm); }
//@sub /self\.flush\(\)\?;/ => let ghost s5 = *self; proof { lemma_carried_same(&vo, &s5); } self.flush()?; proof { sm = *self; lemma_carried_two(&vo, &s5, &sm); }
//@before /verif_copy_into\(/
  let ghost b0 = buf(self); let ghost s0 = *self; proof { lemma_carried_same(&sm, &s0); lemma_carried_two(&vo, &sm, &s0); lemma_grew_none(&vo, &s0); }
//@sub /self\.end_line\(\);/ => proof { assert(buf(self) =~= b0 + in_data@); } self.end_line(); proof { assert(buf(self) =~= b0 + as_lines(in_data@)); lemma_grew(&vo, &s0, self, seq![], as_lines(in_data@)); assert(seq![] + as_lines(in_data@) =~= as_lines(in_data@)); }
//@end
#[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@fn src/sort.rs Sorter::add (res)
  requires old(self).good(), ended(buf(old(self))),
  ensures old(self).frame(final(self)), res is Ok ==> final(self).good() && ended(buf(final(self))) && grew(old(self), final(self), as_lines(vr.rest())),
//@sigsub /mut r: impl Read/ => vr: R
//@sigsub /fn add\(/ => fn add<R: Read>(
//@start
  let mut r = vr; let ghost all = r.rest(); let ghost done: Seq<u8> = seq![]; let ghost vo = *self; let ghost sm = *self; proof { lemma_carried_same(&vo, self); lemma_grew_none(&vo, self); }
//@loop 0 l
  invariant vo == *old(self), self.good(), vo.frame(self), done + r.rest() == all, all == vr.rest(), grew(&vo, self, done), ended(buf(self)) == ended(done),
  decreases r.rest().len(),
//@loopstart 0
  proof { sm = *self; }
//@sub /self\.flush\(\)\?;/ => let ghost s5 = *self; proof { lemma_carried_same(&sm, &s5); lemma_grew_flush(&vo, &sm, &s5, done); } self.flush()?; proof { lemma_grew_flush(&vo, &s5, self, done); sm = *self; }
//@before /let nbytes = r\.read/
  let ghost s4 = *self; let ghost rest0 = r.rest(); proof { lemma_carried_same(&sm, &s4); lemma_grew_flush(&vo, &sm, &s4, done); }
//@sub /self\.end_line\(\);/ => proof { assert(buf(self) =~= buf(&s4)); assert(rest0 =~= seq![]); assert(all =~= done); } self.end_line(); proof { let x: Seq<u8> = if ended(done) { seq![] } else { seq![10u8] }; assert(buf(self) =~= buf(&s4) + x); assert(as_lines(all) =~= done + x); lemma_grew(&vo, &s4, self, done, x); }
//@sub /self\.data_used \+= nbytes;/ => self.data_used += nbytes; proof { let x = rest0.subrange(0, nbytes as int); let done1 = done + x; lemma_buf_more(s4.data@, self.data@, s4.data_used as int, nbytes as int, x); assert(x.len() > 0); assert(buf(self).last() == x.last() && done1.last() == x.last()); assert(rest0 =~= x + r.rest()); assert(done1 + r.rest() =~= done + rest0); lemma_grew(&vo, &s4, self, done, x); done = done1; sm = *self; }
//@end
/// all that was added is written, in order
//@fn src/sort.rs Sorter::finalize (r)
  requires old(self).good(), ended(buf(old(self))),
  ensures r is Ok ==> forall|s: Seq<u8>| #[trigger] old(self).content(s) ==> sorted_out(old(self).o(), old(self).unique, s, old(w).out(), final(w).out()),
//@sigsub /mut w: impl Write/ => w: &mut W
//@sigsub /fn finalize\(/ => fn finalize<W: Write>(
//@start
  let ghost out0 = w.out(); let ghost o = self.o(); let ghost u = self.unique; let ghost f0 = self.tmp_files@; let ghost b0 = buf(self);
//@sub /self\.calc\(\);/ => self.calc(); let ghost t0 = texts(self.ptrs@, self.data@); proof { let t = self.data@.subrange(self.data_calc as int, self.data_used as int); if t.len() > 0 { assert(b0.last() == self.data@[self.data_used - 1]); assert(t[t.len() - 1] == b0.last()); } assert(b0 =~= flat(t0)); }
//@sub /self\.do_sort\(\);/ => self.do_sort(); let ghost t1 = texts(self.ptrs@, self.data@); proof { lemma_kept_lines(o, u, t0, t1); assert(t1.subrange(0, 0) =~= seq![]); assert(out0 + flat(t1.subrange(0, 0)) =~= out0); }
//@loop 0 d
  invariant vi0 <= self.ptrs@.len(), t1 == texts(self.ptrs@, self.data@), usable(self.o(), self.ptrs@, self.data@), w.out() == out0 + flat(t1.subrange(0, vi0 as int)),
  decreases self.ptrs@.len() - vi0,
//@loopend 0
  proof { assert(t1.subrange(0, vi0 as int) =~= t1.subrange(0, vi0 - 1).push(t1[vi0 - 1])); lemma_flat_push(t1.subrange(0, vi0 - 1), t1[vi0 - 1]); assert(w.out() =~= out0 + flat(t1.subrange(0, vi0 as int))); }
//@afterloop 0
  proof { assert(t1.subrange(0, t1.len() as int) =~= t1); assert(w.out() == out0 + flat(t1)); 
    assert forall|s: Seq<u8>| #[trigger] old(self).content(s) implies sorted_out(o, u, s, out0, w.out()) by { reveal(content_of); let a = choose|a: Seq<Seq<u8>>| flushed_of(o, u, f0, a) && s == #[trigger] flat(a) + b0; lemma_kept_nil(o, u, a); assert(s =~= flat(t0)); assert(merged(o, u, t0, t1)); } }
//@sub /self\.write_tmp\(\)\?;/ => self.write_tmp()?; let ghost f1 = self.tmp_files@;
//@sub /(self\s*\.config\s*\.merge_sorted\([^)]*\))/ => ({ let vm = \1; proof { if vm is Ok && f0.len() > 0 {     assert forall|s: Seq<u8>| #[trigger] old(self).content(s) implies sorted_out(o, u, s, out0, w.out()) by { reveal(content_of); let a = choose|a: Seq<Seq<u8>>| flushed_of(o, u, f0, a) && s == #[trigger] flat(a) + b0; let all = a + t0; assert(all_lines(all)); lemma_flat_add(a, t0); lemma_kept_add(o, u, a, tmp_lines(f0), t0, t1); let k = tmp_lines(f0) + t1; let wl = choose|wl: Seq<Seq<u8>>| merged(o, u, k, wl) && w.out() == out0 + #[trigger] flat(wl); lemma_kept_trans(o, u, all, k, wl); assert(merged(o, u, all, wl)); assert(flat(all) == s); } } } vm })
//@end
    /// nothing was added yet, or the keys are known
    pub open spec fn ready(&self) -> bool { if self.checker.saw() { looked(self.o()) } else { self.tmp_files@.len() == 0 && self.data_used == 0 } }
//@fn src/sort.rs Sorter::add_file (r)
  requires old(self).good(), ended(buf(old(self))), old(self).ready(),
  ensures r is Ok ==> ({ let t = file_text(fname@);
      &&& final(self).good() && ended(buf(final(self))) && final(self).ready() && final(self).unique == old(self).unique && final(self).config == old(self).config
      &&& grew(old(self), final(self), data_part(t)) && (old(self).checker.saw() ==> final(self).o() == old(self).o())
      &&& keys_of(final(self).o()) == keys_of(old(self).o()) && final(self).checker.saw() == (old(self).checker.saw() || t.len() > 0)
      &&& final(w).out() == old(w).out() + (if old(self).checker.saw() { seq![] } else { head_part(t) }) }),
//@start
  let ghost t = file_text(fname@); let ghost l = upto(t, 10u8); let ghost out0 = w.out(); let ghost sb = *self; proof { lemma_upto(t, 10u8); assert(out0 + seq![] =~= out0); }
//@sub /if n == 0 \{/ => let ghost rr = f.rest(); proof { assert(first_line@ =~= l); assert(t =~= l + rr); if t.len() == 0 { assert(data_part(t) =~= seq![]); assert(head_part(t) =~= seq![]); assert forall|s: Seq<u8>| #[trigger] sb.content(s) implies self.content(s + data_part(t)) by { assert(s + data_part(t) =~= s); } } } if n == 0 {
//@sub /let s = make_header\(&first_line\);\s*self\.cmp\.lookup\(&s\.vec\(\)\)\?;/ => verif_lookup(&mut self.cmp, &first_line)?; proof { lemma_new_keys(&sb, self); }
//@sub /self\.add\(&mut \*f\)/ => let ghost d1: Seq<u8> = if starts_cdx(l) { seq![] } else { as_lines(l) }; let ghost sc = *self; proof { assert(buf(&sc) == buf(self)); assert(grew(&sb, &sc, d1)) by { if starts_cdx(l) { assert forall|s: Seq<u8>| #[trigger] sb.content(s) implies sc.content(s + d1) by { assert(s + d1 =~= s); } } } assert(d1 + as_lines(rr) =~= data_part(t)) by { if !starts_cdx(l) { if l.last() != 10u8 { assert(rr =~= seq![]); } assert(as_lines(l) + as_lines(rr) =~= as_lines(t)); } } } let vres = self.add(f); proof { if vres is Ok { lemma_grew_two(&sb, &sc, self, d1, as_lines(rr)); } } vres
//@end
//@fn src/sort.rs Sorter::new (r)
  ensures r.good(), r.ready(), r.o() == order(cmp), !r.checker.saw(), r.unique == unique, buf(&r) =~= seq![], r.content(seq![]),
//@sub /std::mem::size_of::<Item>\(\)/ => verif_item_size()
//@sub /TempDir::new\(\)\.unwrap\(\)/ => verif_tempdir()
//@sub /Self \{/ => let vs = Self {
//@sub /data_nonl: 0,\s*\}/ => data_nonl: 0, }; proof { lemma_new(&vs); } vs
//@end
}
pub proof fn lemma_new(s: &Sorter) requires s.tmp_files@.len() == 0, s.data_used == 0, ensures s.content(seq![]) { reveal(content_of); let a: Seq<Seq<u8>> = seq![]; lemma_kept_refl(s.o(), s.unique, a); assert(tmp_lines(s.tmp_files@) =~= a); assert(flat(a) + buf(s) =~= seq![]); assert(flushed_of(s.o(), s.unique, s.tmp_files@, a)); }
#[verifier::external_body]
pub fn verif_item_size() -> (r: usize) ensures r > 0 { std::mem::size_of::<Item>() }
#[verifier::external_body]
pub fn verif_tempdir() -> TempDir { unimplemented!() }
/// the data of all files, one after the other; the header of the first that is not empty
pub open spec fn all_data(f: Seq<String>) -> Seq<u8> decreases f.len() { if f.len() == 0 { seq![] } else { all_data(f.drop_last()) + data_part(file_text(f.last()@)) } }
pub open spec fn any_seen(f: Seq<String>) -> bool decreases f.len() { f.len() > 0 && (any_seen(f.drop_last()) || file_text(f.last()@).len() > 0) }
pub open spec fn header_of(f: Seq<String>) -> Seq<u8> decreases f.len() { if f.len() == 0 { seq![] } else if any_seen(f.drop_last()) { header_of(f.drop_last()) } else { head_part(file_text(f.last()@)) } }
//@fn src/sort.rs open_merge (r)
  ensures r matches Ok(v) ==> v@.len() == in_files@.len() && keys_of(order(*final(cmp))) == keys_of(order(*old(cmp))) && rests(v@) == all_lines_of(in_files@) && (forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).splits() == needs(order(*old(cmp)))) && final(w).out() == old(w).out() + header_of(in_files@) && (any_seen(in_files@) ==> order(*final(cmp)) == order_for(keys_of(order(*old(cmp))), first_text(in_files@))),
//@sigsub /mut w: impl Write/ => w: &mut W
//@sigsub /fn open_merge\(/ => fn open_merge<W: Write>(
//@sub /for x in in_files \{/ => for x in in_files.iter() {
//@sub /f\.header\(\)\.line\.as_bytes\(\)/ => f.verif_head()
//@sub /cmp\.lookup\(&f\.names\(\)\)\?;/ => verif_lookup_file(cmp, &f)?;
//@start
  let ghost out0 = w.out(); let ghost k = keys_of(order(*cmp)); proof { let f: Seq<String> = in_files@.subrange(0, 0); assert(f =~= seq![]); assert(header_of(f) =~= seq![]); assert(out0 + header_of(f) =~= out0); }
//@loop 0 d
  invariant vi0 <= in_files@.len(), open_files@.len() == vi0, k == keys_of(order(*old(cmp))), keys_of(order(*cmp)) == k, out0 == old(w).out(), checker.saw() == any_seen(in_files@.subrange(0, vi0 as int)), first == !checker.saw(),
    forall|i: int| 0 <= i < vi0 ==> (#[trigger] open_files@[i]).rest() == data_lines(in_files@[i]@) && open_files@[i].splits() == needs_split(k),
    w.out() == out0 + header_of(in_files@.subrange(0, vi0 as int)), checker.saw() ==> order(*cmp) == order_for(k, first_text(in_files@.subrange(0, vi0 as int))),
  decreases in_files@.len() - vi0,
//@loopend 0
  proof { let f = in_files@.subrange(0, vi0 as int); let g = in_files@.subrange(0, vi0 - 1); assert(f.drop_last() =~= g); assert(f.last() == in_files@[vi0 - 1]); if !any_seen(g) { lemma_no_header(g); } assert(w.out() =~= out0 + header_of(f)); }
//@afterloop 0
  proof { assert(in_files@.subrange(0, in_files@.len() as int) =~= in_files@); assert(rests(open_files@) =~= all_lines_of(in_files@)); }
//@end
#[verifier::external_body]
pub fn prerr_n(x: &[&[u8]]) { }
/// is the current line out of order?
//@fn src/comp.rs comp_check (r)
  requires f.rest().len() > 0, needs(order(*old(cmp))) ==> f.splits(),
  ensures r == (!le(order(*old(cmp)), f.before(), f.rest()[0]) || unique && eqv(order(*old(cmp)), f.before(), f.rest()[0])), order(*final(cmp)) == order(*old(cmp)),
//@end
/// lines i - 1 and i are in the order asked for
pub open spec fn adj(o: int, u: bool, w: Seq<Seq<u8>>, i: int) -> bool { le(o, w[i - 1], w[i]) && !(u && eqv(o, w[i - 1], w[i])) }
/// each line of the file is in order with the line before it
pub open spec fn file_in_order(k: int, u: bool, name: Seq<char>) -> bool { forall|i: int| 1 <= i < data_lines(name).len() ==> #[trigger] adj(order_for(k, file_text(name)), u, data_lines(name), i) }
/// sort --check: it succeeds exactly when every file is in order
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@fn src/bin/cdx/sort_main.rs main (r)
  ensures
    r is Ok ==> forall|k: int| 0 <= k < files@.len() ==> #[trigger] file_in_order(keys_of(order(*old(comp))), unique, files@[k]@),
    r is Err && silent(r->Err_0) ==> exists|k: int| 0 <= k < files@.len() && !#[trigger] file_in_order(keys_of(order(*old(comp))), unique, files@[k]@),
//@from /let mut reported = 0;/
//@upto /\} else \{\s*let mut w = get_writer/
//@sig fn sort_check(comp: &mut LineCompList, unique: bool, num_checks: usize, files: &Vec<String>) -> Result<()>
//@sub /let mut reported = 0;/ => let mut reported: usize = 0;
//@sub /Reader::new_open\(x, &settings\.text_in\)/ => Reader::new_open2(x.as_str())
//@sub /comp\.lookup\(&f\.names\(\)\)\?;/ => verif_lookup_file(comp, &f)?; let ghost o = order(*comp);
//@sub /cdx_err\(CdxError::Silent\)/ => verif_silent()
//@sub /&mut comp\b/ => comp
//@start
  let ghost k0 = keys_of(order(*comp));
//@loop 0 d
  invariant_except_break reported == 0 ==> forall|k: int| 0 <= k < vi0 ==> #[trigger] file_in_order(k0, unique, files@[k]@),
    reported == 0 || reported < num_checks,
  invariant keys_of(order(*comp)) == k0, reported > 0 ==> exists|k: int| 0 <= k < files@.len() && !#[trigger] file_in_order(k0, unique, files@[k]@),
  ensures reported == 0 ==> forall|k: int| 0 <= k < files@.len() ==> #[trigger] file_in_order(k0, unique, files@[k]@),
  decreases files@.len() - vi0,
//@loop 1 l
  invariant_except_break f.rest().len() > 0, reported == 0 ==> forall|i: int| 1 <= i <= d.len() - f.rest().len() ==> #[trigger] adj(o, unique, d, i), reported == 0 || reported < num_checks,
  invariant reported == 0 ==> forall|k: int| 0 <= k < vi0 - 1 ==> #[trigger] file_in_order(k0, unique, files@[k]@), f.rest() =~= d.skip(d.len() - f.rest().len()), f.rest().len() <= d.len(), f.splits(), order(*comp) == o, reported > 0 ==> exists|k: int| 0 <= k < files@.len() && !#[trigger] file_in_order(k0, unique, files@[k]@),
  ensures reported == 0 ==> file_in_order(k0, unique, x@), reported == 0 || reported < num_checks,
  decreases f.rest().len(),
//@beforeloop 1
  let ghost d = f.rest();
//@loopstart 1
  let ghost i = d.len() - f.rest().len() + 1; let ghost fo = file_in_order(k0, unique, files@[vi0 - 1]@); let ghost ad = adj(o, unique, d, i);
//@afterloop 1
  proof { assert(reported == 0 ==> file_in_order(k0, unique, files@[vi0 - 1]@)); assert forall|k: int| reported == 0 && 0 <= k < vi0 implies #[trigger] file_in_order(k0, unique, files@[k]@) by { if k == vi0 - 1 {} } }
//@end
/// util::copy
#[verifier::external_body]
pub fn copy<W: Write>(r: Infile, w: &mut W) -> (res: Result<()>) ensures res is Ok ==> final(w).out() == old(w).out() + r.rest() { unimplemented!() }
/// the files are in the order of these keys
pub open spec fn in_order(k: int, f: Seq<String>) -> bool { each_sorted(order_for(k, first_text(f)), all_lines_of(f)) }
pub open spec fn merged_files(k: int, u: bool, f: Seq<String>, out0: Seq<u8>, out1: Seq<u8>) -> bool {
    if f.len() == 0 { out1 == out0 } else if f.len() == 1 && !u { out1 == out0 + file_text(f[0]@) }
    else { exists|o: int| keys_of(o) == k && (any_seen(f) ==> o == order_for(k, first_text(f))) && #[trigger] wrote(o, u, restcat(all_lines_of(f)), out0 + header_of(f), out1) }
}
pub proof fn lemma_none_seen(f: Seq<String>) requires !any_seen(f), ensures forall|i: int| 0 <= i < f.len() ==> (#[trigger] data_lines(f[i]@)).len() == 0 decreases f.len() {
    if f.len() > 0 {
        lemma_none_seen(f.drop_last()); let t = file_text(f.last()@); assert(t =~= seq![]); assert(data_part(t) =~= seq![]);
        let e: Seq<Seq<u8>> = seq![]; assert(all_lines(e) && flat(e) == data_part(t)); let d = data_lines(f.last()@); assert(all_lines(d) && flat(d) == data_part(t)); lemma_flat_ended(d);
        assert forall|i: int| 0 <= i < f.len() implies (#[trigger] data_lines(f[i]@)).len() == 0 by { if i < f.len() - 1 { assert(f.drop_last()[i] == f[i]); } }
    }
}
pub proof fn lemma_all_ordered(o: int, k: int, f: Seq<String>) requires in_order(k, f), any_seen(f) ==> o == order_for(k, first_text(f)), ensures each_sorted(o, all_lines_of(f)) { if !any_seen(f) { lemma_none_seen(f); assert forall|i: int| 0 <= i < f.len() implies sorted(o, #[trigger] all_lines_of(f)[i]) by { assert(data_lines(f[i]@).len() == 0); } } }
impl SortConfig {
//@gsub /copy\(r\.0, w\)/ => copy(r, w)
//@gsub /open_merge\(in_files, cmp, &mut w\)\?;/ => open_merge(in_files, cmp, w)?; proof { lemma_all_ordered(order(*cmp), keys_of(order(*old(cmp))), in_files@); }
//@fn src/sort.rs SortConfig::merge_t2 (r)
  requires in_order(keys_of(order(*old(cmp))), in_files@),
  ensures r is Ok ==> merged_files(keys_of(order(*old(cmp))), unique, in_files@, old(w).out(), final(w).out()),
//@sigsub /mut w: impl Write/ => w: &mut W
//@sigsub /fn merge_t2\(/ => fn merge_t2<W: Write>(
//@end
//@fn src/sort.rs SortConfig::merge_t1 (r)
  requires in_order(keys_of(order(*old(cmp))), in_files@),
  ensures r is Ok ==> merged_files(keys_of(order(*old(cmp))), unique, in_files@, old(w).out(), final(w).out()),
//@sigsub /mut w: impl Write/ => w: &mut W
//@sigsub /fn merge_t1\(/ => fn merge_t1<W: Write>(
//@end
//@fn src/sort.rs SortConfig::merge_t (r)
  requires in_order(keys_of(order(*old(cmp))), in_files@),
  ensures r is Ok ==> merged_files(keys_of(order(*old(cmp))), unique, in_files@, old(w).out(), final(w).out()),
//@sigsub /w: impl Write/ => w: &mut W
//@sigsub /fn merge_t\(/ => fn merge_t<W: Write>(
//@end
//@fn src/sort.rs SortConfig::merge (r)
  requires in_order(keys_of(order(*old(cmp))), files@),
  ensures r is Ok ==> merged_files(keys_of(order(*old(cmp))), unique, files@, old(w).out(), final(w).out()),
//@sigsub /w: impl Write/ => w: &mut W
//@sigsub /fn merge\(/ => fn merge<W: Write>(
//@sub /TempDir::new\(\)\?/ => verif_tempdir()
//@end
}
impl SortConfig {
    #[verifier::external_body]
    pub fn default() -> SortConfig { unimplemented!() }
//@fn src/sort.rs SortConfig::sort (r)
  ensures r is Ok ==> exists|o: int| keys_of(o) == keys_of(order(cmp)) && #[trigger] sorted_out(o, unique, all_data(files@), old(w).out() + header_of(files@), final(w).out()),
//@start
  let ghost out0 = w.out();
//@sub /for fname in files \{/ => for fname in files.iter() {
//@beforeloop 0
  let ghost sn = s; proof { let f: Seq<String> = files@.subrange(0, 0); assert(f =~= seq![]); assert(all_data(f) =~= seq![]); assert(header_of(f) =~= seq![]); assert(out0 + header_of(f) =~= out0); }
//@loop 0 d
  invariant vi0 <= files@.len(), s.good(), ended(buf(&s)), s.ready(), s.unique == unique, keys_of(s.o()) == keys_of(order(cmp)), s.content(all_data(files@.subrange(0, vi0 as int))), s.checker.saw() == any_seen(files@.subrange(0, vi0 as int)), w.out() == out0 + header_of(files@.subrange(0, vi0 as int)),
  decreases files@.len() - vi0,
//@loopend 0
  proof { let f = files@.subrange(0, vi0 as int); let g = files@.subrange(0, vi0 - 1); assert(f.drop_last() =~= g); assert(f.last() == files@[vi0 - 1]); assert(sq.content(all_data(g))); assert(w.out() =~= out0 + header_of(f)) by { if any_seen(g) { assert(header_of(g) + seq![] =~= header_of(g)); } else { lemma_no_header(g); } } }
//@afterloop 0
  proof { assert(files@.subrange(0, files@.len() as int) =~= files@); }
//@loopstart 0
  let ghost sq = s;
//@end
}
pub proof fn lemma_no_header(f: Seq<String>) requires !any_seen(f), ensures header_of(f) =~= seq![] decreases f.len() { if f.len() > 0 { lemma_no_header(f.drop_last()); assert(file_text(f.last()@) =~= seq![]); } }
}
fn main() {}
