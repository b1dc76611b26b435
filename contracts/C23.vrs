// C23: aggregates summarise exactly the values of their group
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@include std.vrs
//@include cols.vrs
//@include io.vrs
/// the values added since the last reset
pub type H = Seq<Seq<u8>>;
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct NumFormat { x: u8 }
pub uninterp spec fn shown(f: NumFormat, x: f64) -> Seq<u8>;
impl NumFormat {
    #[verifier::external_body]
    pub fn print(&self, x: f64, w: &mut dyn Write) -> (r: Result<()>) ensures r is Ok ==> final(w).out() == old(w).out() + shown(*self, x) { unimplemented!() }
}
// ---- floating point: IEEE operations, uninterpreted
pub uninterp spec fn fadd(a: f64, b: f64) -> f64;
pub uninterp spec fn fdiv(a: f64, b: f64) -> f64;
pub uninterp spec fn fpos(a: f64) -> bool;
pub uninterp spec fn fint(a: int) -> f64;
/// the number a text starts with (to_f64_lossy)
pub uninterp spec fn fof(d: Seq<u8>) -> f64;
#[verifier::external_body]
pub fn verif_fadd(a: f64, b: f64) -> (r: f64) ensures r == fadd(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn verif_fdiv(a: f64, b: f64) -> (r: f64) ensures r == fdiv(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn verif_fpos(a: f64) -> (r: bool) ensures r == fpos(a) { unimplemented!() }
#[verifier::external_body]
pub fn verif_fint(a: i128) -> (r: f64) ensures r == fint(a as int) { unimplemented!() }
#[verifier::external_body]
pub fn verif_fof(d: &[u8]) -> (r: f64) ensures r == fof(d@) { unimplemented!() }
#[verifier::external_body]
pub fn verif_extend(v: &mut Vec<u8>, d: &[u8]) ensures final(v)@ == old(v)@ + d@ { unimplemented!() }
//@gsub /self\.val\.extend_from_slice\(data\)/ => verif_extend(&mut self.val, data)
// ---- comparators (C02, C19): a total preorder
pub uninterp spec fn ord(o: int, a: Seq<u8>, b: Seq<u8>) -> Ordering;
#[verifier::external_body]
pub proof fn axiom_ord_flip(o: int, a: Seq<u8>, b: Seq<u8>) ensures ord(o, a, b) == flip(ord(o, b, a)) { }
#[verifier::external_body]
pub proof fn axiom_ord_trans(o: int, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires ord(o, a, b) != Ordering::Greater, ord(o, b, c) != Ordering::Greater, ensures ord(o, a, c) != Ordering::Greater { }
pub struct Comp { pub reverse: bool, pub comp: Comparator }
pub uninterp spec fn order(c: Comp) -> int;
pub struct Comparator { x: u8 }
impl Comparator {
    /// without the modifiers of its Comp
    #[verifier::external_body]
    pub fn comp(&self, a: &[u8], b: &[u8]) -> (r: Ordering) { unimplemented!() }
}
impl Comp {
    #[verifier::external_body]
    pub fn comp(&self, a: &[u8], b: &[u8]) -> (r: Ordering) ensures r == ord(order(*self), a@, b@) { unimplemented!() }
}
// ---- count
//@item src/agg.rs struct Count
impl Count {
    pub open spec fn holds(&self, h: H) -> bool { self.val == self.init + h.len() }
//@fn src/agg.rs <Count as Agg>::add
  requires old(self).val < isize::MAX,
  ensures final(self).init == old(self).init, forall|h: H| old(self).holds(h) ==> #[trigger] final(self).holds(h.push(_data@)),
//@end
//@fn src/agg.rs <Count as Agg>::reset
  ensures final(self).init == old(self).init, final(self).holds(seq![]),
//@end
//@fn src/agg.rs <Count as Agg>::value (r)
  ensures r == fint(self.val as int),
//@sub /self\.val as f64/ => verif_fint(self.val as i128)
//@end
//@fn src/agg.rs <Count as Agg>::result (r)
  ensures *final(self) == *old(self), r is Ok ==> final(w).out() == old(w).out() + shown(fmt, fint(old(self).val as int)),
//@end
}
// ---- sum and mean
pub open spec fn total(h: H) -> f64 decreases h.len() { if h.len() == 0 { 0.0f64 } else { fadd(total(h.drop_last()), fof(h.last())) } }
pub open spec fn fcount(h: H) -> f64 decreases h.len() { if h.len() == 0 { 0.0f64 } else { fadd(fcount(h.drop_last()), 1.0f64) } }
pub proof fn lemma_total(h: H, d: Seq<u8>) ensures total(h.push(d)) == fadd(total(h), fof(d)), fcount(h.push(d)) == fadd(fcount(h), 1.0f64) { assert(h.push(d).drop_last() =~= h); }
//@item src/agg.rs struct Sum
impl Sum {
    pub open spec fn holds(&self, h: H) -> bool { self.val == total(h) }
//@fn src/agg.rs <Sum as Agg>::add
  ensures forall|h: H| old(self).holds(h) ==> #[trigger] final(self).holds(h.push(data@)),
//@sub /self\.val \+= data\.to_f64_lossy\(\);/ => self.val = verif_fadd(self.val, verif_fof(data)); proof { assert forall|h: H| old(self).holds(h) implies #[trigger] self.holds(h.push(data@)) by { lemma_total(h, data@); } }
//@end
//@fn src/agg.rs <Sum as Agg>::reset
  ensures final(self).holds(seq![]),
//@end
//@fn src/agg.rs <Sum as Agg>::value (r)
  ensures r == self.val,
//@end
//@fn src/agg.rs <Sum as Agg>::result (r)
  ensures *final(self) == *old(self), r is Ok ==> final(w).out() == old(w).out() + shown(fmt, old(self).val),
//@end
}
//@item src/agg.rs struct Mean
impl Mean {
    pub open spec fn holds(&self, h: H) -> bool { self.val == total(h) && self.cnt == fcount(h) }
    pub open spec fn mean(&self) -> f64 { if fpos(self.cnt) { fdiv(self.val, self.cnt) } else { 0.0f64 } }
//@fn src/agg.rs <Mean as Agg>::add
  ensures forall|h: H| old(self).holds(h) ==> #[trigger] final(self).holds(h.push(data@)),
//@sub /self\.val \+= data\.to_f64_lossy\(\);/ => self.val = verif_fadd(self.val, verif_fof(data));
//@sub /self\.cnt \+= 1\.0;/ => self.cnt = verif_fadd(self.cnt, 1.0); proof { assert forall|h: H| old(self).holds(h) implies #[trigger] self.holds(h.push(data@)) by { lemma_total(h, data@); } }
//@end
//@fn src/agg.rs <Mean as Agg>::reset
  ensures final(self).holds(seq![]),
//@end
//@fn src/agg.rs <Mean as Agg>::value (r)
  ensures r == self.mean(),
//@sub /self\.cnt > 0\.0/ => verif_fpos(self.cnt)
//@sub /self\.val \/ self\.cnt/ => verif_fdiv(self.val, self.cnt)
//@end
//@fn src/agg.rs <Mean as Agg>::result (r)
  ensures *final(self) == *old(self), r is Ok ==> final(w).out() == old(w).out() + shown(fmt, old(self).mean()),
//@end
}
// ---- minimum and maximum
/// the first of the values no other is better than
pub open spec fn best(o: int, worse: Ordering, h: H) -> Seq<u8> decreases h.len() { if h.len() <= 0 { seq![] } else if h.len() == 1 { h[0] } else { let b = best(o, worse, h.drop_last()); if ord(o, b, h.last()) == worse { h.last() } else { b } } }
pub proof fn lemma_best(o: int, worse: Ordering, h: H, d: Seq<u8>) ensures best(o, worse, h.push(d)) == (if h.len() == 0 { d } else if ord(o, best(o, worse, h), d) == worse { d } else { best(o, worse, h) }) { assert(h.push(d).drop_last() =~= h); }
/// it is one of the values, and none is smaller (larger)
pub proof fn theorem_best(o: int, worse: Ordering, h: H)
  requires h.len() > 0, worse != Ordering::Equal,
  ensures exists|i: int| 0 <= i < h.len() && #[trigger] h[i] == best(o, worse, h), forall|i: int| 0 <= i < h.len() ==> ord(o, best(o, worse, h), #[trigger] h[i]) != worse,
  decreases h.len(),
{
    let n = h.len() - 1; let b = best(o, worse, h);
    axiom_ord_flip(o, h[n], h[n]);
    if n > 0 {
        let g = h.drop_last(); theorem_best(o, worse, g); let b0 = best(o, worse, g);
        let i0 = choose|i: int| 0 <= i < g.len() && #[trigger] g[i] == b0; assert(h[i0] == b0);
        assert forall|i: int| 0 <= i < h.len() implies ord(o, b, #[trigger] h[i]) != worse by {
            if i < n { assert(g[i] == h[i]); if b == h[n] && ord(o, b0, h[n]) == worse {
                axiom_ord_flip(o, b0, h[n]); axiom_ord_flip(o, b0, h[i]); axiom_ord_flip(o, h[n], h[i]);
                if worse == Ordering::Greater { axiom_ord_trans(o, h[n], b0, h[i]); } else { axiom_ord_trans(o, h[i], b0, h[n]); }
            } }
        }
    }
}
//@item src/agg.rs struct Min
impl Min {
    pub open spec fn holds(&self, h: H) -> bool { self.empty == (h.len() == 0) && self.val@ == best(order(self.comp), Ordering::Greater, h) }
//@fn src/agg.rs <Min as Agg>::add
  ensures final(self).comp == old(self).comp, forall|h: H| old(self).holds(h) ==> #[trigger] final(self).holds(h.push(data@)),
//@start
  let ghost o = order(self.comp); proof { assert forall|h: H| #[trigger] best(o, Ordering::Greater, h.push(data@)) == (if h.len() == 0 { data@ } else if ord(o, best(o, Ordering::Greater, h), data@) == Ordering::Greater { data@ } else { best(o, Ordering::Greater, h) }) by { lemma_best(o, Ordering::Greater, h, data@); } assert(Seq::<u8>::empty() + data@ =~= data@); assert(best(o, Ordering::Greater, seq![]) == Seq::<u8>::empty()); }
//@before /return;/
  proof { assert forall|h: H| old(self).holds(h) implies #[trigger] self.holds(h.push(data@)) by { assert(h =~= seq![]); } }
//@sub /&self\.val, data/ => self.val.as_slice(), data
//@end
//@fn src/agg.rs <Min as Agg>::reset
  ensures final(self).comp == old(self).comp, final(self).holds(seq![]),
//@end
//@fn src/agg.rs <Min as Agg>::value (r)
  ensures r == fof(self.val@),
//@sub /self\.val\.to_f64_lossy\(\)/ => verif_fof(self.val.as_slice())
//@end
//@fn src/agg.rs <Min as Agg>::result (r)
  ensures *final(self) == *old(self), r is Ok ==> final(w).out() == old(w).out() + old(self).val@,
//@end
}
//@item src/agg.rs struct Max
impl Max {
    pub open spec fn holds(&self, h: H) -> bool { self.empty == (h.len() == 0) && self.val@ == best(order(self.comp), Ordering::Less, h) }
//@fn src/agg.rs <Max as Agg>::add
  ensures final(self).comp == old(self).comp, forall|h: H| old(self).holds(h) ==> #[trigger] final(self).holds(h.push(data@)),
//@start
  let ghost o = order(self.comp); proof { assert forall|h: H| #[trigger] best(o, Ordering::Less, h.push(data@)) == (if h.len() == 0 { data@ } else if ord(o, best(o, Ordering::Less, h), data@) == Ordering::Less { data@ } else { best(o, Ordering::Less, h) }) by { lemma_best(o, Ordering::Less, h, data@); } assert(Seq::<u8>::empty() + data@ =~= data@); assert(best(o, Ordering::Less, seq![]) == Seq::<u8>::empty()); }
//@before /return;/
  proof { assert forall|h: H| old(self).holds(h) implies #[trigger] self.holds(h.push(data@)) by { assert(h =~= seq![]); } }
//@sub /&self\.val, data/ => self.val.as_slice(), data
//@end
//@fn src/agg.rs <Max as Agg>::reset
  ensures final(self).comp == old(self).comp, final(self).holds(seq![]),
//@end
//@fn src/agg.rs <Max as Agg>::value (r)
  ensures r == fof(self.val@),
//@sub /self\.val\.to_f64_lossy\(\)/ => verif_fof(self.val.as_slice())
//@end
//@fn src/agg.rs <Max as Agg>::result (r)
  ensures *final(self) == *old(self), r is Ok ==> final(w).out() == old(w).out() + old(self).val@,
//@end
}
// ---- prefix and suffix
/// the longest text both start with
pub open spec fn is_lcp(p: Seq<u8>, a: Seq<u8>, b: Seq<u8>) -> bool { p.is_prefix_of(a) && p.is_prefix_of(b) && (p.len() < a.len() && p.len() < b.len() ==> a[p.len() as int] != b[p.len() as int]) }
pub open spec fn lcp(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> decreases a.len() { if a.len() == 0 || b.len() == 0 || a[0] != b[0] { seq![] } else { seq![a[0]] + lcp(a.skip(1), b.skip(1)) } }
pub proof fn lemma_lcp(p: Seq<u8>, a: Seq<u8>, b: Seq<u8>) requires is_lcp(p, a, b), ensures p == lcp(a, b) decreases a.len()
{
    if p.len() == 0 { assert(p =~= seq![]); assert(lcp(a, b) =~= seq![]); }
    else { assert(a[0] == p[0] && b[0] == p[0]); let q = p.skip(1); assert(is_lcp(q, a.skip(1), b.skip(1))) by { assert(q =~= a.skip(1).subrange(0, q.len() as int)); assert(q =~= b.skip(1).subrange(0, q.len() as int)); } lemma_lcp(q, a.skip(1), b.skip(1)); assert(p =~= seq![p[0]] + q); }
}
pub proof fn lemma_lcp_is(a: Seq<u8>, b: Seq<u8>) ensures is_lcp(lcp(a, b), a, b) decreases a.len()
{ if a.len() > 0 && b.len() > 0 && a[0] == b[0] { lemma_lcp_is(a.skip(1), b.skip(1)); let q = lcp(a.skip(1), b.skip(1)); let p = lcp(a, b);
    assert(p =~= a.subrange(0, p.len() as int)) by { assert forall|i: int| 0 <= i < p.len() implies p[i] == a[i] by { if i > 0 { assert(p[i] == q[i - 1]); assert(a.skip(1)[i - 1] == a[i]); } } }
    assert(p =~= b.subrange(0, p.len() as int)) by { assert forall|i: int| 0 <= i < p.len() implies p[i] == b[i] by { if i > 0 { assert(p[i] == q[i - 1]); assert(b.skip(1)[i - 1] == b[i]); } } } } }
pub open spec fn common(h: H) -> Seq<u8> decreases h.len() { if h.len() <= 0 { seq![] } else if h.len() == 1 { h[0] } else { lcp(common(h.drop_last()), h.last()) } }
/// every value starts with it, and with nothing longer in common
pub proof fn theorem_common(h: H)
  requires h.len() > 0,
  ensures forall|i: int| 0 <= i < h.len() ==> common(h).is_prefix_of(#[trigger] h[i]), forall|q: Seq<u8>| (forall|i: int| 0 <= i < h.len() ==> q.is_prefix_of(#[trigger] h[i])) ==> #[trigger] q.len() <= common(h).len(),
  decreases h.len(),
{
    if h.len() > 1 {
        let g = h.drop_last(); let n = h.len() - 1; theorem_common(g); lemma_lcp_is(common(g), h[n]); let c = common(h);
        assert forall|i: int| 0 <= i < h.len() implies c.is_prefix_of(#[trigger] h[i]) by { if i < n { assert(g[i] == h[i]); assert(common(g).is_prefix_of(g[i])); assert(c =~= h[i].subrange(0, c.len() as int)); } }
        assert forall|q: Seq<u8>| (forall|i: int| 0 <= i < h.len() ==> q.is_prefix_of(#[trigger] h[i])) implies #[trigger] q.len() <= c.len() by {
            assert forall|i: int| 0 <= i < g.len() implies q.is_prefix_of(#[trigger] g[i]) by { assert(g[i] == h[i]); }
            assert(q.is_prefix_of(h[n]));
            assert(q.len() <= common(g).len());
            if q.len() > c.len() { let k = c.len() as int; assert(q.is_prefix_of(h[0])); assert(g[0] == h[0]); assert(common(g).is_prefix_of(g[0])); assert(q[k] == h[0][k]); assert(common(g)[k] == h[0][k]); assert(q[k] == h[n][k]); }
        }
    }
}
//@fn src/agg.rs common_prefix
  ensures final(val)@ == lcp(old(val)@, data@),
//@sub /for x in 0\.\.val\.len\(\)/ => for x in it: 0..val.len()
//@start
  let ghost v0 = val@;
//@beforeloop 0
  let ghost v1 = val@; proof { assert(v1 =~= v0.subrange(0, v1.len() as int)); }
//@loop 0 f
  invariant_except_break val@ == v1, forall|k: int| 0 <= k < x ==> v1[k] == data@[k],
  invariant it.snapshot.end == v1.len(), v1.len() <= data@.len(), v1.len() <= v0.len(), v1 == v0.subrange(0, v1.len() as int), v1.len() == v0.len() || v1.len() == data@.len(),
  ensures is_lcp(val@, v0, data@),
//@loopstart 0
  proof { let p = v1.subrange(0, x as int); assert(p =~= v0.subrange(0, x as int)); assert(p =~= data@.subrange(0, x as int)); }
//@afterloop 0
  proof { lemma_lcp(val@, v0, data@); }
//@end
pub proof fn lemma_common(h: H, d: Seq<u8>) ensures common(h.push(d)) == (if h.len() == 0 { d } else { lcp(common(h), d) }) { assert(h.push(d).drop_last() =~= h); }
//@item src/agg.rs struct Prefix
impl Prefix {
    pub open spec fn holds(&self, h: H) -> bool { self.empty == (h.len() == 0) && self.val@ == common(h) }
//@fn src/agg.rs <Prefix as Agg>::add
  ensures forall|h: H| old(self).holds(h) ==> #[trigger] final(self).holds(h.push(data@)),
//@start
  proof { assert forall|h: H| #[trigger] common(h.push(data@)) == (if h.len() == 0 { data@ } else { lcp(common(h), data@) }) by { lemma_common(h, data@); } assert(Seq::<u8>::empty() + data@ =~= data@); }
//@end
//@fn src/agg.rs <Prefix as Agg>::reset
  ensures final(self).holds(seq![]),
//@end
//@fn src/agg.rs <Prefix as Agg>::result (r)
  ensures *final(self) == *old(self), r is Ok ==> final(w).out() == old(w).out() + old(self).val@,
//@end
}
/// the longest text both end with
pub open spec fn rev(s: Seq<u8>) -> Seq<u8> { s.reverse() }
pub open spec fn lcs(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { lcp(a.reverse(), b.reverse()).reverse() }
#[verifier::external_body]
pub fn verif_drop_front(v: &mut Vec<u8>, n: usize) requires n <= old(v)@.len(), ensures final(v)@ == old(v)@.skip(n as int) { unimplemented!() }
pub fn verif_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn verif_max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
//@fn src/agg.rs common_suffix
  ensures final(val)@ == lcs(old(val)@, data@),
//@sub /let mut ok_bytes = 0;/ => let mut ok_bytes: usize = 0;
//@sub /for x in val\.iter\(\)\.rev\(\)\.zip\(data\.iter\(\)\.rev\(\)\) \{/ => for vk in 0..verif_min(val.len(), data.len()) { let x = (&val[val.len() - 1 - vk], &data[data.len() - 1 - vk]);
//@sub /x\.0 == x\.1/ => *x.0 == *x.1
//@sub /val\.drain\(0\.\.(\(val\.len\(\) - ok_bytes\))\);/ => verif_drop_front(val, \1);
//@start
  let ghost v0 = val@; let ghost a = val@.reverse(); let ghost b = data@.reverse();
//@loop 0 f
  invariant_except_break ok_bytes == vk,
  invariant val@ == v0, a == v0.reverse(), b == data@.reverse(), ok_bytes <= v0.len(), ok_bytes <= data@.len(), forall|k: int| 0 <= k < ok_bytes ==> a[k] == b[k],
  ensures ok_bytes < a.len() && ok_bytes < b.len() ==> a[ok_bytes as int] != b[ok_bytes as int],
//@afterloop 0
  proof { let p = a.subrange(0, ok_bytes as int); assert(p =~= b.subrange(0, ok_bytes as int)); lemma_lcp(p, a, b); assert(p.reverse() =~= v0.skip(v0.len() - ok_bytes)); assert(v0.skip(0) =~= v0); }
//@end
pub open spec fn ending(h: H) -> Seq<u8> decreases h.len() { if h.len() <= 0 { seq![] } else if h.len() == 1 { h[0] } else { lcs(ending(h.drop_last()), h.last()) } }
pub proof fn lemma_ending(h: H, d: Seq<u8>) ensures ending(h.push(d)) == (if h.len() == 0 { d } else { lcs(ending(h), d) }) { assert(h.push(d).drop_last() =~= h); }
/// the common suffix is the common prefix of the values read from the right
pub proof fn theorem_ending(h: H) ensures ending(h) == common(h.map_values(|s: Seq<u8>| s.reverse())).reverse() decreases h.len()
{
    let m = h.map_values(|s: Seq<u8>| s.reverse());
    if h.len() == 0 { assert(Seq::<u8>::empty().reverse() =~= Seq::<u8>::empty()); }
    else if h.len() == 1 { assert(h[0].reverse().reverse() =~= h[0]); }
    else { theorem_ending(h.drop_last()); assert(m.drop_last() =~= h.drop_last().map_values(|s: Seq<u8>| s.reverse())); let c = common(m.drop_last()); assert(c.reverse().reverse() =~= c); }
}
//@item src/agg.rs struct Suffix
impl Suffix {
    pub open spec fn holds(&self, h: H) -> bool { self.empty == (h.len() == 0) && self.val@ == ending(h) }
//@fn src/agg.rs <Suffix as Agg>::add
  ensures forall|h: H| old(self).holds(h) ==> #[trigger] final(self).holds(h.push(data@)),
//@start
  proof { assert forall|h: H| #[trigger] ending(h.push(data@)) == (if h.len() == 0 { data@ } else { lcs(ending(h), data@) }) by { lemma_ending(h, data@); } assert(Seq::<u8>::empty() + data@ =~= data@); }
//@end
//@fn src/agg.rs <Suffix as Agg>::reset
  ensures final(self).holds(seq![]),
//@end
//@fn src/agg.rs <Suffix as Agg>::result (r)
  ensures *final(self) == *old(self), r is Ok ==> final(w).out() == old(w).out() + old(self).val@,
//@end
}
// ---- counters
/// how many runs of true there are
pub open spec fn runs(s: Seq<bool>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { runs(s.drop_last()) + (if s.last() && (s.len() == 1 || !s[s.len() - 2]) { 1nat } else { 0 }) } }
pub proof fn lemma_runs(s: Seq<bool>, b: bool) ensures runs(s.push(b)) == runs(s) + (if b && (s.len() == 0 || !s.last()) { 1nat } else { 0 }), runs(s) <= s.len() decreases s.len() { assert(s.push(b).drop_last() =~= s); if s.len() > 0 { lemma_runs(s.drop_last(), s.last()); assert(s.drop_last().push(s.last()) =~= s); } }
/// the characters of a text, ill-formed parts replaced
pub uninterp spec fn chars(d: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
pub fn verif_chars(d: &[u8]) -> (r: Vec<char>) ensures r@ == chars(d@), r@.len() <= d@.len() { unimplemented!() }
pub uninterp spec fn blank(c: char) -> bool;
pub uninterp spec fn alnum(c: char) -> bool;
#[verifier::external_body]
pub fn verif_blank(c: char) -> (r: bool) ensures r == blank(c) { unimplemented!() }
#[verifier::external_body]
pub fn verif_alnum(c: char) -> (r: bool) ensures r == alnum(c) { unimplemented!() }
pub open spec fn alnum8(c: u8) -> bool { is_digit(c) || 65u8 <= c <= 90u8 || 97u8 <= c <= 122u8 }
#[verifier::external_body]
pub fn verif_alnum8(c: u8) -> (r: bool) ensures r == alnum8(c) { unimplemented!() }
pub open spec fn bits8(d: Seq<u8>, f: spec_fn(u8) -> bool) -> Seq<bool> { d.map_values(f) }
pub open spec fn bitsc(d: Seq<char>, f: spec_fn(char) -> bool) -> Seq<bool> { d.map_values(f) }
pub open spec fn count_of(kind: int, d: Seq<u8>) -> nat {
    if kind == 0 { d.len() } else if kind == 1 { chars(d).len() }
    else if kind == 2 { runs(bits8(d, |c: u8| c > 32)) } else if kind == 3 { runs(bitsc(chars(d), |c: char| !blank(c))) }
    else if kind == 4 { runs(bits8(d, |c: u8| alnum8(c))) } else { runs(bitsc(chars(d), |c: char| alnum(c))) }
}
pub trait Counter {
    spec fn kind(&self) -> int;
    fn counter(&mut self, data: &[u8]) -> (r: usize) ensures final(self).kind() == old(self).kind(), r == count_of(old(self).kind(), data@);
}
//@item src/agg.rs struct Chars
impl Counter for Chars {
    open spec fn kind(&self) -> int { if self.utf8 { 1 } else { 0 } }
//@fn src/agg.rs <Chars as Counter>::counter (r)
//@sub /String::from_utf8_lossy\(data\)\.chars\(\)\.count\(\)/ => verif_chars(data).len()
//@end
}
//@item src/agg.rs struct Swords
impl Counter for Swords {
    open spec fn kind(&self) -> int { if self.utf8 { 3 } else { 2 } }
#[verifier::loop_isolation(false)]
//@fn src/agg.rs <Swords as Counter>::counter (r)
//@sub /let mut ret = 0;/ => let mut ret: usize = 0;
//@sub /for x in String::from_utf8_lossy\(data\)\.chars\(\) \{/ => let vc = verif_chars(data); for x in vc.iter() {
//@sub /x\.is_whitespace\(\)/ => verif_blank(*x)
//@sub /for x in data \{/ => for x in data.iter() {
//@start
  let ghost fc = |c: char| !blank(c); let ghost f8 = |c: u8| c > 32;
  proof { assert(bits8(data@.take(0), f8) =~= seq![]); assert(bitsc(chars(data@).take(0), fc) =~= seq![]); }
//@loop 0 d
  invariant vi0 <= vc@.len(), saw_space == !(vi0 > 0 && fc(vc@[vi0 - 1])), ret == runs(bitsc(vc@.take(vi0 as int), fc)), ret <= vi0,
  decreases vc@.len() - vi0,
//@loopstart 0
  proof { let s = bitsc(vc@.take(vi0 as int), fc); assert(bitsc(vc@.take(vi0 + 1), fc) =~= s.push(fc(vc@[vi0 as int]))); lemma_runs(s, fc(vc@[vi0 as int])); }
//@afterloop 0
  proof { assert(vc@.take(vc@.len() as int) =~= vc@); }
//@loop 1 d
  invariant vi1 <= data@.len(), saw_space == !(vi1 > 0 && f8(data@[vi1 - 1])), ret == runs(bits8(data@.take(vi1 as int), f8)), ret <= vi1,
  decreases data@.len() - vi1,
//@loopstart 1
  proof { let s = bits8(data@.take(vi1 as int), f8); assert(bits8(data@.take(vi1 + 1), f8) =~= s.push(f8(data@[vi1 as int]))); lemma_runs(s, f8(data@[vi1 as int])); }
//@afterloop 1
  proof { assert(data@.take(data@.len() as int) =~= data@); }
//@end
}
//@item src/agg.rs struct Awords
impl Counter for Awords {
    open spec fn kind(&self) -> int { if self.utf8 { 5 } else { 4 } }
#[verifier::loop_isolation(false)]
//@fn src/agg.rs <Awords as Counter>::counter (r)
//@sub /let mut ret = 0;/ => let mut ret: usize = 0;
//@sub /for x in String::from_utf8_lossy\(data\)\.chars\(\) \{/ => let vc = verif_chars(data); for x in vc.iter() {
//@sub /x\.is_alphanumeric\(\)/ => verif_alnum(*x)
//@sub /x\.is_ascii_alphanumeric\(\)/ => verif_alnum8(*x)
//@sub /for x in data \{/ => for x in data.iter() {
//@start
  let ghost fc = |c: char| alnum(c); let ghost f8 = |c: u8| alnum8(c);
  proof { assert(bits8(data@.take(0), f8) =~= seq![]); assert(bitsc(chars(data@).take(0), fc) =~= seq![]); }
//@loop 0 d
  invariant vi0 <= vc@.len(), saw_space == !(vi0 > 0 && fc(vc@[vi0 - 1])), ret == runs(bitsc(vc@.take(vi0 as int), fc)), ret <= vi0,
  decreases vc@.len() - vi0,
//@loopstart 0
  proof { let s = bitsc(vc@.take(vi0 as int), fc); assert(bitsc(vc@.take(vi0 + 1), fc) =~= s.push(fc(vc@[vi0 as int]))); lemma_runs(s, fc(vc@[vi0 as int])); }
//@afterloop 0
  proof { assert(vc@.take(vc@.len() as int) =~= vc@); }
//@loop 1 d
  invariant vi1 <= data@.len(), saw_space == !(vi1 > 0 && f8(data@[vi1 - 1])), ret == runs(bits8(data@.take(vi1 as int), f8)), ret <= vi1,
  decreases data@.len() - vi1,
//@loopstart 1
  proof { let s = bits8(data@.take(vi1 as int), f8); assert(bits8(data@.take(vi1 + 1), f8) =~= s.push(f8(data@[vi1 as int]))); lemma_runs(s, f8(data@[vi1 as int])); }
//@afterloop 1
  proof { assert(data@.take(data@.len() as int) =~= data@); }
//@end
}
// ---- statistics of a counter
pub open spec fn csum(k: int, h: H) -> nat decreases h.len() { if h.len() == 0 { 0 } else { csum(k, h.drop_last()) + count_of(k, h.last()) } }
pub open spec fn cmin(k: int, h: H) -> int decreases h.len() { if h.len() == 0 { usize::MAX as int } else { let a = cmin(k, h.drop_last()); let b = count_of(k, h.last()) as int; if a <= b { a } else { b } } }
pub open spec fn cmax(k: int, h: H) -> int decreases h.len() { if h.len() == 0 { 0 } else { let a = cmax(k, h.drop_last()); let b = count_of(k, h.last()) as int; if a >= b { a } else { b } } }
pub proof fn lemma_drop(h: H, d: Seq<u8>) ensures h.push(d).drop_last() == h, h.push(d).last() == d { assert(h.push(d).drop_last() =~= h); }
//@gsub /self\.val as f64/ => verif_fint(self.val as i128)
//@gsub /self\.num as f64/ => verif_fint(self.num as i128)
//@item src/agg.rs struct ASum
impl ASum {
    pub open spec fn holds(&self, h: H) -> bool { self.val == csum(self.cnt.kind(), h) }
//@fn src/agg.rs <ASum as Agg>::add
  requires old(self).val + count_of(old(self).cnt.kind(), data@) <= usize::MAX,
  ensures final(self).cnt.kind() == old(self).cnt.kind(), forall|h: H| old(self).holds(h) ==> #[trigger] final(self).holds(h.push(data@)),
//@start
  proof { assert forall|h: H| (#[trigger] h.push(data@)).drop_last() == h && h.push(data@).last() == data@ by { lemma_drop(h, data@); } }
//@end
//@fn src/agg.rs <ASum as Agg>::reset
  ensures final(self).cnt.kind() == old(self).cnt.kind(), final(self).holds(seq![]),
//@end
//@fn src/agg.rs <ASum as Agg>::value (r)
  ensures r == fint(self.val as int),
//@end
//@fn src/agg.rs <ASum as Agg>::result (r)
  ensures *final(self) == *old(self), r is Ok ==> final(w).out() == old(w).out() + shown(fmt, fint(old(self).val as int)),
//@end
}
//@item src/agg.rs struct AMin
impl AMin {
    pub open spec fn holds(&self, h: H) -> bool { self.val == cmin(self.cnt.kind(), h) }
//@fn src/agg.rs <AMin as Agg>::add
  ensures final(self).cnt.kind() == old(self).cnt.kind(), forall|h: H| old(self).holds(h) ==> #[trigger] final(self).holds(h.push(data@)),
//@sub /cmp::min/ => verif_min
//@start
  proof { assert forall|h: H| (#[trigger] h.push(data@)).drop_last() == h && h.push(data@).last() == data@ by { lemma_drop(h, data@); } }
//@end
//@fn src/agg.rs <AMin as Agg>::reset
  ensures final(self).cnt.kind() == old(self).cnt.kind(), final(self).holds(seq![]),
//@end
//@fn src/agg.rs <AMin as Agg>::value (r)
  ensures r == fint(self.val as int),
//@end
//@fn src/agg.rs <AMin as Agg>::result (r)
  ensures *final(self) == *old(self), r is Ok ==> final(w).out() == old(w).out() + shown(fmt, fint(old(self).val as int)),
//@end
}
//@item src/agg.rs struct AMax
impl AMax {
    pub open spec fn holds(&self, h: H) -> bool { self.val == cmax(self.cnt.kind(), h) }
//@fn src/agg.rs <AMax as Agg>::add
  ensures final(self).cnt.kind() == old(self).cnt.kind(), forall|h: H| old(self).holds(h) ==> #[trigger] final(self).holds(h.push(data@)),
//@sub /cmp::max/ => verif_max
//@start
  proof { assert forall|h: H| (#[trigger] h.push(data@)).drop_last() == h && h.push(data@).last() == data@ by { lemma_drop(h, data@); } }
//@end
//@fn src/agg.rs <AMax as Agg>::reset
  ensures final(self).cnt.kind() == old(self).cnt.kind(), final(self).holds(seq![]),
//@end
//@fn src/agg.rs <AMax as Agg>::value (r)
  ensures r == fint(self.val as int),
//@end
//@fn src/agg.rs <AMax as Agg>::result (r)
  ensures *final(self) == *old(self), r is Ok ==> final(w).out() == old(w).out() + shown(fmt, fint(old(self).val as int)),
//@end
}
//@item src/agg.rs struct AMean
impl AMean {
    pub open spec fn holds(&self, h: H) -> bool { self.val == csum(self.cnt.kind(), h) && self.num == h.len() }
//@fn src/agg.rs <AMean as Agg>::add
  requires old(self).val + count_of(old(self).cnt.kind(), data@) <= usize::MAX, old(self).num < usize::MAX,
  ensures final(self).cnt.kind() == old(self).cnt.kind(), forall|h: H| old(self).holds(h) ==> #[trigger] final(self).holds(h.push(data@)),
//@start
  proof { assert forall|h: H| (#[trigger] h.push(data@)).drop_last() == h && h.push(data@).last() == data@ by { lemma_drop(h, data@); } }
//@end
//@fn src/agg.rs <AMean as Agg>::reset
  ensures final(self).cnt.kind() == old(self).cnt.kind(), final(self).holds(seq![]),
//@end

    pub open spec fn mean(&self) -> f64 { if self.num > 0 { fdiv(fint(self.val as int), fint(self.num as int)) } else { 0.0f64 } }
//@fn src/agg.rs <AMean as Agg>::value (r)
  ensures r == self.mean(),
//@sub /self\.val as f64 \/ self\.num as f64/ => verif_fdiv(self.val as f64, self.num as f64)
//@end
//@fn src/agg.rs <AMean as Agg>::result (r)
  ensures *final(self) == *old(self), r is Ok ==> final(w).out() == old(w).out() + shown(fmt, old(self).mean()),
//@end
}
// ---- merge
#[derive(Copy, Clone)]
//@item src/util.rs struct FakeSlice
pub struct TextLine { pub line: Vec<u8>, pub parts: Vec<FakeSlice> }
impl FakeSlice {
    pub open spec fn ok(self, n: int) -> bool { self.begin <= self.end <= n }
    pub open spec fn of(self, s: Seq<u8>) -> Seq<u8> { s.subrange(self.begin as int, self.end as int) }
    /// C06
    #[verifier::external_body]
    pub fn get<'a>(&self, data: &'a [u8]) -> (r: &'a [u8]) requires self.ok(data@.len() as int), ensures r@ == self.of(data@) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) requires self.begin <= self.end, ensures r == self.end - self.begin { unimplemented!() }
}
pub open spec fn marks(parts: Seq<FakeSlice>, s: Seq<u8>, c: Seq<Seq<u8>>) -> bool {
    parts.len() == c.len() && forall|i: int| 0 <= i < parts.len() ==> (#[trigger] parts[i]).ok(s.len() as int) && parts[i].of(s) == c[i]
}
/// split_plain, proved in C06
#[verifier::external_body]
pub fn split_plain(parts: &mut Vec<FakeSlice>, line: &[u8], delim: u8)
  requires line@.len() < u32::MAX, delim != 10u8,
  ensures line@.len() > 0 ==> marks(final(parts)@, line@, columns(line@, delim)), line@.len() == 0 ==> final(parts)@.len() == 0,
{ unimplemented!() }
/// slice::sort_by and Vec::dedup_by with the comparator, stated on the texts
pub uninterp spec fn sorted(o: int, c: Seq<Seq<u8>>) -> Seq<Seq<u8>>;
pub uninterp spec fn thinned(o: int, c: Seq<Seq<u8>>) -> Seq<Seq<u8>>;
#[verifier::external_body]
pub fn verif_sort(p: &mut Vec<FakeSlice>, line: &[u8], c: &Comp) ensures forall|t: Seq<Seq<u8>>| #[trigger] marks(old(p)@, line@, t) ==> marks(final(p)@, line@, sorted(order(*c), t)) { unimplemented!() }
#[verifier::external_body]
pub fn verif_dedup(p: &mut Vec<FakeSlice>, line: &[u8], c: &Comp) ensures forall|t: Seq<Seq<u8>>| #[trigger] marks(old(p)@, line@, t) ==> marks(final(p)@, line@, thinned(order(*c), t)) { unimplemented!() }
//@item src/agg.rs struct Merge
/// the non-empty values, with the delimiter between them
pub open spec fn gathered(h: H, d: u8) -> Seq<u8> decreases h.len() { if h.len() == 0 { seq![] } else { let g = gathered(h.drop_last(), d); if h.last().len() == 0 { g } else if g.len() == 0 { h.last() } else { g.push(d) + h.last() } } }
/// the parts of all the values, in order
pub open spec fn all_parts(h: H, d: u8) -> Seq<Seq<u8>> decreases h.len() { if h.len() == 0 { seq![] } else { all_parts(h.drop_last(), d) + (if h.last().len() == 0 { seq![] } else { pieces(h.last(), d) }) } }
pub proof fn lemma_pieces_cat(a: Seq<u8>, b: Seq<u8>, d: u8) ensures pieces(a.push(d) + b, d) == pieces(a, d) + pieces(b, d) decreases b.len()
{
    let x = a.push(d) + b; lemma_pieces_len(a, d); lemma_pieces_len(b, d);
    if b.len() == 0 { assert(x.drop_last() =~= a); assert(pieces(x, d) =~= pieces(a, d) + pieces(b, d)); }
    else { assert(x.drop_last() =~= a.push(d) + b.drop_last()); lemma_pieces_cat(a, b.drop_last(), d); lemma_pieces_len(b.drop_last(), d);
      let p = pieces(b.drop_last(), d); let q = pieces(a, d); assert((q + p).drop_last() =~= q + p.drop_last()); assert((q + p).last() == p.last()); assert(pieces(x, d) =~= q + pieces(b, d)); }
}
/// what is split again is exactly the parts of the values
pub proof fn theorem_gathered(h: H, d: u8)
  ensures gathered(h, d).len() == 0 ==> all_parts(h, d).len() == 0, gathered(h, d).len() > 0 ==> pieces(gathered(h, d), d) == all_parts(h, d),
  decreases h.len(),
{
    if h.len() > 0 {
        let g = h.drop_last(); theorem_gathered(g, d);
        if h.last().len() == 0 { assert(all_parts(h, d) =~= all_parts(g, d)); }
        else if gathered(g, d).len() == 0 { assert(all_parts(h, d) =~= pieces(h.last(), d)); }
        else { lemma_pieces_cat(gathered(g, d), h.last(), d); }
    }
}
/// those of the first n parts that are not too short or too long, no more than max of them
pub open spec fn kept(c: Seq<Seq<u8>>, lo: int, hi: int, max: int, n: int) -> Seq<Seq<u8>> decreases n { if n <= 0 { seq![] } else { let k = kept(c, lo, hi, max, n - 1); if k.len() < max && lo <= c[n - 1].len() <= hi { k.push(c[n - 1]) } else { k } } }
pub proof fn lemma_kept_full(c: Seq<Seq<u8>>, lo: int, hi: int, max: int, m: int, n: int) requires 0 <= m <= n, kept(c, lo, hi, max, m).len() >= max, ensures kept(c, lo, hi, max, n) == kept(c, lo, hi, max, m) decreases n { if m < n { lemma_kept_full(c, lo, hi, max, m, n - 1); } }
pub open spec fn no_newline(s: Seq<u8>) -> bool { s.len() > 0 ==> s.last() != 10u8 }
impl Merge {
    pub open spec fn holds(&self, h: H) -> bool { self.data.line@ == gathered(h, self.delim) }
    pub open spec fn same(&self, o: &Merge) -> bool { self.delim == o.delim && self.out_delim == o.out_delim && self.max_parts == o.max_parts && self.comp == o.comp && self.do_sort == o.do_sort && self.do_uniq == o.do_uniq && self.min_len == o.min_len && self.max_len == o.max_len && self.do_count == o.do_count }
    /// the parts of the values, sorted and with equal neighbours removed as asked for
    pub open spec fn list(&self, h: H) -> Seq<Seq<u8>> { let a = all_parts(h, self.delim); let b = if self.do_sort { sorted(order(self.comp), a) } else { a }; if self.do_uniq { thinned(order(self.comp), b) } else { b } }
    pub open spec fn text(&self, h: H, fmt: NumFormat) -> Seq<u8> { let c = self.list(h); if self.do_count { shown(fmt, fint(c.len() as int)) } else { joined(kept(c, self.min_len as int, self.max_len as int, self.max_parts as int, c.len() as int), self.out_delim) } }
//@fn src/agg.rs <Merge as Agg>::add
  ensures final(self).same(old(self)), forall|h: H| old(self).holds(h) ==> #[trigger] final(self).holds(h.push(data@)),
//@sub /!self\.data\.line\(\)\.is_empty\(\)/ => !(self.data.line.len() == 0)
//@sub /!data\.is_empty\(\)/ => !(data.len() == 0)
//@sub /self\.data\.raw\(\)\.push/ => self.data.line.push
//@sub /self\.data\.raw\(\)\.extend_from_slice\(data\)/ => verif_extend(&mut self.data.line, data)
//@start
  proof { assert forall|h: H| (#[trigger] h.push(data@)).drop_last() == h && h.push(data@).last() == data@ by { lemma_drop(h, data@); } assert(Seq::<u8>::empty() + data@ =~= data@); assert(self.data.line@.len() == 0 ==> self.data.line@ =~= Seq::<u8>::empty()); }
//@end
//@fn src/agg.rs <Merge as Agg>::reset
  ensures final(self).same(old(self)), final(self).holds(seq![]),
//@sub /self\.data\.clear\(\)/ => self.data.line.clear()
//@end
//@fn src/agg.rs <Merge as Agg>::result (r)
  requires old(self).data.line@.len() < u32::MAX, old(self).delim != 10u8, no_newline(old(self).data.line@),
  ensures final(self).same(old(self)), final(self).data.line == old(self).data.line, r is Ok ==> forall|h: H| #[trigger] old(self).holds(h) ==> final(w).out() == old(w).out() + old(self).text(h, fmt),
//@sub /self\.data\.parts\.sort_by\(\|a, b\| \{\s*self\.comp\s*\.comp\(a\.get\(&self\.data\.line\), b\.get\(&self\.data\.line\)\)\s*\}\);/ => verif_sort(&mut self.data.parts, &self.data.line, &self.comp);
//@sub /self\.data\.parts\.dedup_by\(\|a, b\| \{\s*self\.comp\s*\.equal\(a\.get\(&self\.data\.line\), b\.get\(&self\.data\.line\)\)\s*\}\);/ => verif_dedup(&mut self.data.parts, &self.data.line, &self.comp);
//@sub /self\.data\.parts\(\)\.len\(\) as f64/ => verif_fint(self.data.parts.len() as i128)
//@sub /self\.data\.line\(\)/ => &self.data.line
//@sub /let mut num_written = 0;/ => let mut num_written: usize = 0;
//@start
  let ghost s0 = *self; let ghost o0 = w.out(); let ghost l = self.data.line@;
  let ghost a = if l.len() > 0 { pieces(l, self.delim) } else { seq![] }; let ghost b = if self.do_sort { sorted(order(self.comp), a) } else { a }; let ghost c = if self.do_uniq { thinned(order(self.comp), b) } else { b };
  let ghost (lo, hi, mx) = (self.min_len as int, self.max_len as int, self.max_parts as int);
  proof { assert forall|h: H| #[trigger] s0.holds(h) implies s0.list(h) == c by { theorem_gathered(h, s0.delim); if l.len() == 0 { assert(all_parts(h, s0.delim) =~= a); } } }
//@after /split_plain\([^;]*\);/
  proof { assert(marks(self.data.parts@, l, a)); }
//@before /if self\.do_uniq/
  proof { assert(marks(self.data.parts@, l, b)); }
//@before /if self\.do_count/
  proof { assert(marks(self.data.parts@, l, c)); }
//@loop 0 d
  invariant_except_break num_written == kept(c, lo, hi, mx, vi0 as int).len(), w.out() =~= o0 + joined(kept(c, lo, hi, mx, vi0 as int), self.out_delim),
  invariant self.same(&s0), self.data.line == s0.data.line, l == self.data.line@, lo == self.min_len, hi == self.max_len, mx == self.max_parts, marks(self.data.parts@, l, c), vi0 <= c.len(),
  ensures w.out() =~= o0 + joined(kept(c, lo, hi, mx, c.len() as int), self.out_delim),
  decreases c.len() - vi0,
//@loopstart 0
  let ghost fi = vi0 as int; let ghost kk = kept(c, lo, hi, mx, fi); proof { if kk.len() >= mx { lemma_kept_full(c, lo, hi, mx, fi, c.len() as int); } assert(kk.push(c[fi]).drop_last() =~= kk); lemma_kept_len(c, lo, hi, mx, fi); }
//@end
}
pub proof fn lemma_kept_len(c: Seq<Seq<u8>>, lo: int, hi: int, max: int, n: int) requires 0 <= n, ensures kept(c, lo, hi, max, n).len() <= n decreases n { if n > 0 { lemma_kept_len(c, lo, hi, max, n - 1); } }
fn main() {}
}
