use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
global size_of usize == 8;
//@include std.vrs
//@include io.vrs
//@include str.vrs
//@item src/sampler.rs struct Smooth
pub assume_specification<T> [<[T]>::swap] (v: &mut [T], a: usize, b: usize)
  requires a < old(v)@.len(), b < old(v)@.len(),
  ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int]);
pub type Text = Seq<u8>;
/// n positions of the list, in order and all different
pub open spec fn picks(ix: Seq<int>, n: int, m: int) -> bool { ix.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] ix[i] < m) && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] ix[i] < #[trigger] ix[j]) }
/// the first one is among them, and the last one too when there are two or more
pub open spec fn ends(ix: Seq<int>, n: int, m: int) -> bool { (n > 0 ==> ix[0] == 0) && (n > 1 ==> ix[n - 1] == m - 1) }
pub open spec fn taken(seen: Seq<Text>, ix: Seq<int>) -> Seq<Text> { Seq::new(ix.len(), |i: int| seen[ix[i]]) }
pub open spec fn cat(v: Seq<Text>) -> Text decreases v.len() { if v.len() == 0 { seq![] } else { cat(v.drop_last()) + v.last() } }
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
impl Smooth {
    pub open spec fn ok(self) -> bool { 2 <= self.small <= self.large && (self.small < self.large || self.small == usize::MAX) && (self.large <= 2 * self.small - 2 || self.large <= 3 || self.large <= self.small + 1) && self.goal <= self.small && (self.goal == self.small || self.small == 2) && self.size <= self.data@.len() <= self.large && self.jump >= 1 && (self.pos > 0 ==> self.jump > 1 && self.size > 0) }
    /// the first n lines kept
    pub open spec fn kept(self) -> Seq<Text> { Seq::new(self.size as nat, |i: int| self.data@[i]@) }
    pub open spec fn are(self, seen: Seq<Text>, ix: Seq<int>) -> bool { picks(ix, self.size as int, seen.len() as int) && (self.size > 0 ==> ix[0] == 0 && ix[self.size - 1] == seen.len() - 1) && self.kept() == taken(seen, ix) }
    pub open spec fn picked(self, seen: Seq<Text>, ix: Seq<int>) -> bool { picks(ix, self.size as int, seen.len() as int) && ends(ix, self.size as int, seen.len() as int) && self.kept() == taken(seen, ix) }
    /// after these lines: what is kept is a choice of them, all of them until there are too many
    pub open spec fn after(self, seen: Seq<Text>) -> bool {
        &&& self.ok() && (exists|ix: Seq<int>| self.are(seen, ix))
        &&& (self.jump == 1 ==> self.pos == 0 && self.size == seen.len())
        &&& (self.jump > 1 ==> self.size >= self.small)
        &&& self.data@.len() <= seen.len()
        &&& self.jump + self.pos <= seen.len() + 1 && (self.size == self.large && self.pos == 0 ==> 2 * self.jump <= seen.len())
    }
}
/// data is the old data at positions p
pub open spec fn thinned(data: Seq<Vec<u8>>, old: Seq<Vec<u8>>, p: Seq<int>) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] data[i] == old[p[i]] }
/// floor(i * (old - 2) / (new - 2)) in floating point
pub uninterp spec fn spread(i: int, old: int, new: int) -> int;
#[verifier::external_body]
pub fn verif_spread(i: usize, old: usize, new: usize) -> (r: usize)
  requires 2 < new < old, 0 < i < new - 1,
  ensures r == spread(i as int, old as int, new as int), i <= r <= old - 2,
{ unimplemented!() }
/// trusted: floating point keeps this increasing (sizes below 2^52)
#[verifier::external_body]
pub proof fn axiom_spread(old: int, new: int)
  requires 2 < new < old,
  ensures forall|i: int| 0 < i < new - 1 ==> i <= #[trigger] spread(i, old, new) <= old - 2, forall|i: int, j: int| 0 < i < j < new - 1 ==> #[trigger] spread(i, old, new) < #[trigger] spread(j, old, new),
{ }
pub open spec fn places(old: int, new: int) -> Seq<int> { Seq::new(new as nat, |i: int| if i == 0 { 0 } else if i == new - 1 { old - 1 } else { spread(i, old, new) }) }
pub proof fn lemma_compose(s: Smooth, t: Smooth, seen: Seq<Text>, ix: Seq<int>, p: Seq<int>)
  requires s.ok(), s.are(seen, ix), picks(p, t.size as int, s.size as int), ends(p, t.size as int, s.size as int), thinned(t.data@, s.data@, p), t.size <= t.data@.len(),
  ensures exists|jx: Seq<int>| t.picked(seen, jx),
{
    let jx = Seq::new(p.len(), |i: int| ix[p[i]]);
    assert forall|i: int| 0 <= i < t.size implies t.kept()[i] == taken(seen, jx)[i] by { assert(s.kept()[p[i]] == taken(seen, ix)[p[i]]); }
    assert(t.kept() =~= taken(seen, jx));
    assert(t.picked(seen, jx));
}
/// what one more line does to the list that is kept
pub open spec fn added(s: Smooth, t: Smooth, x: Text) -> bool {
    if s.pos > 0 { t.size == s.size && t.kept() =~= s.kept().update(s.size - 1, x) }
    else if s.size < s.large { t.size == s.size + 1 && t.kept() =~= s.kept().push(x) }
    else { t.size == s.small + 1 && exists|p: Seq<int>| #![auto] picks(p, s.small as int, s.size as int) && ends(p, s.small as int, s.size as int) && t.kept() =~= Seq::new(p.len(), |i: int| s.kept()[p[i]]).push(x) }
}
pub proof fn lemma_over(s: Smooth, t: Smooth, x: Text, seen: Seq<Text>, ix: Seq<int>)
  requires s.ok(), s.pos > 0, s.size > 0, t.size == s.size, t.kept() =~= s.kept().update(s.size - 1, x), s.are(seen, ix), s.size > 1,
  ensures exists|jx: Seq<int>| t.are(seen.push(x), jx),
{
    let m = seen.len() as int; let jx = ix.update(s.size - 1, m);
    assert forall|i: int| 0 <= i < t.size implies #[trigger] t.kept()[i] == taken(seen.push(x), jx)[i] by { if i < s.size - 1 { assert(s.kept()[i] == taken(seen, ix)[i]); } }
    assert(t.kept() =~= taken(seen.push(x), jx)); assert(t.are(seen.push(x), jx));
}
pub proof fn lemma_more(s: Smooth, t: Smooth, x: Text, seen: Seq<Text>, ix: Seq<int>)
  requires s.ok(), t.size == s.size + 1, t.kept() =~= s.kept().push(x), s.are(seen, ix), s.size == 0 ==> seen.len() == 0,
  ensures exists|jx: Seq<int>| t.are(seen.push(x), jx),
{
    let m = seen.len() as int; let jx = ix.push(m);
    assert forall|i: int| 0 <= i < t.size implies #[trigger] t.kept()[i] == taken(seen.push(x), jx)[i] by { if i < s.size { assert(s.kept()[i] == taken(seen, ix)[i]); } }
    assert(t.kept() =~= taken(seen.push(x), jx)); assert(t.are(seen.push(x), jx));
}
pub proof fn lemma_thin(s: Smooth, t: Smooth, x: Text, seen: Seq<Text>, ix: Seq<int>, p: Seq<int>)
  requires s.ok(), t.size == s.small + 1, s.small <= s.size, picks(p, s.small as int, s.size as int), ends(p, s.small as int, s.size as int), t.kept() =~= Seq::new(p.len(), |i: int| s.kept()[p[i]]).push(x), s.are(seen, ix),
  ensures exists|jx: Seq<int>| t.are(seen.push(x), jx),
{
    let m = seen.len() as int; let qx = Seq::new(p.len(), |i: int| ix[p[i]]); let jx = qx.push(m);
    assert forall|i: int| 0 <= i < t.size implies #[trigger] t.kept()[i] == taken(seen.push(x), jx)[i] by { if i < p.len() { assert(s.kept()[p[i]] == taken(seen, ix)[p[i]]); } }
    assert(t.kept() =~= taken(seen.push(x), jx));
    assert(picks(qx, s.small as int, m));
    assert(jx[0] == ix[p[0]]);
    assert(t.are(seen.push(x), jx));
}
pub proof fn lemma_added(s: Smooth, t: Smooth, x: Text)
  requires s.ok(), t.ok(), added(s, t, x), t.small == s.small, t.large == s.large, t.goal == s.goal, s.small < s.large || s.size < s.large, s.size > 0 || s.pos == 0, t.data@.len() <= s.data@.len() + 1,
    t.jump == (if s.pos == 0 && s.size >= s.large { 2 * s.jump } else { s.jump as int }),
    t.pos == (if s.pos == 0 { if t.jump > 1 { 1 } else { 0int } } else if s.pos + 1 >= (if s.size == s.large { 2 * s.jump } else { s.jump as int }) { 0 } else { s.pos + 1 }),
  ensures forall|seen: Seq<Text>| #![trigger s.after(seen)] s.after(seen) ==> t.after(seen.push(x)),
{
    assert forall|seen: Seq<Text>| #![trigger s.after(seen)] s.after(seen) implies t.after(seen.push(x)) by {
        let ix = choose|ix: Seq<int>| s.are(seen, ix);
        lemma_len(ix, s.size as int, seen.len() as int);
        if s.pos > 0 { lemma_over(s, t, x, seen, ix); } else if s.size < s.large { lemma_more(s, t, x, seen, ix); } else {
            let p = choose|p: Seq<int>| #![auto] picks(p, s.small as int, s.size as int) && ends(p, s.small as int, s.size as int) && t.kept() =~= Seq::new(p.len(), |i: int| s.kept()[p[i]]).push(x);
            lemma_thin(s, t, x, seen, ix, p);
        }
    }
}
pub proof fn lemma_final(s: Smooth, t: Smooth)
  requires s.ok(), t.size == imin(imin(s.size as int, s.small as int), s.goal as int), t.size <= t.data@.len(), exists|p: Seq<int>| #![auto] picks(p, imin(s.size as int, s.small as int), s.size as int) && ends(p, imin(s.size as int, s.small as int), s.size as int) && thinned(t.data@, s.data@, p),
  ensures forall|seen: Seq<Text>| #![trigger s.after(seen)] s.after(seen) ==> exists|ix: Seq<int>| picks(ix, imin(s.goal as int, seen.len() as int), seen.len() as int) && ends(ix, imin(s.goal as int, seen.len() as int), seen.len() as int) && t.kept() == #[trigger] taken(seen, ix),
{
    assert forall|seen: Seq<Text>| #![trigger s.after(seen)] s.after(seen) implies exists|ix: Seq<int>| picks(ix, imin(s.goal as int, seen.len() as int), seen.len() as int) && ends(ix, imin(s.goal as int, seen.len() as int), seen.len() as int) && t.kept() == #[trigger] taken(seen, ix) by {
        let ix = choose|ix: Seq<int>| s.are(seen, ix);
        let p = choose|p: Seq<int>| #![auto] picks(p, imin(s.size as int, s.small as int), s.size as int) && ends(p, imin(s.size as int, s.small as int), s.size as int) && thinned(t.data@, s.data@, p);
        let q = p.subrange(0, t.size as int);
        lemma_compose(s, t, seen, ix, q);
        let jx = choose|jx: Seq<int>| t.picked(seen, jx);
        lemma_len(ix, s.size as int, seen.len() as int);
        assert(t.size == imin(s.goal as int, seen.len() as int));
    }
}
/// there are no more picks than lines
pub proof fn lemma_len(ix: Seq<int>, n: int, m: int) requires m >= 0, picks(ix, n, m), ensures n <= m, n > 0 ==> ix[n - 1] >= n - 1, decreases n,
{ if n > 0 { let j = ix.drop_last(); assert(picks(j, n - 1, m)); lemma_len(j, n - 1, m); assert(0 <= ix[n - 1] < m); if n > 1 { assert(ix[n - 2] < ix[n - 1]); assert(j[n - 2] == ix[n - 2]); } } }
impl Smooth {
//@fn src/sampler.rs Smooth::new (r)
  ensures r.goal == sz, r.after(seq![]),
//@sub /(?s)(Self \{.*\})(\s*\})$/ => let vr = \1; proof { let e = Seq::<Text>::empty(); let x = Seq::<int>::empty(); assert(vr.kept() =~= taken(e, x)); assert(vr.are(e, x)); } vr\2
//@start
  proof { let e = Seq::<Text>::empty(); let x = Seq::<int>::empty(); assert(taken(e, x) =~= e); }
//@end
//@fn src/sampler.rs Smooth::verify (r)
  requires self.ok(),
  ensures r,
//@end
#[verifier::rlimit(40)] #[verifier::spinoff_prover]
//@fn src/sampler.rs Smooth::collapse
  requires old(self).ok(),
  ensures *final(self) == (Smooth { data: final(self).data, size: final(self).size, ..*old(self) }), final(self).size == imin(old(self).size as int, old(self).small as int), final(self).data@.len() == old(self).data@.len(),
    exists|p: Seq<int>| #![auto] picks(p, final(self).size as int, old(self).size as int) && ends(p, final(self).size as int, old(self).size as int) && thinned(final(self).data@, old(self).data@, p),
//@sub /(?s)let ratio = [^;]*;/ => ();
//@sub /\(\(i as f64\) \* ratio\) as usize/ => verif_spread(i, old_size, new_size)
//@start
  let ghost d0 = self.data@; let ghost n0 = self.size as int; let ghost t0 = self.small as int;
  proof { let p = Seq::new(n0 as nat, |i: int| i); assert(n0 <= t0 ==> picks(p, n0, n0) && ends(p, n0, n0) && thinned(d0, d0, p)); let q = seq![0int, n0 - 1]; assert(n0 > 2 ==> picks(q, 2, n0) && ends(q, 2, n0)); if 2 < t0 < n0 { axiom_spread(n0, t0); } }
//@sub /(?s)self\.size = 2;\s*return;/ => self.size = 2; proof { let q = seq![0int, n0 - 1]; assert(thinned(self.data@, d0, q)); } return;
//@loop 0 f
  invariant 2 < new_size < old_size, old_size == n0, new_size == t0, new_end == new_size - 1, 1 <= i, self.data@.len() == d0.len() && n0 <= d0.len(), self.size == n0,
    *self == (Smooth { data: self.data, ..*old(self) }),
    forall|k: int| 0 <= k < i ==> #[trigger] self.data@[k] == d0[places(n0, t0)[k]],
    forall|k: int| (if i > 1 { spread(i - 1, n0, t0) } else { 0 }) < k < d0.len() ==> #[trigger] self.data@[k] == d0[k],
    forall|i: int| 0 < i < t0 - 1 ==> i <= #[trigger] spread(i, n0, t0) <= n0 - 2, forall|i: int, j: int| 0 < i < j < t0 - 1 ==> #[trigger] spread(i, n0, t0) < #[trigger] spread(j, n0, t0),
//@before /self\.size = new_size/
  proof { let p = places(n0, t0); assert(picks(p, t0, n0)); assert(thinned(self.data@, d0, p)) by { assert forall|k: int| 0 <= k < p.len() implies #[trigger] self.data@[k] == d0[p[k]] by { } } }
//@end
#[verifier::rlimit(40)] #[verifier::spinoff_prover]
//@fn src/sampler.rs Smooth::add
  requires old(self).ok(), old(self).jump <= usize::MAX / 4, old(self).pos < usize::MAX, old(self).data@.len() < usize::MAX,
  ensures forall|seen: Seq<Text>| #![trigger old(self).after(seen)] old(self).after(seen) ==> final(self).after(seen.push(x@)), final(self).ok(), final(self).goal == old(self).goal,
//@sub /\.extend\(x\)/ => .extend_from_slice(x)
//@start
  let ghost this = *self; let ghost mut vp: Seq<int> = seq![];
//@after /self\.collapse\(\);/
  proof { vp = choose|p: Seq<int>| #![auto] picks(p, self.size as int, this.size as int) && ends(p, self.size as int, this.size as int) && thinned(self.data@, this.data@, p); assert(self.kept() =~= Seq::new(vp.len(), |i: int| this.kept()[vp[i]])); }
//@sub /(?s)(debug_assert!\(self\.verify\(\)\);)(\s*\})$/ => \1 proof { assert(self.data@[self.size - 1]@ =~= x@); assert(this.pos > 0 ==> self.kept() =~= this.kept().update(this.size - 1, x@)); assert(this.pos == 0 && this.size < this.large ==> self.kept() =~= this.kept().push(x@)); if this.pos == 0 && this.size >= this.large { assert(vp.len() == this.small); assert(self.size == this.small + 1); assert(self.kept() =~= Seq::new(vp.len(), |i: int| this.kept()[vp[i]]).push(x@)); } lemma_added(this, *self, x@); } \2
//@end
//@fn src/sampler.rs Smooth::write (r)
  requires self.size <= self.data@.len(),
  ensures r is Ok ==> final(w).out() == old(w).out() + cat(self.kept()),
//@sigsub /w: &mut impl Write/ => w: &mut W
//@sigsub /fn write\(/ => fn write<W: Write>(
//@beforeloop 0
  proof { assert(self.kept().subrange(0, 0) =~= seq![]); }
//@loop 0 f
  invariant self.size <= self.data@.len(), w.out() =~= old(w).out() + cat(self.kept().subrange(0, i as int)),
//@loopend 0
  proof { assert(self.kept().subrange(0, i + 1).drop_last() =~= self.kept().subrange(0, i as int)); assert(self.kept().subrange(0, i + 1).last() == self.kept()[i as int]); }
//@afterloop 0
  proof { assert(self.kept().subrange(0, self.size as int) =~= self.kept()); }
//@end
/// exactly as many lines as asked for, or all of them
//@fn src/sampler.rs Smooth::finalize (r)
  requires old(self).ok(),
  ensures r is Ok ==> forall|seen: Seq<Text>| #![trigger old(self).after(seen)] old(self).after(seen) ==> exists|ix: Seq<int>| picks(ix, imin(old(self).goal as int, seen.len() as int), seen.len() as int) && ends(ix, imin(old(self).goal as int, seen.len() as int), seen.len() as int) && final(w).out() == old(w).out() + cat(#[trigger] taken(seen, ix)),
//@sigsub /w: &mut impl Write/ => w: &mut W
//@sigsub /fn finalize\(/ => fn finalize<W: Write>(
//@start
  let ghost this = *self;
//@sub /self\.write\(w\)/ => { proof { lemma_final(this, *self); } self.write(w) }
//@end
}
// ---- ranges of lines ----
/// std::ops::RangeInclusive, as far as it is used here
pub struct RangeInclusive<T> { pub lo: T, pub hi: T }
impl RangeInclusive<usize> {
    #[verifier::external_body]
    pub fn new(a: usize, b: usize) -> (r: Self) ensures r.lo == a, r.hi == b, { unimplemented!() }
    #[verifier::external_body]
    pub fn end(&self) -> (r: &usize) ensures *r == self.hi, { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &usize) -> (r: bool) ensures r == (self.lo <= *x <= self.hi), { unimplemented!() }
}
/// the number a text stands for (C21)
pub uninterp spec fn whole(s: Seq<char>) -> Option<usize>;
#[verifier::external_body]
pub fn verif_to_usize_whole(s: &str) -> (r: Result<usize>) ensures r is Ok == whole(s@) is Some, r matches Ok(x) ==> whole(s@) == Some(x), { unimplemented!() }
//@item src/bin/cdx/sample_main.rs struct Ranges
//@item src/bin/cdx/sample_main.rs struct For
pub open spec fn lines_of(s: Seq<char>) -> Option<(usize, usize)> {
    let k = index_of(s, '-');
    let (a, b) = if k >= 0 { (whole(s.subrange(0, k)), whole(s.skip(k + 1))) } else { (whole(s), whole(s)) };
    match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None }
}
impl Ranges {
    pub open spec fn has(self, n: int) -> bool { exists|i: int| 0 <= i < self.v@.len() && (#[trigger] self.v@[i]).lo <= n <= self.v@[i].hi }
//@fn src/bin/cdx/sample_main.rs Ranges::push (r)
  ensures r is Ok == lines_of(spec@) is Some, r is Ok ==> forall|n: int| final(self).has(n) == (old(self).has(n) || lines_of(spec@)->Some_0.0 <= n <= lines_of(spec@)->Some_0.1),
//@sub /spec\.split_once\('-'\)/ => verif_split_once(spec, '-')
//@sub /(\w+)\.to_usize_whole\(spec\.as_bytes\(\), "[a-z ]*"\)/ => verif_to_usize_whole(\1)
//@start
  let ghost v0 = self.v@;
//@sub /Ok\(\(\)\)/ => proof { assert forall|n: int| self.has(n) == (old(self).has(n) || lines_of(spec@)->Some_0.0 <= n <= lines_of(spec@)->Some_0.1) by { assert(forall|i: int| 0 <= i < v0.len() ==> self.v@[i] == v0[i]); let k = v0.len() as int; assert(self.v@[k].lo == lines_of(spec@)->Some_0.0 && self.v@[k].hi == lines_of(spec@)->Some_0.1); if self.has(n) { let i = choose|i: int| 0 <= i < self.v@.len() && (#[trigger] self.v@[i]).lo <= n <= self.v@[i].hi; if i < k { assert(v0[i].lo <= n); } } if old(self).has(n) { let i = choose|i: int| 0 <= i < v0.len() && (#[trigger] v0[i]).lo <= n <= v0[i].hi; assert(self.v@[i].lo <= n); } } } Ok(())
//@end
//@fn src/bin/cdx/sample_main.rs Ranges::max (r)
  ensures forall|n: int| self.has(n) ==> n <= r,
//@loop 0 d
  invariant vi0 <= self.v@.len(), forall|i: int| 0 <= i < vi0 ==> (#[trigger] self.v@[i]).hi <= ret,
  decreases self.v@.len() - vi0,
//@end
//@fn src/bin/cdx/sample_main.rs Ranges::contains (r)
  ensures r == self.has(val as int),
//@loop 0 d
  invariant vi0 <= self.v@.len(), forall|i: int| 0 <= i < vi0 ==> !((#[trigger] self.v@[i]).lo <= val <= self.v@[i].hi),
  decreases self.v@.len() - vi0,
//@end
}
impl For {
//@fn src/bin/cdx/sample_main.rs <For as Default>::default (r)
  ensures r.by == 1, r.from == 1, r.to == usize::MAX,
//@end
//@fn src/bin/cdx/sample_main.rs For::new (r)
  ensures ({ let p = spieces(spec@, ','); let n = p.len() as int;
    &&& r is Ok == (spec@.len() > 0 && n <= 3 && (forall|i: int| 0 <= i < n ==> whole(#[trigger] p[i]) is Some && whole(p[i])->Some_0 > 0))
    &&& r matches Ok(f) ==> Some(f.by) == whole(p[0]) && (if n > 1 { Some(f.from) == whole(p[1]) } else { f.from == 1 }) && (if n > 2 { Some(f.to) == whole(p[2]) } else { f.to == usize::MAX }) }),
//@sub /spec\.is_empty\(\)/ => verif_s_empty(spec)
//@sub /x\.to_usize_whole\(spec\.as_bytes\(\), "[a-z ]*"\)/ => verif_to_usize_whole(x)
//@sub /for \(i, x\) in spec\.split\(','\)\.enumerate\(\) \{/ => let vs = verif_s_split(spec, ','); for (i, x) in vs.iter().enumerate() {
//@start
  let ghost p = spieces(spec@, ','); proof { lemma_spieces_len(spec@, ','); }
//@loop 0 d
  invariant vi0 <= vs@.len(), vs@.len() == p.len(), p == spieces(spec@, ','), forall|i: int| 0 <= i < p.len() ==> (#[trigger] vs@[i])@ == p[i], vi0 <= 3, forall|i: int| 0 <= i < vi0 ==> whole(#[trigger] p[i]) is Some,
    if vi0 > 0 { Some(f.by) == whole(p[0]) } else { f.by == 1 }, if vi0 > 1 { Some(f.from) == whole(p[1]) } else { f.from == 1 }, if vi0 > 2 { Some(f.to) == whole(p[2]) } else { f.to == usize::MAX },
  decreases vs@.len() - vi0,
//@end
}
// ---- the files of cdx sample ----
/// what a file holds: nothing at all, or a header line and data lines (C18)
pub ghost struct SFile { pub empty: bool, pub head: Seq<u8>, pub lines: Seq<Text> }
pub uninterp spec fn sfile_of(name: Seq<char>) -> SFile;
#[verifier::external_body]
pub struct TextLine { x: u8 }
impl TextLine {
    pub uninterp spec fn text(&self) -> Text;
    #[verifier::external_body]
    pub fn line(&self) -> (r: &[u8]) ensures r@ == self.text() { unimplemented!() }
}
#[verifier::external_body]
pub struct Reader { x: u8 }
impl Reader {
    pub uninterp spec fn file(&self) -> SFile;
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    pub fn new() -> (r: Reader) { unimplemented!() }
    /// assumed: fewer than 2^60 lines
    #[verifier::external_body]
    pub fn open(&mut self, name: &String) -> (r: Result<()>) ensures r is Ok ==> final(self).file() == sfile_of(name@) && final(self).at() == 0 && final(self).file().lines.len() < 0x1000_0000_0000_0000 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == self.file().empty { unimplemented!() }
    #[verifier::external_body]
    pub fn is_done(&self) -> (r: bool) ensures r == (self.at() >= self.file().lines.len()) { unimplemented!() }
    /// the bytes of the header line
    #[verifier::external_body]
    pub fn header_bytes(&self) -> (r: &[u8]) ensures r@ == self.file().head { unimplemented!() }
    #[verifier::external_body]
    pub fn do_split(&mut self, b: bool) ensures final(self).file() == old(self).file(), final(self).at() == old(self).at() { unimplemented!() }
    #[verifier::external_body]
    pub fn line_number(&self) -> (r: usize) requires 0 <= self.at() < self.file().lines.len(), ensures r == self.at() + 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn curr(&self) -> (r: &TextLine) requires 0 <= self.at() < self.file().lines.len(), ensures r.text() == self.file().lines[self.at()] { unimplemented!() }
    #[verifier::external_body]
    pub fn curr_line(&self) -> (r: &TextLine) requires 0 <= self.at() < self.file().lines.len(), ensures r.text() == self.file().lines[self.at()] { unimplemented!() }
    #[verifier::external_body]
    pub fn getline(&mut self) -> (r: Result<bool>) requires old(self).at() < old(self).file().lines.len(), ensures final(self).file() == old(self).file(), r matches Ok(b) ==> final(self).at() == old(self).at() + 1 && b == (final(self).at() == final(self).file().lines.len()) { unimplemented!() }
}
/// the header rule over several files (C09): whether this file's header is written, and what it goes on from
#[verifier::external_body]
pub struct HeaderChecker { x: u8 }
pub uninterp spec fn hc_writes(st: int, f: SFile) -> bool;
pub uninterp spec fn hc_after(st: int, f: SFile) -> int;
impl HeaderChecker {
    pub uninterp spec fn st(&self) -> int;
    #[verifier::external_body]
    pub fn check_file(&mut self, f: &Reader, fname: &String) -> (r: Result<bool>) ensures r matches Ok(b) ==> b == hc_writes(old(self).st(), f.file()) && final(self).st() == hc_after(old(self).st(), f.file()) { unimplemented!() }
}
/// what is asked for: n lines, every by-th from a first to a last, or ranges
pub ghost enum Want { Num(int), By(For), In(Ranges) }
pub open spec fn step(f: For, k: int) -> int { f.from + k * f.by }
/// line n of a file is asked for
pub open spec fn asked(w: Want, n: int) -> bool { match w { Want::Num(_) => false, Want::By(f) => n <= f.to && exists|k: int| 0 <= k && n == #[trigger] step(f, k), Want::In(r) => r.has(n) } }
/// the lines asked for, among the first n
pub open spec fn lines_asked(w: Want, l: Seq<Text>, n: int) -> Text decreases n { if n <= 0 { seq![] } else { lines_asked(w, l, n - 1) + (if asked(w, n) { l[n - 1] } else { seq![] }) } }
pub proof fn lemma_no_more(w: Want, l: Seq<Text>, a: int, b: int) requires 0 <= a <= b, forall|n: int| a < n <= b ==> !asked(w, n), ensures lines_asked(w, l, b) == lines_asked(w, l, a) decreases b { if a < b { lemma_no_more(w, l, a, b - 1); assert(lines_asked(w, l, b) =~= lines_asked(w, l, b - 1)); } }
/// what is written of the lines of one file
pub open spec fn part_ok(w: Want, l: Seq<Text>, p: Text) -> bool { match w { Want::Num(n) => exists|ix: Seq<int>| picks(ix, imin(n, l.len() as int), l.len() as int) && ends(ix, imin(n, l.len() as int), l.len() as int) && p == cat(#[trigger] taken(l, ix)), _ => p == lines_asked(w, l, l.len() as int) } }
pub open spec fn sst(st: int, fs: Seq<String>, k: int) -> int decreases k { if k <= 0 { st } else { let f = sfile_of(fs[k - 1]@); let s = sst(st, fs, k - 1); if f.empty { s } else { hc_after(s, f) } } }
/// what is written for a file
pub open spec fn file_ok(w: Want, st: int, f: SFile, p: Text) -> bool { if f.empty { p.len() == 0 } else { exists|q: Text| #[trigger] part_ok(w, f.lines, q) && p == (if hc_writes(st, f) { f.head } else { seq![] }) + q } }
pub open spec fn want(saw_sample: bool, saw_for: bool, sample: usize, floop: For, ranges: Ranges) -> Want { if saw_sample { Want::Num(sample as int) } else if saw_for { Want::By(floop) } else { Want::In(ranges) } }
/// no step is between two consecutive ones
pub proof fn lemma_step(f: For, k: int, n: int) requires f.by > 0, k >= 0, n < step(f, k), k > 0 ==> step(f, k - 1) < n, ensures !exists|j: int| 0 <= j && n == #[trigger] step(f, j)
{
    assert forall|j: int| 0 <= j implies n != #[trigger] step(f, j) by {
        if j >= k { assert(j * f.by >= k * f.by) by(nonlinear_arith) requires j >= k, f.by > 0; }
        else { assert(j * f.by <= (k - 1) * f.by) by(nonlinear_arith) requires j <= k - 1, f.by > 0; }
    }
}
pub proof fn lemma_step_next(f: For, k: int) ensures step(f, k + 1) == step(f, k) + f.by { assert((k + 1) * f.by == k * f.by + f.by) by(nonlinear_arith); }
/// what a file adds to the output, once its lines are done
pub proof fn lemma_file(wt: Want, st0: int, fs: Seq<String>, k: int, p: Seq<Text>, o0: Text, o1: Text, o2: Text) -> (r: Seq<Text>)
  requires wt matches Want::Num(n) ==> n >= 0, 0 <= k < fs.len(), p.len() == k, o1 =~= o0 + cat(p), file_done(wt, sst(st0, fs, k), sfile_of(fs[k]@), o1, o2),
  ensures r.len() == k + 1, forall|i: int| 0 <= i < k ==> #[trigger] r[i] == p[i], o2 =~= o0 + cat(r), file_ok(wt, sst(st0, fs, k), sfile_of(fs[k]@), r[k]),
{
    let f = sfile_of(fs[k]@); let h = if f.empty { seq![] } else if hc_writes(sst(st0, fs, k), f) { f.head } else { seq![] };
    if f.lines.len() == 0 { let e = Seq::<int>::empty(); assert(taken(f.lines, e) =~= seq![]); assert(cat(taken(f.lines, e)) =~= seq![]); if let Want::Num(n) = wt { assert(picks(e, imin(n, 0), 0)); } assert(part_ok(wt, f.lines, seq![])); assert(o1 + h + Seq::<u8>::empty() =~= o1 + h); }
    let q = if f.empty || f.lines.len() == 0 { seq![] } else { choose|q: Text| #[trigger] part_ok(wt, f.lines, q) && o2 == o1 + h + q };
    let r = p.push(h + q);
    assert(r.drop_last() =~= p);
    assert(o2 =~= o0 + cat(r));
    assert(f.empty ==> (h + q).len() == 0);
    r
}
pub open spec fn file_done(wt: Want, st: int, f: SFile, o1: Text, o2: Text) -> bool { if f.empty { o2 == o1 } else { let h: Text = if hc_writes(st, f) { f.head } else { seq![] }; f.lines.len() == 0 && o2 == o1 + h || exists|q: Text| #[trigger] part_ok(wt, f.lines, q) && o2 == o1 + h + q } }
/// the file loop of cdx sample
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@fn src/bin/cdx/sample_main.rs main (r)
  requires floop.by > 0, floop.from > 0, saw_sample || saw_for || saw_range,
  ensures r is Ok ==> exists|p: Seq<Text>| p.len() == files@.len() && final(w).out() == old(w).out() + #[trigger] cat(p) && (forall|i: int| 0 <= i < p.len() ==> file_ok(want(saw_sample, saw_for, sample, floop, ranges), sst(old(checker).st(), files@, i), sfile_of(files@[i]@), #[trigger] p[i])),
//@from /for x in &files\b/
//@sig fn sample_files<W: Write>(files: Vec<String>, checker: &mut HeaderChecker, saw_sample: bool, saw_for: bool, saw_range: bool, sample: usize, floop: For, ranges: Ranges, w: &mut W) -> Result<()>
//@sub /Reader::new\(&settings\.text_in\)/ => Reader::new()
//@sub /f\.header\(\)\.line\.as_bytes\(\)/ => f.header_bytes()
//@sub /&mut w\.0/ => w
//@start
  let ghost wt = want(saw_sample, saw_for, sample, floop, ranges); let ghost st0 = checker.st(); let ghost o0 = w.out(); let ghost mut p: Seq<Text> = seq![]; proof { assert(o0 + cat(p) =~= o0); }
//@loop 0 d
  invariant vi0 <= files@.len(), checker.st() == sst(st0, files@, vi0 as int), p.len() == vi0, w.out() =~= o0 + cat(p), forall|i: int| 0 <= i < p.len() ==> file_ok(wt, sst(st0, files@, i), sfile_of(files@[i]@), #[trigger] p[i]),
  decreases files@.len() - vi0,
//@loopstart 0
  let ghost h0: Text = if hc_writes(checker.st(), sfile_of(files@[vi0 as int]@)) { sfile_of(files@[vi0 as int]@).head } else { seq![] }; let ghost k0 = vi0 as int; let ghost o1 = w.out(); let ghost sf = sfile_of(files@[k0]@); let ghost s1 = checker.st();
//@sub /continue;/ => { proof { p = lemma_file(wt, st0, files@, k0, p, o0, o1, w.out()); } continue; }
//@loopend 0
  proof { p = lemma_file(wt, st0, files@, k0, p, o0, o1, w.out()); }
//@beforeloop 1
  let ghost o3 = w.out(); proof { assert(o3 =~= o1 + h0); } let ghost mut seen: Seq<Text> = seq![]; proof { assert(sf.lines.subrange(0, 0) =~= seen); }
//@loop 1 l
  invariant_except_break 0 <= f.at() < sf.lines.len(),
  invariant f.file() == sf, 0 <= f.at() <= sf.lines.len(), s.goal == sample, s.after(sf.lines.subrange(0, f.at())), w.out() == o3,
  ensures f.at() == sf.lines.len(),
  decreases sf.lines.len() - f.at(),
//@loopstart 1
  proof { let i = f.at(); assert(sf.lines.subrange(0, i).push(sf.lines[i]) =~= sf.lines.subrange(0, i + 1)); }
//@afterloop 1
  proof { assert(sf.lines.subrange(0, f.at()) =~= sf.lines); }
//@after /s\.finalize\(w\)\?;/
  proof { let ix = choose|ix: Seq<int>| picks(ix, imin(sample as int, sf.lines.len() as int), sf.lines.len() as int) && ends(ix, imin(sample as int, sf.lines.len() as int), sf.lines.len() as int) && w.out() == o3 + cat(#[trigger] taken(sf.lines, ix)); assert(part_ok(wt, sf.lines, cat(taken(sf.lines, ix)))); assert(w.out() =~= o1 + h0 + cat(taken(sf.lines, ix))); assert(file_done(wt, s1, sf, o1, w.out())); }
//@beforeloop 2
  let ghost o3 = w.out(); proof { assert(o3 =~= o1 + h0); } let ghost mut k: int = 0; proof { assert(o3 + lines_asked(wt, sf.lines, 0) =~= o3); assert(step(floop, 0) == floop.from) by(nonlinear_arith) requires step(floop, 0) == floop.from + 0 * floop.by; }
//@loop 2 w
  invariant_except_break 0 <= f.at() < sf.lines.len(),
  invariant w.out() =~= o3 + lines_asked(wt, sf.lines, f.at()), f.file() == sf, 0 <= f.at() <= sf.lines.len(), 0 <= k, next == imin(usize::MAX as int, step(floop, k)), k > 0 ==> step(floop, k - 1) <= f.at(), step(floop, k) > f.at(),
  ensures f.at() == sf.lines.len() || f.at() + 1 > floop.to,
  decreases sf.lines.len() - f.at(),
//@loop 3 w
  invariant_except_break 0 <= f.at() < sf.lines.len(),
  invariant w.out() =~= o3 + lines_asked(wt, sf.lines, f.at()), f.file() == sf, 0 <= f.at() <= sf.lines.len(),
  ensures f.at() == sf.lines.len() || f.at() + 1 > max,
  decreases sf.lines.len() - f.at(),
//@loopstart 2
  proof { lemma_step_next(floop, k); if f.at() + 1 < next { lemma_step(floop, k, f.at() + 1); } else { assert(f.at() + 1 == step(floop, k)); k = k + 1; } }
//@beforeloop 3
  let ghost o3 = w.out(); proof { assert(o3 =~= o1 + h0); } proof { assert(o3 + lines_asked(wt, sf.lines, 0) =~= o3); }
//@afterloop 2
  proof { lemma_no_more(wt, sf.lines, f.at(), sf.lines.len() as int); assert(part_ok(wt, sf.lines, lines_asked(wt, sf.lines, sf.lines.len() as int))); assert(w.out() =~= o1 + h0 + lines_asked(wt, sf.lines, sf.lines.len() as int)); assert(file_done(wt, s1, sf, o1, w.out())); }
//@afterloop 3
  proof { lemma_no_more(wt, sf.lines, f.at(), sf.lines.len() as int); assert(part_ok(wt, sf.lines, lines_asked(wt, sf.lines, sf.lines.len() as int))); assert(w.out() =~= o1 + h0 + lines_asked(wt, sf.lines, sf.lines.len() as int)); assert(file_done(wt, s1, sf, o1, w.out())); }
//@end
}
fn main(){}
