use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
global size_of usize == 8;
//@include std.vrs
//@include bytes.vrs
//@gsub /u64::from_be_bytes\(/ => verif_from_be_bytes(
#[verifier::external_body]
pub fn verif_from_be_bytes(b: [u8; 8]) -> (r: u64) ensures r as nat == be(b@, 8) { u64::from_be_bytes(b) }
/// `dst[..n].copy_from_slice(src)`: panics unless the lengths agree
#[verifier::external_body]
pub fn verif_copy_prefix(dst: &mut [u8; 8], n: usize, src: &[u8])
    requires n <= 8, src@.len() == n
    ensures forall|i: int| 0 <= i < 8 ==> #[trigger] final(dst)@[i] == if i < n { src@[i] } else { old(dst)@[i] }
{ dst[..n].copy_from_slice(src) }

pub open spec fn pad(s: Seq<u8>, i: int) -> u8 { if i < s.len() { s[i] } else { 0u8 } }
pub open spec fn pad8(s: Seq<u8>) -> Seq<u8> { Seq::new(8, |i: int| pad(s, i)) }

//@fn src/comp.rs make_array (r)
  ensures r@ =~= pad8(val@),
//@sub /(\w+)\[0?\.\.(\d+)\]\.copy_from_slice\(((?:[^()]|\[[^\]]*\])*)\)/ => verif_copy_prefix(&mut \1, \2, \3)
//@end

//@item src/comp.rs struct Item
impl Item {
    pub open spec fn sz(&self) -> u32 { self.size_plus & 0x7fff_ffffu32 }
    pub open spec fn cpl(&self) -> bool { (self.size_plus & 0x8000_0000u32) != 0 }
    pub open spec fn inside(&self, base: Seq<u8>) -> bool { self.offset as int + self.sz() as int <= base.len() }
    pub open spec fn text(&self, base: Seq<u8>) -> Seq<u8> { base.subrange(self.offset as int, self.offset as int + self.sz() as int) }
    pub open spec fn same_place(&self, o: &Item) -> bool { self.offset == o.offset && self.sz() == o.sz() }
//@fn src/comp.rs Item::size (r)
  ensures r == self.sz(), r <= 0x7fff_ffff,
//@start
  proof { let x = self.size_plus; assert((x & 0x7fff_ffffu32) <= 0x7fff_ffffu32) by (bit_vector); }
//@end
//@fn src/comp.rs Item::complete (r)
  ensures r == self.cpl(),
//@end
//@fn src/comp.rs Item::set_complete
  ensures final(self).cpl(), final(self).same_place(&*old(self)), final(self).cache == old(self).cache,
//@start
  proof { let x = self.size_plus; assert(((x | 0x8000_0000u32) & 0x7fff_ffffu32) == (x & 0x7fff_ffffu32) && ((x | 0x8000_0000u32) & 0x8000_0000u32) != 0) by (bit_vector); }
//@end
//@fn src/comp.rs Item::clear_complete
  ensures !final(self).cpl(), final(self).same_place(&*old(self)), final(self).cache == old(self).cache,
//@start
  proof { let x = self.size_plus; assert(((x & 0x7fff_ffffu32) & 0x7fff_ffffu32) == (x & 0x7fff_ffffu32) && ((x & 0x7fff_ffffu32) & 0x8000_0000u32) == 0) by (bit_vector); }
//@end
//@fn src/comp.rs Item::assign_complete
  ensures final(self).cpl() == tag, final(self).same_place(&*old(self)), final(self).cache == old(self).cache,
//@end
//@fn src/comp.rs Item::begin (r)
  ensures r == self.offset,
//@end
//@fn src/comp.rs Item::end (r)
  ensures r == self.offset + self.sz(),
//@end
//@fn src/comp.rs Item::get (r)
  requires self.inside(base@),
  ensures r@ == self.text(base@),
//@end
}

/// What the cache is for one comparator.  `ck` is the cached number, `cc` says it is the whole key.
pub trait Compare {
    spec fn ord(&self, l: Seq<u8>, r: Seq<u8>) -> Ordering;
    spec fn ck(&self, v: Seq<u8>) -> u64;
    spec fn cc(&self, v: Seq<u8>) -> bool;
//@fn src/comp.rs trait Compare::comp (r)
   ensures r == self.ord(left@, right@),
//@end
//@fn src/comp.rs trait Compare::equal (r)
   ensures r == (self.ord(left@, right@) == Ordering::Equal),
//@end
//@fn src/comp.rs trait Compare::fill_cache
   ensures final(item).cache == self.ck(value@), final(item).cpl() == self.cc(value@), final(item).same_place(&*old(item)),
//@end
}
/// comparing through the cache is sound for these two keys
pub open spec fn sound<C: Compare + ?Sized>(c: &C, a: Seq<u8>, b: Seq<u8>) -> bool {
    &&& (c.ck(a) < c.ck(b) ==> c.ord(a, b) == Ordering::Less)
    &&& (c.ck(a) > c.ck(b) ==> c.ord(a, b) == Ordering::Greater)
    &&& (c.ck(a) == c.ck(b) && c.cc(a) && c.cc(b) ==> c.ord(a, b) == Ordering::Equal)
    &&& (c.cc(a) && c.cc(b) && c.ord(a, b) == Ordering::Equal ==> c.ck(a) == c.ck(b))
}

// ------------------------------------------------------------ big-endian numbers order like bytes
pub proof fn lemma_be_first_diff(x: Seq<u8>, y: Seq<u8>, k: int) -> (i: int)
  requires 0 <= k <= x.len(), k <= y.len(), x.subrange(0, k) != y.subrange(0, k)
  ensures 0 <= i < k, x[i] != y[i], forall|j: int| 0 <= j < i ==> x[j] == y[j], (be(x, k) < be(y, k)) == (x[i] < y[i]), be(x, k) != be(y, k)
  decreases k
{
    if k == 0 { assert(x.subrange(0, 0) =~= y.subrange(0, 0)); 0 }
    else if x.subrange(0, k - 1) == y.subrange(0, k - 1) {
        lemma_be_same(x, y, k - 1);
        assert forall|j: int| 0 <= j < k - 1 implies x[j] == y[j] by { assert(x.subrange(0, k - 1)[j] == y.subrange(0, k - 1)[j]); }
        if x[k - 1] == y[k - 1] { assert(x.subrange(0, k) =~= y.subrange(0, k)); }
        k - 1
    } else {
        let i = lemma_be_first_diff(x, y, k - 1);
        i
    }
}
pub proof fn lemma_be_same(x: Seq<u8>, y: Seq<u8>, k: int)
  requires 0 <= k <= x.len(), k <= y.len(), x.subrange(0, k) == y.subrange(0, k)
  ensures be(x, k) == be(y, k)
  decreases k
{
    if k > 0 {
        assert(x.subrange(0, k)[k - 1] == x[k - 1] && y.subrange(0, k)[k - 1] == y[k - 1]);
        assert(x.subrange(0, k - 1) =~= x.subrange(0, k).subrange(0, k - 1));
        assert(y.subrange(0, k - 1) =~= y.subrange(0, k).subrange(0, k - 1));
        lemma_be_same(x, y, k - 1);
        assert(x[k - 1] == y[k - 1]);
    }
}
pub open spec fn key8(s: Seq<u8>) -> u64 { be(pad8(s), 8) as u64 }
pub proof fn lemma_be_u64(x: Seq<u8>)
  requires x.len() == 8
  ensures be(x, 8) <= u64::MAX
{
    reveal_with_fuel(be, 9);
    assert(be(x, 8) == x[7] as nat + 256 * (x[6] as nat + 256 * (x[5] as nat + 256 * (x[4] as nat + 256 * (x[3] as nat + 256 * (x[2] as nat + 256 * (x[1] as nat + 256 * (x[0] as nat))))))));
}
/// lexicographic order from the first difference
pub proof fn lemma_lexc_at(a: Seq<u8>, b: Seq<u8>, n: int, i: int)
  requires 0 <= n <= i, i <= a.len(), i <= b.len(), forall|j: int| n <= j < i ==> a[j] == b[j]
  ensures lexc(a, b, n) == lexc(a, b, i)
  decreases i - n
{ if n < i { lemma_lexc_at(a, b, n + 1, i); } }
pub open spec fn clean(s: Seq<u8>) -> bool { s.len() <= 8 && (s.len() == 0 || s.last() != 0u8) }
pub proof fn lemma_key8(a: Seq<u8>, b: Seq<u8>)
  ensures
    key8(a) < key8(b) ==> lexc(a, b, 0) == Ordering::Less,
    key8(a) > key8(b) ==> lexc(a, b, 0) == Ordering::Greater,
    key8(a) == key8(b) && clean(a) && clean(b) ==> lexc(a, b, 0) == Ordering::Equal,
    lexc(a, b, 0) == Ordering::Equal ==> a =~= b,
{
    let (x, y) = (pad8(a), pad8(b));
    lemma_be_u64(x); lemma_be_u64(y);
    lemma_lexc_eq(a, b, 0);
    if x.subrange(0, 8) == y.subrange(0, 8) {
        lemma_be_same(x, y, 8);
        assert forall|j: int| 0 <= j < 8 implies x[j] == y[j] by { assert(x.subrange(0, 8)[j] == y.subrange(0, 8)[j]); }
        if clean(a) && clean(b) {
            if a.len() < b.len() { assert(x[b.len() - 1] == y[b.len() - 1]); }
            if b.len() < a.len() { assert(x[a.len() - 1] == y[a.len() - 1]); }
            assert(a.len() == b.len());
            assert forall|j: int| 0 <= j < a.len() implies a[j] == b[j] by { assert(x[j] == y[j]); }
            lemma_lexc_at(a, b, 0, a.len() as int);
        }
    } else {
        let i = lemma_be_first_diff(x, y, 8);
        let m = if a.len() < b.len() { a.len() as int } else { b.len() as int };
        assert forall|j: int| 0 <= j < i && j < m implies a[j] == b[j] by { assert(x[j] == y[j]); }
        if i < m { lemma_lexc_at(a, b, 0, i); } else { lemma_lexc_at(a, b, 0, m); }
    }
}
pub proof fn lemma_lexc_eq(a: Seq<u8>, b: Seq<u8>, n: int)
  requires 0 <= n, n <= a.len(), n <= b.len(), forall|j: int| 0 <= j < n ==> a[j] == b[j]
  ensures (lexc(a, b, n) == Ordering::Equal) == (a =~= b)
  decreases a.len() - n
{ if n < a.len() && n < b.len() && a[n] == b[n] { lemma_lexc_eq(a, b, n + 1); } }

// ------------------------------------------------------------ the comparators
//@item src/comp.rs struct ComparePlain
impl Compare for ComparePlain {
    open spec fn ord(&self, l: Seq<u8>, r: Seq<u8>) -> Ordering { lexc(l, r, 0) }
    open spec fn ck(&self, v: Seq<u8>) -> u64 { key8(v) }
    open spec fn cc(&self, v: Seq<u8>) -> bool { clean(v) }
//@fn src/comp.rs <ComparePlain as Compare>::comp
//@end
//@fn src/comp.rs <ComparePlain as Compare>::equal
//@start
  proof { lemma_lexc_eq(left@, right@, 0); }
//@end
//@fn src/comp.rs <ComparePlain as Compare>::fill_cache
//@start
  proof { lemma_be_u64(pad8(value@)); }
//@end
}
pub proof fn sound_plain(c: &ComparePlain, a: Seq<u8>, b: Seq<u8>) ensures sound(c, a, b) { lemma_key8(a, b); }
/// the item's cache is the one comparator `c` computes for the item's bytes
pub open spec fn kept<C: Compare + ?Sized>(c: &C, it: &Item, base: Seq<u8>) -> bool {
    it.inside(base) && it.cache == c.ck(it.text(base)) && it.cpl() == c.cc(it.text(base))
}
pub open spec fn kept_plain(it: &Item, base: Seq<u8>) -> bool {
    it.inside(base) && it.cache == key8(it.text(base)) && it.cpl() == clean(it.text(base))
}
impl Item {
//@fn src/comp.rs Item::equal (r)
  requires kept_plain(self, base@), kept_plain(other, base@),
  ensures r == (self.text(base@) =~= other.text(base@)),
//@start
  proof { lemma_key8(self.text(base@), other.text(base@)); }
//@end
//@fn src/comp.rs Item::compare (r)
  requires kept_plain(self, base@), kept_plain(other, base@),
  ensures r == lexc(self.text(base@), other.text(base@), 0),
//@start
  proof { lemma_key8(self.text(base@), other.text(base@)); }
//@end
//@fn src/comp.rs Item::compare2 (r)
  requires kept(cmp, self, base@), kept(cmp, other, base@), sound(cmp, self.text(base@), other.text(base@)),
  ensures r == cmp.ord(self.text(base@), other.text(base@)),
//@end
}

// case-insensitive comparison: cmp_insens and equal_insens are C19's subject
pub trait StringLike {
    fn cmp_insens(&self, other: &Self) -> Ordering;
    fn equal_insens(&self, other: &Self) -> bool;
}
impl StringLike for [u8] {
    #[verifier::external_body]
    fn cmp_insens(&self, other: &[u8]) -> (r: Ordering) ensures r == lexc(lowers(self@), lowers(other@), 0) { unimplemented!() }
    #[verifier::external_body]
    fn equal_insens(&self, other: &[u8]) -> (r: bool) ensures r == (lexc(lowers(self@), lowers(other@), 0) == Ordering::Equal) { unimplemented!() }
}
//@item src/comp.rs struct CompareLower
impl Compare for CompareLower {
    open spec fn ord(&self, l: Seq<u8>, r: Seq<u8>) -> Ordering { lexc(lowers(l), lowers(r), 0) }
    open spec fn ck(&self, v: Seq<u8>) -> u64 { key8(lowers(v)) }
    open spec fn cc(&self, v: Seq<u8>) -> bool { clean(v) }
//@fn src/comp.rs <CompareLower as Compare>::comp
//@end
//@fn src/comp.rs <CompareLower as Compare>::equal
//@end
//@fn src/comp.rs <CompareLower as Compare>::fill_cache
//@start
  proof { lemma_be_u64(pad8(lowers(value@))); }
//@loop 0 d
  invariant vi0 <= 8, aa@.len() == 8,
    forall|i: int| 0 <= i < vi0 ==> #[trigger] aa@[i] == lower(pad(value@, i)),
    forall|i: int| vi0 <= i < 8 ==> #[trigger] aa@[i] == pad(value@, i),
    *item == *old(item),
  decreases 8 - vi0
//@afterloop 0
  proof { assert(aa@ =~= pad8(lowers(value@))); }
//@end
}
pub proof fn sound_lower(c: &CompareLower, a: Seq<u8>, b: Seq<u8>) ensures sound(c, a, b) {
    lemma_key8(lowers(a), lowers(b));
    assert(clean(a) ==> clean(lowers(a)));
    assert(clean(b) ==> clean(lowers(b)));
}
// IP addresses and numbers: no cache
pub uninterp spec fn ipord(a: Seq<u8>, b: Seq<u8>) -> Ordering;
#[verifier::external_body]
pub fn ip_cmp(a: &[u8], b: &[u8]) -> (r: Ordering) ensures r == ipord(a@, b@) { unimplemented!() }
pub uninterp spec fn numord(a: Seq<u8>, b: Seq<u8>) -> Ordering;
#[verifier::external_body]
pub fn num_cmp_signed(a: &[u8], b: &[u8]) -> (r: Ordering) ensures r == numord(a@, b@) { unimplemented!() }
//@item src/comp.rs struct CompareIP
impl Compare for CompareIP {
    open spec fn ord(&self, l: Seq<u8>, r: Seq<u8>) -> Ordering { ipord(l, r) }
    open spec fn ck(&self, v: Seq<u8>) -> u64 { 0 }
    open spec fn cc(&self, v: Seq<u8>) -> bool { false }
//@fn src/comp.rs <CompareIP as Compare>::comp
//@end
//@fn src/comp.rs <CompareIP as Compare>::equal
//@end
//@fn src/comp.rs <CompareIP as Compare>::fill_cache
//@end
}
pub proof fn sound_ip(c: &CompareIP, a: Seq<u8>, b: Seq<u8>) ensures sound(c, a, b) { }
//@item src/comp.rs struct CompareNumeric
impl Compare for CompareNumeric {
    open spec fn ord(&self, l: Seq<u8>, r: Seq<u8>) -> Ordering { numord(l, r) }
    open spec fn ck(&self, v: Seq<u8>) -> u64 { 0 }
    open spec fn cc(&self, v: Seq<u8>) -> bool { false }
//@fn src/comp.rs <CompareNumeric as Compare>::comp
//@end
//@fn src/comp.rs <CompareNumeric as Compare>::equal
//@end
//@fn src/comp.rs <CompareNumeric as Compare>::fill_cache
//@end
}
pub proof fn sound_num(c: &CompareNumeric, a: Seq<u8>, b: Seq<u8>) ensures sound(c, a, b) { }
//@item src/comp.rs struct CompareEqual
impl Compare for CompareEqual {
    open spec fn ord(&self, l: Seq<u8>, r: Seq<u8>) -> Ordering { Ordering::Equal }
    open spec fn ck(&self, v: Seq<u8>) -> u64 { 0 }
    open spec fn cc(&self, v: Seq<u8>) -> bool { true }
//@fn src/comp.rs <CompareEqual as Compare>::comp
//@end
//@fn src/comp.rs <CompareEqual as Compare>::equal
//@end
//@fn src/comp.rs <CompareEqual as Compare>::fill_cache
//@end
}
pub proof fn sound_equal(c: &CompareEqual, a: Seq<u8>, b: Seq<u8>) ensures sound(c, a, b) { }
//@item src/comp.rs struct CompareLen
impl Compare for CompareLen {
    open spec fn ord(&self, l: Seq<u8>, r: Seq<u8>) -> Ordering { icmp(l.len() as usize as int, r.len() as usize as int) }
    open spec fn ck(&self, v: Seq<u8>) -> u64 { v.len() as usize as u64 }
    open spec fn cc(&self, v: Seq<u8>) -> bool { true }
//@fn src/comp.rs <CompareLen as Compare>::comp
//@end
//@fn src/comp.rs <CompareLen as Compare>::equal
//@end
//@fn src/comp.rs <CompareLen as Compare>::fill_cache
//@end
}
pub proof fn sound_len(c: &CompareLen, a: Seq<u8>, b: Seq<u8>) ensures sound(c, a, b) { }

//@include float.vrs
//@gsub /\b(left|right|value)\.to_f64_lossy\(\)/ => verif_f64(\1)
/// the cached number of a float: NaN 0, then the negative numbers, zero, the positive ones
pub open spec fn fulp(x: f64) -> u64 { if fnan(x) { 0 } else if fkey(x) >= 0 { (SIGN + fkey(x)) as u64 } else { (SIGN - 1 + fkey(x)) as u64 } }
pub proof fn fulp_mono(x: f64, y: f64) ensures kcmp(fulp(x) as int, fulp(y) as int) == kcmp(fkey(x), fkey(y)) {}
//@fn src/num.rs ulp_to_ulong (r)
   ensures r == fulp(d),
//@start
   broadcast use ieee;
   proof { let b = fb(d);
     assert((b & 0x8000_0000_0000_0000u64) != 0 <==> b >= 0x8000_0000_0000_0000u64) by (bit_vector);
     assert(b >= 0x8000_0000_0000_0000u64 ==> b ^ 0xffff_ffff_ffff_ffffu64 == 0xffff_ffff_ffff_ffffu64 - b) by (bit_vector);
     assert(b < 0x8000_0000_0000_0000u64 ==> b | 0x8000_0000_0000_0000u64 == 0x8000_0000_0000_0000u64 + b) by (bit_vector);
   }
//@sub /u64::from_ne_bytes\((\w+)\.to_ne_bytes\(\)\)/ => verif_bits(\1)
//@end
//@item src/comp.rs struct Comparef64
impl Compare for Comparef64 {
    open spec fn ord(&self, l: Seq<u8>, r: Seq<u8>) -> Ordering { kcmp(fkey(ftext(l)), fkey(ftext(r))) }
    open spec fn ck(&self, v: Seq<u8>) -> u64 { fulp(ftext(v)) }
    open spec fn cc(&self, v: Seq<u8>) -> bool { true }
//@fn src/comp.rs <Comparef64 as Compare>::comp
//@end
//@fn src/comp.rs <Comparef64 as Compare>::equal
//@start
   broadcast use ieee;
//@end
//@fn src/comp.rs <Comparef64 as Compare>::fill_cache
//@end
}
pub proof fn sound_float(c: &Comparef64, a: Seq<u8>, b: Seq<u8>) ensures sound(c, a, b) { fulp_mono(ftext(a), ftext(b)); }

// ------------------------------------------------------------ keys of lines
//@include lines.vrs
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Junk { x: u8 }
//@item src/column.rs struct NamedCol
//@item src/comp.rs struct Comp
impl Comp {
    pub open spec fn ok(&self) -> bool { !self.reverse && forall|a: Seq<u8>, b: Seq<u8>| #[trigger] sound(&*self.comp, a, b) }
//@fn src/comp.rs Comp::reverse (r)
   ensures r == if self.reverse { flip(x) } else { x },
//@end
//@fn src/comp.rs Comp::comp (r)
   requires !self.reverse,
   ensures r == self.comp.ord(left@, right@),
//@end
//@fn src/comp.rs Comp::equal (r)
   ensures r == (self.comp.ord(left@, right@) == Ordering::Equal),
//@end
//@fn src/comp.rs Comp::fill_cache
   ensures final(item).cache == self.comp.ck(value@), final(item).cpl() == self.comp.cc(value@), final(item).same_place(&*old(item)),
//@end
}
/// what one line key stands for: its order, its cached number, whether that is the whole key
pub ghost struct LM { pub ord: spec_fn(Seq<u8>, Seq<u8>, u8) -> Ordering, pub ck: spec_fn(Seq<u8>, u8) -> u64, pub cc: spec_fn(Seq<u8>, u8) -> bool, pub ok: bool }
impl LM {
    pub open spec fn lord(self, l: Seq<u8>, r: Seq<u8>, d: u8) -> Ordering { (self.ord)(l, r, d) }
    pub open spec fn lck(self, l: Seq<u8>, d: u8) -> u64 { (self.ck)(l, d) }
    pub open spec fn lcc(self, l: Seq<u8>, d: u8) -> bool { (self.cc)(l, d) }
}
/// the split line is this raw line, split at this delimiter (that its columns are the raw line's: C06)
pub open spec fn is_split(l: TextLine, t: Seq<u8>, d: u8) -> bool { no_nl(tl_line(l)) == no_nl(t) && forall|n: int| #[trigger] tl_col(l, n) == col_of(t, n, d) }
pub trait LineCompare {
    spec fn m(&self) -> LM;
//@fn src/comp.rs trait LineCompare::comp_lines (r)
   requires old(self).m().ok, left_file == 0, right_file == 0,
   ensures r == old(self).m().lord(left@, right@, delim), final(self).m() == old(self).m(),
//@end
//@fn src/comp.rs trait LineCompare::equal_lines (r)
   requires old(self).m().ok, left_file == 0, right_file == 0,
   ensures r == (old(self).m().lord(left@, right@, delim) == Ordering::Equal), final(self).m() == old(self).m(),
//@end
//@fn src/comp.rs trait LineCompare::fill_cache_cols
   requires old(self).m().ok,
   ensures forall|t: Seq<u8>, d: u8| #[trigger] is_split(*value, t, d) ==> final(item).cache == old(self).m().lck(t, d) && final(item).cpl() == old(self).m().lcc(t, d), final(item).same_place(&*old(item)), final(self).m() == old(self).m(),
//@end
//@fn src/comp.rs trait LineCompare::fill_cache_line
   requires old(self).m().ok, old(item).inside(value@),
   ensures final(item).cache == old(self).m().lck(old(item).text(value@), delim), final(item).cpl() == old(self).m().lcc(old(item).text(value@), delim), final(item).same_place(&*old(item)), final(self).m() == old(self).m(),
//@end
}
pub open spec fn lsound(c: LM, a: Seq<u8>, b: Seq<u8>, d: u8) -> bool {
    &&& (c.lck(a, d) < c.lck(b, d) ==> c.lord(a, b, d) == Ordering::Less)
    &&& (c.lck(a, d) > c.lck(b, d) ==> c.lord(a, b, d) == Ordering::Greater)
    &&& (c.lck(a, d) == c.lck(b, d) && c.lcc(a, d) && c.lcc(b, d) ==> c.lord(a, b, d) == Ordering::Equal)
    &&& (c.lcc(a, d) && c.lcc(b, d) && c.lord(a, b, d) == Ordering::Equal ==> c.lck(a, d) == c.lck(b, d))
}
//@fn src/comp.rs no_newline (r)
  ensures r@ == no_nl(line@),
//@start
  proof { if line@.len() > 0 { assert(line@.drop_last() =~= line@.subrange(0, line@.len() - 1)); } }
//@end
//@item src/comp.rs struct LineCompWhole
impl LineCompare for LineCompWhole {
    open spec fn m(&self) -> LM {
        LM { ord: |l: Seq<u8>, r: Seq<u8>, d: u8| self.comp.comp.ord(no_nl(l), no_nl(r)), ck: |l: Seq<u8>, d: u8| self.comp.comp.ck(no_nl(l)), cc: |l: Seq<u8>, d: u8| self.comp.comp.cc(no_nl(l)), ok: self.comp.ok() }
    }
//@fn src/comp.rs <LineCompWhole as LineCompare>::comp_lines
//@end
//@fn src/comp.rs <LineCompWhole as LineCompare>::equal_lines
//@end
//@fn src/comp.rs <LineCompWhole as LineCompare>::fill_cache_cols
//@end
//@fn src/comp.rs <LineCompWhole as LineCompare>::fill_cache_line
//@end
}
pub proof fn sound_whole(c: &LineCompWhole, a: Seq<u8>, b: Seq<u8>, d: u8) requires c.m().ok ensures lsound(c.m(), a, b, d) { assert(sound(&*c.comp.comp, no_nl(a), no_nl(b))); }
//@item src/comp.rs struct LineCompCol
impl LineCompare for LineCompCol {
    open spec fn m(&self) -> LM {
        LM { ord: |l: Seq<u8>, r: Seq<u8>, d: u8| self.comp.comp.ord(col_of(l, self.cols@[0].num as int, d), col_of(r, self.cols@[0].num as int, d)), ck: |l: Seq<u8>, d: u8| self.comp.comp.ck(col_of(l, self.cols@[0].num as int, d)), cc: |l: Seq<u8>, d: u8| self.comp.comp.cc(col_of(l, self.cols@[0].num as int, d)), ok: self.comp.ok() && self.cols@.len() > 0 }
    }
//@fn src/comp.rs <LineCompCol as LineCompare>::comp_lines
//@end
//@fn src/comp.rs <LineCompCol as LineCompare>::equal_lines
//@end
//@fn src/comp.rs <LineCompCol as LineCompare>::fill_cache_cols
//@end
//@fn src/comp.rs <LineCompCol as LineCompare>::fill_cache_line
//@end
}
pub proof fn sound_col(c: &LineCompCol, a: Seq<u8>, b: Seq<u8>, d: u8) requires c.m().ok ensures lsound(c.m(), a, b, d) {
    assert(sound(&*c.comp.comp, col_of(a, c.cols@[0].num as int, d), col_of(b, c.cols@[0].num as int, d)));
}
// an expression key: the value of the expression on a line is a function of the line (C14's subject)
#[verifier::external_body]
pub struct Expr { x: u8 }
impl Expr {
    pub uninterp spec fn vl(&self) -> spec_fn(Seq<u8>, u8) -> f64;
    pub uninterp spec fn vc(&self) -> spec_fn(TextLine) -> f64;
    #[verifier::external_body]
    pub fn eval(&mut self, line: &TextLine) -> (r: f64) ensures r == (old(self).vc())(*line), forall|t: Seq<u8>, d: u8| #[trigger] is_split(*line, t, d) ==> r == (old(self).vl())(t, d), final(self).vl() == old(self).vl(), final(self).vc() == old(self).vc() { unimplemented!() }
    #[verifier::external_body]
    pub fn eval_line(&mut self, line: &[u8], delim: u8) -> (r: f64) ensures r == (old(self).vl())(line@, delim), final(self).vl() == old(self).vl(), final(self).vc() == old(self).vc() { unimplemented!() }
}
pub open spec fn lmx(f: spec_fn(Seq<u8>, u8) -> f64, ok: bool) -> LM {
    LM { ord: |l: Seq<u8>, r: Seq<u8>, d: u8| kcmp(fkey(f(l, d)), fkey(f(r, d))), ck: |l: Seq<u8>, d: u8| fulp(f(l, d)), cc: |l: Seq<u8>, d: u8| true, ok: ok }
}
//@item src/comp.rs struct LineCompExpr
impl LineCompare for LineCompExpr {
    open spec fn m(&self) -> LM { lmx(self.exprs@[0].vl(), self.exprs@.len() > 0) }
//@fn src/comp.rs <LineCompExpr as LineCompare>::comp_lines
//@end
//@fn src/comp.rs <LineCompExpr as LineCompare>::equal_lines
//@end
//@fn src/comp.rs <LineCompExpr as LineCompare>::fill_cache_cols
//@end
//@fn src/comp.rs <LineCompExpr as LineCompare>::fill_cache_line
//@end
}
pub proof fn sound_expr(c: &LineCompExpr, a: Seq<u8>, b: Seq<u8>, d: u8) requires c.m().ok ensures lsound(c.m(), a, b, d) {
    let f = c.exprs@[0].vl(); fulp_mono(f(a, d), f(b, d));
}
//@item src/comp.rs struct LineComp
pub open spec fn rv(b: bool, o: Ordering) -> Ordering { if b { flip(o) } else { o } }
impl LineComp {
    pub open spec fn ok(&self) -> bool { self.comp.m().ok && forall|a: Seq<u8>, b: Seq<u8>| #[trigger] lsound(self.comp.m(), a, b, self.delim) }
    pub open spec fn kl(&self, l: Seq<u8>, r: Seq<u8>) -> Ordering { rv(self.reverse, self.comp.m().lord(l, r, self.delim)) }
    pub open spec fn same(&self, o: &LineComp) -> bool { self.reverse == o.reverse && self.delim == o.delim && self.comp.m() == o.comp.m() }
    /// the item's cache is the one this key computes for the item's line
    pub open spec fn filled(&self, it: &Item, base: Seq<u8>) -> bool {
        it.inside(base) && it.cache == self.comp.m().lck(it.text(base), self.delim) && it.cpl() == self.comp.m().lcc(it.text(base), self.delim)
    }
//@fn src/comp.rs LineComp::reverse (r)
   ensures r == rv(self.reverse, x),
//@end
//@fn src/comp.rs LineComp::comp_lines (r)
   requires old(self).ok(),
   ensures r == old(self).kl(left@, right@), final(self).same(&*old(self)),
//@end
//@fn src/comp.rs LineComp::equal_lines (r)
   requires old(self).ok(),
   ensures r == (old(self).kl(left@, right@) == Ordering::Equal), final(self).same(&*old(self)),
//@end
//@fn src/comp.rs LineComp::fill_cache_cols
   requires old(self).ok(),
   ensures final(self).same(&*old(self)), final(item).same_place(&*old(item)),
     forall|base: Seq<u8>| final(item).inside(base) && is_split(*value, final(item).text(base), old(self).delim) ==> #[trigger] old(self).filled(final(item), base),
//@end
//@fn src/comp.rs LineComp::fill_cache_line
   requires old(self).ok(), old(item).inside(value@),
   ensures final(self).same(&*old(self)), final(item).same_place(&*old(item)),
     old(self).filled(final(item), value@),
//@end
//@fn src/comp.rs LineComp::comp_items (r)
   requires old(self).ok(), old(self).filled(left, base@), old(self).filled(right, base@),
   ensures r == old(self).kl(left.text(base@), right.text(base@)), final(self).same(&*old(self)),
//@start
   proof { assert(lsound(self.comp.m(), left.text(base@), right.text(base@), self.delim)); }
//@end
//@fn src/comp.rs LineComp::equal_items (r)
   requires old(self).ok(), old(self).filled(left, base@), old(self).filled(right, base@),
   ensures r == (old(self).kl(left.text(base@), right.text(base@)) == Ordering::Equal), final(self).same(&*old(self)),
//@start
   proof { assert(lsound(self.comp.m(), left.text(base@), right.text(base@), self.delim)); }
//@end
}
//@item src/comp.rs struct LineCompList
pub open spec fn lex(s: Seq<Ordering>, n: int) -> Ordering decreases s.len() - n {
    if n < 0 || n >= s.len() { Ordering::Equal } else if s[n] != Ordering::Equal { s[n] } else { lex(s, n + 1) }
}
impl LineCompList {
    pub open spec fn ok(&self) -> bool { forall|i: int| 0 <= i < self.c@.len() ==> (#[trigger] self.c@[i]).ok() }
    pub open spec fn ol(&self, l: Seq<u8>, r: Seq<u8>) -> Seq<Ordering> { Seq::new(self.c@.len(), |i: int| self.c@[i].kl(l, r)) }
    pub open spec fn same(&self, o: &LineCompList) -> bool { self.c@.len() == o.c@.len() && forall|i: int| 0 <= i < self.c@.len() ==> (#[trigger] self.c@[i]).same(&o.c@[i]) }
    pub open spec fn filled(&self, it: &Item, base: Seq<u8>) -> bool { it.inside(base) && (self.c@.len() > 0 ==> self.c@[0].filled(it, base)) }
    pub open spec fn delim_ok(&self, d: u8) -> bool { self.c@.len() > 0 ==> self.c@[0].delim == d }
//@fn src/comp.rs LineCompList::fill_cache_cols
   requires old(self).ok(),
   ensures final(self).same(&*old(self)), final(item).same_place(&*old(item)),
     forall|base: Seq<u8>, d: u8| final(item).inside(base) && #[trigger] is_split(*value, final(item).text(base), d) && old(self).delim_ok(d) ==> old(self).filled(final(item), base),
//@end
//@fn src/comp.rs LineCompList::fill_cache_line
   requires old(self).ok(), old(item).inside(value@),
   ensures final(self).same(&*old(self)), final(item).same_place(&*old(item)), old(self).filled(final(item), value@),
//@end
//@fn src/comp.rs LineCompList::comp_items (r)
   requires old(self).ok(), old(self).filled(left, base@), old(self).filled(right, base@),
   ensures r == lex(old(self).ol(left.text(base@), right.text(base@)), 0), final(self).same(&*old(self)),
//@loop 0 d
   invariant
     1 <= vi0 <= self.c@.len(), self.same(&*old(self)), old(self).ok(), left.inside(base@), right.inside(base@),
     lex(old(self).ol(left.text(base@), right.text(base@)), 0) == lex(old(self).ol(left.text(base@), right.text(base@)), vi0 as int),
   decreases self.c@.len() - vi0
//@end
//@fn src/comp.rs LineCompList::equal_items (r)
   requires old(self).ok(), old(self).filled(left, base@), old(self).filled(right, base@),
   ensures r == (lex(old(self).ol(left.text(base@), right.text(base@)), 0) == Ordering::Equal), final(self).same(&*old(self)),
//@loop 0 d
   invariant
     1 <= vi0 <= self.c@.len(), self.same(&*old(self)), old(self).ok(), left.inside(base@), right.inside(base@),
     lex(old(self).ol(left.text(base@), right.text(base@)), 0) == lex(old(self).ol(left.text(base@), right.text(base@)), vi0 as int),
   decreases self.c@.len() - vi0
//@end
}
}
fn main(){}
