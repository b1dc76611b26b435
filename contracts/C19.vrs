use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
global size_of usize == 8;
//@include std.vrs
//@include bytes.vrs
//@include lexc.vrs
//@include num.vrs
pub assume_specification [<[u8]>::eq_ignore_ascii_case] (a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (lowers(a@) =~= lowers(b@));
/// `dst.extend(src.iter().map(u8::to_ascii_lowercase))`
#[verifier::external_body]
pub fn verif_extend_lower(dst: &mut Vec<u8>, src: &[u8])
    ensures final(dst)@ == old(dst)@ + lowers(src@)
{ dst.extend(src.iter().map(u8::to_ascii_lowercase)) }

pub proof fn lemma_trim(s: Seq<u8>, n: int)
  requires 0 <= n <= s.len(), forall|j: int| 0 <= j < n ==> s[j] <= 32u8, n < s.len() ==> s[n] > 32u8
  ensures blank_trim(s) =~= s.subrange(n, s.len() as int)
  decreases n
{
    if n > 0 {
        assert(s.drop_first() =~= s.subrange(1, s.len() as int));
        lemma_trim(s.drop_first(), n - 1);
        assert(s.drop_first().subrange(n - 1, s.len() - 1) =~= s.subrange(n, s.len() as int));
    } else { assert(s.subrange(0, s.len() as int) =~= s); }
}
pub trait Text {
    fn trimw_start(&self) -> &Self;
    fn cmp_insens(&self, other: &Self) -> Ordering;
    fn cmp_insens_quick(&self, other: &Self) -> Ordering;
    fn equal_insens(&self, other: &Self) -> bool;
    fn equal_insens_quick(&self, other: &Self) -> bool;
    fn assign_lower(&self, dst: &mut Vec<u8>);
}
impl Text for [u8] {
//@fn src/text.rs <[u8] as Text>::trimw_start (r)
  ensures r@ == blank_trim(self@)
//@sigsub /&Self/ => &[u8]
//@before /if vp0 < self.len\(\)/
  proof { lemma_trim(self@, vp0 as int); }
//@end
//@fn src/text.rs <[u8] as Text>::cmp_insens (r)
  ensures r == lexc(lowers(self@), lowers(other@), 0),
//@sigsub /&Self/ => &[u8]
//@loop 0 d
  invariant vi0 <= self@.len(), vi0 <= other@.len(), lexc(lowers(self@), lowers(other@), 0) == lexc(lowers(self@), lowers(other@), vi0 as int),
  decreases self@.len() - vi0
//@end
//@fn src/text.rs <[u8] as Text>::cmp_insens_quick (r)
  ensures r == lexc(self@, lowers(other@), 0),
//@sigsub /&Self/ => &[u8]
//@sub /ch\.0 < &ch\.1/ => *ch.0 < ch.1
//@sub /ch\.0 > &ch\.1/ => *ch.0 > ch.1
//@loop 0 d
  invariant vi0 <= self@.len(), vi0 <= other@.len(), lexc(self@, lowers(other@), 0) == lexc(self@, lowers(other@), vi0 as int),
  decreases self@.len() - vi0
//@end
//@fn src/text.rs <[u8] as Text>::equal_insens (r)
  ensures r == (lowers(self@) =~= lowers(other@)),
//@sigsub /&Self/ => &[u8]
//@end
//@fn src/text.rs <[u8] as Text>::equal_insens_quick (r)
  ensures r == (lowers(self@) =~= lowers(other@)),
//@sigsub /&Self/ => &[u8]
//@end
//@fn src/text.rs <[u8] as Text>::assign_lower
  ensures final(dst)@ =~= lowers(self@),
//@sub /dst\.extend\(self\.iter\(\)\.map\(u8::to_ascii_lowercase\)\)/ => verif_extend_lower(dst, self)
//@end
}

// ------------------------------------------------------------ IP addresses and section numbers
/// what follows the leading digits
pub open spec fn drest(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() > 0 && is_digit(s[0]) { drest(s.drop_first()) } else { s }
}
pub proof fn lemma_drest(s: Seq<u8>) ensures drest(s).len() == s.len() - fdig(s).len(), fdig(s).len() <= s.len() decreases s.len()
{ if s.len() > 0 && is_digit(s[0]) { lemma_drest(s.drop_first()); } }
/// the numbers of a dotted address
pub open spec fn ipv(s: Seq<u8>) -> Seq<nat> decreases s.len() via ipv_dec {
    if drest(s).len() > 0 && drest(s)[0] == 46u8 { seq![nat_of(fdig(s))] + ipv(drest(s).drop_first()) } else { seq![nat_of(fdig(s))] }
}
#[via_fn]
proof fn ipv_dec(s: Seq<u8>) { lemma_drest(s); }
/// lexicographic order of number lists
pub open spec fn nlex(x: Seq<nat>, y: Seq<nat>) -> Ordering decreases x.len() {
    if x.len() == 0 || y.len() == 0 { icmp(x.len() as int, y.len() as int) }
    else if x[0] != y[0] { icmp(x[0] as int, y[0] as int) }
    else { nlex(x.drop_first(), y.drop_first()) }
}
pub open spec fn ipord(a: Seq<u8>, b: Seq<u8>) -> Ordering { nlex(ipv(blank_trim(a)), ipv(blank_trim(b))) }
/// the digit run of length n
pub proof fn lemma_digits(s: Seq<u8>, n: int)
  requires 0 <= n <= s.len(), forall|j: int| 0 <= j < n ==> is_digit(s[j]), n < s.len() ==> !is_digit(s[n])
  ensures fdig(s) =~= s.subrange(0, n), drest(s) =~= s.subrange(n, s.len() as int)
  decreases n
{
    if n > 0 {
        let t = s.drop_first();
        assert forall|j: int| 0 <= j < n - 1 implies is_digit(t[j]) by { assert(is_digit(s[j + 1])); }
        lemma_digits(t, n - 1);
        assert(t.subrange(n - 1, t.len() as int) =~= s.subrange(n, s.len() as int));
        assert(seq![s[0]] + t.subrange(0, n - 1) =~= s.subrange(0, n));
        assert(is_digit(s[0]));
    }
}
/// equal-length digit strings: the first difference decides
pub proof fn lemma_same_len(x: Seq<u8>, y: Seq<u8>, i: int)
  requires all_digits(x), all_digits(y), x.len() == y.len(), 0 <= i <= x.len(), forall|j: int| 0 <= j < i ==> x[j] == y[j]
  ensures i == x.len() ==> nat_of(x) == nat_of(y), i < x.len() && x[i] < y[i] ==> nat_of(x) < nat_of(y), i < x.len() && x[i] > y[i] ==> nat_of(x) > nat_of(y)
  decreases i
{
    if i == 0 {
        if x.len() > 0 {
            if x[0] < y[0] { lemma_nat_diff_head(x, y); }
            if x[0] > y[0] { lemma_nat_diff_head(y, x); }
        }
    } else {
        lemma_tail_digits(x); lemma_tail_digits(y);
        assert(x[0] == y[0]);
        lemma_same_len(x.drop_first(), y.drop_first(), i - 1);
        lemma_nat_same_head(x, y);
    }
}
pub proof fn lemma_zero_head(s: Seq<u8>)
  requires s.len() > 0, s[0] == 48u8
  ensures nat_of(fdig(s)) == nat_of(fdig(s.drop_first())), drest(s) == drest(s.drop_first())
{
    lemma_fdig(s);
    assert(fdig(s).drop_first() =~= fdig(s.drop_first()));
    lemma_nat_ge(fdig(s));
    assert((48int - 48) * pow10((fdig(s).len() - 1) as nat) == 0) by (nonlinear_arith);
}
//@fn src/comp.rs skip_zero (r)
  ensures ipv(r@) == ipv(a@), r@.len() <= a@.len(), r@.len() > 0 ==> r@[0] != 48u8,
//@start
  let ghost a0 = a@;
//@loop 0 w
  invariant ipv(a@) == ipv(a0), a@.len() <= a0.len(),
  ensures a@.len() > 0 ==> a@[0] != 48u8,
  decreases a@.len()
//@loopstart 0
  proof { lemma_zero_head(a@); assert(a@.subrange(1, a@.len() as int) =~= a@.drop_first()); }
//@end
#[verifier::loop_isolation(false)]
//@fn src/comp.rs ip_cmp (r)
  ensures r == ipord(a@, b@),
//@start
  let ghost (a0, b0) = (a@, b@);
//@loop 0 l
  invariant ipord(a0, b0) == nlex(ipv(a@), ipv(b@)),
  decreases a@.len()
//@loop 1 w
  invariant a2 <= a@.len(), forall|j: int| 0 <= j < a2 ==> is_digit(a@[j]),
  decreases a@.len() - a2
//@loop 2 w
  invariant b2 <= b@.len(), forall|j: int| 0 <= j < b2 ==> is_digit(b@[j]),
  decreases b@.len() - b2
//@afterloop 2
  let ghost (da, db) = (a@.subrange(0, a2 as int), b@.subrange(0, b2 as int));
  proof {
    lemma_digits(a@, a2 as int); lemma_digits(b@, b2 as int);
    lemma_fdig(a@); lemma_fdig(b@);
    if a2 > b2 { lemma_nat_longer(da, db); }
    if b2 > a2 { lemma_nat_longer(db, da); }
    assert(ipv(a@)[0] == nat_of(da)); assert(ipv(b@)[0] == nat_of(db));
  }
//@loop 3 f
  invariant a2 == b2, a2 <= a@.len(), b2 <= b@.len(), forall|j: int| 0 <= j < x ==> a@[j] == b@[j],
    da == a@.subrange(0, a2 as int), db == b@.subrange(0, a2 as int), all_digits(da), all_digits(db),
    ipord(a0, b0) == nlex(ipv(a@), ipv(b@)), ipv(a@).len() > 0, ipv(b@).len() > 0, ipv(a@)[0] == nat_of(da), ipv(b@)[0] == nat_of(db),
//@loopstart 3
  proof { lemma_same_len(da, db, x as int); }
//@afterloop 3
  proof {
    lemma_same_len(da, db, a2 as int);
    lemma_drest(a@);
    if drest(a@).len() > 0 && drest(a@)[0] == 46u8 {
      assert(drest(a@).drop_first() =~= a@.subrange(a2 + 1, a@.len() as int));
      assert(ipv(a@).drop_first() =~= ipv(drest(a@).drop_first()));
    } else { assert(ipv(a@).drop_first() =~= Seq::<nat>::empty()); }
    if drest(b@).len() > 0 && drest(b@)[0] == 46u8 {
      assert(drest(b@).drop_first() =~= b@.subrange(b2 + 1, b@.len() as int));
      assert(ipv(b@).drop_first() =~= ipv(drest(b@).drop_first()));
    } else { assert(ipv(b@).drop_first() =~= Seq::<nat>::empty()); }
    let (ta, tb) = (ipv(a@).drop_first(), ipv(b@).drop_first());
    assert(nlex(ipv(a@), ipv(b@)) == nlex(ta, tb));
    if ta.len() == 0 || tb.len() == 0 { assert(nlex(ta, tb) == icmp(ta.len() as int, tb.len() as int)); }
    assert(ipv(drest(a@).drop_first()).len() > 0); assert(ipv(drest(b@).drop_first()).len() > 0);
    assert(a2 < a@.len() ==> drest(a@)[0] == a@[a2 as int]); assert(b2 < b@.len() ==> drest(b@)[0] == b@[b2 as int]);
  }
//@end

// ------------------------------------------------------------ the comparators
pub uninterp spec fn numord(a: Seq<u8>, b: Seq<u8>) -> Ordering;
/// num_cmp_signed: its order by exact value is C04's subject
#[verifier::external_body]
pub fn num_cmp_signed(a: &[u8], b: &[u8]) -> (r: Ordering) ensures r == numord(a@, b@) { unimplemented!() }
pub trait Compare {
    /// the order this comparator stands for
    spec fn ord(&self, l: Seq<u8>, r: Seq<u8>) -> Ordering;
    /// how the value stored by set compares with r
    spec fn sv(&self, r: Seq<u8>) -> Ordering;
    spec fn wf(&self) -> bool;
    spec fn fits(&self, v: Seq<u8>) -> bool;
//@fn src/comp.rs trait Compare::comp (r)
   ensures r == self.ord(left@, right@),
//@end
//@fn src/comp.rs trait Compare::equal (r)
   ensures r == (self.ord(left@, right@) == Ordering::Equal),
//@end
//@fn src/comp.rs trait Compare::set
   requires old(self).fits(value@),
   ensures final(self).wf(), forall|r: Seq<u8>| final(self).fits(r) ==> #[trigger] final(self).sv(r) == old(self).ord(value@, r),
     forall|l: Seq<u8>, r: Seq<u8>| #[trigger] final(self).ord(l, r) == old(self).ord(l, r),
//@end
//@fn src/comp.rs trait Compare::comp_self (r)
   requires self.wf(), self.fits(right@),
   ensures r == self.sv(right@),
//@end
//@fn src/comp.rs trait Compare::equal_self (r)
   requires self.wf(), self.fits(right@),
   ensures r == (self.sv(right@) == Ordering::Equal),
//@end
}
//@gsub /self\.value == right\b(?!\.)/ => verif_seq_eq(&self.value, right)
//@item src/comp.rs struct ComparePlain
impl Compare for ComparePlain {
    open spec fn ord(&self, l: Seq<u8>, r: Seq<u8>) -> Ordering { lexc(l, r, 0) }
    open spec fn sv(&self, r: Seq<u8>) -> Ordering { lexc(self.value@, r, 0) }
    open spec fn wf(&self) -> bool { true }
    open spec fn fits(&self, v: Seq<u8>) -> bool { true }
//@fn src/comp.rs <ComparePlain as Compare>::comp
//@end
//@fn src/comp.rs <ComparePlain as Compare>::equal
//@start
  proof { lemma_lexc_eq(left@, right@, 0); }
//@end
//@fn src/comp.rs <ComparePlain as Compare>::set
//@end
//@fn src/comp.rs <ComparePlain as Compare>::comp_self
//@start
  proof { assert(self.value@.subrange(0, self.value@.len() as int) =~= self.value@); }
//@end
//@fn src/comp.rs <ComparePlain as Compare>::equal_self
//@start
  proof { lemma_lexc_eq(self.value@, right@, 0); }
//@end
}
//@item src/comp.rs struct CompareLower
impl Compare for CompareLower {
    open spec fn ord(&self, l: Seq<u8>, r: Seq<u8>) -> Ordering { lexc(lowers(l), lowers(r), 0) }
    open spec fn sv(&self, r: Seq<u8>) -> Ordering { lexc(lowers(self.value@), lowers(r), 0) }
    open spec fn wf(&self) -> bool { self.value@ =~= lowers(self.value@) }
    open spec fn fits(&self, v: Seq<u8>) -> bool { true }
//@fn src/comp.rs <CompareLower as Compare>::comp
//@end
//@fn src/comp.rs <CompareLower as Compare>::equal
//@start
  proof { lemma_lexc_eq(lowers(left@), lowers(right@), 0); }
//@end
//@fn src/comp.rs <CompareLower as Compare>::set
//@start
  proof { assert(lowers(lowers(value@)) =~= lowers(value@)); }
//@end
//@fn src/comp.rs <CompareLower as Compare>::comp_self
//@end
//@fn src/comp.rs <CompareLower as Compare>::equal_self
//@start
  proof { lemma_lexc_eq(lowers(self.value@), lowers(right@), 0); }
//@end
}
//@item src/comp.rs struct CompareIP
impl Compare for CompareIP {
    open spec fn ord(&self, l: Seq<u8>, r: Seq<u8>) -> Ordering { ipord(l, r) }
    open spec fn sv(&self, r: Seq<u8>) -> Ordering { ipord(self.value@, r) }
    open spec fn wf(&self) -> bool { true }
    open spec fn fits(&self, v: Seq<u8>) -> bool { true }
//@fn src/comp.rs <CompareIP as Compare>::comp
//@end
//@fn src/comp.rs <CompareIP as Compare>::equal
//@end
//@fn src/comp.rs <CompareIP as Compare>::set
//@end
//@fn src/comp.rs <CompareIP as Compare>::comp_self
//@end
//@fn src/comp.rs <CompareIP as Compare>::equal_self
//@end
}
//@item src/comp.rs struct CompareNumeric
impl Compare for CompareNumeric {
    open spec fn ord(&self, l: Seq<u8>, r: Seq<u8>) -> Ordering { numord(l, r) }
    open spec fn sv(&self, r: Seq<u8>) -> Ordering { numord(self.value@, r) }
    open spec fn wf(&self) -> bool { true }
    open spec fn fits(&self, v: Seq<u8>) -> bool { true }
//@fn src/comp.rs <CompareNumeric as Compare>::comp
//@end
//@fn src/comp.rs <CompareNumeric as Compare>::equal
//@end
//@fn src/comp.rs <CompareNumeric as Compare>::set
//@end
//@fn src/comp.rs <CompareNumeric as Compare>::comp_self
//@end
//@fn src/comp.rs <CompareNumeric as Compare>::equal_self
//@end
}
//@item src/comp.rs struct CompareEqual
impl Compare for CompareEqual {
    open spec fn ord(&self, l: Seq<u8>, r: Seq<u8>) -> Ordering { Ordering::Equal }
    open spec fn sv(&self, r: Seq<u8>) -> Ordering { Ordering::Equal }
    open spec fn wf(&self) -> bool { true }
    open spec fn fits(&self, v: Seq<u8>) -> bool { true }
//@fn src/comp.rs <CompareEqual as Compare>::comp
//@end
//@fn src/comp.rs <CompareEqual as Compare>::equal
//@end
//@fn src/comp.rs <CompareEqual as Compare>::set
//@end
//@fn src/comp.rs <CompareEqual as Compare>::comp_self
//@end
//@fn src/comp.rs <CompareEqual as Compare>::equal_self
//@end
}
//@item src/comp.rs struct CompareLen
impl Compare for CompareLen {
    open spec fn ord(&self, l: Seq<u8>, r: Seq<u8>) -> Ordering { icmp(l.len() as int, r.len() as int) }
    open spec fn sv(&self, r: Seq<u8>) -> Ordering { icmp(self.value as int, r.len() as int) }
    open spec fn wf(&self) -> bool { true }
    open spec fn fits(&self, v: Seq<u8>) -> bool { v.len() <= u32::MAX }
//@fn src/comp.rs <CompareLen as Compare>::comp
//@end
//@fn src/comp.rs <CompareLen as Compare>::equal
//@end
//@fn src/comp.rs <CompareLen as Compare>::set
//@end
//@fn src/comp.rs <CompareLen as Compare>::comp_self
//@end
//@fn src/comp.rs <CompareLen as Compare>::equal_self
//@end
}

//@include float.vrs
//@gsub /\b(left|right|value)\.to_f64_lossy\(\)/ => verif_f64(\1)
//@item src/comp.rs struct Comparef64
impl Compare for Comparef64 {
    open spec fn ord(&self, l: Seq<u8>, r: Seq<u8>) -> Ordering { kcmp(fkey(ftext(l)), fkey(ftext(r))) }
    open spec fn sv(&self, r: Seq<u8>) -> Ordering { kcmp(fkey(self.value), fkey(ftext(r))) }
    open spec fn wf(&self) -> bool { !fnan(self.value) }
    open spec fn fits(&self, v: Seq<u8>) -> bool { true }
//@fn src/comp.rs <Comparef64 as Compare>::comp
//@end
//@fn src/comp.rs <Comparef64 as Compare>::equal
//@start
   broadcast use ieee;
//@end
//@fn src/comp.rs <Comparef64 as Compare>::set
//@end
//@fn src/comp.rs <Comparef64 as Compare>::comp_self
//@end
//@fn src/comp.rs <Comparef64 as Compare>::equal_self
//@start
   broadcast use ieee;
   proof { ieee_val(self.value); }
//@end
}

// ------------------------------------------------------------ the orders are total preorders
pub open spec fn preorder(f: spec_fn(Seq<u8>, Seq<u8>) -> Ordering) -> bool {
    &&& forall|a: Seq<u8>| #[trigger] f(a, a) == Ordering::Equal
    &&& forall|a: Seq<u8>, b: Seq<u8>| #[trigger] f(a, b) == flip(f(b, a))
    &&& forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| f(a, b) != Ordering::Greater && f(b, c) != Ordering::Greater ==> #[trigger] tri(f, a, b, c) != Ordering::Greater
    &&& forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| f(a, b) == Ordering::Equal && f(b, c) == Ordering::Equal ==> #[trigger] tri(f, a, b, c) == Ordering::Equal
}
pub open spec fn tri(f: spec_fn(Seq<u8>, Seq<u8>) -> Ordering, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) -> Ordering { f(a, c) }
pub proof fn lexc_flip(a: Seq<u8>, b: Seq<u8>, i: int) requires 0 <= i ensures lexc(a, b, i) == flip(lexc(b, a, i)) decreases a.len() - i
{ if i < a.len() && i < b.len() && a[i] == b[i] { lexc_flip(a, b, i + 1); } }
pub proof fn lexc_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, i: int)
  requires 0 <= i, lexc(a, b, i) != Ordering::Greater, lexc(b, c, i) != Ordering::Greater,
  ensures lexc(a, c, i) != Ordering::Greater, lexc(a, b, i) == Ordering::Equal && lexc(b, c, i) == Ordering::Equal ==> lexc(a, c, i) == Ordering::Equal
  decreases a.len() - i
{ if i < a.len() && i < b.len() && i < c.len() && a[i] == b[i] && b[i] == c[i] { lexc_trans(a, b, c, i + 1); } }
pub proof fn nlex_flip(a: Seq<nat>, b: Seq<nat>) ensures nlex(a, b) == flip(nlex(b, a)), nlex(a, a) == Ordering::Equal decreases a.len()
{ if a.len() > 0 { nlex_flip(a.drop_first(), a.drop_first()); if b.len() > 0 && a[0] == b[0] { nlex_flip(a.drop_first(), b.drop_first()); } } }
pub proof fn nlex_trans(a: Seq<nat>, b: Seq<nat>, c: Seq<nat>)
  requires nlex(a, b) != Ordering::Greater, nlex(b, c) != Ordering::Greater,
  ensures nlex(a, c) != Ordering::Greater, nlex(a, b) == Ordering::Equal && nlex(b, c) == Ordering::Equal ==> nlex(a, c) == Ordering::Equal
  decreases a.len()
{ if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { nlex_trans(a.drop_first(), b.drop_first(), c.drop_first()); } }
pub proof fn theorem_plain() ensures preorder(|l: Seq<u8>, r: Seq<u8>| lexc(l, r, 0))
{
    let f = |l: Seq<u8>, r: Seq<u8>| lexc(l, r, 0);
    assert forall|a: Seq<u8>| #[trigger] f(a, a) == Ordering::Equal by { lemma_lexc_eq(a, a, 0); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] f(a, b) == flip(f(b, a)) by { lexc_flip(a, b, 0); }
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| f(a, b) != Ordering::Greater && f(b, c) != Ordering::Greater implies #[trigger] tri(f, a, b, c) != Ordering::Greater by { lexc_trans(a, b, c, 0); }
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| f(a, b) == Ordering::Equal && f(b, c) == Ordering::Equal implies #[trigger] tri(f, a, b, c) == Ordering::Equal by { lexc_trans(a, b, c, 0); }
}
pub proof fn theorem_lower() ensures preorder(|l: Seq<u8>, r: Seq<u8>| lexc(lowers(l), lowers(r), 0))
{
    let f = |l: Seq<u8>, r: Seq<u8>| lexc(lowers(l), lowers(r), 0);
    assert forall|a: Seq<u8>| #[trigger] f(a, a) == Ordering::Equal by { lemma_lexc_eq(lowers(a), lowers(a), 0); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] f(a, b) == flip(f(b, a)) by { lexc_flip(lowers(a), lowers(b), 0); }
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| f(a, b) != Ordering::Greater && f(b, c) != Ordering::Greater implies #[trigger] tri(f, a, b, c) != Ordering::Greater by { lexc_trans(lowers(a), lowers(b), lowers(c), 0); }
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| f(a, b) == Ordering::Equal && f(b, c) == Ordering::Equal implies #[trigger] tri(f, a, b, c) == Ordering::Equal by { lexc_trans(lowers(a), lowers(b), lowers(c), 0); }
}
pub proof fn theorem_ip() ensures preorder(|l: Seq<u8>, r: Seq<u8>| ipord(l, r))
{
    let f = |l: Seq<u8>, r: Seq<u8>| ipord(l, r);
    let v = |a: Seq<u8>| ipv(blank_trim(a));
    assert forall|a: Seq<u8>| #[trigger] f(a, a) == Ordering::Equal by { nlex_flip(v(a), v(a)); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] f(a, b) == flip(f(b, a)) by { nlex_flip(v(a), v(b)); }
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| f(a, b) != Ordering::Greater && f(b, c) != Ordering::Greater implies #[trigger] tri(f, a, b, c) != Ordering::Greater by { nlex_trans(v(a), v(b), v(c)); }
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| f(a, b) == Ordering::Equal && f(b, c) == Ordering::Equal implies #[trigger] tri(f, a, b, c) == Ordering::Equal by { nlex_trans(v(a), v(b), v(c)); }
}
pub proof fn theorem_float() ensures preorder(|l: Seq<u8>, r: Seq<u8>| kcmp(fkey(ftext(l)), fkey(ftext(r))))
{ }
pub proof fn theorem_len() ensures preorder(|l: Seq<u8>, r: Seq<u8>| icmp(l.len() as int, r.len() as int)), preorder(|l: Seq<u8>, r: Seq<u8>| Ordering::Equal)
{ }
// ------------------------------------------------------------ the names of the orders
#[verifier::external_body]
pub fn verif_s_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@), { unimplemented!() }
/// the order that each documented name stands for
pub open spec fn named(tag: Seq<char>) -> bool { tag == "length"@ || tag == "ip"@ || tag == "plain"@ || tag == "lower"@ || tag == "float"@ || tag == "numeric"@ || tag == "equal"@ }
pub open spec fn order(tag: Seq<char>, l: Seq<u8>, r: Seq<u8>) -> Ordering {
    if tag == "length"@ { icmp(l.len() as int, r.len() as int) }
    else if tag == "ip"@ { ipord(l, r) }
    else if tag == "plain"@ { lexc(l, r, 0) }
    else if tag == "lower"@ { lexc(lowers(l), lowers(r), 0) }
    else if tag == "float"@ { kcmp(fkey(ftext(l)), fkey(ftext(r))) }
    else if tag == "numeric"@ { numord(l, r) }
    else { Ordering::Equal }
}
/// the names are all different
pub proof fn lemma_tags()
  ensures
    "length"@ != "ip"@,
    "length"@ != "plain"@,
    "length"@ != "lower"@,
    "length"@ != "float"@,
    "length"@ != "numeric"@,
    "length"@ != "equal"@,
    "length"@ != "random"@,
    "ip"@ != "plain"@,
    "ip"@ != "lower"@,
    "ip"@ != "float"@,
    "ip"@ != "numeric"@,
    "ip"@ != "equal"@,
    "ip"@ != "random"@,
    "plain"@ != "lower"@,
    "plain"@ != "float"@,
    "plain"@ != "numeric"@,
    "plain"@ != "equal"@,
    "plain"@ != "random"@,
    "lower"@ != "float"@,
    "lower"@ != "numeric"@,
    "lower"@ != "equal"@,
    "lower"@ != "random"@,
    "float"@ != "numeric"@,
    "float"@ != "equal"@,
    "float"@ != "random"@,
    "numeric"@ != "equal"@,
    "numeric"@ != "random"@,
    "equal"@ != "random"@,
{
    reveal_strlit("length"); assert("length"@.len() == 6);
    reveal_strlit("ip"); assert("ip"@.len() == 2);
    reveal_strlit("plain"); assert("plain"@.len() == 5);
    reveal_strlit("lower"); assert("lower"@.len() == 5);
    reveal_strlit("float"); assert("float"@.len() == 5);
    reveal_strlit("numeric"); assert("numeric"@.len() == 7);
    reveal_strlit("equal"); assert("equal"@.len() == 5);
    reveal_strlit("random"); assert("random"@.len() == 6);
    assert("length"@[0] != "random"@[0]);
    assert("plain"@[0] != "lower"@[0]);
    assert("plain"@[0] != "float"@[0]);
    assert("plain"@[0] != "equal"@[0]);
    assert("lower"@[0] != "float"@[0]);
    assert("lower"@[0] != "equal"@[0]);
    assert("float"@[0] != "equal"@[0]);
}
impl CompareNumeric {
//@fn src/comp.rs CompareNumeric::new noconst
//@end
}
impl ComparePlain {
//@fn src/comp.rs ComparePlain::new noconst
//@end
}
impl CompareLower {
//@fn src/comp.rs CompareLower::new noconst
//@end
}
impl CompareIP {
//@fn src/comp.rs CompareIP::new noconst
//@end
}
impl CompareLen {
//@fn src/comp.rs CompareLen::new noconst
//@end
}
impl Comparef64 {
//@fn src/comp.rs Comparef64::new noconst
//@end
}
/// `sort randomly` is no order
#[verifier::external_body]
pub fn verif_random() -> (r: Box<dyn Compare>) { unimplemented!() }
/// CompMaker::init, with the registry written as a function of the name
//@fn src/comp.rs CompMaker::init noinline
  ensures r matches Ok(b) ==> named(tag@) ==> forall|x: Seq<u8>, y: Seq<u8>| #[trigger] b.ord(x, y) == order(tag@, x, y),
    named(tag@) ==> r is Ok,
//@sig pub fn made(tag: &str) -> (r: Result<Box<dyn Compare>>)
//@from /Self::do_push\(\s*"/
//@sub /Self::do_push\(\s*"([\w-]+)",\s*"[^"]*",\s*\|\w+\|/ => if verif_s_eq(tag, "\1") { return (
//@sub /,?\s*\)\?;/ => ); }
//@sub /Box::new\(CompareRandom::new\(\)\)/ => verif_random()
//@sub /Ok\(\(\)\)\s*\}\s*$/ => Err(verif_err()) }
//@start
  proof { lemma_tags(); }
//@end
/// the short names: an empty name is plain
//@fn src/comp.rs CompMaker::init noinline
  ensures r@ == (if name@ == "num"@ { "numeric"@ } else if name@ == "len"@ { "length"@ } else if name@ == ""@ { "plain"@ } else { name@ }),
//@sig pub fn alias_of<'a>(name: &'a str) -> (r: &'a str)
//@from /Self::do_add_alias\(/
//@upto /Self::do_push_line\(/
//@sub /Self::do_add_alias\("(\w*)", "(\w*)"\)\?;/ => if verif_s_eq(name, "\2") { return "\1"; }
//@sub /Ok\(\(\)\)\s*\}\s*$/ => name }
//@start
  proof { reveal_strlit("num"); reveal_strlit("len"); reveal_strlit(""); assert("num"@.len() == 3 && "len"@.len() == 3 && ""@.len() == 0); assert("num"@[0] != "len"@[0]); }
//@end
}
fn main(){}
