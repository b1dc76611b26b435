use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
//@include std.vrs
//@include num.vrs
//@include trim.vrs

//@fn src/comp.rs skip_comma_zero (r)
 ensures nat_of(ip(r@)) == nat_of(ip(a@)), irest(r@) == irest(a@), r@.len() > 0 ==> r@[0] != 48u8 && r@[0] != 44u8,
//@start
   let ghost a0 = a@;
//@loop 0 w
   invariant nat_of(ip(a@)) == nat_of(ip(a0)), irest(a@) == irest(a0), 
   ensures a@.len() > 0 ==> a@[0] != 48u8 && a@[0] != 44u8,
   decreases a@.len()
//@loopstart 0
   proof { lemma_skip_lead(a@); assert(a@.subrange(1, a@.len() as int) =~= a@.drop_first()); }
//@end

//@fn src/comp.rs skip_comma (r)
 ensures ip(r@) == ip(a@), irest(r@) == irest(a@), r@.len() <= a@.len(), r@.len() > 0 ==> r@[0] != 44u8,
   a@.len() > 0 && a@[0] != 44u8 ==> r@ == a@,
//@start
   let ghost a0 = a@;
//@loop 0 w
   invariant ip(a@) == ip(a0), irest(a@) == irest(a0), a@.len() <= a0.len(), a0.len() > 0 && a0[0] != 44u8 ==> a@ == a0,
   ensures a@.len() > 0 ==> a@[0] != 44u8,
   decreases a@.len()
//@loopstart 0
   proof { assert(a@.subrange(1, a@.len() as int) =~= a@.drop_first()); }
//@end

//@fn src/comp.rs skip_point (r)
 ensures fdig(r@) == fp(a@),
//@start
   proof { assert(a@.len() > 0 ==> a@.subrange(1, a@.len() as int) =~= a@.drop_first()); }
//@end

//@fn src/comp.rs has_nonzero (r)
 ensures r == nonzero(fdig(a@)),
//@start
   let ghost a0 = a@;
//@loop 0 w
   invariant nonzero(fdig(a@)) == nonzero(fdig(a0)),
   ensures a@.len() > 0 ==> a@[0] != 48u8,
   decreases a@.len()
//@loopstart 0
   proof {
     let t = a@.drop_first();
     assert(a@.subrange(1, a@.len() as int) =~= t);
     let (d, e) = (fdig(a@), fdig(t));
     assert(d =~= seq![48u8] + e);
     if nonzero(e) { let i = choose|i: int| 0 <= i < e.len() && #[trigger] e[i] != 48u8; assert(d[i + 1] == e[i]); }
     if nonzero(d) { let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i] != 48u8; assert(e[i - 1] == d[i]); }
   }
//@afterloop 0
   proof { if a@.len() > 0 && is_digit(a@[0]) { assert(fdig(a@)[0] == a@[0]); } }
//@end

//@fn src/comp.rs frac_cmp (r)
 ensures forall|k: nat| k >= fp(a@).len() && k >= fp(b@).len() ==> r == #[trigger] icmp(fval(fp(a@), k) as int, fval(fp(b@), k) as int),
//@start
   let ghost a0 = fp(a@);
   let ghost b0 = fp(b@);
   let ghost n: nat = 0;
   proof { lemma_fp(a@); lemma_fp(b@); }
//@loop 0 w
   invariant
     all_digits(a0), all_digits(b0), 
     n + fdig(a@).len() == a0.len(), n + fdig(b@).len() == b0.len(),
     forall|k: nat| k >= a0.len() && k >= b0.len() ==> #[trigger] icmp(fval(a0, k) as int, fval(b0, k) as int)
         == icmp(fval(fdig(a@), (k - n) as nat) as int, fval(fdig(b@), (k - n) as nat) as int),
   ensures
     !(a@.len() > 0 && b@.len() > 0 && a@[0] == b@[0] && is_digit(a@[0])),
   decreases a@.len()
//@loopstart 0
   proof {
     assert(a@.subrange(1, a@.len() as int) =~= a@.drop_first());
     assert(b@.subrange(1, b@.len() as int) =~= b@.drop_first());
     let (x, y) = (fdig(a@), fdig(b@));
     lemma_fdig(a@); lemma_fdig(b@);
     assert(x.drop_first() =~= fdig(a@.drop_first()));
     assert(y.drop_first() =~= fdig(b@.drop_first()));
     assert forall|k: nat| k >= a0.len() && k >= b0.len() implies #[trigger] icmp(fval(a0, k) as int, fval(b0, k) as int)
         == icmp(fval(fdig(a@.drop_first()), (k - n - 1) as nat) as int, fval(fdig(b@.drop_first()), (k - n - 1) as nat) as int) by {
         lemma_fval_same_head(x, y, (k - n) as nat);
     }
     n = n + 1;
   }
//@afterloop 0
   proof {
     let (x, y) = (fdig(a@), fdig(b@));
     lemma_fdig(a@); lemma_fdig(b@);
     assert forall|k: nat| k >= a0.len() && k >= b0.len() implies 
        (x.len() > 0 && y.len() > 0 ==> x[0] == a@[0] && y[0] == b@[0] && #[trigger] icmp(fval(a0, k) as int, fval(b0, k) as int) == (if x[0] < y[0] { Ordering::Less } else { Ordering::Greater }))
        && (x.len() == 0 || y.len() == 0 ==> icmp(fval(a0, k) as int, fval(b0, k) as int) == (if nonzero(x) { Ordering::Greater } else if nonzero(y) { Ordering::Less } else { Ordering::Equal })) by {
       let j = (k - n) as nat;
       lemma_fval_zero(x, j); lemma_fval_zero(y, j);
       if x.len() > 0 && y.len() > 0 {
         if x[0] < y[0] { lemma_fval_diff_head(x, y, j); } else { lemma_fval_diff_head(y, x, j); }
       }
     }
   }
//@end

pub proof fn lemma_prefix(p: Seq<u8>, x: Seq<u8>, y: Seq<u8>)
    requires all_digits(p + x), all_digits(p + y), x.len() == y.len(),
    ensures icmp(nat_of(p + x) as int, nat_of(p + y) as int) == icmp(nat_of(x) as int, nat_of(y) as int)
    decreases p.len()
{
    if p.len() == 0 { assert(p + x =~= x); assert(p + y =~= y); }
    else {
        let t = p.drop_first();
        assert((p + x).drop_first() =~= t + x); assert((p + y).drop_first() =~= t + y);
        lemma_tail_digits(p + x); lemma_tail_digits(p + y);
        lemma_nat_same_head(p + x, p + y);
        lemma_prefix(t, x, y);
    }
}
pub proof fn lemma_decide(p: Seq<u8>, x: Seq<u8>, y: Seq<u8>)
    requires all_digits(p + x), all_digits(p + y),
      (p + x).len() > 0 ==> (p + x)[0] != 48u8, (p + y).len() > 0 ==> (p + y)[0] != 48u8,
      x.len() > 0 && y.len() > 0 ==> x[0] != y[0],
    ensures icmp(nat_of(p + x) as int, nat_of(p + y) as int) == (
        if x.len() < y.len() { Ordering::Less } else if x.len() > y.len() { Ordering::Greater }
        else if x.len() == 0 { Ordering::Equal } else if x[0] < y[0] { Ordering::Less } else { Ordering::Greater })
{
    if x.len() < y.len() { lemma_nat_longer(p + y, p + x); }
    else if x.len() > y.len() { lemma_nat_longer(p + x, p + y); }
    else {
        lemma_prefix(p, x, y);
        if x.len() > 0 {
            assert(all_digits(x)) by { assert forall|i: int| 0 <= i < x.len() implies is_digit(#[trigger] x[i]) by { assert((p + x)[p.len() + i] == x[i]); } }
            assert(all_digits(y)) by { assert forall|i: int| 0 <= i < y.len() implies is_digit(#[trigger] y[i]) by { assert((p + y)[p.len() + i] == y[i]); } }
            if x[0] < y[0] { lemma_nat_diff_head(x, y); } else { lemma_nat_diff_head(y, x); }
        }
    }
}

//@fn src/comp.rs num_cmp_unsigned (r)
 ensures r == ucmp(a@, b@),
//@start
   let ghost a0 = a@;
   let ghost b0 = b@;
   let ghost mut p: Seq<u8> = seq![];
//@beforeloop 0
   let ghost az = ip(a@);
   let ghost bz = ip(b@);
   proof {
     lemma_ip_digits(a@); lemma_ip_digits(b@);
     assert(p + az =~= az); assert(p + bz =~= bz);
     if a@.len() > 0 && is_digit(a@[0]) { assert(az[0] == a@[0]); }
     if b@.len() > 0 && is_digit(b@[0]) { assert(bz[0] == b@[0]); }
   }
//@loop 0 w
   invariant
     nat_of(az) == nat_of(ip(a0)), nat_of(bz) == nat_of(ip(b0)),
     irest(a@) == irest(a0), irest(b@) == irest(b0),
     all_digits(az), all_digits(bz), az.len() > 0 ==> az[0] != 48u8, bz.len() > 0 ==> bz[0] != 48u8,
     az == p + ip(a@), bz == p + ip(b@),
     a@.len() > 0 ==> a@[0] != 44u8, b@.len() > 0 ==> b@[0] != 44u8,
   ensures
     !(a@.len() > 0 && b@.len() > 0 && a@[0] == b@[0] && is_digit(a@[0])),
   decreases a@.len()
//@loopstart 0
   proof {
     assert(a@.subrange(1, a@.len() as int) =~= a@.drop_first());
     assert(b@.subrange(1, b@.len() as int) =~= b@.drop_first());
     let q = p + seq![a@[0]];
     assert(p + ip(a@) =~= q + ip(a@.drop_first()));
     assert(p + ip(b@) =~= q + ip(b@.drop_first()));
     p = q;
   }
//@afterloop 0
   let ghost x = ip(a@);
   let ghost y = ip(b@);
   proof {
     lemma_decide(p, x, y);
     let k = max(prec(a0), prec(b0));
     lemma_uval(a0, b0, k); lemma_uval(b0, a0, k);
     assert(x.len() > 0 ==> x[0] == a@[0]);
     assert(y.len() > 0 ==> y[0] == b@[0]);
     assert(icmp(fval(fp(irest(a0)), k) as int, fval(fp(irest(b0)), k) as int) == icmp(fval(fp(irest(a@)), k) as int, fval(fp(irest(b@)), k) as int));
     assert(x.len() < y.len() ==> ucmp(a0, b0) == Ordering::Less);
     assert(x.len() > y.len() ==> ucmp(a0, b0) == Ordering::Greater);
     assert(x.len() == y.len() && x.len() > 0 ==> ucmp(a0, b0) == (if x[0] < y[0] { Ordering::Less } else { Ordering::Greater }));
     assert(x.len() == 0 && y.len() == 0 ==> ucmp(a0, b0) == icmp(fval(fp(irest(a@)), k) as int, fval(fp(irest(b@)), k) as int));
   }
   let ghost ra = irest(a@);
   let ghost rb = irest(b@);
//@loop 1 w
   invariant
     log_a + ip(a@).len() == x.len(), log_a + a@.len() <= usize::MAX, irest(a@) == ra, a@.len() > 0 ==> a@[0] != 44u8,
   ensures a@.len() > 0 ==> !is_digit(a@[0]),
   decreases a@.len()
//@loopstart 1
   proof { assert(a@.subrange(1, a@.len() as int) =~= a@.drop_first()); }
//@loop 2 w
   invariant
     log_b + ip(b@).len() == y.len(), log_b + b@.len() <= usize::MAX, irest(b@) == rb, b@.len() > 0 ==> b@[0] != 44u8,
   ensures b@.len() > 0 ==> !is_digit(b@[0]),
   decreases b@.len()
//@loopstart 2
   proof { assert(b@.subrange(1, b@.len() as int) =~= b@.drop_first()); }
//@end

//@fn src/comp.rs num_cmp_signed (r)
 ensures r == scmp(blank_trim(a@), blank_trim(b@)),
//@start
   let ghost sa = blank_trim(a@);
   let ghost sb = blank_trim(b@);
   proof {
     let z = seq![48u8]; lemma_signed(sa, sb, z); assert([48u8]@ =~= z);
     assert(sa.len() > 0 ==> sa.subrange(1, sa.len() as int) =~= sa.drop_first());
     assert(sb.len() > 0 ==> sb.subrange(1, sb.len() as int) =~= sb.drop_first());
   }
//@end
pub open spec fn zero(s: Seq<u8>) -> bool { nat_of(ip(s)) == 0 && !nonzero(fp(irest(s))) }
pub proof fn lemma_zero(s: Seq<u8>, k: nat)
  requires k >= prec(s)
  ensures zero(s) <==> uval(s, k) == 0, uval(s, k) >= 0
{
    lemma_fp(irest(s)); lemma_fval_zero(fp(irest(s)), k); lemma_pow_pos(k);
    let (n, p) = (nat_of(ip(s)), pow10(k));
    if n > 0 { assert(n * p > 0) by (nonlinear_arith) requires n > 0, p > 0; }
    assert(n * p >= 0) by (nonlinear_arith) requires n >= 0, p >= 0;
}
pub proof fn lemma_zero_text(z: Seq<u8>)
  requires z =~= seq![48u8]
  ensures zero(z), prec(z) == 0
{
    let e = z.drop_first();
    assert(e =~= seq![]);
    assert(ip(e) =~= seq![]);
    lemma_skip_lead(z);
    assert(irest(z) =~= seq![]);
}
pub proof fn lemma_signed(a: Seq<u8>, b: Seq<u8>, z: Seq<u8>)
  requires z =~= seq![48u8]
  ensures
    !neg(a) && !neg(b) ==> scmp(a, b) == ucmp(mag(a), mag(b)),
    neg(a) && neg(b) ==> scmp(a, b) == ucmp(mag(b), mag(a)),
    ucmp(mag(a), z) == Ordering::Equal <==> zero(mag(a)),
    ucmp(mag(b), z) == Ordering::Equal <==> zero(mag(b)),
    neg(a) && !neg(b) ==> scmp(a, b) == (if zero(mag(a)) && zero(mag(b)) { Ordering::Equal } else { Ordering::Less }),
    !neg(a) && neg(b) ==> scmp(a, b) == (if zero(mag(a)) && zero(mag(b)) { Ordering::Equal } else { Ordering::Greater }),
{
    let k = max(prec(mag(a)), prec(mag(b)));
    lemma_zero(mag(a), k); lemma_zero(mag(b), k);
    lemma_zero_text(z);
    lemma_zero(mag(a), prec(mag(a))); lemma_zero(mag(b), prec(mag(b)));
    lemma_zero(z, prec(mag(a))); lemma_zero(z, prec(mag(b)));
}

//@item src/comp.rs struct CompareNumeric
impl CompareNumeric {
//@fn src/comp.rs <CompareNumeric as Compare>::comp (r)
 ensures r == scmp(blank_trim(left@), blank_trim(right@)),
//@end
//@fn src/comp.rs <CompareNumeric as Compare>::equal (r)
 ensures r == (scmp(blank_trim(left@), blank_trim(right@)) == Ordering::Equal),
//@end
//@fn src/comp.rs <CompareNumeric as Compare>::set
 ensures final(self).value@ == value@,
//@end
//@fn src/comp.rs <CompareNumeric as Compare>::comp_self (r)
 ensures r == scmp(blank_trim(self.value@), blank_trim(right@)),
//@end
//@fn src/comp.rs <CompareNumeric as Compare>::equal_self (r)
 ensures r == (scmp(blank_trim(self.value@), blank_trim(right@)) == Ordering::Equal),
//@end
}

// ---------------------------------------------------------------- the value does not depend on the precision chosen
pub proof fn lemma_fval_scale(d: Seq<u8>, k: nat)
  requires all_digits(d), k >= d.len()
  ensures fval(d, k + 1) == 10 * fval(d, k)
  decreases k
{
    if d.len() > 0 {
        lemma_tail_digits(d);
        lemma_fval_scale(d.drop_first(), (k - 1) as nat);
        lemma_fval_ge(d, k); lemma_fval_ge(d, k + 1);
        let (c, p) = (d[0] as int - 48, pow10((k - 1) as nat));
        assert(pow10(k) == 10 * p);
        assert(c * (10 * p) == 10 * (c * p)) by (nonlinear_arith);
    }
}
pub proof fn lemma_sval_scale(s: Seq<u8>, k: nat)
  requires k >= prec(mag(s))
  ensures sval(s, k + 1) == 10 * sval(s, k)
{
    let m = mag(s);
    lemma_fp(irest(m)); lemma_fval_scale(fp(irest(m)), k);
    let (n, p) = (nat_of(ip(m)), pow10(k));
    assert(n * (10 * p) == 10 * (n * p)) by (nonlinear_arith);
}
pub proof fn lemma_scmp_at(a: Seq<u8>, b: Seq<u8>, k: nat)
  requires k >= prec(mag(a)), k >= prec(mag(b))
  ensures icmp(sval(a, k), sval(b, k)) == scmp(a, b)
  decreases k
{
    let k0 = max(prec(mag(a)), prec(mag(b)));
    if k > k0 {
        lemma_scmp_at(a, b, (k - 1) as nat);
        lemma_sval_scale(a, (k - 1) as nat); lemma_sval_scale(b, (k - 1) as nat);
    }
}
/// numeric comparison is a total preorder
pub proof fn theorem_numeric_order(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
  ensures
    scmp(a, a) == Ordering::Equal,
    scmp(b, a) == flip(scmp(a, b)),
    scmp(a, b) == scmp(b, c) ==> scmp(a, c) == scmp(a, b),
    scmp(a, b) == Ordering::Equal ==> scmp(a, c) == scmp(b, c),
{
    let k = max(max(prec(mag(a)), prec(mag(b))), prec(mag(c)));
    lemma_scmp_at(a, a, k); lemma_scmp_at(a, b, k); lemma_scmp_at(b, a, k); lemma_scmp_at(b, c, k); lemma_scmp_at(a, c, k);
}
}
fn main(){}
