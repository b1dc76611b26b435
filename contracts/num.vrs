// ---------------------------------------------------------------- spec: exact decimal value
pub open spec fn pow10(n: nat) -> nat decreases n { if n == 0 { 1 } else { 10 * pow10((n - 1) as nat) } }
/// the digits of the integer part: everything up to the first byte that is neither digit nor comma, commas dropped
pub open spec fn ip(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { seq![] }
    else if is_digit(s[0]) { seq![s[0]] + ip(s.drop_first()) }
    else if s[0] == 44u8 { ip(s.drop_first()) }
    else { seq![] }
}
/// what follows the integer part
pub open spec fn irest(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() > 0 && (is_digit(s[0]) || s[0] == 44u8) { irest(s.drop_first()) } else { s }
}
/// leading run of digits
pub open spec fn fdig(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() > 0 && is_digit(s[0]) { seq![s[0]] + fdig(s.drop_first()) } else { seq![] }
}
/// the digits of the fraction, given what follows the integer part
pub open spec fn fp(r: Seq<u8>) -> Seq<u8> {
    if r.len() > 0 && r[0] == 46u8 { fdig(r.drop_first()) } else { seq![] }
}
/// value of a digit string
pub open spec fn nat_of(d: Seq<u8>) -> nat decreases d.len() {
    if d.len() == 0 { 0 } else { ((d[0] as int - 48) * pow10((d.len() - 1) as nat) + nat_of(d.drop_first())) as nat }
}
/// value of a fraction's digits in units of 10^-k
pub open spec fn fval(d: Seq<u8>, k: nat) -> nat decreases k {
    if k == 0 || d.len() == 0 { 0 } else { ((d[0] as int - 48) * pow10((k - 1) as nat) + fval(d.drop_first(), (k - 1) as nat)) as nat }
}
pub open spec fn all_digits(d: Seq<u8>) -> bool { forall|i: int| 0 <= i < d.len() ==> is_digit(#[trigger] d[i]) }
/// |s| in units of 10^-k
pub open spec fn uval(s: Seq<u8>, k: nat) -> int { (nat_of(ip(s)) * pow10(k) + fval(fp(irest(s)), k)) as int }
pub open spec fn max(a: nat, b: nat) -> nat { if a > b { a } else { b } }
/// number of fraction digits
pub open spec fn prec(s: Seq<u8>) -> nat { fp(irest(s)).len() }
/// exact comparison of the unsigned numerals, in units fine enough for both
pub open spec fn ucmp(a: Seq<u8>, b: Seq<u8>) -> Ordering {
    let k = max(prec(a), prec(b));
    icmp(uval(a, k), uval(b, k))
}
pub open spec fn neg(s: Seq<u8>) -> bool { s.len() > 0 && s[0] == 45u8 }
pub open spec fn mag(s: Seq<u8>) -> Seq<u8> { if neg(s) { s.drop_first() } else { s } }
/// signed value of a numeral in units of 10^-k
pub open spec fn sval(s: Seq<u8>, k: nat) -> int { if neg(s) { -uval(mag(s), k) } else { uval(mag(s), k) } }
pub open spec fn scmp(a: Seq<u8>, b: Seq<u8>) -> Ordering {
    let k = max(prec(mag(a)), prec(mag(b)));
    icmp(sval(a, k), sval(b, k))
}
pub open spec fn blank_trim(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() > 0 && s[0] <= 32u8 { blank_trim(s.drop_first()) } else { s }
}

// ---------------------------------------------------------------- lemmas
pub proof fn lemma_pow_pos(n: nat) ensures pow10(n) >= 1 decreases n { if n > 0 { lemma_pow_pos((n - 1) as nat); } }
pub proof fn lemma_pow_mono(m: nat, n: nat) requires m <= n ensures pow10(m) <= pow10(n) decreases n
{ if m < n { lemma_pow_mono(m, (n - 1) as nat); lemma_pow_pos((n - 1) as nat); } }
pub proof fn lemma_ip_digits(s: Seq<u8>) ensures all_digits(ip(s)) decreases s.len() {
    if s.len() > 0 { lemma_ip_digits(s.drop_first()); }
}
pub proof fn lemma_fdig(s: Seq<u8>) ensures all_digits(fdig(s)), fdig(s).len() <= s.len() decreases s.len() {
    if s.len() > 0 { lemma_fdig(s.drop_first()); }
}
pub proof fn lemma_nat_bound(d: Seq<u8>) requires all_digits(d) ensures nat_of(d) < pow10(d.len()) decreases d.len() {
    if d.len() > 0 {
        assert(all_digits(d.drop_first())) by { assert forall|i: int| 0 <= i < d.drop_first().len() implies is_digit(#[trigger] d.drop_first()[i]) by { assert(d.drop_first()[i] == d[i + 1]); } }
        lemma_nat_bound(d.drop_first());
        assert(is_digit(d[0]));
        let p = pow10((d.len() - 1) as nat);
        assert((d[0] as int - 48) * p <= 9 * p) by (nonlinear_arith) requires d[0] as int - 48 <= 9, p >= 0;
        assert((d[0] as int - 48) * p >= 0) by (nonlinear_arith) requires d[0] as int - 48 >= 0, p >= 0;
    }
}
pub proof fn lemma_fval_bound(d: Seq<u8>, k: nat) requires all_digits(d) ensures fval(d, k) < pow10(k) decreases k {
    lemma_pow_pos(k);
    if d.len() > 0 && k > 0 {
        assert(all_digits(d.drop_first())) by { assert forall|i: int| 0 <= i < d.drop_first().len() implies is_digit(#[trigger] d.drop_first()[i]) by { assert(d.drop_first()[i] == d[i + 1]); } }
        lemma_fval_bound(d.drop_first(), (k - 1) as nat);
        assert(is_digit(d[0]));
        let p = pow10((k - 1) as nat);
        assert((d[0] as int - 48) * p <= 9 * p) by (nonlinear_arith) requires d[0] as int - 48 <= 9, p >= 0;
        assert((d[0] as int - 48) * p >= 0) by (nonlinear_arith) requires d[0] as int - 48 >= 0, p >= 0;
    }
}
/// first digits equal: drop them
pub proof fn lemma_nat_same_head(x: Seq<u8>, y: Seq<u8>)
    requires all_digits(x), all_digits(y), x.len() > 0, y.len() == x.len(), x[0] == y[0],
    ensures icmp(nat_of(x) as int, nat_of(y) as int) == icmp(nat_of(x.drop_first()) as int, nat_of(y.drop_first()) as int)
{
    assert(is_digit(x[0]));
    lemma_nat_ge(x); lemma_nat_ge(y);
}
pub proof fn lemma_nat_ge(x: Seq<u8>) requires all_digits(x), x.len() > 0
    ensures nat_of(x) == (x[0] as int - 48) * pow10((x.len() - 1) as nat) + nat_of(x.drop_first()),
      (x[0] as int - 48) * pow10((x.len() - 1) as nat) >= 0
{
    assert(is_digit(x[0]));
    let p = pow10((x.len() - 1) as nat);
    assert((x[0] as int - 48) * p >= 0) by (nonlinear_arith) requires x[0] as int - 48 >= 0, p >= 0;
}
pub proof fn lemma_tail_digits(d: Seq<u8>) requires all_digits(d), d.len() > 0 ensures all_digits(d.drop_first())
{ assert forall|i: int| 0 <= i < d.drop_first().len() implies is_digit(#[trigger] d.drop_first()[i]) by { assert(d.drop_first()[i] == d[i + 1]); } }
/// first digits differ: they decide
pub proof fn lemma_nat_diff_head(x: Seq<u8>, y: Seq<u8>)
    requires all_digits(x), all_digits(y), x.len() > 0, y.len() == x.len(), x[0] < y[0],
    ensures nat_of(x) < nat_of(y)
{
    lemma_nat_ge(x); lemma_nat_ge(y); lemma_tail_digits(x); lemma_tail_digits(y); lemma_nat_bound(x.drop_first());
    let p = pow10((x.len() - 1) as nat);
    assert((x[0] as int - 48) * p + p <= (y[0] as int - 48) * p) by (nonlinear_arith) requires x[0] as int + 1 <= y[0] as int, p >= 0;
}
/// without leading zeros, more digits means a larger number
pub proof fn lemma_nat_longer(x: Seq<u8>, y: Seq<u8>)
    requires all_digits(x), all_digits(y), x.len() > y.len(), x[0] != 48u8,
    ensures nat_of(x) > nat_of(y)
{
    lemma_nat_ge(x); lemma_nat_bound(y); lemma_pow_mono(y.len(), (x.len() - 1) as nat);
    assert(is_digit(x[0]));
    let p = pow10((x.len() - 1) as nat);
    assert((x[0] as int - 48) * p >= p) by (nonlinear_arith) requires x[0] as int - 48 >= 1, p >= 0;
}
pub proof fn lemma_fval_same_head(x: Seq<u8>, y: Seq<u8>, k: nat)
    requires all_digits(x), all_digits(y), x.len() > 0, y.len() > 0, x[0] == y[0], k > 0,
    ensures icmp(fval(x, k) as int, fval(y, k) as int) == icmp(fval(x.drop_first(), (k - 1) as nat) as int, fval(y.drop_first(), (k - 1) as nat) as int)
{ lemma_fval_ge(x, k); lemma_fval_ge(y, k); }
pub proof fn lemma_fval_ge(x: Seq<u8>, k: nat) requires all_digits(x), x.len() > 0, k > 0
    ensures fval(x, k) == (x[0] as int - 48) * pow10((k - 1) as nat) + fval(x.drop_first(), (k - 1) as nat),
      (x[0] as int - 48) * pow10((k - 1) as nat) >= 0
{
    assert(is_digit(x[0]));
    let p = pow10((k - 1) as nat);
    assert((x[0] as int - 48) * p >= 0) by (nonlinear_arith) requires x[0] as int - 48 >= 0, p >= 0;
}
pub proof fn lemma_fval_diff_head(x: Seq<u8>, y: Seq<u8>, k: nat)
    requires all_digits(x), all_digits(y), x.len() > 0, y.len() > 0, x[0] < y[0], k > 0
    ensures fval(x, k) < fval(y, k)
{
    lemma_fval_ge(x, k); lemma_fval_ge(y, k); lemma_tail_digits(x); lemma_fval_bound(x.drop_first(), (k - 1) as nat);
    let p = pow10((k - 1) as nat);
    assert((x[0] as int - 48) * p + p <= (y[0] as int - 48) * p) by (nonlinear_arith) requires x[0] as int + 1 <= y[0] as int, p >= 0;
}
/// a fraction is zero exactly when all its digits are
pub open spec fn nonzero(d: Seq<u8>) -> bool { exists|i: int| 0 <= i < d.len() && #[trigger] d[i] != 48u8 }
pub proof fn lemma_fval_zero(d: Seq<u8>, k: nat)
    requires all_digits(d), k >= d.len()
    ensures fval(d, k) > 0 <==> nonzero(d)
    decreases k
{
    if d.len() > 0 {
        let t = d.drop_first();
        lemma_tail_digits(d);
        lemma_fval_zero(t, (k - 1) as nat);
        lemma_fval_ge(d, k);
        lemma_pow_pos((k - 1) as nat);
        assert(is_digit(d[0]));
        let p = pow10((k - 1) as nat);
        if d[0] != 48u8 {
            assert((d[0] as int - 48) * p >= 1) by (nonlinear_arith) requires d[0] as int - 48 >= 1, p >= 1;
            assert(nonzero(d));
        } else {
            assert((d[0] as int - 48) * p == 0) by (nonlinear_arith) requires d[0] as int - 48 == 0;
            if nonzero(t) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] != 48u8; assert(d[i + 1] == t[i]); assert(nonzero(d)); }
            if nonzero(d) { let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i] != 48u8; assert(t[i - 1] == d[i]); assert(nonzero(t)); }
        }
    }
}
/// skipping zeros and commas at the front keeps value and fraction
pub proof fn lemma_skip_lead(s: Seq<u8>)
    requires s.len() > 0, s[0] == 48u8 || s[0] == 44u8
    ensures nat_of(ip(s)) == nat_of(ip(s.drop_first())), irest(s) == irest(s.drop_first())
{
    if s[0] == 48u8 {
        let t = ip(s.drop_first());
        lemma_ip_digits(s); 
        assert(ip(s).drop_first() =~= t);
        lemma_nat_ge(ip(s));
        assert((48int - 48) * pow10((ip(s).len() - 1) as nat) == 0) by (nonlinear_arith);
    }
}
/// the integer parts decide unless they are equal
pub proof fn lemma_uval(a: Seq<u8>, b: Seq<u8>, k: nat)
    ensures
      nat_of(ip(a)) < nat_of(ip(b)) ==> uval(a, k) < uval(b, k),
      nat_of(ip(a)) == nat_of(ip(b)) ==> icmp(uval(a, k), uval(b, k)) == icmp(fval(fp(irest(a)), k) as int, fval(fp(irest(b)), k) as int),
{
    let (x, y) = (nat_of(ip(a)), nat_of(ip(b)));
    let p = pow10(k);
    lemma_fp(irest(a)); lemma_fp(irest(b));
    lemma_fval_bound(fp(irest(a)), k); lemma_fval_bound(fp(irest(b)), k);
    if x < y { assert(x * p + p <= y * p) by (nonlinear_arith) requires x + 1 <= y; }
}
pub proof fn lemma_fp(r: Seq<u8>) ensures all_digits(fp(r)) { if r.len() > 0 && r[0] == 46u8 { lemma_fdig(r.drop_first()); } }
pub proof fn lemma_uval_nonneg(a: Seq<u8>, k: nat) ensures uval(a, k) >= 0 {}
