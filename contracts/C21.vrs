use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
global size_of usize == 8;
//@include std.vrs
//@include str.vrs
//@item src/num.rs const P2_LETTERS
//@item src/num.rs const P10_LETTERS
//@item src/num.rs const P2_VALUES_U
//@item src/num.rs const P10_VALUES_U
// ---- what a numeral stands for ----
pub open spec fn pow(b: int, k: int) -> int decreases k { if k <= 0 { 1 } else { b * pow(b, k - 1) } }
/// the power a suffix letter stands for: (base, exponent)
pub open spec fn letter(c: u8) -> Option<(int, int)> {
    if c == 75 { Some((1024, 1)) } else if c == 77 { Some((1024, 2)) } else if c == 71 { Some((1024, 3)) } else if c == 84 { Some((1024, 4)) } else if c == 80 { Some((1024, 5)) } else if c == 69 { Some((1024, 6)) } else if c == 90 { Some((1024, 7)) } else if c == 89 { Some((1024, 8)) }
    else if c == 107 { Some((1000, 1)) } else if c == 109 { Some((1000, 2)) } else if c == 103 { Some((1000, 3)) } else if c == 116 { Some((1000, 4)) } else if c == 112 { Some((1000, 5)) } else if c == 101 { Some((1000, 6)) } else if c == 122 { Some((1000, 7)) } else if c == 121 { Some((1000, 8)) }
    else { None }
}
pub open spec fn factor(c: u8) -> int { match letter(c) { Some((b, k)) => pow(b, k), None => 1 } }
/// the number of digits s starts with
pub open spec fn run(s: Seq<u8>) -> int decreases s.len() { if s.len() > 0 && is_digit(s[0]) { 1 + run(s.skip(1)) } else { 0 } }
/// the value of a string of digits
pub open spec fn dval(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { 10 * dval(s.drop_last()) + (s.last() as int - 48) } }
/// what is left of s after its first n bytes and a suffix
pub open spec fn after(s: Seq<u8>, n: int) -> Seq<u8> { if n < s.len() && letter(s[n]) is Some { s.skip(n + 1) } else { s.skip(n) } }
pub open spec fn mult(s: Seq<u8>, n: int) -> int { if n < s.len() { factor(s[n]) } else { 1 } }
/// an unsigned numeral, after the sign: digits and an optional suffix
pub open spec fn plain(s: Seq<u8>) -> int { dval(s.subrange(0, run(s))) * mult(s, run(s)) }
pub open spec fn nosign(s: Seq<u8>, minus: bool) -> Seq<u8> { if s.len() > 0 && (s[0] == 43u8 || (minus && s[0] == 45u8)) { s.skip(1) } else { s } }
/// the value of s and what follows it; None if s does not start with a number
pub open spec fn unum(s: Seq<u8>) -> Option<(int, Seq<u8>)> { let t = nosign(s, false); if run(t) > 0 { Some((plain(t), after(t, run(t)))) } else { None } }
pub open spec fn inum(s: Seq<u8>) -> Option<(int, Seq<u8>)> { let t = nosign(s, true); if run(t) > 0 { Some((if s[0] == 45u8 { -plain(t) } else { plain(t) }, after(t, run(t)))) } else { None } }
/// what the conversion functions return
pub open spec fn usize_of(s: Seq<u8>) -> (int, Seq<u8>) { match unum(s) { Some((v, t)) => if v <= usize::MAX { (v, t) } else { (usize::MAX as int, s) }, None => (0, s) } }
pub open spec fn isize_of(s: Seq<u8>) -> (int, Seq<u8>) { match inum(s) { Some((v, t)) => if v > isize::MAX { (isize::MAX as int, s) } else if v < isize::MIN { (isize::MIN as int, s) } else { (v, t) }, None => (0, s) } }
/// the length of a decimal number: sign, digits, fraction, exponent
pub open spec fn frac(s: Seq<u8>) -> Seq<u8> { if s.len() > 0 && s[0] == 46u8 { s.skip(1).skip(run(s.skip(1))) } else { s } }
pub open spec fn has_exp(s: Seq<u8>) -> bool { s.len() >= 2 && (s[0] == 101u8 || s[0] == 69u8) && (is_digit(s[1]) || (s.len() >= 3 && (s[1] == 43u8 || s[1] == 45u8) && is_digit(s[2]))) }
pub open spec fn expo(s: Seq<u8>) -> Seq<u8> { if has_exp(s) { s.skip(2).skip(run(s.skip(2))) } else { s } }
pub open spec fn fl_tail(s: Seq<u8>) -> Seq<u8> { let t = nosign(s, true); expo(frac(t.skip(run(t)))) }
/// the f64 nearest to a decimal number (zero if there are no digits), and the product of two: IEEE arithmetic is the library's
pub uninterp spec fn nearest(s: Seq<u8>) -> f64;
pub uninterp spec fn ftimes(a: f64, b: f64) -> f64;
pub uninterp spec fn ffactor(b: int, k: int) -> f64;
pub open spec fn f64_of(s: Seq<u8>) -> (f64, Seq<u8>) { if s.len() == 0 { (nearest(seq![]), s) } else { let t = fl_tail(s); let v = nearest(s.subrange(0, s.len() - t.len())); if t.len() > 0 && letter(t[0]) is Some { (ftimes(v, ffactor(letter(t[0])->Some_0.0, letter(t[0])->Some_0.1)), t.skip(1)) } else { (v, t) } } }
#[verifier::external_body]
pub fn verif_zero() -> (r: f64) ensures r == nearest(seq![]), { unimplemented!() }
#[verifier::external_body]
pub fn verif_nearest(s: &[u8]) -> (r: f64) ensures r == nearest(s@), { unimplemented!() }
#[verifier::external_body]
pub fn verif_times(a: f64, b: f64) -> (r: f64) ensures r == ftimes(a, b), { unimplemented!() }
#[verifier::external_body]
pub fn verif_p2(i: usize) -> (r: f64) requires i < 9, ensures r == ffactor(1024, i as int), { unimplemented!() }
#[verifier::external_body]
pub fn verif_p10(i: usize) -> (r: f64) requires i < 9, ensures r == ffactor(1000, i as int), { unimplemented!() }
// ---- lemmas ----
pub proof fn lemma_run(s: Seq<u8>, n: int)
  requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> is_digit(#[trigger] s[i]), n == s.len() || !is_digit(s[n]),
  ensures run(s) == n,
  decreases n,
{ if n > 0 { let t = s.skip(1); assert forall|i: int| 0 <= i < n - 1 implies is_digit(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); } assert(n - 1 < t.len() ==> t[n - 1] == s[n]); lemma_run(t, n - 1); } }
pub proof fn lemma_runs(s: Seq<u8>)
  ensures 0 <= run(s) <= s.len(), forall|i: int| 0 <= i < run(s) ==> is_digit(#[trigger] s[i]), run(s) == s.len() || !is_digit(s[run(s)]),
  decreases s.len(),
{ if s.len() > 0 && is_digit(s[0]) { let t = s.skip(1); lemma_runs(t); assert forall|i: int| 0 <= i < run(s) implies is_digit(#[trigger] s[i]) by { if i > 0 { assert(t[i - 1] == s[i]); } } assert(run(s) < s.len() ==> t[run(t)] == s[run(s)]); } }
pub proof fn lemma_dval(s: Seq<u8>) requires forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]), ensures dval(s) >= 0, decreases s.len(), { if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies is_digit(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); } lemma_dval(s.drop_last()); assert(is_digit(s.last())); } }
pub proof fn lemma_pows()
  ensures pow(1024, 0) == 1, pow(1024, 1) == 1024, pow(1024, 2) == 1048576, pow(1024, 3) == 1073741824, pow(1024, 4) == 1099511627776, pow(1024, 5) == 1125899906842624, pow(1024, 6) == 1152921504606846976, pow(1024, 7) == 1180591620717411303424, pow(1024, 8) == 1208925819614629174706176,
    pow(1000, 0) == 1, pow(1000, 1) == 1000, pow(1000, 2) == 1000000, pow(1000, 3) == 1000000000, pow(1000, 4) == 1000000000000, pow(1000, 5) == 1000000000000000, pow(1000, 6) == 1000000000000000000, pow(1000, 7) == 1000000000000000000000, pow(1000, 8) == 1000000000000000000000000,
{
    reveal_with_fuel(pow, 10);
    assert(pow(1024, 8) == 1208925819614629174706176) by (compute);
    assert(pow(1000, 8) == 1000000000000000000000000) by (compute);
}
pub open spec fn clip(v: int) -> int { if v <= usize::MAX { v } else { usize::MAX as int } }
// ---- the code ----
#[verifier::loop_isolation(false)]
//@fn src/num.rs suffix_valu (r)
  ensures r matches Some(v) ==> (letter(ch) is Some || ch == 48u8) && v == clip(factor(ch)) && (v == usize::MAX ==> factor(ch) > usize::MAX), r is None ==> letter(ch) is None && ch != 48u8,
//@start
  proof { lemma_pows(); }
//@loop 0 d
  invariant vi0 <= 9, forall|k: int| 0 <= k < vi0 ==> P2_LETTERS_A@[k] != ch,
  decreases 9 - vi0,
//@loop 1 d
  invariant vi1 <= 9, forall|k: int| 0 <= k < vi1 ==> P10_LETTERS_A@[k] != ch, forall|k: int| 0 <= k < 9 ==> P2_LETTERS_A@[k] != ch,
  decreases 9 - vi1,
//@end
#[verifier::loop_isolation(false)]
//@fn src/num.rs suffix_valf (r)
  ensures letter(ch) is Some ==> r == Some(ffactor(letter(ch)->Some_0.0, letter(ch)->Some_0.1)), r is Some ==> letter(ch) is Some || ch == 48u8,
//@sub /P2_VALUES_F\[i\]/ => verif_p2(i)
//@sub /P10_VALUES_F\[i\]/ => verif_p10(i)
//@loop 0 d
  invariant vi0 <= 9, forall|k: int| 0 <= k < vi0 ==> P2_LETTERS_A@[k] != ch,
  decreases 9 - vi0,
//@loop 1 d
  invariant vi1 <= 9, forall|k: int| 0 <= k < vi1 ==> P10_LETTERS_A@[k] != ch, forall|k: int| 0 <= k < 9 ==> P2_LETTERS_A@[k] != ch,
  decreases 9 - vi1,
//@end
pub open spec fn fits(v: int) -> Option<usize> { if 0 <= v <= usize::MAX { Some(v as usize) } else { None } }
//@fn src/text.rs add_digit (r)
  requires is_digit(digit),
  ensures r == (match val { Some(v) => fits(10 * v + (digit as int - 48)), None => None }),
//@end
//@fn src/text.rs scale (r)
  ensures r == (match val { Some(v) => if v == 0 { Some(0usize) } else if mul == usize::MAX { None } else { fits(v * mul) }, None => None }),
//@end
#[verifier::external_body]
pub fn verif_sub_unsigned(a: isize, b: usize) -> (r: Option<isize>) ensures r == (if a - b >= isize::MIN { Some((a - b) as isize) } else { None }), { unimplemented!() }
#[verifier::external_body]
pub fn verif_add_unsigned(a: isize, b: usize) -> (r: Option<isize>) ensures r == (if a + b <= isize::MAX { Some((a + b) as isize) } else { None }), { unimplemented!() }
//@fn src/text.rs apply_sign (r)
  ensures r == (match val { Some(v) => if neg { if -v >= isize::MIN { Some((-v) as isize) } else { None } } else { if v <= isize::MAX { Some(v as isize) } else { None } }, None => None }),
//@sub /0_isize\.checked_sub_unsigned\(/ => verif_sub_unsigned(0, 
//@sub /0_isize\.checked_add_unsigned\(/ => verif_add_unsigned(0, 
//@end
//@fn src/text.rs is_exp (r) noconst
  ensures r == has_exp(buf@),
//@end
/// one more digit
pub proof fn lemma_push(t: Seq<u8>, n: int)
  requires 0 <= n < t.len(),
  ensures dval(t.subrange(0, n + 1)) == 10 * dval(t.subrange(0, n)) + (t[n] as int - 48), t.skip(n).skip(1) == t.skip(n + 1), t.skip(n)[0] == t[n],
{ assert(t.subrange(0, n + 1).drop_last() =~= t.subrange(0, n)); assert(t.skip(n).skip(1) =~= t.skip(n + 1)); }
pub proof fn lemma_scale(v: int, m: int)
  requires v >= 0, m >= 1,
  ensures v == 0 ==> v * m == 0, v > usize::MAX ==> v * m > usize::MAX, m > usize::MAX && v > 0 ==> v * m > usize::MAX, v * m >= 0,
{ assert(v * m >= v) by (nonlinear_arith) requires v >= 0, m >= 1; if v > 0 { assert(v * m >= m) by (nonlinear_arith) requires v >= 1, m >= 1; } }
pub proof fn lemma_factor(c: u8) ensures factor(c) >= 1, { lemma_pows(); }
pub trait Text {
    spec fn by(&self) -> Seq<u8>;
    fn to_usize(&self) -> (r: (usize, &Self)) ensures (r.0 as int, r.1.by()) == usize_of(self.by());
    fn to_isize(&self) -> (r: (isize, &Self)) ensures (r.0 as int, r.1.by()) == isize_of(self.by());
    fn to_f64(&self) -> (r: (f64, &Self)) ensures (r.0, r.1.by()) == f64_of(self.by());
    fn is_empty(&self) -> (r: bool) ensures r == (self.by().len() == 0);
//@fn src/text.rs trait Text::to_usize_lossy (r)
  ensures r == usize_of(self.by()).0,
//@end
//@fn src/text.rs trait Text::to_usize_whole (r)
  ensures r matches Ok(v) ==> v == whole_u(self.by())->Some_0, r is Ok == whole_u(self.by()) is Some,
//@end
//@fn src/text.rs trait Text::to_isize_lossy (r)
  ensures r == isize_of(self.by()).0,
//@end
//@fn src/text.rs trait Text::to_isize_whole (r)
  ensures r matches Ok(v) ==> v == isize_of(self.by()).0, r is Ok == (isize_of(self.by()).1.len() == 0),
//@end
//@fn src/text.rs trait Text::to_f64_lossy (r)
  ensures r == f64_of(self.by()).0,
//@end
//@fn src/text.rs trait Text::to_f64_whole (r)
  ensures r matches Ok(v) ==> v == f64_of(self.by()).0, r is Ok == (f64_of(self.by()).1.len() == 0),
//@end
}
/// all of s is one number that fits (nothing at all counts as zero)
pub open spec fn whole_u(s: Seq<u8>) -> Option<int> { if usize_of(s).1.len() == 0 { Some(usize_of(s).0) } else { None } }
/// no false zeros: what is accepted whole is a numeral with exactly that value
pub proof fn theorem_whole(s: Seq<u8>)
  requires whole_u(s) is Some, s.len() > 0,
  ensures unum(s) is Some && unum(s)->Some_0.0 == whole_u(s)->Some_0 && unum(s)->Some_0.1.len() == 0,
{ }

impl Text for [u8] {
    open spec fn by(&self) -> Seq<u8> { self@ }
#[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@fn src/text.rs <[u8] as Text>::to_usize
//@start
  proof { assert(self@.skip(0) =~= self@); lemma_pows(); }
//@beforeloop 0
  let ghost t = curr@; let ghost mut n: int = 0;
  proof { assert(t =~= nosign(self@, false)); assert(t.skip(0) =~= t); assert(t.subrange(0, 0) =~= seq![]); assert(run(t) > 0) by { lemma_runs(t); } }
//@loop 0 w
  invariant 0 <= n <= t.len(), curr@ == t.skip(n), forall|i: int| 0 <= i < n ==> is_digit(#[trigger] t[i]), ret == fits(dval(t.subrange(0, n))), dval(t.subrange(0, n)) >= 0,
  decreases curr@.len(),
//@loopend 0
  proof { lemma_push(t, n); n = n + 1; }
//@afterloop 0
  proof { assert(n < t.len() ==> !is_digit(t[n])) by { assert(n < t.len() ==> curr@[0] == t[n]); } lemma_run(t, n); lemma_pows(); lemma_scale(dval(t.subrange(0, n)), mult(t, n)); assert(n < t.len() ==> t.skip(n).skip(1) =~= t.skip(n + 1)); }
  let ghost pv = dval(t.subrange(0, n)) * mult(t, n);
//@before /match ret \{/
  proof { assert(pv == plain(t)); assert(ret == fits(pv)); assert(curr@ == after(t, n)); }
//@end
#[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@fn src/text.rs <[u8] as Text>::to_isize
//@start
  proof { assert(self@.skip(0) =~= self@); lemma_pows(); }
//@beforeloop 0
  let ghost t = curr@; let ghost mut n: int = 0;
  proof { assert(t =~= nosign(self@, true)); assert(t.skip(0) =~= t); assert(t.subrange(0, 0) =~= seq![]); assert(run(t) > 0) by { lemma_runs(t); } }
//@loop 0 w
  invariant 0 <= n <= t.len(), curr@ == t.skip(n), forall|i: int| 0 <= i < n ==> is_digit(#[trigger] t[i]), ret == fits(dval(t.subrange(0, n))), dval(t.subrange(0, n)) >= 0,
  decreases curr@.len(),
//@loopend 0
  proof { lemma_push(t, n); n = n + 1; }
//@afterloop 0
  proof { assert(n < t.len() ==> !is_digit(t[n])) by { assert(n < t.len() ==> curr@[0] == t[n]); } lemma_run(t, n); lemma_pows(); lemma_scale(dval(t.subrange(0, n)), mult(t, n)); assert(n < t.len() ==> t.skip(n).skip(1) =~= t.skip(n + 1)); }
  let ghost pv = dval(t.subrange(0, n)) * mult(t, n);
//@before /match apply_sign/
  proof { assert(pv == plain(t)); assert(ret == fits(pv)); assert(curr@ == after(t, n)); }
//@end
#[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@fn src/text.rs <[u8] as Text>::to_f64
//@sub /return \(0\.0, self\)/ => return (verif_zero(), self)
//@sub /(?s)let mut ret: f64 = std::str::from_utf8\(number\)\s*\.ok\(\)\s*\.and_then\(\|x\| x\.parse\(\)\.ok\(\)\)\s*\.unwrap_or\(0\.0\);/ => let mut ret: f64 = verif_nearest(number);
//@sub /ret \*= mul;/ => ret = verif_times(ret, mul);
//@beforeloop 0
  let ghost t = curr@; proof { assert(t =~= nosign(self@, true)); assert(t.skip(0) =~= t); lemma_runs(t); }
  let ghost mut n: int = 0;
//@loop 0 w
  invariant 0 <= n <= t.len(), curr@ == t.skip(n), forall|i: int| 0 <= i < n ==> is_digit(#[trigger] t[i]),
  decreases curr@.len(),
//@loopend 0
  proof { lemma_push(t, n); n = n + 1; }
//@afterloop 0
  proof { assert(n < t.len() ==> !is_digit(t[n])) by { assert(n < t.len() ==> curr@[0] == t[n]); } lemma_run(t, n); }
  let ghost f0 = curr@;
//@beforeloop 1
  let ghost t1 = curr@; let ghost mut n1: int = 0; proof { assert(t1.skip(0) =~= t1); }
//@loop 1 w
  invariant 0 <= n1 <= t1.len(), curr@ == t1.skip(n1), forall|i: int| 0 <= i < n1 ==> is_digit(#[trigger] t1[i]),
  decreases curr@.len(),
//@loopend 1
  proof { lemma_push(t1, n1); n1 = n1 + 1; }
//@afterloop 1
  proof { assert(n1 < t1.len() ==> !is_digit(t1[n1])) by { assert(n1 < t1.len() ==> curr@[0] == t1[n1]); } lemma_run(t1, n1); }
//@before /if is_exp\(curr\)/
  proof { assert(curr@ == frac(f0)); }
  let ghost e0 = curr@;
//@beforeloop 2
  let ghost t2 = curr@; let ghost mut n2: int = 0; proof { assert(t2.skip(0) =~= t2); }
//@loop 2 w
  invariant 0 <= n2 <= t2.len(), curr@ == t2.skip(n2), forall|i: int| 0 <= i < n2 ==> is_digit(#[trigger] t2[i]),
  decreases curr@.len(),
//@loopend 2
  proof { lemma_push(t2, n2); n2 = n2 + 1; }
//@afterloop 2
  proof { assert(n2 < t2.len() ==> !is_digit(t2[n2])) by { assert(n2 < t2.len() ==> curr@[0] == t2[n2]); } lemma_run(t2, n2); }
//@before /let number =/
  proof { assert(curr@ == expo(e0)); assert(curr@ == fl_tail(self@)); }
//@end
    fn is_empty(&self) -> (r: bool) { self.len() == 0 }
}
/// &s[a..]: a is at most the length and a character boundary
#[verifier::external_body]
pub fn verif_tail<'a>(s: &'a str, a: usize) -> (r: &'a str) requires a <= utf8(s@).len(), ensures utf8(r@) == utf8(s@).skip(a as int), { unimplemented!() }
#[verifier::external_body]
pub fn verif_slen(s: &str) -> (r: usize) ensures r == utf8(s@).len(), { unimplemented!() }
pub open spec fn ends(x: Seq<u8>, s: Seq<u8>) -> bool { x.len() <= s.len() && x == s.skip(s.len() - x.len()) }
pub proof fn lemma_skip(s: Seq<u8>, n: int) requires 0 <= n <= s.len(), ensures ends(s.skip(n), s), { }
pub proof fn lemma_ends(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires ends(a, b), ends(b, c), ensures ends(a, c), { assert(a =~= c.skip(c.len() - a.len())); }
pub proof fn lemma_after(s: Seq<u8>, minus: bool) ensures ({ let t = nosign(s, minus); ends(after(t, run(t)), s) }), ends(s, s), {
    assert(s =~= s.skip(0));
    let t = nosign(s, minus); lemma_runs(t); lemma_skip(s, 1 - 1); if t.len() < s.len() { lemma_skip(s, 1); }
    lemma_skip(t, run(t)); if run(t) < t.len() { lemma_skip(t, run(t) + 1); } lemma_ends(after(t, run(t)), t, s);
}
pub proof fn lemma_tail_u(s: Seq<u8>) ensures ends(usize_of(s).1, s), { lemma_after(s, false); }
pub proof fn lemma_tail_i(s: Seq<u8>) ensures ends(isize_of(s).1, s), { lemma_after(s, true); }
pub proof fn lemma_drop(s: Seq<u8>, k: int) requires 0 <= k <= s.len(), ensures ends(s.skip(k).skip(run(s.skip(k))), s), { lemma_runs(s.skip(k)); lemma_skip(s, k); lemma_skip(s.skip(k), run(s.skip(k))); lemma_ends(s.skip(k).skip(run(s.skip(k))), s.skip(k), s); }
pub proof fn lemma_fl(s: Seq<u8>) ensures ends(fl_tail(s), s), {
    assert(s =~= s.skip(0)); let t = nosign(s, true); assert(t =~= t.skip(0)); if t.len() < s.len() { lemma_skip(s, 1); } assert(ends(t, s));
    lemma_drop(t, 0); let f = t.skip(run(t)); assert(ends(f, t)); lemma_ends(f, t, s);
    assert(f =~= f.skip(0)); let e = frac(f); if f.len() > 0 && f[0] == 46u8 { lemma_drop(f, 1); } assert(ends(e, f)); lemma_ends(e, f, s);
    assert(e =~= e.skip(0)); let g = expo(e); if has_exp(e) { lemma_drop(e, 2); } assert(ends(g, e)); lemma_ends(g, e, s);
}
pub proof fn lemma_tail_f(s: Seq<u8>) ensures ends(f64_of(s).1, s), {
    assert(s =~= s.skip(0)); lemma_fl(s); let t = fl_tail(s); if t.len() > 0 && letter(t[0]) is Some { lemma_skip(t, 1); lemma_ends(t.skip(1), t, s); }
}
impl Text for str {
    open spec fn by(&self) -> Seq<u8> { utf8(self@) }
//@fn src/text.rs <str as Text>::to_usize
//@start
  proof { lemma_tail_u(utf8(self@)); }
//@sub /self\.as_bytes\(\)/ => verif_bytes(self)
//@sub /&self\[self\.len\(\) - b\.len\(\)\.\.\]/ => verif_tail(self, verif_slen(self) - b.len())
//@end
//@fn src/text.rs <str as Text>::to_isize
//@start
  proof { lemma_tail_i(utf8(self@)); }
//@sub /self\.as_bytes\(\)/ => verif_bytes(self)
//@sub /&self\[self\.len\(\) - b\.len\(\)\.\.\]/ => verif_tail(self, verif_slen(self) - b.len())
//@end
//@fn src/text.rs <str as Text>::to_f64
//@start
  proof { lemma_tail_f(utf8(self@)); }
//@sub /self\.as_bytes\(\)/ => verif_bytes(self)
//@sub /&self\[self\.len\(\) - b\.len\(\)\.\.\]/ => verif_tail(self, verif_slen(self) - b.len())
//@end
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
pub fn verif_u32(x: usize) -> (r: Result<u32>) ensures r is Ok == (x <= u32::MAX), r matches Ok(v) ==> v == x, { unimplemented!() }
//@item src/util.rs struct FakeSlice
/// a byte position, or a range of them, counted from one
pub open spec fn range_of(s: Seq<char>) -> Option<(int, int)> {
    let k = index_of(s, '-');
    let (a, b) = if k >= 0 { (whole_u(utf8(s.subrange(0, k))), whole_u(utf8(s.skip(k + 1)))) } else { (whole_u(utf8(s)), whole_u(utf8(s))) };
    match (a, b) { (Some(x), Some(y)) => if 1 <= x <= y <= u32::MAX { Some((x - 1, y)) } else { None }, _ => None }
}
impl FakeSlice {
//@fn src/util.rs FakeSlice::new (r)
  ensures r is Ok == range_of(spec@) is Some, r matches Ok(x) ==> (x.begin as int, x.end as int) == range_of(spec@)->Some_0,
//@sub /spec\.split_once\('-'\)/ => verif_split_once(spec, '-')
//@sub /spec\.as_bytes\(\)/ => verif_bytes(spec)
//@sub /u32::try_from\(/ => verif_u32(
//@end
}
}
fn main(){}
