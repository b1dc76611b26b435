// ------------------------------------------------------------ IEEE 754 comparison of f64, by bit pattern
// assumed: what the processor's ==, !=, <, <=, >, >= on f64 answer (IEEE 754), stated on the bits
use vstd::float::*;
use vstd::std_specs::cmp::*;
pub spec const SIGN: int = 0x8000_0000_0000_0000;
pub open spec fn fb(x: f64) -> u64 { x.to_bits_spec() }
pub open spec fn fmag(b: u64) -> int { if b >= SIGN { b - SIGN } else { b as int } }
pub open spec fn fnan(x: f64) -> bool { fmag(fb(x)) > 0x7ff0_0000_0000_0000 }
/// the place of a number on the line; all NaN together below everything
pub open spec fn fkey(x: f64) -> int { if fnan(x) { -SIGN - 1 } else if fb(x) >= SIGN { -fmag(fb(x)) } else { fmag(fb(x)) } }
pub broadcast axiom fn ieee_eq(x: f64, y: f64, b: bool) ensures #[trigger] eq_ensures::<f64>(x, y, b) ==> b == (!fnan(x) && !fnan(y) && fkey(x) == fkey(y));
pub broadcast axiom fn ieee_ne(x: f64, y: f64, b: bool) ensures #[trigger] ne_ensures::<f64>(x, y, b) ==> b == !(!fnan(x) && !fnan(y) && fkey(x) == fkey(y));
pub broadcast axiom fn ieee_lt(x: f64, y: f64, b: bool) ensures #[trigger] lt_ensures::<f64>(x, y, b) ==> b == (!fnan(x) && !fnan(y) && fkey(x) < fkey(y));
pub broadcast axiom fn ieee_le(x: f64, y: f64, b: bool) ensures #[trigger] le_ensures::<f64>(x, y, b) ==> b == (!fnan(x) && !fnan(y) && fkey(x) <= fkey(y));
pub broadcast axiom fn ieee_gt(x: f64, y: f64, b: bool) ensures #[trigger] gt_ensures::<f64>(x, y, b) ==> b == (!fnan(x) && !fnan(y) && fkey(x) > fkey(y));
pub broadcast axiom fn ieee_ge(x: f64, y: f64, b: bool) ensures #[trigger] ge_ensures::<f64>(x, y, b) ==> b == (!fnan(x) && !fnan(y) && fkey(x) >= fkey(y));
pub broadcast group ieee { ieee_eq, ieee_ne, ieee_lt, ieee_le, ieee_gt, ieee_ge }
pub assume_specification [f64::is_nan] (x: f64) -> (r: bool) ensures r == fnan(x);
pub assume_specification [f64::to_bits] (x: f64) -> (r: u64) ensures r == fb(x);
#[verifier::external_body]
pub fn verif_bits(x: f64) -> (r: u64) ensures r == fb(x) { x.to_bits() }
pub open spec fn kcmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
//@fn src/num.rs fcmp (r)
   ensures r == kcmp(fkey(x), fkey(y)),
//@start
   broadcast use ieee;
//@end
// assumed: the number a text is read as is a function of the text and never NaN (its digits are C21's subject)
pub uninterp spec fn ftext(v: Seq<u8>) -> f64;
#[verifier::external_body]
pub fn verif_f64(v: &[u8]) -> (r: f64) ensures r == ftext(v@), !fnan(r) { unimplemented!() }
/// (Verus does not know the type invariant of a float in a field: the axioms, for one given number)
pub proof fn ieee_val(x: f64) ensures
    forall|y: f64, b: bool| #[trigger] eq_ensures::<f64>(x, y, b) ==> b == (!fnan(x) && !fnan(y) && fkey(x) == fkey(y)),
    forall|y: f64, b: bool| #[trigger] eq_ensures::<f64>(y, x, b) ==> b == (!fnan(x) && !fnan(y) && fkey(x) == fkey(y)),
    forall|y: f64, b: bool| #[trigger] ne_ensures::<f64>(x, y, b) ==> b == !(!fnan(x) && !fnan(y) && fkey(x) == fkey(y)),
{ broadcast use ieee; }
