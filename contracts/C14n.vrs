use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
//@include std.vrs
//@include str.vrs
#[derive(Copy, Clone)]
//@item src/expr.rs enum FuncOp
//@item src/expr.rs struct ConstDef
//@item src/expr.rs struct FuncDef
/// the mathematical constants of std::f64::consts and the limits of f64
#[allow(non_camel_case_types)]
pub enum Con { PI, E, LOG2_E, LOG10_E, LN_2, LN_10, FRAC_PI_2, FRAC_PI_4, FRAC_1_PI, FRAC_2_PI, FRAC_2_SQRT_PI, SQRT_2, FRAC_1_SQRT_2, INFINITY, NEG_INFINITY, MAX, MIN, MIN_POSITIVE }
pub uninterp spec fn con(k: Con) -> f64;
#[verifier::external_body]
pub fn verif_con(k: Con) -> (r: f64) ensures r == con(k) { unimplemented!() }
#[verifier::external_body]
pub fn verif_same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
/// the name of each function
pub open spec fn fname(f: FuncOp) -> Seq<char> {
    match f {
        FuncOp::Acos => "acos"@,
        FuncOp::Acosh => "acosh"@,
        FuncOp::Asin => "asin"@,
        FuncOp::Asinh => "asinh"@,
        FuncOp::Atan => "atan"@,
        FuncOp::Atan2 => "atan2"@,
        FuncOp::Atanh => "atanh"@,
        FuncOp::Cbrt => "cbrt"@,
        FuncOp::Ceil => "ceil"@,
        FuncOp::Copysign => "copysign"@,
        FuncOp::Cos => "cos"@,
        FuncOp::Cosh => "cosh"@,
        FuncOp::Erf => "erf"@,
        FuncOp::Exp => "exp"@,
        FuncOp::Exp2 => "exp2"@,
        FuncOp::Exp10 => "exp10"@,
        FuncOp::Expm1 => "expm1"@,
        FuncOp::Fabs => "fabs"@,
        FuncOp::Fdim => "fdim"@,
        FuncOp::Floor => "floor"@,
        FuncOp::Fma => "fma"@,
        FuncOp::Fmax => "fmax"@,
        FuncOp::Fmin => "fmin"@,
        FuncOp::Fmod => "fmod"@,
        FuncOp::Hypot => "hypot"@,
        FuncOp::J0 => "j0"@,
        FuncOp::J1 => "j1"@,
        FuncOp::Jn => "jn"@,
        FuncOp::Ldexp => "ldexp"@,
        FuncOp::Lgamma => "lgamma"@,
        FuncOp::Log => "log"@,
        FuncOp::Log1p => "log1p"@,
        FuncOp::Log2 => "log2"@,
        FuncOp::Log10 => "log10"@,
        FuncOp::Nextafter => "nextafter"@,
        FuncOp::Pow => "pow"@,
        FuncOp::Remainder => "remainder"@,
        FuncOp::Round => "round"@,
        FuncOp::Scalbn => "scalbn"@,
        FuncOp::Sin => "sin"@,
        FuncOp::Sinh => "sinh"@,
        FuncOp::Sqrt => "sqrt"@,
        FuncOp::Tan => "tan"@,
        FuncOp::Tanh => "tanh"@,
        FuncOp::Tgamma => "tgamma"@,
        FuncOp::Trunc => "trunc"@,
        FuncOp::Y0 => "y0"@,
        FuncOp::Y1 => "y1"@,
        FuncOp::Yn => "yn"@,
        FuncOp::Abs => "abs"@,
        FuncOp::If => "if"@,
        FuncOp::Max => "max"@,
        FuncOp::Min => "min"@,
        FuncOp::Avg => "avg"@,
    }
}
/// this name stands for this constant
pub open spec fn names(n: Seq<char>, v: f64) -> bool {
    ||| (n == "pi"@ || n == "M_PI"@) && v == con(Con::PI)
    ||| (n == "e"@ || n == "M_E"@) && v == con(Con::E)
    ||| (n == "M_LOG2E"@) && v == con(Con::LOG2_E)
    ||| (n == "M_LOG10E"@) && v == con(Con::LOG10_E)
    ||| (n == "M_LN2"@) && v == con(Con::LN_2)
    ||| (n == "M_LN10"@) && v == con(Con::LN_10)
    ||| (n == "M_PI_2"@) && v == con(Con::FRAC_PI_2)
    ||| (n == "M_PI_4"@) && v == con(Con::FRAC_PI_4)
    ||| (n == "M_1_PI"@) && v == con(Con::FRAC_1_PI)
    ||| (n == "M_2_PI"@) && v == con(Con::FRAC_2_PI)
    ||| (n == "M_2_SQRTPI"@) && v == con(Con::FRAC_2_SQRT_PI)
    ||| (n == "M_SQRT2"@) && v == con(Con::SQRT_2)
    ||| (n == "M_SQRT1_2"@) && v == con(Con::FRAC_1_SQRT_2)
    ||| (n == "M_INF"@) && v == con(Con::INFINITY)
    ||| (n == "M_NEG_INF"@) && v == con(Con::NEG_INFINITY)
    ||| (n == "M_MAX"@) && v == con(Con::MAX)
    ||| (n == "M_MIN"@) && v == con(Con::MIN)
    ||| (n == "M_MIN_POS"@) && v == con(Con::MIN_POSITIVE)
}
//@gsub /(?<![\w.])(\w+) == (\w+\.name)\b/ => verif_same(\1, \2)
//@gsub /(?<![\w.])(\w+) != (\w+\.name)\b/ => !verif_same(\1, \2)
//@gsub /(?<![\w.])(\w+\.name) == (\w+)\b/ => verif_same(\1, \2)
//@gsub /(?<![\w.])(\w+\.name) != (\w+)\b/ => !verif_same(\1, \2)
//@gsub /\bfun!\(("\w+"), ?(FuncOp::\w+)\)/ => FuncDef { name: \1, val: \2 }
//@gsub /\bcon!\(("\w+"), ?([\w:]+)\)/ => ConstDef { name: \1, val: \2 }
//@gsub /\b(?:\w+::)*(?:consts|f64)::([A-Z]\w*)\b/ => verif_con(Con::\1)
pub open spec fn funcs_ok(t: Seq<FuncDef>) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).name@ == fname(t[i].val)
    &&& forall|f: FuncOp| exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).name@ == #[trigger] fname(f)
}
pub open spec fn consts_ok(t: Seq<ConstDef>) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> names((#[trigger] t[i]).name@, t[i].val)
    &&& forall|n: Seq<char>, v: f64| #[trigger] names(n, v) ==> exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).name@ == n
}
//@item src/expr.rs table FUNCS ensures funcs_ok(r@),
//@item src/expr.rs table CONSTS ensures consts_ok(r@),
#[verifier::loop_isolation(false)]
//@fn src/expr.rs find_const (r)
  ensures r matches Some(v) ==> names(x@, v),
    r is None ==> forall|v: f64| !#[trigger] names(x@, v),
//@sub /for (\w+) in (?:&CONSTS|CONSTS|CONSTS\.iter\(\)) \{/ => let vt = verif_CONSTS(); for \1 in vt.iter() {
//@loop 0 d
  invariant consts_ok(vt@), vi0 <= vt@.len(), forall|i: int| 0 <= i < vi0 ==> (#[trigger] vt@[i]).name@ != x@,
  decreases vt@.len() - vi0,
//@end
#[verifier::loop_isolation(false)]
//@fn src/expr.rs find_func (r)
  ensures r matches Ok(f) ==> fname(f) == x@,
    r is Err ==> forall|f: FuncOp| #[trigger] fname(f) != x@,
//@sub /for (\w+) in (?:&FUNCS|FUNCS|FUNCS\.iter\(\)) \{/ => let vt = verif_FUNCS(); for \1 in vt.iter() {
//@loop 0 d
  invariant funcs_ok(vt@), vi0 <= vt@.len(), forall|i: int| 0 <= i < vi0 ==> (#[trigger] vt@[i]).name@ != x@,
  decreases vt@.len() - vi0,
//@end
}
fn main() {}
