// ------------------------------------------------------------ f64 arithmetic: a function of its operands
pub uninterp spec fn fadd(x: f64, y: f64) -> f64;
pub uninterp spec fn fsub(x: f64, y: f64) -> f64;
pub uninterp spec fn fmul(x: f64, y: f64) -> f64;
pub uninterp spec fn fdiv(x: f64, y: f64) -> f64;
pub uninterp spec fn frem(x: f64, y: f64) -> f64;
pub open spec fn feq(x: f64, y: f64) -> bool { !fnan(x) && !fnan(y) && fkey(x) == fkey(y) }
pub open spec fn flt(x: f64, y: f64) -> bool { !fnan(x) && !fnan(y) && fkey(x) < fkey(y) }
pub open spec fn fle(x: f64, y: f64) -> bool { !fnan(x) && !fnan(y) && fkey(x) <= fkey(y) }
pub broadcast axiom fn req_add(x: f64, y: f64) ensures #[trigger] vstd::std_specs::ops::AddSpec::add_req(x, y);
pub broadcast axiom fn det_add(x: f64, y: f64, o: f64) ensures #[trigger] add_ensures::<f64>(x, y, o) ==> o == fadd(x, y);
pub broadcast axiom fn req_sub(x: f64, y: f64) ensures #[trigger] vstd::std_specs::ops::SubSpec::sub_req(x, y);
pub broadcast axiom fn det_sub(x: f64, y: f64, o: f64) ensures #[trigger] sub_ensures::<f64>(x, y, o) ==> o == fsub(x, y);
pub broadcast axiom fn req_mul(x: f64, y: f64) ensures #[trigger] vstd::std_specs::ops::MulSpec::mul_req(x, y);
pub broadcast axiom fn det_mul(x: f64, y: f64, o: f64) ensures #[trigger] mul_ensures::<f64>(x, y, o) ==> o == fmul(x, y);
pub broadcast axiom fn req_div(x: f64, y: f64) ensures #[trigger] vstd::std_specs::ops::DivSpec::div_req(x, y);
pub broadcast axiom fn det_div(x: f64, y: f64, o: f64) ensures #[trigger] div_ensures::<f64>(x, y, o) ==> o == fdiv(x, y);
pub broadcast group fdet { req_add, req_sub, req_mul, req_div, det_add, det_sub, det_mul, det_div }
#[verifier::external_body]
pub fn verif_rem(x: f64, y: f64) -> (r: f64) ensures r == frem(x, y) { x % y }
