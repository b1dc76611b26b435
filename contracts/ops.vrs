#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/util.rs enum CompareOp
/// does the operator hold between two values that compare like this?
pub open spec fn holds(op: CompareOp, o: Ordering) -> bool {
    match op {
        CompareOp::LT => o == Ordering::Less,
        CompareOp::GT => o == Ordering::Greater,
        CompareOp::LE => o == Ordering::Less || o == Ordering::Equal,
        CompareOp::GE => o == Ordering::Greater || o == Ordering::Equal,
        CompareOp::EQ => o == Ordering::Equal,
        CompareOp::NE => o != Ordering::Equal,
    }
}
