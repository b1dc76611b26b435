// byte-string orderings and the standard-library operations on them
/// lexicographic comparison of byte strings, from position i on
pub open spec fn lexc(a: Seq<u8>, b: Seq<u8>, i: int) -> Ordering decreases a.len() - i {
    if i < 0 || i >= a.len() || i >= b.len() {
        if a.len() < b.len() { Ordering::Less } else if a.len() > b.len() { Ordering::Greater } else { Ordering::Equal }
    } else if a[i] < b[i] { Ordering::Less } else if a[i] > b[i] { Ordering::Greater } else { lexc(a, b, i + 1) }
}
pub open spec fn lower(c: u8) -> u8 { if 65u8 <= c && c <= 90u8 { (c + 32) as u8 } else { c } }
pub open spec fn lowers(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| lower(s[i])) }
pub assume_specification [u8::to_ascii_lowercase] (c: &u8) -> (r: u8)
    returns lower(*c);
pub assume_specification [u8::make_ascii_lowercase] (c: &mut u8)
    ensures *final(c) == lower(*old(c));
// Ord::cmp of the element types used here (a trusted statement of the standard library's meaning)
//@gsub /\.cmp\(/ => .vcmp(
pub trait VCmp {
    spec fn vc(&self, o: &Self) -> Ordering;
    fn vcmp(&self, o: &Self) -> (r: Ordering) ensures r == self.vc(o);
}
impl VCmp for [u8] {
    open spec fn vc(&self, o: &Self) -> Ordering { lexc(self@, o@, 0) }
    #[verifier::external_body]
    fn vcmp(&self, o: &Self) -> (r: Ordering) { Ord::cmp(self, o) }
}
impl VCmp for u8 {
    open spec fn vc(&self, o: &Self) -> Ordering { icmp(*self as int, *o as int) }
    #[verifier::external_body]
    fn vcmp(&self, o: &Self) -> (r: Ordering) { Ord::cmp(self, o) }
}
impl VCmp for u32 {
    open spec fn vc(&self, o: &Self) -> Ordering { icmp(*self as int, *o as int) }
    #[verifier::external_body]
    fn vcmp(&self, o: &Self) -> (r: Ordering) { Ord::cmp(self, o) }
}
impl VCmp for usize {
    open spec fn vc(&self, o: &Self) -> Ordering { icmp(*self as int, *o as int) }
    #[verifier::external_body]
    fn vcmp(&self, o: &Self) -> (r: Ordering) { Ord::cmp(self, o) }
}
/// slice equality
#[verifier::external_body]
pub fn verif_seq_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ =~= b@) { a == b }
pub open spec fn be(s: Seq<u8>, k: int) -> nat decreases k {
    if k <= 0 { 0 } else { be(s, k - 1) * 256 + s[k - 1] as nat }
}
