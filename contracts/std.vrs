// Trusted specifications of the Rust standard library used by the extracted code.
#[derive(Debug)]
pub struct Error { pub x: u8 }
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body]
pub fn verif_err() -> (e: Error) { unimplemented!() }

pub open spec fn flip(o: Ordering) -> Ordering {
    match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}
pub assume_specification [std::cmp::Ordering::reverse] (o: std::cmp::Ordering) -> (r: std::cmp::Ordering)
    returns flip(o);
pub open spec fn is_digit(c: u8) -> bool { 48u8 <= c && c <= 57u8 }
pub assume_specification [u8::is_ascii_digit] (c: &u8) -> (r: bool)
    returns is_digit(*c);
pub assume_specification [<Ordering as PartialEq<Ordering>>::eq] (a: &Ordering, b: &Ordering) -> (r: bool)
    ensures r == (*a == *b);
pub assume_specification<T: std::clone::Clone> [<[T]>::to_vec] (s: &[T]) -> (r: std::vec::Vec<T>)
    ensures r@ == s@;
pub open spec fn icmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
