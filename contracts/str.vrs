// Trusted specifications of the &str operations the extracted code uses, on the sequence of characters.
pub open spec fn index_of(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 { -1 } else if s[0] == c { 0 } else { let n = index_of(s.skip(1), c); if n < 0 { n } else { n + 1 } } }
#[verifier::external_body]
pub fn verif_strip<'a>(s: &'a str, c: char) -> (r: Option<&'a str>)
  ensures r is Some == (s@.len() > 0 && s@[0] == c), r matches Some(x) ==> x@ == s@.skip(1),
{ unimplemented!() }
#[verifier::external_body]
pub fn verif_split_once<'a>(s: &'a str, c: char) -> (r: Option<(&'a str, &'a str)>)
  ensures r is Some == (index_of(s@, c) >= 0), r matches Some((a, b)) ==> a@ == s@.subrange(0, index_of(s@, c)) && b@ == s@.skip(index_of(s@, c) + 1),
{ unimplemented!() }
#[verifier::external_body]
pub fn verif_ends_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == c), { unimplemented!() }
#[verifier::external_body]
pub fn verif_s_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0), { unimplemented!() }
/// Text::first: the first character (panics on the empty string)
#[verifier::external_body]
pub fn verif_s_first(s: &str) -> (r: char) requires s@.len() > 0, ensures r == s@[0], { unimplemented!() }
#[verifier::external_body]
pub fn verif_s_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@), { unimplemented!() }
#[verifier::external_body]
pub fn verif_to_string(a: &str) -> (r: String) ensures r@ == a@, { unimplemented!() }
#[verifier::external_body]
pub fn verif_as_str(a: &String) -> (r: &str) ensures r@ == a@, { unimplemented!() }
#[verifier::external_body]
pub fn verif_char_digit(c: char) -> (r: bool) ensures r == ('0' <= c && c <= '9'), { unimplemented!() }
/// the UTF-8 bytes of a string
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn verif_bytes(a: &str) -> (r: &[u8]) ensures r@ == utf8(a@), { unimplemented!() }
/// the text between consecutive c
pub open spec fn spieces(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![seq![]] } else { let p = spieces(s.drop_last(), c); if s.last() == c { p.push(seq![]) } else { p.drop_last().push(p.last().push(s.last())) } }
}
#[verifier::external_body]
pub fn verif_s_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>)
  ensures r@.len() == spieces(s@, c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == spieces(s@, c)[i],
{ unimplemented!() }
pub proof fn lemma_spieces_len(s: Seq<char>, c: char) ensures spieces(s, c).len() > 0, decreases s.len(), { if s.len() > 0 { lemma_spieces_len(s.drop_last(), c); } }
