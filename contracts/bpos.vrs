// A string as the bytes of its characters: slicing at byte positions.
/// how many bytes a character takes
pub open spec fn clen(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
/// the byte at which character i starts
pub open spec fn bpos(s: Seq<char>, i: int) -> int decreases i { if i <= 0 { 0 } else { bpos(s, i - 1) + clen(s[i - 1]) } }
/// a byte position between two characters
pub open spec fn bnd(s: Seq<char>, b: int) -> bool { exists|i: int| 0 <= i <= s.len() && #[trigger] bpos(s, i) == b }
pub proof fn lemma_bpos(s: Seq<char>, i: int, j: int) requires i <= j, ensures bpos(s, i) <= bpos(s, j), i < j && 0 <= i ==> bpos(s, i) < bpos(s, j), decreases j - i, { if i < j { lemma_bpos(s, i, j - 1); } }
// assumed: an ASCII character is encoded as itself, and no other character has an ASCII byte in it; strings are shorter than 2^63 bytes
pub axiom fn axiom_utf8(s: Seq<char>) ensures
    utf8(s).len() == bpos(s, s.len() as int), utf8(s).len() <= isize::MAX,
    forall|b: int| 0 <= b < utf8(s).len() && #[trigger] utf8(s)[b] < 128 ==> exists|i: int| 0 <= i < s.len() && #[trigger] bpos(s, i) == b && s[i] as int == utf8(s)[b] as int,
    forall|i: int| 0 <= i < s.len() && (#[trigger] s[i] as u32) < 128 ==> 0 <= bpos(s, i) < utf8(s).len() && utf8(s)[bpos(s, i)] as int == s[i] as int;
/// s.len()
#[verifier::external_body]
pub fn verif_blen(s: &str) -> (r: usize) ensures r == bpos(s@, s@.len() as int), r <= isize::MAX { s.len() }
/// &s[..b]
#[verifier::external_body]
pub fn verif_upto(s: &str, b: usize) -> (r: &str) requires bnd(s@, b as int), ensures forall|i: int| 0 <= i <= s@.len() && #[trigger] bpos(s@, i) == b ==> r@ == s@.subrange(0, i) { &s[..b] }
/// &s[b..]
#[verifier::external_body]
pub fn verif_from(s: &str, b: usize) -> (r: &str) requires bnd(s@, b as int), ensures forall|i: int| 0 <= i <= s@.len() && #[trigger] bpos(s@, i) == b ==> r@ == s@.skip(i) { &s[b..] }
/// s.strip_prefix("..")
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.subrange(0, p.len() as int) == p }
#[verifier::external_body]
pub fn verif_strip_str<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>) ensures r is Some == starts(s@, p@), r matches Some(x) ==> x@ == s@.skip(p@.len() as int) { s.strip_prefix(p) }
/// &s[a..b]
#[verifier::external_body]
pub fn verif_slice(s: &str, a: usize, b: usize) -> (r: &str) requires a <= b, bnd(s@, a as int), bnd(s@, b as int),
  ensures forall|i: int, j: int| 0 <= i <= s@.len() && 0 <= j <= s@.len() && #[trigger] bpos(s@, i) == a && #[trigger] bpos(s@, j) == b ==> r@ == s@.subrange(i, j) { &s[a..b] }
/// the character at a byte position
pub open spec fn chr(s: Seq<char>, b: int) -> int { choose|i: int| 0 <= i <= s.len() && #[trigger] bpos(s, i) == b }
pub proof fn lemma_chr(s: Seq<char>, i: int) requires 0 <= i <= s.len(), ensures chr(s, bpos(s, i)) == i, bnd(s, bpos(s, i)),
{ let j = chr(s, bpos(s, i)); if j < i { lemma_bpos(s, j, i); } else if i < j { lemma_bpos(s, i, j); } }
pub open spec fn head(s: Seq<char>, n: int) -> Seq<char> { if bnd(s, n) { s.subrange(0, chr(s, n)) } else { seq![] } }
/// s.get(0..n).unwrap_or("")
#[verifier::external_body]
pub fn verif_head(s: &str, n: usize) -> (r: &str) ensures r@ == head(s@, n as int) { s.get(0..n).unwrap_or("") }
/// s.strip_prefix(c).unwrap_or(s)
pub open spec fn skip_one(s: Seq<char>, c: char) -> Seq<char> { if s.len() > 0 && s[0] == c { s.skip(1) } else { s } }
#[verifier::external_body]
pub fn verif_strip_or<'a>(s: &'a str, c: char) -> (r: &'a str) ensures r@ == skip_one(s@, c) { s.strip_prefix(c).unwrap_or(s) }
/// s.as_bytes()[0].is_ascii_alphabetic()
pub open spec fn is_letter(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
#[verifier::external_body]
pub fn verif_letter0(s: &str) -> (r: bool) requires s@.len() > 0, ensures r == is_letter(s@[0]) { s.as_bytes()[0].is_ascii_alphabetic() }
