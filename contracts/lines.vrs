// a line of text, seen through the library's accessors (their bodies are C06's subject)
#[verifier::external_body]
pub struct TextLine { x: u8 }
pub uninterp spec fn tl_line(t: TextLine) -> Seq<u8>;
pub uninterp spec fn tl_col(t: TextLine, n: int) -> Seq<u8>;
impl TextLine {
    #[verifier::external_body]
    pub fn line(&self) -> (r: &[u8]) ensures r@ == tl_line(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, n: usize) -> (r: &[u8]) ensures r@ == tl_col(*self, n as int) { unimplemented!() }
}
pub uninterp spec fn col_of(line: Seq<u8>, n: int, d: u8) -> Seq<u8>;
#[verifier::external_body]
pub fn get_col(data: &[u8], col: usize, delim: u8) -> (r: &[u8]) ensures r@ == col_of(data@, col as int, delim) { unimplemented!() }
/// the text of a line, without its newline
pub open spec fn no_nl(l: Seq<u8>) -> Seq<u8> { if l.len() > 0 && l.last() == 10u8 { l.drop_last() } else { l } }
