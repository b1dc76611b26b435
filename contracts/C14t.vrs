use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
//@include std.vrs
//@include str.vrs
//@include bpos.vrs
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/tok2.rs enum BinaryOp
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/tok2.rs enum UnaryOp
//@item src/tok2.rs enum Token

// ---- the lexical grammar ----
pub enum Tk { Bin(BinaryOp), Un(UnaryOp), L, R, Comma, Num(f64), Var(Seq<char>), Fun(Seq<char>), Other }
pub open spec fn tk(t: Token) -> Tk { match t { Token::Binary(op) => Tk::Bin(op), Token::Unary(op) => Tk::Un(op), Token::LParen => Tk::L, Token::RParen => Tk::R, Token::Comma => Tk::Comma, Token::Number(x) => Tk::Num(x), Token::Var(s) => Tk::Var(s@), Token::Func(s, None) => Tk::Fun(s@), _ => Tk::Other } }
pub open spec fn tks(s: Seq<Token>) -> Seq<Tk> { Seq::new(s.len(), |i: int| tk(s[i])) }
pub proof fn lemma_tks_push(s: Seq<Token>, t: Token) ensures tks(s.push(t)) == tks(s).push(tk(t)), { assert(tks(s.push(t)) =~= tks(s).push(tk(t))); }
/// Unicode letters, and letters or digits
pub uninterp spec fn alpha(c: char) -> bool;
pub uninterp spec fn alnum(c: char) -> bool;
/// the number at the beginning of a text, and how many characters it takes (C21)
pub uninterp spec fn numval(s: Seq<char>) -> f64;
pub uninterp spec fn numlen(s: Seq<char>) -> int;
pub open spec fn digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn ascii_alnum(c: char) -> bool { digit(c) || is_letter(c) }
#[verifier::external_body]
pub fn verif_alpha(c: char) -> (r: bool) ensures r == alpha(c), is_letter(c) ==> r { c.is_alphabetic() }
#[verifier::external_body]
pub fn verif_alnum(c: char) -> (r: bool) ensures r == alnum(c) { c.is_alphanumeric() }
#[verifier::external_body]
pub fn verif_ascii_alnum(c: char) -> (r: bool) ensures r == ascii_alnum(c) { c.is_ascii_alphanumeric() }
#[verifier::external_body]
pub fn verif_to_f64(s: &str) -> (r: (f64, &str)) ensures r.0 == numval(s@), 0 <= numlen(s@) <= s@.len(), s@.len() > 0 && digit(s@[0]) ==> numlen(s@) > 0, r.1@ == s@.skip(numlen(s@)) { unimplemented!() }
#[verifier::external_body]
pub fn verif_skip1(s: &str) -> (r: &str) requires s@.len() > 0, ensures r@ == s@.skip(1) { unimplemented!() }
#[verifier::external_body]
pub fn verif_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body]
pub fn verif_new_string() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
pub fn verif_copy(s: &String) -> (r: String) ensures r@ == s@ { s.to_string() }

pub open spec fn word(c: char) -> bool { alnum(c) || c == '_' }
/// how long the run of word characters at the beginning is
pub open spec fn wlen(s: Seq<char>) -> int decreases s.len() { if s.len() > 0 && word(s[0]) { 1 + wlen(s.skip(1)) } else { 0 } }
pub proof fn lemma_wlen(s: Seq<char>) ensures 0 <= wlen(s) <= s.len(), decreases s.len(), { if s.len() > 0 && word(s[0]) { lemma_wlen(s.skip(1)); } }
/// does this token end an operand, so that a following sign is an operation between two
pub open spec fn ends_operand(t: Tk) -> bool { match t { Tk::Un(UnaryOp::Fact) | Tk::R | Tk::Num(_) | Tk::Var(_) => true, _ => false } }
pub open spec fn after_operand(p: Seq<Tk>) -> bool { p.len() > 0 && ends_operand(p.last()) }
/// the single-character tokens, and the two-character ones
pub open spec fn sym1(c: char, p: Seq<Tk>) -> Option<Seq<Tk>> {
    if c == '(' { Some(if p.len() > 0 && p.last() is Var { p.drop_last().push(Tk::Fun(p.last()->Var_0)) } else { p.push(Tk::L) }) }
    else if c == ')' { Some(p.push(Tk::R)) }
    else if c == ',' { Some(p.push(Tk::Comma)) }
    else if c == '^' { Some(p.push(Tk::Bin(BinaryOp::Pow))) }
    else if c == '%' { Some(p.push(Tk::Bin(BinaryOp::Rem))) }
    else if c == '/' { Some(p.push(Tk::Bin(BinaryOp::Div))) }
    else if c == '*' { Some(p.push(Tk::Bin(BinaryOp::Times))) }
    else if c == '+' { Some(p.push(if after_operand(p) { Tk::Bin(BinaryOp::Plus) } else { Tk::Un(UnaryOp::Plus) })) }
    else if c == '-' { Some(p.push(if after_operand(p) { Tk::Bin(BinaryOp::Minus) } else { Tk::Un(UnaryOp::Minus) })) }
    else if c == '!' { Some(p.push(Tk::Un(UnaryOp::Fact))) }
    else if c == '<' { Some(p.push(Tk::Bin(BinaryOp::LT))) }
    else if c == '>' { Some(p.push(Tk::Bin(BinaryOp::GT))) }
    else { None }
}
pub open spec fn sym2(c: char, d: char) -> Option<Tk> {
    if d != '=' { None } else if c == '!' { Some(Tk::Bin(BinaryOp::NE)) } else if c == '<' { Some(Tk::Bin(BinaryOp::LE)) } else if c == '>' { Some(Tk::Bin(BinaryOp::GE)) } else if c == '=' { Some(Tk::Bin(BinaryOp::EQ)) } else { None }
}
/// the tokens before, and the rest of the text, to all tokens; None when the text is malformed
pub open spec fn lex(p: Seq<Tk>, s: Seq<char>) -> Option<Seq<Tk>> decreases s.len() {
    if s.len() == 0 { Some(p) }
    else if s.len() > 1 && sym2(s[0], s[1]) is Some { lex(p.push(sym2(s[0], s[1]).unwrap()), s.skip(2)) }
    else if sym1(s[0], p) is Some { lex(sym1(s[0], p).unwrap(), s.skip(1)) }
    else if s[0] != '=' && alpha(s[0]) { let n = wlen(s.skip(1)); if 0 <= n < s.len() { lex(p.push(Tk::Var(s.subrange(0, n + 1))), s.skip(n + 1)) } else { None } }
    else if digit(s[0]) { if 0 < numlen(s) <= s.len() { lex(p.push(Tk::Num(numval(s))), s.skip(numlen(s))) } else { None } }
    else { None }
}
pub proof fn lemma_bpos_skip(s: Seq<char>, k: int, n: int) requires 0 <= k <= n <= s.len(), ensures bpos(s.skip(k), n - k) == bpos(s, n) - bpos(s, k), decreases n - k,
{ if k < n { lemma_bpos_skip(s, k, n - 1); assert(s.skip(k)[n - k - 1] == s[n - 1]); } }

impl Token {
//@fn src/tok2.rs Token::make_func (r)
  ensures r == (*old(self) is Var), r ==> tk(*final(self)) == Tk::Fun((*old(self))->Var_0@), !r ==> *final(self) == *old(self),
//@sub /\(\*s\)\.to_string\(\)/ => verif_copy(s)
//@end
}
//@fn src/tok2.rs can_binary (r) noconst
  ensures r == ends_operand(tk(*tok)) || tk(*tok) is Other,
//@end
//@fn src/tok2.rs tokenize (res)
  ensures res is Ok ==> lex(seq![], orig@) == Some(tks(res->Ok_0@)), res is Err ==> lex(seq![], orig@) is None,
//@sigsub /<S: AsRef<str>>\(orig: S\)/ => (orig: &str)
//@sub /let orig = orig\.as_ref\(\);/ =>
//@sub /let ch = input\.take_first\(\);/ => let ch = verif_s_first(input); input = verif_skip1(input);
//@sub /var\.push\(input\.take_first\(\)\);/ => verif_push(&mut var, verif_s_first(input)); input = verif_skip1(input);
//@sub /var\.push\(ch\)/ => verif_push(&mut var, ch)
//@sub /String::new\(\)/ => verif_new_string()
//@sub /input\.skip_first\(\)/ => verif_skip1(input)
//@sub /input\.first\(\)\.is_alphanumeric\(\)/ => verif_alnum(verif_s_first(input))
//@sub /input\.first\(\)/ => verif_s_first(input)
//@sub /input\.is_empty\(\)/ => verif_s_empty(input)
//@sub /input\.len\(\)/ => verif_blen(input)
//@sub /0 as char/ => '\0'
//@sub /ch\.is_alphabetic\(\)/ => verif_alpha(ch)
//@sub /ch\.is_ascii_alphanumeric\(\)/ => verif_ascii_alnum(ch)
//@sub /orig\[orig\.len\(\) - prev\.\.\]\.to_f64\(\)/ => verif_to_f64(verif_from(orig, verif_blen(orig) - prev))
//@start
    let ghost mut k: int = 0;
    proof { assert(orig@.skip(0) =~= orig@); assert(tks(seq![]) =~= seq![]); }
//@loop 0 w
  invariant
    0 <= k <= orig@.len(), input@ == orig@.skip(k), lex(seq![], orig@) == lex(tks(res@), input@),
    forall|i: int| 0 <= i < res@.len() ==> !(tk(#[trigger] res@[i]) is Other),
  decreases input@.len(),
//@loopstart 0
    let ghost res0 = res@; let ghost in0 = input@;
    let ghost mut m: int = 1;
    proof { lemma_bpos_skip(orig@, k, orig@.len() as int); lemma_chr(orig@, k); lemma_bpos(orig@, 0, k); }
//@loopend 0
    proof {
        if in0.len() > 1 { assert(in0.skip(1).skip(1) =~= in0.skip(2)); }
        if res@.len() == res0.len() + 1 { assert(res@ =~= res0.push(res@.last())); lemma_tks_push(res0, res@.last()); }
        else { assert(tks(res@) =~= tks(res0).drop_last().push(tk(res@.last()))); }
        lemma_wlen(in0.skip(1));
        k = orig@.len() - input@.len();
        assert(input@ =~= orig@.skip(k));
        if in0.len() > 1 { assert(in0.skip(1)[0] == in0[1]); }
    }
//@loop 1 w
  invariant
    1 <= m <= in0.len(), input@ == in0.skip(m), var@ == in0.subrange(0, m), wlen(in0.skip(1)) == m - 1 + wlen(input@),
  ensures wlen(input@) == 0,
  decreases input@.len(),
//@loopend 1
    proof { assert(in0.skip(m).skip(1) =~= in0.skip(m + 1)); assert(in0.subrange(0, m).push(in0[m]) =~= in0.subrange(0, m + 1)); m = m + 1; }
//@beforeloop 1
    proof { assert(in0.subrange(0, 1) =~= seq![in0[0]]); assert(seq![ch] =~= Seq::<char>::empty().push(ch)); }
//@end
}
fn main(){}
