use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
//@include std.vrs
//@include lines.vrs
//@include float.vrs
use vstd::std_specs::ops::*;
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/tok2.rs enum BinaryOp
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/tok2.rs enum UnaryOp
//@item src/tok2.rs enum Token
#[derive(Copy, Clone)]
//@item src/shunting_yard.rs enum Associativity
use BinaryOp::{Div, Minus, Plus, Pow, Rem, Times, EQ, GE, GT, LE, LT, NE};
use Token::{Binary, Comma, Func, LParen, Number, RParen, Unary, Var};
use Associativity::{Left, Right, NA};
#[verifier::external_body]
pub fn verif_clone(t: &Token) -> (r: Token) ensures r == *t { unimplemented!() }

// ---- the grammar, stated independently of the algorithm ----
/// syntax trees; every function call has a last argument and a list of earlier ones
pub enum Tree { Leaf(Token), Un(UnaryOp, Box<Tree>), Post(Box<Tree>), Bin(BinaryOp, Box<Tree>, Box<Tree>), Paren(Box<Tree>), Call(String, Box<Args>, Box<Tree>) }
pub enum Args { Nil, Snoc(Box<Args>, Box<Tree>) }
pub open spec fn nargs(a: Args) -> nat decreases a { match a { Args::Nil => 0, Args::Snoc(b, _) => nargs(*b) + 1 } }
/// how tightly a binary operator binds
pub open spec fn prec(op: BinaryOp) -> int { match op { BinaryOp::LT | BinaryOp::GT | BinaryOp::LE | BinaryOp::GE | BinaryOp::EQ | BinaryOp::NE => 1, BinaryOp::Plus | BinaryOp::Minus => 2, BinaryOp::Times | BinaryOp::Div | BinaryOp::Rem => 3, BinaryOp::Pow => 5 } }
/// only ^ associates to the right; a sign binds tighter than * and looser than ^
pub open spec fn rassoc(op: BinaryOp) -> bool { op == BinaryOp::Pow }
pub open spec fn min2(a: int, b: int) -> int { if a < b { a } else { b } }
/// the loosest binary operator that is exposed at the left (right) edge of the text of a tree
pub open spec fn ledge(t: Tree) -> int decreases t { match t { Tree::Bin(op, l, r) => min2(prec(op), ledge(*l)), _ => 7 } }
pub open spec fn redge(t: Tree) -> int decreases t { match t { Tree::Bin(op, l, r) => min2(prec(op), redge(*r)), Tree::Un(op, a) => min2(4, redge(*a)), _ => 7 } }
/// a tree with this left edge may stand to the right of the operator
pub open spec fn rfits(op: BinaryOp, e: int) -> bool { if rassoc(op) { e >= prec(op) } else { e > prec(op) } }
/// a tree may stand to the left of the operator
pub open spec fn lfits(op: BinaryOp, e: int) -> bool { if rassoc(op) { e > prec(op) } else { e >= prec(op) } }
pub open spec fn wf(t: Tree) -> bool decreases t {
    match t {
        Tree::Leaf(k) => k is Number || k is Var,
        Tree::Un(op, a) => op != UnaryOp::Fact && wf(*a) && ledge(*a) >= 5,
        Tree::Post(a) => wf(*a) && !(*a is Un) && !(*a is Bin),
        Tree::Bin(op, l, r) => wf(*l) && wf(*r) && lfits(op, redge(*l)) && rfits(op, ledge(*r)),
        Tree::Paren(a) => wf(*a),
        Tree::Call(_, a, b) => wfs(*a) && wf(*b),
    }
}
pub open spec fn wfs(a: Args) -> bool decreases a { match a { Args::Nil => true, Args::Snoc(b, t) => wfs(*b) && wf(*t) } }
/// the infix text of a tree
pub open spec fn text(t: Tree) -> Seq<Token> decreases t {
    match t {
        Tree::Leaf(k) => seq![k],
        Tree::Un(op, a) => seq![Token::Unary(op)] + text(*a),
        Tree::Post(a) => text(*a) + seq![Token::Unary(UnaryOp::Fact)],
        Tree::Bin(op, l, r) => text(*l) + seq![Token::Binary(op)] + text(*r),
        Tree::Paren(a) => seq![Token::LParen] + text(*a) + seq![Token::RParen],
        Tree::Call(f, a, b) => seq![Token::Func(f, None)] + texts(*a) + text(*b) + seq![Token::RParen],
    }
}
pub open spec fn texts(a: Args) -> Seq<Token> decreases a { match a { Args::Nil => seq![], Args::Snoc(b, t) => texts(*b) + text(*t) + seq![Token::Comma] } }
/// the postfix order of a tree
pub open spec fn post(t: Tree) -> Seq<Token> decreases t {
    match t {
        Tree::Leaf(k) => seq![k],
        Tree::Un(op, a) => post(*a) + seq![Token::Unary(op)],
        Tree::Post(a) => post(*a) + seq![Token::Unary(UnaryOp::Fact)],
        Tree::Bin(op, l, r) => post(*l) + post(*r) + seq![Token::Binary(op)],
        Tree::Paren(a) => post(*a),
        Tree::Call(f, a, b) => posts(*a) + post(*b) + seq![Token::Func(f, Some((nargs(*a) + 1) as usize))],
    }
}
pub open spec fn posts(a: Args) -> Seq<Token> decreases a { match a { Args::Nil => seq![], Args::Snoc(b, t) => posts(*b) + post(*t) } }

// ---- the operator stack ----
pub enum Ent { Bin(BinaryOp, Tree), Un(UnaryOp), LP, Fn(String, Args) }
pub open spec fn etok(e: Ent) -> Token { match e { Ent::Bin(op, _) => Token::Binary(op), Ent::Un(op) => Token::Unary(op), Ent::LP => Token::LParen, Ent::Fn(f, a) => Token::Func(f, if a is Nil { None } else { Some(nargs(a) as usize) }) } }
pub open spec fn etext(e: Ent) -> Seq<Token> { match e { Ent::Bin(op, l) => text(l) + seq![Token::Binary(op)], Ent::Un(op) => seq![Token::Unary(op)], Ent::LP => seq![Token::LParen], Ent::Fn(f, a) => seq![Token::Func(f, None)] + texts(a) } }
pub open spec fn epost(e: Ent) -> Seq<Token> { match e { Ent::Bin(op, l) => post(l), Ent::Un(op) => seq![], Ent::LP => seq![], Ent::Fn(f, a) => posts(a) } }
pub open spec fn ewf(e: Ent) -> bool { match e { Ent::Bin(op, l) => wf(l) && lfits(op, redge(l)), Ent::Un(op) => op != UnaryOp::Fact, Ent::LP => true, Ent::Fn(f, a) => wfs(a) } }
pub open spec fn eledge(e: Ent) -> int { match e { Ent::Bin(op, l) => min2(prec(op), ledge(l)), _ => 7 } }
pub open spec fn efits(e: Ent, edge: int) -> bool { match e { Ent::Bin(op, l) => rfits(op, edge), Ent::Un(op) => edge >= 5, _ => true } }
pub open spec fn gtext(g: Seq<Ent>) -> Seq<Token> decreases g.len() { if g.len() == 0 { seq![] } else { gtext(g.drop_last()) + etext(g.last()) } }
pub open spec fn gpost(g: Seq<Ent>) -> Seq<Token> decreases g.len() { if g.len() == 0 { seq![] } else { gpost(g.drop_last()) + epost(g.last()) } }
pub open spec fn gwf(g: Seq<Ent>) -> bool {
    &&& forall|i: int| 0 <= i < g.len() ==> ewf(#[trigger] g[i])
    &&& forall|i: int| 1 <= i < g.len() ==> efits(g[i - 1], eledge(#[trigger] g[i]))
}
pub open spec fn facts(k: nat) -> Seq<Token> { Seq::new(k, |i: int| Token::Unary(UnaryOp::Fact)) }
pub open spec fn on_stack(st: Seq<(usize, Token)>, g: Seq<Ent>, k: nat) -> bool {
    &&& st.len() == g.len() + k
    &&& forall|i: int| 0 <= i < g.len() ==> (#[trigger] st[i]).1 == etok(g[i])
    &&& forall|i: int| g.len() <= i < st.len() ==> (#[trigger] st[i]).1 == Token::Unary(UnaryOp::Fact)
}
pub open spec fn curtext(c: Option<Tree>) -> Seq<Token> { match c { Some(t) => text(t), None => seq![] } }
pub open spec fn curpost(c: Option<Tree>) -> Seq<Token> { match c { Some(t) => post(t), None => seq![] } }
/// the current operand is well formed and fits on top of the stack
pub open spec fn curwf(g: Seq<Ent>, c: Option<Tree>) -> bool { c.is_some() ==> wf(c.unwrap()) && (g.len() > 0 ==> efits(g.last(), ledge(c.unwrap()))) }
/// combine the top of the stack with the operand above it
pub open spec fn fold(e: Ent, t: Tree) -> Tree { match e { Ent::Bin(op, l) => Tree::Bin(op, Box::new(l), Box::new(t)), Ent::Un(op) => Tree::Un(op, Box::new(t)), Ent::LP => Tree::Paren(Box::new(t)), Ent::Fn(f, a) => Tree::Call(f, Box::new(a), Box::new(t)) } }
/// a token an RPN sequence may hold, with a bound on its argument count
pub open spec fn legal(t: Token, n: int) -> bool { match t { Token::Number(_) | Token::Var(_) | Token::Unary(_) | Token::Binary(_) => true, Token::Func(_, Some(k)) => k <= n, _ => false } }
pub open spec fn weight(t: Token) -> int { match t { Token::Number(_) | Token::Var(_) => 1, Token::Binary(_) => -1, Token::Func(_, Some(k)) => 1 - k, _ => 0 } }
pub open spec fn cnt(s: Seq<Token>) -> int decreases s.len() { if s.len() == 0 { 0 } else { cnt(s.drop_last()) + weight(s.last()) } }
pub proof fn lemma_cnt_add(a: Seq<Token>, b: Seq<Token>)
  ensures cnt(a + b) == cnt(a) + cnt(b),
  decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else { lemma_cnt_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
pub proof fn lemma_cnt_one(t: Token) ensures cnt(seq![t]) == weight(t) { assert(seq![t].drop_last() =~= seq![]); assert(cnt(seq![]) == 0); }
/// the argument counts that occur fit in a usize
pub open spec fn small(t: Tree) -> bool decreases t { match t { Tree::Leaf(k) => true, Tree::Un(_, a) => small(*a), Tree::Post(a) => small(*a), Tree::Bin(_, l, r) => small(*l) && small(*r), Tree::Paren(a) => small(*a), Tree::Call(_, a, b) => nargs(*a) < usize::MAX && smalls(*a) && small(*b) } }
pub open spec fn smalls(a: Args) -> bool decreases a { match a { Args::Nil => true, Args::Snoc(b, t) => smalls(*b) && small(*t) } }
pub open spec fn esmall(e: Ent) -> bool { match e { Ent::Bin(_, l) => small(l), Ent::Fn(_, a) => smalls(a) && nargs(a) < usize::MAX, _ => true } }
/// the postfix form of a tree leaves exactly one operand
pub proof fn lemma_cnt_post(t: Tree)
  requires wf(t), small(t),
  ensures cnt(post(t)) == 1,
  decreases t,
{
    match t {
        Tree::Leaf(k) => { lemma_cnt_one(k); }
        Tree::Un(op, a) => { lemma_cnt_post(*a); lemma_cnt_one(Token::Unary(op)); lemma_cnt_add(post(*a), seq![Token::Unary(op)]); }
        Tree::Post(a) => { lemma_cnt_post(*a); lemma_cnt_one(Token::Unary(UnaryOp::Fact)); lemma_cnt_add(post(*a), seq![Token::Unary(UnaryOp::Fact)]); }
        Tree::Bin(op, l, r) => { lemma_cnt_post(*l); lemma_cnt_post(*r); lemma_cnt_one(Token::Binary(op)); lemma_cnt_add(post(*l), post(*r)); lemma_cnt_add(post(*l) + post(*r), seq![Token::Binary(op)]); }
        Tree::Paren(a) => { lemma_cnt_post(*a); }
        Tree::Call(f, a, b) => { let k = Token::Func(f, Some((nargs(*a) + 1) as usize)); lemma_cnt_posts(*a); lemma_cnt_post(*b); lemma_cnt_one(k); lemma_cnt_add(posts(*a), post(*b)); lemma_cnt_add(posts(*a) + post(*b), seq![k]); }
    }
}
pub proof fn lemma_cnt_posts(a: Args)
  requires wfs(a), smalls(a),
  ensures cnt(posts(a)) == nargs(a),
  decreases a,
{
    match a { Args::Nil => {}, Args::Snoc(b, t) => { lemma_cnt_posts(*b); lemma_cnt_post(*t); lemma_cnt_add(posts(*b), post(*t)); } }
}
pub open spec fn allops(g: Seq<Ent>) -> bool { forall|i: int| 0 <= i < g.len() ==> #[trigger] g[i] is Bin || g[i] is Un }
pub open spec fn bins(g: Seq<Ent>) -> int decreases g.len() { if g.len() == 0 { 0 } else { bins(g.drop_last()) + (if g.last() is Bin { 1int } else { 0 }) } }
/// when only operators are on the stack, the output has one operand for each binary one
pub proof fn lemma_cnt_g(g: Seq<Ent>)
  requires gwf(g), allops(g), forall|i: int| 0 <= i < g.len() ==> esmall(#[trigger] g[i]),
  ensures cnt(gpost(g)) == bins(g),
  decreases g.len(),
{
    if g.len() > 0 { lemma_cnt_g(g.drop_last()); lemma_cnt_add(gpost(g.drop_last()), epost(g.last())); match g.last() { Ent::Bin(op, l) => { lemma_cnt_post(l); } _ => {} } }
}
/// one step of taking the top entry into the operand
pub proof fn lemma_fold(g: Seq<Ent>, t: Tree)
  requires g.len() > 0, gwf(g), curwf(g, Some(t)), g.last() is Bin || g.last() is Un,
  ensures ({ let n = fold(g.last(), t); curwf(g.drop_last(), Some(n)) && gwf(g.drop_last()) && gtext(g.drop_last()) + text(n) =~= gtext(g) + text(t) && gpost(g.drop_last()) + post(n) =~= gpost(g) + post(t) + seq![etok(g.last())] }),
{
    let g0 = g.drop_last();
    assert(g0.len() > 0 ==> efits(g0.last(), eledge(g[g.len() - 1])));
}
//@fn src/shunting_yard.rs prec_assoc (r) noconst
  ensures match *token {
     Token::Binary(op) => r.0 == prec(op) && (rassoc(op) ==> r.1 is Right) && (!rassoc(op) ==> r.1 is Left),
     Token::Unary(op) => r.0 == (if op == UnaryOp::Fact { 6u32 } else { 4u32 }) && r.1 is NA,
     _ => r.0 == 0 && r.1 is NA,
  },
//@end
/// every entry's argument counts are bounded by the number of tokens read
pub open spec fn gsmall(g: Seq<Ent>, n: int) -> bool { forall|i: int| 0 <= i < g.len() ==> esmall(#[trigger] g[i]) && (g[i] is Fn ==> nargs(g[i]->Fn_1) <= n) }
pub open spec fn legals(s: Seq<Token>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> legal(#[trigger] s[i], n) }
/// the state between two tokens: what was read is the text, and what was written the postfix order, of the partial trees
#[verifier::opaque]
pub open spec fn state(input: Seq<Token>, n: int, out: Seq<Token>, st: Seq<(usize, Token)>, g: Seq<Ent>, k: nat, cur: Option<Tree>) -> bool {
    &&& gwf(g) && curwf(g, cur) && on_stack(st, g, k) && (k > 0 ==> cur.is_some())
    &&& input.subrange(0, n) =~= gtext(g) + curtext(cur)
    &&& out + facts(k) =~= gpost(g) + curpost(cur)
    &&& gsmall(g, n) && (cur.is_some() ==> small(cur.unwrap())) && legals(out, n)
    &&& out.len() + st.len() <= n
}
pub proof fn lemma_push(g: Seq<Ent>, e: Ent)
  ensures gtext(g.push(e)) == gtext(g) + etext(e), gpost(g.push(e)) == gpost(g) + epost(e),
{ assert(g.push(e).drop_last() =~= g); }
/// a stack without pending factorials: popping one operator
pub proof fn lemma_pop(input: Seq<Token>, n: int, out: Seq<Token>, st: Seq<(usize, Token)>, g: Seq<Ent>, k: nat, cur: Option<Tree>)
  requires state(input, n, out, st, g, k, cur), cur.is_some(), st.len() > 0, st.last().1 is Binary || st.last().1 is Unary,
  ensures k > 0 ==> st.last().1 == Token::Unary(UnaryOp::Fact) && state(input, n, out.push(st.last().1), st.drop_last(), g, (k - 1) as nat, cur),
    k == 0 ==> g.len() > 0 && st.last().1 == etok(g.last()) && (g.last() is Bin || g.last() is Un) && state(input, n, out.push(st.last().1), st.drop_last(), g.drop_last(), 0, Some(fold(g.last(), cur.unwrap()))),
{
    reveal(state);
    if k > 0 {
        assert(out + facts(k) =~= out.push(Token::Unary(UnaryOp::Fact)) + facts((k - 1) as nat));
    } else {
        assert(st.last() == st[g.len() - 1]);
        assert(facts(0) =~= seq![]);
        lemma_fold(g, cur.unwrap());
        assert(out.push(st.last().1) =~= out + seq![st.last().1]);
    }
}
/// the bracket or call under the operand
pub proof fn lemma_close(input: Seq<Token>, n: int, out: Seq<Token>, st: Seq<(usize, Token)>, g: Seq<Ent>, k: nat, cur: Option<Tree>)
  requires state(input, n, out, st, g, k, cur), st.len() > 0, st.last().1 is LParen || st.last().1 is Func,
  ensures k == 0, g.len() > 0, etok(g.last()) == st.last().1, g.last() is LP || g.last() is Fn, out == gpost(g) + curpost(cur), on_stack(st.drop_last(), g.drop_last(), 0), gwf(g.drop_last()),
    gtext(g) == gtext(g.drop_last()) + etext(g.last()), gpost(g) == gpost(g.drop_last()) + epost(g.last()), g.len() > 1 ==> efits(g[g.len() - 2], 7), ewf(g.last()), esmall(g.last()),
    gsmall(g.drop_last(), n), g.last() is Fn ==> nargs(g.last()->Fn_1) <= n,
{
    reveal(state);
    if k > 0 { assert(st[st.len() - 1].1 == Token::Unary(UnaryOp::Fact)); }
    assert(st[g.len() - 1].1 == etok(g[g.len() - 1]));
    assert(facts(0) =~= seq![]);
    assert(out =~= out + facts(0));
    if g.len() > 1 { assert(efits(g[g.len() - 2], eledge(g[g.len() - 1]))); }
    assert(ewf(g[g.len() - 1]) && esmall(g[g.len() - 1]));
}
pub open spec fn tprec(t: Token) -> int { match t { Token::Binary(op) => prec(op), Token::Unary(op) => if op == UnaryOp::Fact { 6 } else { 4 }, _ => 0 } }
/// an operator on the stack binds at least as tightly as this one, so it is applied first
pub open spec fn pops(op: BinaryOp, t: Token) -> bool { if rassoc(op) { prec(op) < tprec(t) } else { prec(op) <= tprec(t) } }
pub open spec fn stk_tok(t: Token, n: int) -> bool { match t { Token::Binary(_) | Token::Unary(_) | Token::LParen | Token::Func(_, None) => true, Token::Func(_, Some(m)) => 1 <= m <= n, _ => false } }
/// what the code needs to know of the state
pub proof fn lemma_bounds(input: Seq<Token>, n: int, out: Seq<Token>, st: Seq<(usize, Token)>, g: Seq<Ent>, k: nat, cur: Option<Tree>)
  requires state(input, n, out, st, g, k, cur),
  ensures legals(out, n), out.len() + st.len() <= n, forall|i: int| 0 <= i < st.len() ==> stk_tok((#[trigger] st[i]).1, n), gwf(g), on_stack(st, g, k), cur.is_none() ==> k == 0, cur.is_none() ==> out == gpost(g),
    forall|i: int| 0 <= i < g.len() ==> esmall(#[trigger] g[i]),
{
    reveal(state);
    assert forall|i: int| 0 <= i < st.len() implies stk_tok((#[trigger] st[i]).1, n) by { if i < g.len() { assert(st[i].1 == etok(g[i])); assert(esmall(g[i])); } }
    if cur.is_none() { assert(out =~= out + facts(k)); assert(gpost(g) + curpost(cur) =~= gpost(g)); }
}
pub proof fn lemma_init(input: Seq<Token>)
  ensures state(input, 0, seq![], seq![], seq![], 0, None),
{ reveal(state); }
pub proof fn lemma_pop_bin(input: Seq<Token>, n: int, out: Seq<Token>, st: Seq<(usize, Token)>, g: Seq<Ent>, k: nat, cur: Option<Tree>, op: BinaryOp)
  requires state(input, n, out, st, g, k, cur), cur.is_some(), st.len() > 0, pops(op, st.last().1), lfits(op, redge(cur.unwrap())),
  ensures k == 0 ==> g.len() > 0 && lfits(op, redge(fold(g.last(), cur.unwrap()))),
{
    reveal(state);
    if k == 0 { assert(st[g.len() - 1].1 == etok(g[g.len() - 1])); }
}
pub proof fn lemma_leaf(input: Seq<Token>, n: int, out: Seq<Token>, st: Seq<(usize, Token)>, g: Seq<Ent>)
  requires 0 <= n < input.len(), state(input, n, out, st, g, 0, None), input[n] is Number || input[n] is Var,
  ensures state(input, n + 1, out.push(input[n]), st, g, 0, Some(Tree::Leaf(input[n]))),
{
    reveal(state);
    assert(input.subrange(0, n + 1) =~= input.subrange(0, n).push(input[n]));
    assert(facts(0) =~= seq![]);
    assert(curpost(None) =~= seq![]);
    assert(curtext(None) =~= seq![]);
    assert(g.len() > 0 ==> efits(g.last(), 7));
}
pub proof fn lemma_open(input: Seq<Token>, n: int, out: Seq<Token>, st: Seq<(usize, Token)>, g: Seq<Ent>, e: Ent, ix: usize)
  requires 0 <= n < input.len(), state(input, n, out, st, g, 0, None), input[n] == etok(e), e is Un || e is LP || (e is Fn && e->Fn_1 is Nil), e is Un ==> e->Un_0 != UnaryOp::Fact,
  ensures state(input, n + 1, out, st.push((ix, input[n])), g.push(e), 0, None),
{
    reveal(state);
    lemma_push(g, e);
    assert(input.subrange(0, n + 1) =~= input.subrange(0, n).push(input[n]));
    assert(curtext(None) =~= seq![]);
    assert(g.len() > 0 ==> efits(g.last(), 7));
    assert(gtext(g.push(e)) + curtext(None) =~= gtext(g) + curtext(None) + etext(e));
    assert(etext(e) =~= seq![input[n]]);
    assert(gpost(g.push(e)) =~= gpost(g));
    let g2 = g.push(e);
    assert forall|i: int| 1 <= i < g2.len() implies efits(g2[i - 1], eledge(#[trigger] g2[i])) by { if i < g.len() { assert(g[i] == g2[i] && g[i-1] == g2[i-1]); } }
}
pub proof fn lemma_postfix(input: Seq<Token>, n: int, out: Seq<Token>, st: Seq<(usize, Token)>, g: Seq<Ent>, k: nat, cur: Option<Tree>, ix: usize)
  requires 0 <= n < input.len(), state(input, n, out, st, g, k, cur), cur.is_some(), !(cur.unwrap() is Un) && !(cur.unwrap() is Bin), input[n] == Token::Unary(UnaryOp::Fact),
  ensures state(input, n + 1, out, st.push((ix, input[n])), g, k + 1, Some(Tree::Post(Box::new(cur.unwrap())))),
{
    reveal(state);
    assert(input.subrange(0, n + 1) =~= input.subrange(0, n).push(input[n]));
    assert(facts(k + 1) =~= facts(k) + seq![input[n]]);
    assert(out + facts(k + 1) =~= (out + facts(k)) + seq![input[n]]);
    assert(g.len() > 0 ==> efits(g.last(), 7));
}
pub proof fn lemma_binary(input: Seq<Token>, n: int, out: Seq<Token>, st: Seq<(usize, Token)>, g: Seq<Ent>, k: nat, cur: Option<Tree>, ix: usize)
  requires 0 <= n < input.len(), state(input, n, out, st, g, k, cur), cur.is_some(), input[n] is Binary, lfits(input[n]->Binary_0, redge(cur.unwrap())), st.len() > 0 ==> !pops(input[n]->Binary_0, st.last().1),
  ensures state(input, n + 1, out, st.push((ix, input[n])), g.push(Ent::Bin(input[n]->Binary_0, cur.unwrap())), 0, None),
{
    reveal(state);
    let op = input[n]->Binary_0;
    let e = Ent::Bin(op, cur.unwrap());
    let g2 = g.push(e);
    if k > 0 { assert(st[st.len() - 1].1 == Token::Unary(UnaryOp::Fact)); }
    lemma_push(g, e);
    assert(input.subrange(0, n + 1) =~= input.subrange(0, n).push(input[n]));
    assert(facts(0) =~= seq![]);
    assert(gtext(g2) + curtext(None) =~= gtext(g) + curtext(cur) + seq![input[n]]);
    assert(gpost(g2) + curpost(None) =~= gpost(g) + curpost(cur));
    if g.len() > 0 { assert(st[g.len() - 1].1 == etok(g[g.len() - 1])); assert(efits(g.last(), eledge(e))); }
    assert forall|i: int| 1 <= i < g2.len() implies efits(g2[i - 1], eledge(#[trigger] g2[i])) by { if i < g.len() { assert(g[i] == g2[i] && g[i-1] == g2[i-1]); } }
}
#[verifier::rlimit(60)] #[verifier::spinoff_prover]
pub proof fn lemma_rparen(input: Seq<Token>, n: int, out: Seq<Token>, st: Seq<(usize, Token)>, g: Seq<Ent>, k: nat, cur: Option<Tree>)
  requires 0 <= n < input.len(), n < usize::MAX, state(input, n, out, st, g, k, cur), cur.is_some(), input[n] is RParen, st.len() > 0, st.last().1 is LParen || st.last().1 is Func,
  ensures g.len() > 0, ({ let c = Some(fold(g.last(), cur.unwrap()));
    &&& st.last().1 is LParen ==> state(input, n + 1, out, st.drop_last(), g.drop_last(), 0, c)
    &&& st.last().1 is Func ==> state(input, n + 1, out.push(Token::Func(st.last().1->Func_0, Some(((match st.last().1->Func_1 { Some(m) => m, None => 0 }) + 1) as usize))), st.drop_last(), g.drop_last(), 0, c) 
    &&& !(c.unwrap() is Un) && !(c.unwrap() is Bin) }),
{
    lemma_close(input, n, out, st, g, k, cur);
    reveal(state);
    let c = Some(fold(g.last(), cur.unwrap()));
    assert(input.subrange(0, n + 1) =~= input.subrange(0, n).push(input[n]));
    assert(facts(0) =~= seq![]);
    let g0 = g.drop_last();
    assert(gtext(g0) + curtext(c) =~= gtext(g) + curtext(cur) + seq![input[n]]);
    assert(g0.len() > 0 ==> g0.last() == g[g.len() - 2]);
    assert(wf(c.unwrap()) && small(c.unwrap()));
    match g.last() {
        Ent::LP => { assert(gpost(g0) + curpost(c) =~= gpost(g) + curpost(cur)); assert(out + facts(0) =~= out); }
        Ent::Fn(f, a) => { let k = Token::Func(f, Some((nargs(a) + 1) as usize)); assert(out.push(k) + facts(0) =~= out + seq![k]); assert(gpost(g0) + curpost(c) =~= gpost(g) + curpost(cur) + seq![k]); }
        _ => {}
    }
}
#[verifier::rlimit(60)] #[verifier::spinoff_prover]
pub proof fn lemma_comma(input: Seq<Token>, n: int, out: Seq<Token>, st: Seq<(usize, Token)>, g: Seq<Ent>, k: nat, cur: Option<Tree>, ix: usize)
  requires 0 <= n < input.len(), n < usize::MAX - 1, state(input, n, out, st, g, k, cur), cur.is_some(), input[n] is Comma, st.len() > 0, st.last().1 is Func,
  ensures g.len() > 0, g.last() is Fn, state(input, n + 1, out, st.drop_last().push((ix, Token::Func(st.last().1->Func_0, Some(((match st.last().1->Func_1 { Some(m) => m, None => 0 }) + 1) as usize)))),
     g.drop_last().push(Ent::Fn(g.last()->Fn_0, Args::Snoc(Box::new(g.last()->Fn_1), Box::new(cur.unwrap())))), 0, None),
{
    lemma_close(input, n, out, st, g, k, cur);
    let g0 = g.drop_last();
    let f = g.last()->Fn_0;
    let a = g.last()->Fn_1;
    let t = cur.unwrap();
    let a2 = Args::Snoc(Box::new(a), Box::new(t));
    let e2 = Ent::Fn(f, a2);
    let g2 = g0.push(e2);
    let nm: nat = nargs(a);
    let tok = Token::Func(f, Some((nm + 1) as usize));
    let st2 = st.drop_last().push((ix, tok));
    assert(nargs(a2) == nm + 1);
    assert(etok(e2) == tok);
    assert(tok == Token::Func(st.last().1->Func_0, Some(((match st.last().1->Func_1 { Some(m) => m, None => 0 }) + 1) as usize)));
    lemma_push(g0, e2);
    assert(gtext(g2) + curtext(None) =~= gtext(g) + curtext(cur) + seq![input[n]]) by {
        assert(texts(a2) == texts(a) + text(t) + seq![Token::Comma]);
    }
    assert(gpost(g2) + curpost(None) =~= gpost(g) + curpost(cur)) by { assert(posts(a2) == posts(a) + post(t)); }
    assert(wf(t) && small(t) && gwf(g) && out.len() + st.len() <= n && legals(out, n) && input.subrange(0, n) =~= gtext(g) + curtext(cur)) by { reveal(state); }
    assert(gwf(g2)) by {
        assert forall|i: int| 0 <= i < g2.len() implies ewf(#[trigger] g2[i]) by { if i < g0.len() { assert(g[i] == g2[i]); } }
        assert forall|i: int| 1 <= i < g2.len() implies efits(g2[i - 1], eledge(#[trigger] g2[i])) by { assert(g[i-1] == g2[i-1]); assert(efits(g[i-1], eledge(g[i]))); if i < g0.len() { assert(g[i] == g2[i]); } }
    }
    assert(gsmall(g2, n + 1)) by {
        assert forall|i: int| 0 <= i < g2.len() implies esmall(#[trigger] g2[i]) && (g2[i] is Fn ==> nargs(g2[i]->Fn_1) <= n + 1) by { if i < g0.len() { assert(g0[i] == g2[i]); } }
    }
    assert(on_stack(st2, g2, 0)) by {
        assert forall|i: int| 0 <= i < g2.len() implies (#[trigger] st2[i]).1 == etok(g2[i]) by { if i < g0.len() { assert(st.drop_last()[i].1 == etok(g0[i])); } }
    }
    assert(input.subrange(0, n + 1) =~= input.subrange(0, n).push(input[n]));
    assert(out + facts(0) =~= gpost(g2) + curpost(None));
    assert(legals(out, n + 1));
    assert(state(input, n + 1, out, st2, g2, 0, None)) by { reveal(state); }
}
pub proof fn lemma_done(input: Seq<Token>, out: Seq<Token>, st: Seq<(usize, Token)>, g: Seq<Ent>, k: nat, cur: Option<Tree>)
  requires state(input, input.len() as int, out, st, g, k, cur), cur.is_some(), st.len() == 0,
  ensures wf(cur.unwrap()), small(cur.unwrap()), text(cur.unwrap()) == input, post(cur.unwrap()) == out,
{
    reveal(state);
    assert(gtext(g) =~= seq![]); assert(gpost(g) =~= seq![]); assert(facts(0) =~= seq![]); assert(input =~= input.subrange(0, input.len() as int));
    assert(text(cur.unwrap()) =~= input); assert(post(cur.unwrap()) =~= out);
}
#[verifier::external_body]
pub fn verif_or0(o: Option<usize>) -> (r: usize) ensures r == (match o { Some(n) => n, None => 0 }) { o.unwrap_or(0) }
#[verifier::loop_isolation(false)] #[verifier::rlimit(100)]
//@fn src/shunting_yard.rs to_rpn (res)
  requires input@.len() <= isize::MAX, forall|i: int| 0 <= i < input@.len() && (#[trigger] input@[i]) is Func ==> input@[i]->Func_1.is_none(),
  ensures res.is_ok() ==> exists|t: Tree| wf(t) && #[trigger] text(t) == input@ && post(t) == res.unwrap()@ && small(t),
//@sub /token\.clone\(\)/ => verif_clone(token)
//@sub /output\.shrink_to_fit\(\);/ =>
//@sub /Vec::with_capacity\(input\.len\(\)\);/ => Vec::new();
//@sub /nargs\.unwrap_or\(0\)/ => verif_or0(nargs)
//@start
  let ghost mut g: Seq<Ent> = seq![];
  let ghost mut k: nat = 0;
  let ghost mut cur: Option<Tree> = None;
  let ghost mut st0: Seq<(usize, Token)> = seq![];
  let ghost mut out0: Seq<Token> = seq![];
//@loop 0 d
  invariant vi0 <= input@.len(), 
    have_operand == cur.is_some(), cur.is_some() ==> !(cur.unwrap() is Un) && !(cur.unwrap() is Bin),
    state(input@, vi0 as int, output@, stack@, g, k, cur),
  decreases input@.len() - vi0,
//@loopend 0
  proof {
    let n = vi0 - 1;
    let tk = input@[n];
    match tk {
      Token::Number(_) | Token::Var(_) => { lemma_leaf(input@, n, out0, st0, g); cur = Some(Tree::Leaf(tk)); }
      Token::Unary(op) => {
        if op == UnaryOp::Fact { lemma_postfix(input@, n, out0, st0, g, k, cur, index); cur = Some(Tree::Post(Box::new(cur.unwrap()))); k = k + 1; }
        else { lemma_open(input@, n, out0, st0, g, Ent::Un(op), index); g = g.push(Ent::Un(op)); }
      }
      Token::LParen => { lemma_open(input@, n, out0, st0, g, Ent::LP, index); g = g.push(Ent::LP); }
      Token::Func(f, _) => { lemma_open(input@, n, out0, st0, g, Ent::Fn(f, Args::Nil), index); g = g.push(Ent::Fn(f, Args::Nil)); }
      Token::Binary(op) => { lemma_binary(input@, n, out0, st0, g, k, cur, index); g = g.push(Ent::Bin(op, cur.unwrap())); cur = None; k = 0; }
      Token::RParen => {
        lemma_rparen(input@, n, out0, st0, g, k, cur);
        let t = cur.unwrap(); cur = Some(fold(g.last(), t)); g = g.drop_last(); k = 0;
      }
      Token::Comma => {
        lemma_comma(input@, n, out0, st0, g, k, cur, stack@.last().0);
        assert(stack@ =~= st0.drop_last().push(stack@.last()));
        let t = cur.unwrap(); let e = g.last();
        let e2 = Ent::Fn(e->Fn_0, Args::Snoc(Box::new(e->Fn_1), Box::new(t)));
        g = g.drop_last().push(e2); cur = None; k = 0;
      }
    }
    assert(state(input@, n + 1, output@, stack@, g, k, cur));
  }
//@loopstart 0
  proof { st0 = stack@; out0 = output@; lemma_bounds(input@, vi0 as int, output@, stack@, g, k, cur); }
//@beforeloop 0
  proof { lemma_init(input@); assert(output@ =~= seq![]); assert(stack@ =~= seq![]); }
//@loop 1 w
  invariant state(input@, vi0 - 1, output@, stack@, g, k, cur), cur.is_some(), lfits(input@[vi0 - 1]->Binary_0, redge(cur.unwrap())),
  decreases stack@.len(),
//@loopstart 1
  proof { st0 = stack@; out0 = output@; lemma_bounds(input@, vi0 - 1, output@, stack@, g, k, cur); }
//@loopend 1
  proof {
    lemma_pop_bin(input@, vi0 - 1, out0, st0, g, k, cur, input@[vi0 - 1]->Binary_0);
    lemma_pop(input@, vi0 - 1, out0, st0, g, k, cur);
    if k > 0 { k = (k - 1) as nat; } else { cur = Some(fold(g.last(), cur.unwrap())); g = g.drop_last(); }
  }
//@afterloop 1
  proof { st0 = stack@; out0 = output@; }
//@loop 2 l
  invariant !found, state(input@, vi0 - 1, output@, stack@, g, k, cur), cur.is_some(),
  decreases stack@.len(),
//@loopstart 2
  proof { st0 = stack@; out0 = output@; lemma_bounds(input@, vi0 - 1, output@, stack@, g, k, cur); }
//@loopend 2
  proof {
    lemma_pop(input@, vi0 - 1, out0, st0, g, k, cur);
    if k > 0 { k = (k - 1) as nat; } else { cur = Some(fold(g.last(), cur.unwrap())); g = g.drop_last(); }
  }
//@loop 3 l
  invariant !found, state(input@, vi0 - 1, output@, stack@, g, k, cur), cur.is_some(),
  decreases stack@.len(),
//@loopstart 3
  proof { st0 = stack@; out0 = output@; lemma_bounds(input@, vi0 - 1, output@, stack@, g, k, cur); }
//@loopend 3
  proof {
    lemma_pop(input@, vi0 - 1, out0, st0, g, k, cur);
    if k > 0 { k = (k - 1) as nat; } else { cur = Some(fold(g.last(), cur.unwrap())); g = g.drop_last(); }
  }
//@beforeloop 4
  let ghost n = input@.len() as int;
  proof { lemma_bounds(input@, n, output@, stack@, g, k, cur); if !have_operand && allops(g) { lemma_cnt_g(g); assert(facts(0) =~= seq![]); assert(output@ =~= gpost(g)); } }
//@loop 4 l
  invariant have_operand == cur.is_some(), have_operand ==> state(input@, n, output@, stack@, g, k, cur),
    forall|i: int| 0 <= i < stack@.len() ==> stk_tok((#[trigger] stack@[i]).1, n), legals(output@, n), output@.len() + stack@.len() <= n, on_stack(stack@, g, k), gwf(g), !have_operand ==> k == 0 && (allops(g) ==> cnt(output@) == bins(g)),
  decreases stack@.len(),
//@loopstart 4
  proof { st0 = stack@; out0 = output@; assert(stack@.len() > 0 ==> stk_tok(stack@[stack@.len() - 1].1, n)); }
//@loopend 4
  proof { if have_operand {
    lemma_pop(input@, n, out0, st0, g, k, cur);
    if k > 0 { k = (k - 1) as nat; } else { cur = Some(fold(g.last(), cur.unwrap())); g = g.drop_last(); }
  } else {
    let g1 = g.drop_last();
    assert(st0[g.len() - 1].1 == etok(g[g.len() - 1]));
    if allops(g1) { assert forall|i: int| 0 <= i < g.len() implies #[trigger] g[i] is Bin || g[i] is Un by { if i < g.len() - 1 { assert(g1[i] == g[i]); } } assert(output@.drop_last() =~= out0); }
    g = g1;
  } }
//@afterloop 4
  proof { if have_operand { lemma_done(input@, output@, stack@, g, k, cur); } else { assert(allops(g)); } }
//@afterloop 5
  proof { assert(output@.subrange(0, output@.len() as int) =~= output@); }
//@loop 5 d
  invariant vi5 <= output@.len(), n_operands == cnt(output@.subrange(0, vi5 as int)), 0 <= n_operands <= vi5,
  decreases output@.len() - vi5,
//@loopend 5
  proof { assert(output@.subrange(0, vi5 as int).drop_last() =~= output@.subrange(0, vi5 - 1)); }
//@end

// ---- evaluation ----
pub uninterp spec fn fneg(x: f64) -> f64;
pub uninterp spec fn ffact(x: f64) -> f64;
/// the twelve binary operations on doubles
/// the functions, by name
pub uninterp spec fn fsem(name: Seq<char>, args: Seq<f64>) -> f64;
/// the named constants
pub uninterp spec fn cval(name: Seq<char>) -> Option<f64>;
pub open spec fn usem(op: UnaryOp, x: f64) -> f64 { match op { UnaryOp::Plus => x, UnaryOp::Minus => fneg(x), UnaryOp::Fact => ffact(x) } }
pub type Env = spec_fn(Seq<char>) -> f64;
pub open spec fn varval(s: Seq<char>, env: Env) -> f64 { match cval(s) { Some(c) => c, None => env(s) } }
/// the value of a tree
pub open spec fn teval(t: Tree, env: Env) -> f64 decreases t {
    match t {
        Tree::Leaf(k) => match k { Token::Number(x) => x, Token::Var(s) => varval(s@, env), _ => arbitrary() },
        Tree::Un(op, a) => usem(op, teval(*a, env)),
        Tree::Post(a) => usem(UnaryOp::Fact, teval(*a, env)),
        Tree::Bin(op, l, r) => bsem(op, teval(*l, env), teval(*r, env)),
        Tree::Paren(a) => teval(*a, env),
        Tree::Call(f, a, b) => fsem(f@, tevals(*a, env).push(teval(*b, env))),
    }
}
pub open spec fn tevals(a: Args, env: Env) -> Seq<f64> decreases a { match a { Args::Nil => seq![], Args::Snoc(b, t) => tevals(*b, env).push(teval(*t, env)) } }
pub open spec fn top(s: Seq<f64>, n: int) -> Seq<f64> { s.subrange(s.len() - n, s.len() as int) }
pub open spec fn below(s: Seq<f64>, n: int) -> Seq<f64> { s.subrange(0, s.len() - n) }
/// a stack machine for postfix tokens
pub open spec fn tstep(k: Token, st: Option<Seq<f64>>, env: Env) -> Option<Seq<f64>> {
    match st { None => None, Some(s) => match k {
        Token::Number(x) => Some(s.push(x)),
        Token::Var(v) => Some(s.push(varval(v@, env))),
        Token::Unary(op) => if s.len() < 1 { None } else { Some(below(s, 1).push(usem(op, s.last()))) },
        Token::Binary(op) => if s.len() < 2 { None } else { Some(below(s, 2).push(bsem(op, s[s.len() - 2], s.last()))) },
        Token::Func(f, Some(n)) => if n < 1 || s.len() < n { None } else { Some(below(s, n as int).push(fsem(f@, top(s, n as int)))) },
        _ => None,
    } }
}
pub open spec fn trun(p: Seq<Token>, s0: Option<Seq<f64>>, env: Env) -> Option<Seq<f64>> decreases p.len() { if p.len() == 0 { s0 } else { tstep(p.last(), trun(p.drop_last(), s0, env), env) } }
pub proof fn lemma_trun_add(a: Seq<Token>, b: Seq<Token>, s0: Option<Seq<f64>>, env: Env)
  ensures trun(a + b, s0, env) == trun(b, trun(a, s0, env), env),
  decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else { lemma_trun_add(a, b.drop_last(), s0, env); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
pub proof fn lemma_trun_one(a: Seq<Token>, k: Token, s0: Option<Seq<f64>>, env: Env)
  ensures trun(a + seq![k], s0, env) == tstep(k, trun(a, s0, env), env),
{ assert((a + seq![k]).drop_last() =~= a); }
/// running the postfix order of a tree leaves its value
pub proof fn lemma_run_post(t: Tree, s: Seq<f64>, env: Env)
  requires wf(t), small(t),
  ensures trun(post(t), Some(s), env) == Some(s.push(teval(t, env))),
  decreases t,
{
    match t {
        Tree::Leaf(k) => { assert(seq![k] =~= seq![] + seq![k]); lemma_trun_one(seq![], k, Some(s), env); }
        Tree::Un(op, a) => { lemma_run_post(*a, s, env); lemma_trun_one(post(*a), Token::Unary(op), Some(s), env); let v = teval(*a, env); assert(below(s.push(v), 1) =~= s); }
        Tree::Post(a) => { lemma_run_post(*a, s, env); lemma_trun_one(post(*a), Token::Unary(UnaryOp::Fact), Some(s), env); let v = teval(*a, env); assert(below(s.push(v), 1) =~= s); }
        Tree::Bin(op, l, r) => { let x = teval(*l, env); let y = teval(*r, env); lemma_run_post(*l, s, env); lemma_run_post(*r, s.push(x), env); lemma_trun_add(post(*l), post(*r), Some(s), env); lemma_trun_one(post(*l) + post(*r), Token::Binary(op), Some(s), env); assert(below(s.push(x).push(y), 2) =~= s); }
        Tree::Paren(a) => { lemma_run_post(*a, s, env); }
        Tree::Call(f, a, b) => {
            let xs = tevals(*a, env); let y = teval(*b, env); let n = nargs(*a) + 1; let k = Token::Func(f, Some(n as usize));
            lemma_run_posts(*a, s, env); lemma_run_post(*b, s + xs, env); lemma_trun_add(posts(*a), post(*b), Some(s), env); lemma_trun_one(posts(*a) + post(*b), k, Some(s), env);
            assert(below((s + xs).push(y), n as int) =~= s); assert(top((s + xs).push(y), n as int) =~= xs.push(y));
        }
    }
}
pub proof fn lemma_run_posts(a: Args, s: Seq<f64>, env: Env)
  requires wfs(a), smalls(a),
  ensures trun(posts(a), Some(s), env) == Some(s + tevals(a, env)), tevals(a, env).len() == nargs(a),
  decreases a,
{
    match a {
        Args::Nil => { assert(s + tevals(a, env) =~= s); }
        Args::Snoc(b, t) => { lemma_run_posts(*b, s, env); lemma_run_post(*t, s + tevals(*b, env), env); lemma_trun_add(posts(*b), post(*t), Some(s), env); assert((s + tevals(*b, env)).push(teval(*t, env)) =~= s + tevals(a, env)); }
    }
}
/// every prefix of a run that does not fail does not fail
pub proof fn lemma_prefix(p: Seq<Token>, i: int, s0: Option<Seq<f64>>, env: Env)
  requires 0 <= i <= p.len(), trun(p, s0, env).is_some(),
  ensures trun(p.subrange(0, i), s0, env).is_some(),
  decreases p.len(),
{
    if i == p.len() { assert(p.subrange(0, i) =~= p); } else { lemma_prefix(p.drop_last(), i, s0, env); assert(p.drop_last().subrange(0, i) =~= p.subrange(0, i)); }
}
#[derive(Copy, Clone)]
//@item src/expr.rs enum FuncOp
#[derive(Copy, Clone)]
//@item src/expr.rs enum Node
//@item src/expr.rs struct VarMap
//@item src/expr.rs struct Expr
/// the same machine for compiled nodes
pub open spec fn nstep(k: Node, st: Option<Seq<f64>>, vars: Seq<VarMap>, env: Env) -> Option<Seq<f64>> {
    match st { None => None, Some(s) => match k {
        Node::Value(x) => Some(s.push(x)),
        Node::Var(i) => if i < vars.len() { Some(s.push(env(vars[i as int].name@))) } else { None },
        Node::Unary(op) => if s.len() < 1 { None } else { Some(below(s, 1).push(usem(op, s.last()))) },
        Node::Binary(op) => if s.len() < 2 { None } else { Some(below(s, 2).push(bsem(op, s[s.len() - 2], s.last()))) },
        Node::Func(f, n) => if n < 1 || s.len() < n || !arity(f, n as int) { None } else { Some(below(s, n as int).push(fop(f, top(s, n as int)))) },
    } }
}
pub open spec fn nrun(p: Seq<Node>, vars: Seq<VarMap>, env: Env) -> Option<Seq<f64>> decreases p.len() { if p.len() == 0 { Some(seq![]) } else { nstep(p.last(), nrun(p.drop_last(), vars, env), vars, env) } }
pub open spec fn grows(a: Seq<VarMap>, b: Seq<VarMap>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i].name@ == a[i].name@ }
pub proof fn lemma_grow(p: Seq<Node>, a: Seq<VarMap>, b: Seq<VarMap>, env: Env)
  requires grows(a, b), nrun(p, a, env).is_some(),
  ensures nrun(p, b, env) == nrun(p, a, env),
  decreases p.len(),
{ if p.len() > 0 { lemma_grow(p.drop_last(), a, b, env); } }
pub proof fn lemma_height(p: Seq<Node>, vars: Seq<VarMap>, env: Env)
  requires nrun(p, vars, env).is_some(),
  ensures nrun(p, vars, env).unwrap().len() <= p.len(),
  decreases p.len(),
{ if p.len() > 0 { lemma_height(p.drop_last(), vars, env); } }
/// the compiled nodes stand for this tree
pub open spec fn means(e: Expr, t: Tree) -> bool { wf(t) && forall|env: Env| #[trigger] nrun(e.expr@, e.vars@, env) == Some(seq![teval(t, env)]) }
/// the values of the variables
pub open spec fn venv(vars: Seq<VarMap>, env: Env) -> bool { forall|i: int| 0 <= i < vars.len() ==> (#[trigger] vars[i]).val == env(vars[i].name@) }
/// the run with the values the variables hold
pub open spec fn vstep(k: Node, st: Option<Seq<f64>>, vars: Seq<VarMap>) -> Option<Seq<f64>> {
    match k { Node::Var(i) => if st.is_some() && i < vars.len() { Some(st.unwrap().push(vars[i as int].val)) } else { None }, _ => nstep(k, st, vars, |s: Seq<char>| arbitrary()) }
}
pub open spec fn vrun(p: Seq<Node>, vars: Seq<VarMap>) -> Option<Seq<f64>> decreases p.len() { if p.len() == 0 { Some(seq![]) } else { vstep(p.last(), vrun(p.drop_last(), vars), vars) } }
pub proof fn lemma_vrun(p: Seq<Node>, vars: Seq<VarMap>, env: Env)
  ensures nrun(p, vars, env).is_some() == vrun(p, vars).is_some(), nrun(p, vars, env).is_some() ==> nrun(p, vars, env).unwrap().len() == vrun(p, vars).unwrap().len(), venv(vars, env) ==> nrun(p, vars, env) == vrun(p, vars),
  decreases p.len(),
{ if p.len() > 0 { lemma_vrun(p.drop_last(), vars, env); } }
pub proof fn lemma_vprefix(p: Seq<Node>, i: int, vars: Seq<VarMap>)
  requires 0 <= i <= p.len(), vrun(p, vars).is_some(),
  ensures vrun(p.subrange(0, i), vars).is_some(),
  decreases p.len(),
{
    if i == p.len() { assert(p.subrange(0, i) =~= p); } else { lemma_vprefix(p.drop_last(), i, vars); assert(p.drop_last().subrange(0, i) =~= p.subrange(0, i)); }
}
#[verifier::external_body]
pub fn verif_neg(x: f64) -> (r: f64) ensures r == fneg(x) { -x }
#[verifier::external_body]
pub fn factorial(x: f64) -> (r: f64) ensures r == ffact(x) { unimplemented!() }
//@include fops.vrs
pub uninterp spec fn sm_acos(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_acos(x0: f64) -> (r: f64) ensures r == sm_acos(x0) { unimplemented!() }
pub uninterp spec fn sm_acosh(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_acosh(x0: f64) -> (r: f64) ensures r == sm_acosh(x0) { unimplemented!() }
pub uninterp spec fn sm_asinh(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_asinh(x0: f64) -> (r: f64) ensures r == sm_asinh(x0) { unimplemented!() }
pub uninterp spec fn sm_asin(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_asin(x0: f64) -> (r: f64) ensures r == sm_asin(x0) { unimplemented!() }
pub uninterp spec fn sm_atan(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_atan(x0: f64) -> (r: f64) ensures r == sm_atan(x0) { unimplemented!() }
pub uninterp spec fn sm_atan2(x0: f64, x1: f64) -> f64;
#[verifier::external_body]
pub fn m_atan2(x0: f64, x1: f64) -> (r: f64) ensures r == sm_atan2(x0, x1) { unimplemented!() }
pub uninterp spec fn sm_atanh(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_atanh(x0: f64) -> (r: f64) ensures r == sm_atanh(x0) { unimplemented!() }
pub uninterp spec fn sm_cbrt(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_cbrt(x0: f64) -> (r: f64) ensures r == sm_cbrt(x0) { unimplemented!() }
pub uninterp spec fn sm_ceil(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_ceil(x0: f64) -> (r: f64) ensures r == sm_ceil(x0) { unimplemented!() }
pub uninterp spec fn sm_copysign(x0: f64, x1: f64) -> f64;
#[verifier::external_body]
pub fn m_copysign(x0: f64, x1: f64) -> (r: f64) ensures r == sm_copysign(x0, x1) { unimplemented!() }
pub uninterp spec fn sm_cos(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_cos(x0: f64) -> (r: f64) ensures r == sm_cos(x0) { unimplemented!() }
pub uninterp spec fn sm_cosh(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_cosh(x0: f64) -> (r: f64) ensures r == sm_cosh(x0) { unimplemented!() }
pub uninterp spec fn slm_erf(x0: f64) -> f64;
#[verifier::external_body]
pub fn lm_erf(x0: f64) -> (r: f64) ensures r == slm_erf(x0) { unimplemented!() }
pub uninterp spec fn sm_exp(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_exp(x0: f64) -> (r: f64) ensures r == sm_exp(x0) { unimplemented!() }
pub uninterp spec fn sm_exp2(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_exp2(x0: f64) -> (r: f64) ensures r == sm_exp2(x0) { unimplemented!() }
pub uninterp spec fn slm_exp10(x0: f64) -> f64;
#[verifier::external_body]
pub fn lm_exp10(x0: f64) -> (r: f64) ensures r == slm_exp10(x0) { unimplemented!() }
pub uninterp spec fn sm_exp_m1(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_exp_m1(x0: f64) -> (r: f64) ensures r == sm_exp_m1(x0) { unimplemented!() }
pub uninterp spec fn sm_abs(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_abs(x0: f64) -> (r: f64) ensures r == sm_abs(x0) { unimplemented!() }
pub uninterp spec fn slm_fdim(x0: f64, x1: f64) -> f64;
#[verifier::external_body]
pub fn lm_fdim(x0: f64, x1: f64) -> (r: f64) ensures r == slm_fdim(x0, x1) { unimplemented!() }
pub uninterp spec fn sm_floor(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_floor(x0: f64) -> (r: f64) ensures r == sm_floor(x0) { unimplemented!() }
pub uninterp spec fn sm_mul_add(x0: f64, x1: f64, x2: f64) -> f64;
#[verifier::external_body]
pub fn m_mul_add(x0: f64, x1: f64, x2: f64) -> (r: f64) ensures r == sm_mul_add(x0, x1, x2) { unimplemented!() }
pub uninterp spec fn sm_max(x0: f64, x1: f64) -> f64;
#[verifier::external_body]
pub fn m_max(x0: f64, x1: f64) -> (r: f64) ensures r == sm_max(x0, x1) { unimplemented!() }
pub uninterp spec fn sm_min(x0: f64, x1: f64) -> f64;
#[verifier::external_body]
pub fn m_min(x0: f64, x1: f64) -> (r: f64) ensures r == sm_min(x0, x1) { unimplemented!() }
pub uninterp spec fn slm_fmod(x0: f64, x1: f64) -> f64;
#[verifier::external_body]
pub fn lm_fmod(x0: f64, x1: f64) -> (r: f64) ensures r == slm_fmod(x0, x1) { unimplemented!() }
pub uninterp spec fn sm_hypot(x0: f64, x1: f64) -> f64;
#[verifier::external_body]
pub fn m_hypot(x0: f64, x1: f64) -> (r: f64) ensures r == sm_hypot(x0, x1) { unimplemented!() }
pub uninterp spec fn slm_j0(x0: f64) -> f64;
#[verifier::external_body]
pub fn lm_j0(x0: f64) -> (r: f64) ensures r == slm_j0(x0) { unimplemented!() }
pub uninterp spec fn slm_j1(x0: f64) -> f64;
#[verifier::external_body]
pub fn lm_j1(x0: f64) -> (r: f64) ensures r == slm_j1(x0) { unimplemented!() }
pub uninterp spec fn slm_jn(x0: i32, x1: f64) -> f64;
#[verifier::external_body]
pub fn lm_jn(x0: i32, x1: f64) -> (r: f64) ensures r == slm_jn(x0, x1) { unimplemented!() }
pub uninterp spec fn slm_ldexp(x0: f64, x1: i32) -> f64;
#[verifier::external_body]
pub fn lm_ldexp(x0: f64, x1: i32) -> (r: f64) ensures r == slm_ldexp(x0, x1) { unimplemented!() }
pub uninterp spec fn slm_lgamma(x0: f64) -> f64;
#[verifier::external_body]
pub fn lm_lgamma(x0: f64) -> (r: f64) ensures r == slm_lgamma(x0) { unimplemented!() }
pub uninterp spec fn sm_ln(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_ln(x0: f64) -> (r: f64) ensures r == sm_ln(x0) { unimplemented!() }
pub uninterp spec fn sm_ln_1p(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_ln_1p(x0: f64) -> (r: f64) ensures r == sm_ln_1p(x0) { unimplemented!() }
pub uninterp spec fn sm_log2(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_log2(x0: f64) -> (r: f64) ensures r == sm_log2(x0) { unimplemented!() }
pub uninterp spec fn sm_log10(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_log10(x0: f64) -> (r: f64) ensures r == sm_log10(x0) { unimplemented!() }
pub uninterp spec fn slm_nextafter(x0: f64, x1: f64) -> f64;
#[verifier::external_body]
pub fn lm_nextafter(x0: f64, x1: f64) -> (r: f64) ensures r == slm_nextafter(x0, x1) { unimplemented!() }
pub uninterp spec fn sm_powf(x0: f64, x1: f64) -> f64;
#[verifier::external_body]
pub fn m_powf(x0: f64, x1: f64) -> (r: f64) ensures r == sm_powf(x0, x1) { unimplemented!() }
pub uninterp spec fn slm_remainder(x0: f64, x1: f64) -> f64;
#[verifier::external_body]
pub fn lm_remainder(x0: f64, x1: f64) -> (r: f64) ensures r == slm_remainder(x0, x1) { unimplemented!() }
pub uninterp spec fn sm_round(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_round(x0: f64) -> (r: f64) ensures r == sm_round(x0) { unimplemented!() }
pub uninterp spec fn slm_scalbn(x0: f64, x1: i32) -> f64;
#[verifier::external_body]
pub fn lm_scalbn(x0: f64, x1: i32) -> (r: f64) ensures r == slm_scalbn(x0, x1) { unimplemented!() }
pub uninterp spec fn sm_sin(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_sin(x0: f64) -> (r: f64) ensures r == sm_sin(x0) { unimplemented!() }
pub uninterp spec fn sm_sinh(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_sinh(x0: f64) -> (r: f64) ensures r == sm_sinh(x0) { unimplemented!() }
pub uninterp spec fn sm_sqrt(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_sqrt(x0: f64) -> (r: f64) ensures r == sm_sqrt(x0) { unimplemented!() }
pub uninterp spec fn sm_tan(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_tan(x0: f64) -> (r: f64) ensures r == sm_tan(x0) { unimplemented!() }
pub uninterp spec fn sm_tanh(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_tanh(x0: f64) -> (r: f64) ensures r == sm_tanh(x0) { unimplemented!() }
pub uninterp spec fn slm_tgamma(x0: f64) -> f64;
#[verifier::external_body]
pub fn lm_tgamma(x0: f64) -> (r: f64) ensures r == slm_tgamma(x0) { unimplemented!() }
pub uninterp spec fn sm_trunc(x0: f64) -> f64;
#[verifier::external_body]
pub fn m_trunc(x0: f64) -> (r: f64) ensures r == sm_trunc(x0) { unimplemented!() }
pub uninterp spec fn slm_y0(x0: f64) -> f64;
#[verifier::external_body]
pub fn lm_y0(x0: f64) -> (r: f64) ensures r == slm_y0(x0) { unimplemented!() }
pub uninterp spec fn slm_y1(x0: f64) -> f64;
#[verifier::external_body]
pub fn lm_y1(x0: f64) -> (r: f64) ensures r == slm_y1(x0) { unimplemented!() }
pub uninterp spec fn slm_yn(x0: i32, x1: f64) -> f64;
#[verifier::external_body]
pub fn lm_yn(x0: i32, x1: f64) -> (r: f64) ensures r == slm_yn(x0, x1) { unimplemented!() }
pub uninterp spec fn fint(x: f64) -> i32;
#[verifier::external_body]
pub fn verif_i32(x: f64) -> (r: i32) ensures r == fint(x) { x as i32 }
pub uninterp spec fn fcount(n: nat) -> f64;
#[verifier::external_body]
pub fn verif_count(x: usize) -> (r: f64) ensures r == fcount(x as nat) { x as f64 }
/// the largest (smallest) argument, the sum of the arguments in order
pub open spec fn fmaxs(a: Seq<f64>) -> f64 decreases a.len() { if a.len() <= 1 { a[0] } else { let v = fmaxs(a.drop_last()); if flt(v, a.last()) { a.last() } else { v } } }
pub open spec fn fmins(a: Seq<f64>) -> f64 decreases a.len() { if a.len() <= 1 { a[0] } else { let v = fmins(a.drop_last()); if flt(a.last(), v) { a.last() } else { v } } }
pub open spec fn fsums(a: Seq<f64>) -> f64 decreases a.len() { if a.len() == 0 { 0.0f64 } else { fadd(fsums(a.drop_last()), a.last()) } }
/// among numbers, the fold is the extreme one
pub proof fn lemma_maxs(a: Seq<f64>) requires a.len() >= 1, forall|i: int| 0 <= i < a.len() ==> !fnan(#[trigger] a[i])
  ensures a.contains(fmaxs(a)), forall|i: int| 0 <= i < a.len() ==> fkey(#[trigger] a[i]) <= fkey(fmaxs(a)) decreases a.len()
{ if a.len() > 1 { lemma_maxs(a.drop_last()); assert forall|i: int| 0 <= i < a.len() - 1 implies #[trigger] a[i] == a.drop_last()[i] by {} let v = fmaxs(a.drop_last()); let j = choose|j: int| 0 <= j < a.len() - 1 && a.drop_last()[j] == v; assert(a[j] == v); assert(a[a.len() - 1] == a.last()); } else { assert(a[0] == fmaxs(a)); } }
pub proof fn lemma_mins(a: Seq<f64>) requires a.len() >= 1, forall|i: int| 0 <= i < a.len() ==> !fnan(#[trigger] a[i])
  ensures a.contains(fmins(a)), forall|i: int| 0 <= i < a.len() ==> fkey(#[trigger] a[i]) >= fkey(fmins(a)) decreases a.len()
{ if a.len() > 1 { lemma_mins(a.drop_last()); assert forall|i: int| 0 <= i < a.len() - 1 implies #[trigger] a[i] == a.drop_last()[i] by {} let v = fmins(a.drop_last()); let j = choose|j: int| 0 <= j < a.len() - 1 && a.drop_last()[j] == v; assert(a[j] == v); assert(a[a.len() - 1] == a.last()); } else { assert(a[0] == fmins(a)); } }
pub open spec fn fop(f: FuncOp, a: Seq<f64>) -> f64 { match f {
    FuncOp::Acos => sm_acos(a[0]),
    FuncOp::Acosh => sm_acosh(a[0]),
    FuncOp::Asinh => sm_asinh(a[0]),
    FuncOp::Asin => sm_asin(a[0]),
    FuncOp::Atan => sm_atan(a[0]),
    FuncOp::Atan2 => sm_atan2(a[0], a[1]),
    FuncOp::Atanh => sm_atanh(a[0]),
    FuncOp::Cbrt => sm_cbrt(a[0]),
    FuncOp::Ceil => sm_ceil(a[0]),
    FuncOp::Copysign => sm_copysign(a[0], a[1]),
    FuncOp::Cos => sm_cos(a[0]),
    FuncOp::Cosh => sm_cosh(a[0]),
    FuncOp::Erf => slm_erf(a[0]),
    FuncOp::Exp => sm_exp(a[0]),
    FuncOp::Exp2 => sm_exp2(a[0]),
    FuncOp::Exp10 => slm_exp10(a[0]),
    FuncOp::Expm1 => sm_exp_m1(a[0]),
    FuncOp::Fabs => sm_abs(a[0]),
    FuncOp::Fdim => slm_fdim(a[0], a[1]),
    FuncOp::Floor => sm_floor(a[0]),
    FuncOp::Fma => sm_mul_add(a[0], a[1], a[2]),
    FuncOp::Fmax => sm_max(a[0], a[1]),
    FuncOp::Fmin => sm_min(a[0], a[1]),
    FuncOp::Fmod => slm_fmod(a[0], a[1]),
    FuncOp::Hypot => sm_hypot(a[0], a[1]),
    FuncOp::J0 => slm_j0(a[0]),
    FuncOp::J1 => slm_j1(a[0]),
    FuncOp::Jn => slm_jn(fint(a[0]), a[1]),
    FuncOp::Ldexp => slm_ldexp(a[0], fint(a[1])),
    FuncOp::Lgamma => slm_lgamma(a[0]),
    FuncOp::Log => sm_ln(a[0]),
    FuncOp::Log1p => sm_ln_1p(a[0]),
    FuncOp::Log2 => sm_log2(a[0]),
    FuncOp::Log10 => sm_log10(a[0]),
    FuncOp::Nextafter => slm_nextafter(a[0], a[1]),
    FuncOp::Pow => sm_powf(a[0], a[1]),
    FuncOp::Remainder => slm_remainder(a[0], a[1]),
    FuncOp::Round => sm_round(a[0]),
    FuncOp::Scalbn => slm_scalbn(a[0], fint(a[1])),
    FuncOp::Sin => sm_sin(a[0]),
    FuncOp::Sinh => sm_sinh(a[0]),
    FuncOp::Sqrt => sm_sqrt(a[0]),
    FuncOp::Tan => sm_tan(a[0]),
    FuncOp::Tanh => sm_tanh(a[0]),
    FuncOp::Tgamma => slm_tgamma(a[0]),
    FuncOp::Trunc => sm_trunc(a[0]),
    FuncOp::Y0 => slm_y0(a[0]),
    FuncOp::Y1 => slm_y1(a[0]),
    FuncOp::Yn => slm_yn(fint(a[0]), a[1]),
    FuncOp::Abs => sm_abs(a[0]),
    FuncOp::Max => fmaxs(a), FuncOp::Min => fmins(a), FuncOp::Avg => fdiv(fsums(a), fcount(a.len())),
    FuncOp::If => if !feq(a[0], 0.0f64) { a[1] } else { a[2] },
} }
/// how many arguments a function takes
pub open spec fn arity(f: FuncOp, n: int) -> bool { match f {
    FuncOp::Atan2 | FuncOp::Copysign | FuncOp::Fmin | FuncOp::Fdim | FuncOp::Fmax | FuncOp::Fmod | FuncOp::Hypot | FuncOp::Jn | FuncOp::Ldexp | FuncOp::Nextafter | FuncOp::Remainder | FuncOp::Scalbn | FuncOp::Pow | FuncOp::Yn => n == 2,
    FuncOp::Fma | FuncOp::If => n == 3,
    FuncOp::Max | FuncOp::Min | FuncOp::Avg => n >= 1,
    _ => n == 1,
} }
pub open spec fn amin(f: FuncOp) -> int { match f { FuncOp::Atan2 | FuncOp::Copysign | FuncOp::Fmin | FuncOp::Fdim | FuncOp::Fmax | FuncOp::Fmod | FuncOp::Hypot | FuncOp::Jn | FuncOp::Ldexp | FuncOp::Nextafter | FuncOp::Remainder | FuncOp::Scalbn | FuncOp::Pow | FuncOp::Yn => 2, FuncOp::Fma | FuncOp::If => 3, _ => 1 } }
pub open spec fn amax(f: FuncOp) -> int { match f { FuncOp::Max | FuncOp::Min | FuncOp::Avg => 0, _ => amin(f) } }
#[verifier::external_body]
pub fn verif_rest(a: &[f64]) -> (r: &[f64]) requires a@.len() >= 1 ensures r@ == a@.subrange(1, a@.len() as int) { &a[1..] }
pub open spec fn b01(b: bool) -> f64 { if b { 1.0f64 } else { 0.0f64 } }
/// what the binary operators compute; comparisons give 1 or 0
pub open spec fn bsem(op: BinaryOp, l: f64, r: f64) -> f64 { match op {
    BinaryOp::Plus => fadd(l, r), BinaryOp::Minus => fsub(l, r), BinaryOp::Times => fmul(l, r), BinaryOp::Div => fdiv(l, r), BinaryOp::Rem => frem(l, r), BinaryOp::Pow => sm_powf(l, r),
    BinaryOp::LT => b01(flt(l, r)), BinaryOp::GT => b01(flt(r, l)), BinaryOp::EQ => b01(feq(l, r)), BinaryOp::NE => b01(!feq(l, r)), BinaryOp::LE => b01(fle(l, r)), BinaryOp::GE => b01(fle(r, l)),
} }
//@fn src/expr.rs to_f (r) noconst
  ensures r == b01(x),
//@end
//@fn src/expr.rs apply_binary (r)
  ensures r == bsem(op, left, right),
//@start
  broadcast use ieee; broadcast use fdet;
//@sub /left % right/ => verif_rem(left, right)
//@sub /right % left/ => verif_rem(right, left)
//@sub /left\.powf\(/ => m_powf(left, 
//@sub /right\.powf\(/ => m_powf(right, 
//@end
//@fn src/expr.rs min_args (r) noconst
  ensures r == amin(f),
//@end
//@fn src/expr.rs max_args (r) noconst
  ensures r == amax(f),
//@end
//@fn src/expr.rs apply_func (r)
  requires arity(op, args@.len() as int),
  ensures r == fop(op, args@),
//@start
  broadcast use ieee; broadcast use fdet;
//@sub /args\[(\d)\]\.(\w+)\(/ => m_\2(args[\1], 
//@sub /libm::(\w+)\(/ => lm_\1(
//@sub /args\[(\d)\] as i32/ => verif_i32(args[\1])
//@sub /\(args\.len\(\) as f64\)/ => verif_count(args.len())
//@sub /for x in &args\[1\.\.\] \{/ => let rest = verif_rest(args); for x in rest.iter() {
//@sub /for x in args \{/ => for x in args.iter() {
//@sub /(\w+) \+= \*x;/ => \1 = \1 + *x;
//@loop 0 d
  invariant args@.len() >= 1, rest@ == args@.subrange(1, args@.len() as int), vi0 <= rest@.len(), v == fmaxs(args@.subrange(0, vi0 + 1)),
  decreases rest@.len() - vi0,
//@loopstart 0
  broadcast use ieee; broadcast use fdet;
  proof { let t = args@.subrange(0, vi0 + 2); assert(t.drop_last() =~= args@.subrange(0, vi0 + 1)); assert(t.last() == rest@[vi0 as int]); ieee_val(v); }
//@afterloop 0
  proof { assert(args@.subrange(0, vi0 + 1) =~= args@); }
//@loop 1 d
  invariant args@.len() >= 1, rest@ == args@.subrange(1, args@.len() as int), vi1 <= rest@.len(), v == fmins(args@.subrange(0, vi1 + 1)),
  decreases rest@.len() - vi1,
//@loopstart 1
  broadcast use ieee; broadcast use fdet;
  proof { let t = args@.subrange(0, vi1 + 2); assert(t.drop_last() =~= args@.subrange(0, vi1 + 1)); assert(t.last() == rest@[vi1 as int]); ieee_val(v); }
//@afterloop 1
  proof { assert(args@.subrange(0, vi1 + 1) =~= args@); }
//@loop 2 d
  invariant vi2 <= args@.len(), v == fsums(args@.subrange(0, vi2 as int)),
  decreases args@.len() - vi2,
//@loopstart 2
  broadcast use ieee; broadcast use fdet;
  proof { let t = args@.subrange(0, vi2 + 1); assert(t.drop_last() =~= args@.subrange(0, vi2 as int)); assert(t.last() == args@[vi2 as int]); }
//@afterloop 2
  proof { assert(args@.subrange(0, vi2 as int) =~= args@); }
//@end

pub fn verif_func1(op: FuncOp, x: f64) -> (r: f64) requires arity(op, 1) ensures r == fop(op, seq![x]) { let a = [x]; assert(a@ =~= seq![x]); apply_func(op, &a) }
#[verifier::external_body]
pub fn find_const(x: &str) -> (r: Option<f64>) ensures r == cval(x@) { unimplemented!() }
#[verifier::external_body]
pub fn find_func(x: &str) -> (r: Result<FuncOp>) ensures r.is_ok() ==> forall|a: Seq<f64>| #[trigger] fop(r.unwrap(), a) == fsem(x@, a) { unimplemented!() }
#[verifier::external_body]
pub fn verif_streq(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn verif_string(a: &str) -> (r: String) ensures r@ == a@ { a.to_string() }
#[verifier::external_body]
pub fn verif_tail(v: &Vec<f64>, n: usize) -> (r: &[f64]) requires n <= v@.len() ensures r@ == v@.subrange(n as int, v@.len() as int) { &v[n..] }
/// one token compiled: a node is added, or constants are folded
pub open spec fn compiled(e0: Seq<Node>, e1: Seq<Node>, k: Token, vars: Seq<VarMap>) -> bool {
    match k {
        Token::Number(x) => e1 =~= e0.push(Node::Value(x)),
        Token::Var(s) => match cval(s@) { Some(c) => e1 =~= e0.push(Node::Value(c)), None => e1.len() > 0 && e1.last() is Var && e1.last()->Var_0 < vars.len() && vars[e1.last()->Var_0 as int].name@ == s@ && e1 =~= e0.push(e1.last()) },
        Token::Unary(op) => e1 =~= e0.push(Node::Unary(op)) || (op == UnaryOp::Plus && e1 =~= e0) || (e0.len() >= 1 && e0.last() is Value && e1 =~= e0.drop_last().push(Node::Value(usem(op, e0.last()->Value_0)))),
        Token::Binary(op) => e1 =~= e0.push(Node::Binary(op)) || (e0.len() >= 2 && e0.last() is Value && e0[e0.len() - 2] is Value && e1 =~= e0.drop_last().drop_last().push(Node::Value(bsem(op, e0[e0.len() - 2]->Value_0, e0.last()->Value_0)))),
        Token::Func(f, Some(n)) => { ||| (e1.len() > 0 && e1.last() is Func && e1.last()->Func_1 == n && arity(e1.last()->Func_0, n as int) && (forall|a: Seq<f64>| #[trigger] fop(e1.last()->Func_0, a) == fsem(f@, a)) && e1 =~= e0.push(e1.last()))
            ||| (n == 1 && e0.len() >= 1 && e0.last() is Value && e1 =~= e0.drop_last().push(Node::Value(fsem(f@, seq![e0.last()->Value_0])))) },
        _ => false,
    }
}
pub proof fn lemma_compiled(e0: Seq<Node>, e1: Seq<Node>, k: Token, v0: Seq<VarMap>, v1: Seq<VarMap>, p: Seq<Token>, i: int)
  requires compiled(e0, e1, k, v1), grows(v0, v1), 0 <= i < p.len(), k == p[i],
    forall|env: Env| nrun(e0, v0, env) == #[trigger] trun(p.subrange(0, i), Some(seq![]), env),
    forall|env: Env| (#[trigger] trun(p, Some(seq![]), env)).is_some(),
  ensures forall|env: Env| nrun(e1, v1, env) == #[trigger] trun(p.subrange(0, i + 1), Some(seq![]), env),
{
    assert forall|env: Env| nrun(e1, v1, env) == #[trigger] trun(p.subrange(0, i + 1), Some(seq![]), env) by {
        let p0 = p.subrange(0, i);
        let p1 = p.subrange(0, i + 1);
        assert(p1.drop_last() =~= p0);
        assert(trun(p, Some(seq![]), env).is_some());
        lemma_prefix(p, i, Some(seq![]), env); lemma_prefix(p, i + 1, Some(seq![]), env);
        assert(nrun(e0, v0, env) == trun(p0, Some(seq![]), env));
        lemma_grow(e0, v0, v1, env);
        let s = nrun(e0, v1, env).unwrap();
        assert(trun(p1, Some(seq![]), env) == tstep(k, Some(s), env));
        lemma_height(e0, v1, env);
        if e0.len() >= 1 && e0.last() is Value {
            let v = e0.last()->Value_0;
            let s1 = nrun(e0.drop_last(), v1, env).unwrap();
            assert(s == s1.push(v));
            assert(below(s, 1) =~= s1);
            assert(top(s, 1) =~= seq![v]);
            if e0.len() >= 2 && e0[e0.len() - 2] is Value {
                let e00 = e0.drop_last();
                assert(e00.last() == e0[e0.len() - 2]);
                let s2 = nrun(e00.drop_last(), v1, env).unwrap();
                assert(s1 == s2.push(e00.last()->Value_0));
                assert(below(s, 2) =~= s2);
                let x = Node::Value(bsem(BinaryOp::Plus, 0.0f64, 0.0f64));
                assert forall|y: Node| e00.drop_last() == (#[trigger] e00.drop_last().push(y)).drop_last() by { assert(e00.drop_last() =~= e00.drop_last().push(y).drop_last()); }
            }
            assert forall|y: Node| e0.drop_last() == (#[trigger] e0.drop_last().push(y)).drop_last() by { assert(e0.drop_last() =~= e0.drop_last().push(y).drop_last()); }
        }
        if s.len() >= 1 { assert(below(s, 1).push(s.last()) =~= s); }
        assert forall|y: Node| e0 == (#[trigger] e0.push(y)).drop_last() by { assert(e0 =~= e0.push(y).drop_last()); }
    }
}
/// the tokens of an expression; no function token has its argument count yet
pub uninterp spec fn tokens_of(s: Seq<char>) -> Seq<Token>;
#[verifier::external_body]
pub fn verif_tokenize(s: &str) -> (r: Result<Vec<Token>>)
  ensures r.is_ok() ==> r.unwrap()@ == tokens_of(s@) && r.unwrap()@.len() <= isize::MAX && forall|i: int| 0 <= i < r.unwrap()@.len() && (#[trigger] r.unwrap()@[i]) is Func ==> r.unwrap()@[i]->Func_1.is_none(),
{ unimplemented!() }
/// the number a column holds
pub uninterp spec fn numval(s: Seq<u8>) -> f64;
#[verifier::external_body]
pub fn verif_lossy(s: &[u8]) -> (r: f64) ensures r == numval(s@) { unimplemented!() }
pub open spec fn loaded(a: VarMap, b: VarMap, col: spec_fn(int) -> Seq<u8>) -> bool {
    b.name == a.name && b.col == a.col && b.val == (match a.col { Some(c) => numval(col(c as int)), None => a.val })
}
/// every variable that names a column holds that column's number; the others are as they were
pub open spec fn ready(a: Seq<VarMap>, b: Seq<VarMap>, col: spec_fn(int) -> Seq<u8>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> loaded(a[i], #[trigger] b[i], col)
}
pub proof fn lemma_same_names(a: Expr, b: Expr)
  requires a.expr == b.expr, grows(a.vars@, b.vars@),
  ensures forall|t: Tree| #[trigger] means(a, t) ==> means(b, t),
{
    assert forall|t: Tree| #[trigger] means(a, t) implies means(b, t) by {
        assert forall|env: Env| #[trigger] nrun(b.expr@, b.vars@, env) == Some(seq![teval(t, env)]) by { assert(nrun(a.expr@, a.vars@, env) == Some(seq![teval(t, env)])); lemma_grow(a.expr@, a.vars@, b.vars@, env); }
    }
}
/// nothing about the variables there were is changed, and new ones name no column
pub open spec fn keeps(a: Seq<VarMap>, b: Seq<VarMap>) -> bool { a.len() <= b.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]) && (forall|i: int| a.len() <= i < b.len() ==> (#[trigger] b[i]).col.is_none()) }
/// the number N of a name that reads cN in full
pub uninterp spec fn cnum(s: Seq<char>) -> Option<usize>;
#[verifier::external_body]
pub fn verif_cnum(s: &String) -> (r: Option<Result<usize>>) ensures r is Some == cnum(s@) is Some || r matches Some(Err(_)), r matches Some(Ok(n)) ==> cnum(s@) == Some(n) { unimplemented!() }
pub open spec fn first_named(fs: Seq<&str>, s: Seq<char>, i: int) -> bool { 0 <= i < fs.len() && fs[i]@ == s && forall|j: int| 0 <= j < i ==> (#[trigger] fs[j])@ != s }
/// a variable names the first column called that, else column N if it reads cN
pub open spec fn bound_to(v: VarMap, fs: Seq<&str>) -> bool {
    match v.col { Some(c) => first_named(fs, v.name@, c as int) || ((forall|j: int| 0 <= j < fs.len() ==> (#[trigger] fs[j])@ != v.name@) && cnum(v.name@) == Some((c + 1) as usize)), None => false }
}
/// variables the caller declared stay as they are, all others are bound to their columns
pub open spec fn bound_vars(a: Seq<VarMap>, b: Seq<VarMap>, fs: Seq<&str>) -> bool {
    a.len() <= b.len() && forall|i: int| 0 <= i < b.len() ==> if i < a.len() && a[i].col.is_none() { #[trigger] b[i] == a[i] } else { bound_to(b[i], fs) && (i < a.len() ==> b[i].name == a[i].name) }
}
impl VarMap {
//@fn src/expr.rs VarMap::new (r)
  ensures r.name@ == name@, r.col.is_none(),
//@sub /name\.to_string\(\)/ => verif_string(name)
//@end
}
//@fn src/expr.rs apply_unary (r)
  ensures r == usem(op, x),
//@sub /-x/ => verif_neg(x)
//@end
impl Expr {
//@fn src/expr.rs Expr::find_var (r)
  ensures r < final(self).vars@.len(), final(self).vars@[r as int].name@ == name@, grows(old(self).vars@, final(self).vars@), final(self).expr == old(self).expr, final(self).stack == old(self).stack, final(self).expr_str == old(self).expr_str,
    keeps(old(self).vars@, final(self).vars@),
//@sub /x\.name == name/ => verif_streq(&x.name, name)
//@loop 0 d
  invariant vi0 <= self.vars@.len(), *self == *old(self),
  decreases self.vars@.len() - vi0,
//@end
//@fn src/expr.rs Expr::parse (r)
  ensures r.is_ok() ==> exists|t: Tree| text(t) == tokens_of(exp@) && #[trigger] means(*final(self), t), grows(old(self).vars@, final(self).vars@), keeps(old(self).vars@, final(self).vars@), final(self).expr_str == old(self).expr_str,
//@sub /tokenize\(exp\)/ => verif_tokenize(exp)
//@end
#[verifier::loop_isolation(false)]
//@fn src/expr.rs Expr::lookup (r)
  ensures r is Ok ==> bound_vars(old(self).vars@, final(self).vars@, fieldnames@) && exists|t: Tree| text(t) == tokens_of(n@) && #[trigger] means(*final(self), t),
//@from /let start_vars = /
//@sig fn lookup_vars(&mut self, n: String, fieldnames: &[&str]) -> Result<()>
//@sub /self\.parse\(&n\)/ => self.parse(n.as_str())
//@sub /lazy_static! \{[^}]*\}/ =>
//@sub /CN\.captures\(&y\.name\)/ => verif_cnum(&y.name)
//@sub /cn\.get\(1\)\.unwrap\(\)\.as_str\(\)\.to_usize_whole\(b"", ""\)\?/ => cn?
//@sub /\*x == y\.name/ => verif_streq(&y.name, *x)
//@after /self\.parse\([^;]*;/
  let ghost mid = *self; let ghost a = old(self).vars@;
//@loop 0 d
  invariant vi0 <= self.vars@.len(), self.vars@.len() == mid.vars@.len(), self.expr == mid.expr,
    forall|i: int| 0 <= i < self.vars@.len() ==> (#[trigger] self.vars@[i]).name == mid.vars@[i].name,
    forall|i: int| vi0 <= i < self.vars@.len() ==> #[trigger] self.vars@[i] == mid.vars@[i],
    forall|i: int| 0 <= i < vi0 ==> if i < a.len() && a[i].col.is_none() { #[trigger] self.vars@[i] == mid.vars@[i] } else { bound_to(self.vars@[i], fieldnames@) },
  decreases self.vars@.len() - vi0,
//@loop 1 d
  invariant vi1 <= fieldnames@.len(), *y == at_y, forall|j: int| 0 <= j < vi1 ==> (#[trigger] fieldnames@[j])@ != at_y.name@,
  decreases fieldnames@.len() - vi1,
//@beforeloop 1
  let ghost at_y = *y;
//@before /Ok\(\(\)\)\s*\}\s*$/
  proof { assert(grows(mid.vars@, self.vars@)); lemma_same_names(mid, *self); }
//@end
//@fn src/expr.rs Expr::parse_self (r)
  ensures r.is_ok() ==> exists|t: Tree| text(t) == tokens_of(old(self).expr_str@) && #[trigger] means(*final(self), t), grows(old(self).vars@, final(self).vars@), final(self).expr_str == old(self).expr_str,
//@sub /tokenize\(&self\.expr_str\)/ => verif_tokenize(self.expr_str.as_str())
//@end
//@fn src/expr.rs Expr::eval_plain (r)
  ensures r.is_ok() ==> exists|t: Tree| text(t) == tokens_of(old(self).expr_str@) && #[trigger] means(*final(self), t) && forall|env: Env| #[trigger] venv(final(self).vars@, env) ==> r.unwrap() == teval(t, env),
//@end
//@fn src/expr.rs Expr::prepare
  ensures ready(old(self).vars@, final(self).vars@, |c: int| tl_col(*t, c)), final(self).expr == old(self).expr,
//@sub /t\.get\(c\)\.to_f64_lossy\(\)/ => verif_lossy(t.get(c))
//@loop 0 d
  invariant vi0 <= self.vars@.len(), self.expr == old(self).expr, self.vars@.len() == old(self).vars@.len(), forall|i: int| vi0 <= i < self.vars@.len() ==> #[trigger] self.vars@[i] == old(self).vars@[i],
    forall|i: int| 0 <= i < vi0 ==> loaded(old(self).vars@[i], #[trigger] self.vars@[i], |c: int| tl_col(*t, c)),
  decreases self.vars@.len() - vi0,
//@end
//@fn src/expr.rs Expr::prepare_line
  ensures ready(old(self).vars@, final(self).vars@, |c: int| col_of(t@, c, delim)), final(self).expr == old(self).expr,
//@sub /get_col\(t, c, delim\)\.to_f64_lossy\(\)/ => verif_lossy(get_col(t, c, delim))
//@loop 0 d
  invariant vi0 <= self.vars@.len(), self.expr == old(self).expr, self.vars@.len() == old(self).vars@.len(), forall|i: int| vi0 <= i < self.vars@.len() ==> #[trigger] self.vars@[i] == old(self).vars@[i],
    forall|i: int| 0 <= i < vi0 ==> loaded(old(self).vars@[i], #[trigger] self.vars@[i], |c: int| col_of(t@, c, delim)),
  decreases self.vars@.len() - vi0,
//@end
//@fn src/expr.rs Expr::eval (r)
  requires exists|t: Tree| means(*old(self), t),
  ensures ready(old(self).vars@, final(self).vars@, |c: int| tl_col(*line, c)),
    forall|t: Tree, env: Env| #[trigger] means(*old(self), t) && #[trigger] venv(final(self).vars@, env) ==> r == teval(t, env), forall|t: Tree| #[trigger] means(*old(self), t) ==> means(*final(self), t),
//@after /self\.prepare\(line\);/
  proof { lemma_same_names(*old(self), *self); }
//@end
//@fn src/expr.rs Expr::eval_line (r)
  requires exists|t: Tree| means(*old(self), t),
  ensures ready(old(self).vars@, final(self).vars@, |c: int| col_of(line@, c, delim)),
    forall|t: Tree, env: Env| #[trigger] means(*old(self), t) && #[trigger] venv(final(self).vars@, env) ==> r == teval(t, env), forall|t: Tree| #[trigger] means(*old(self), t) ==> means(*final(self), t),
//@after /self\.prepare_line\(line, delim\);/
  proof { lemma_same_names(*old(self), *self); }
//@end
//@fn src/expr.rs Expr::set_var
  requires which < old(self).vars@.len(),
  ensures grows(old(self).vars@, final(self).vars@), final(self).vars@.len() == old(self).vars@.len(), final(self).vars@[which as int].val == val, final(self).expr == old(self).expr,
    forall|i: int| 0 <= i < old(self).vars@.len() && i != which ==> #[trigger] final(self).vars@[i] == old(self).vars@[i],
//@end
#[verifier::loop_isolation(false)]
//@fn src/expr.rs Expr::do_eval (r)
  requires exists|t: Tree| means(*old(self), t),
  ensures forall|t: Tree, env: Env| #[trigger] means(*old(self), t) && #[trigger] venv(old(self).vars@, env) ==> r == teval(t, env),
    final(self).vars == old(self).vars, final(self).expr == old(self).expr, final(self).expr_str == old(self).expr_str, forall|t: Tree| #[trigger] means(*old(self), t) ==> means(*final(self), t),
//@sub /&self\.stack\[self\.stack\.len\(\) - num\.\.\]/ => verif_tail(&self.stack, self.stack.len() - num)
//@start
  let ghost e0 = self.expr@; let ghost v0 = self.vars@;
  proof {
    let env: Env = |s: Seq<char>| arbitrary();
    lemma_vrun(e0, v0, env);
    assert(nrun(e0, v0, env).is_some() && nrun(e0, v0, env).unwrap().len() == 1);
    assert(e0.subrange(0, 0) =~= seq![]);
  }
//@loop 0 d
  invariant vi0 <= self.expr@.len(), self.expr@ == e0, self.vars@ == v0, self.expr == old(self).expr, self.vars == old(self).vars, self.expr_str == old(self).expr_str,
    vrun(e0.subrange(0, vi0 as int), v0) == Some(self.stack@),
  decreases self.expr@.len() - vi0,
//@loopstart 0
  let ghost s0 = self.stack@;
  proof {
    lemma_vprefix(e0, vi0 + 1, v0);
    assert(e0.subrange(0, vi0 + 1).drop_last() =~= e0.subrange(0, vi0 as int));
  }
//@loopend 0
  proof {
    match e0[vi0 - 1] {
      Node::Value(v) => {}
      Node::Var(v) => {}
      Node::Unary(op) => { assert(self.stack@ =~= below(s0, 1).push(usem(op, s0.last()))); }
      Node::Binary(op) => { assert(self.stack@ =~= below(s0, 2).push(bsem(op, s0[s0.len() - 2], s0.last()))); }
      Node::Func(f, n) => { assert(self.stack@ =~= below(s0, n as int).push(fop(f, top(s0, n as int)))); }
    }
  }
//@afterloop 0
  proof {
    assert(e0.subrange(0, vi0 as int) =~= e0);
    assert forall|t: Tree, env: Env| #[trigger] means(*old(self), t) && #[trigger] venv(old(self).vars@, env) implies self.stack@[0] == teval(t, env) by { lemma_vrun(e0, v0, env); }
  }
//@end
#[verifier::loop_isolation(false)]
//@fn src/expr.rs Expr::rpn_to_expr (r)
  requires exists|t: Tree| wf(t) && small(t) && post(t) == rpn@,
  ensures r.is_ok() ==> forall|t: Tree| wf(t) && small(t) && #[trigger] post(t) == rpn@ ==> means(*final(self), t),
    grows(old(self).vars@, final(self).vars@), keeps(old(self).vars@, final(self).vars@), final(self).expr_str == old(self).expr_str,
//@sub /apply_func\(f, &\[\*v\]\)/ => verif_func1(f, *v)
//@sub /for x in rpn \{/ => for x in rpn.iter() {
//@sub /continue;/ => proof { lemma_compiled(e0, e@, rpn@[vi0 - 1], v0, self.vars@, rpn@, vi0 - 1); } continue;
//@start
  proof {
    let t = choose|t: Tree| wf(t) && small(t) && post(t) == rpn@;
    assert forall|env: Env| (#[trigger] trun(rpn@, Some(seq![]), env)).is_some() by { lemma_run_post(t, seq![], env); }
    assert(rpn@.subrange(0, 0) =~= seq![]);
  }
//@loop 0 d
  invariant vi0 <= rpn@.len(), grows(old(self).vars@, self.vars@), keeps(old(self).vars@, self.vars@), self.expr_str == old(self).expr_str,
    forall|env: Env| (#[trigger] trun(rpn@, Some(seq![]), env)).is_some(),
    forall|env: Env| nrun(e@, self.vars@, env) == #[trigger] trun(rpn@.subrange(0, vi0 as int), Some(seq![]), env),
  decreases rpn@.len() - vi0,
//@loopstart 0
  let ghost e0 = e@; let ghost v0 = self.vars@;
  proof {
    let env: Env = |s: Seq<char>| arbitrary();
    assert(trun(rpn@, Some(seq![]), env).is_some());
    lemma_prefix(rpn@, vi0 as int, Some(seq![]), env); lemma_prefix(rpn@, vi0 + 1, Some(seq![]), env);
    assert(rpn@.subrange(0, vi0 + 1).drop_last() =~= rpn@.subrange(0, vi0 as int));
    assert(nrun(e0, v0, env) == trun(rpn@.subrange(0, vi0 as int), Some(seq![]), env));
    lemma_height(e0, v0, env);
  }
//@loopend 0
  proof { lemma_compiled(e0, e@, rpn@[vi0 - 1], v0, self.vars@, rpn@, vi0 - 1); }
//@afterloop 0
  proof {
    assert(rpn@.subrange(0, vi0 as int) =~= rpn@);
    assert forall|t: Tree, env: Env| wf(t) && small(t) && #[trigger] post(t) == rpn@ implies #[trigger] nrun(e@, self.vars@, env) == Some(seq![teval(t, env)]) by {
      lemma_run_post(t, seq![], env); assert(seq![].push(teval(t, env)) =~= seq![teval(t, env)]);
      assert(nrun(e@, self.vars@, env) == trun(rpn@, Some(seq![]), env));
    }
  }
//@end
    /// the derived default
    #[verifier::external_body]
    pub fn verif_default() -> (r: Self) ensures r.expr_str@ == Seq::<char>::empty(), r.expr@.len() == 0, r.vars@.len() == 0, r.stack@.len() == 0 { unimplemented!() }
//@fn src/expr.rs Expr::new (r)
  ensures r matches Ok(e) && e.expr_str@ == expr@ && e.vars@.len() == 0,
//@sub /expr\.to_string\(\)/ => verif_string(expr)
//@sub /Self::default\(\)/ => Self::verif_default()
//@end
//@fn src/expr.rs Expr::used_cols
  ensures final(v)@ == old(v)@ + cols_used(self.vars@, self.vars@.len() as int),
//@loop 0 d
  invariant vi0 <= self.vars@.len(), v@ =~= old(v)@ + cols_used(self.vars@, vi0 as int),
  decreases self.vars@.len() - vi0,
//@end
}
/// the columns of the variables bound to one, in order
pub open spec fn cols_used(a: Seq<VarMap>, k: int) -> Seq<usize> decreases k { if k <= 0 { seq![] } else { let p = cols_used(a, k - 1); match a[k - 1].col { Some(c) => p.push(c), None => p } } }
/// x is the value of an expression that reads so, whatever the variables
pub open spec fn constant(k: Seq<Token>, x: f64) -> bool { exists|t: Tree| #[trigger] reads(t, k) && forall|env: Env| x == #[trigger] teval(t, env) }
pub open spec fn reads(t: Tree, k: Seq<Token>) -> bool { text(t) == k }
pub fn verif_plain(e: &mut Expr) -> (r: Result<f64>)
  ensures r matches Ok(x) ==> final(e).vars@.len() == 0 ==> constant(tokens_of(old(e).expr_str@), x),
{
    let r = e.eval_plain();
    proof { if r.is_ok() && e.vars@.len() == 0 {
        let t = choose|t: Tree| text(t) == tokens_of(old(e).expr_str@) && #[trigger] means(*e, t) && forall|env: Env| #[trigger] venv(e.vars@, env) ==> r.unwrap() == teval(t, env);
        assert forall|env: Env| r.unwrap() == #[trigger] teval(t, env) by { assert(venv(e.vars@, env)); }
        assert(reads(t, tokens_of(old(e).expr_str@)));
    } }
    r
}
/// the value of an expression without variables
//@fn src/expr.rs calc (r)
  ensures r matches Ok(x) ==> constant(tokens_of(expr@), x),
//@sub /(\w+)\.eval_plain\(\)/ => verif_plain(&mut \1)
//@sub /c\.vars\.first\(\)/ => verif_firstvar(&c.vars)
//@end
#[verifier::external_body]
pub fn verif_firstvar(v: &Vec<VarMap>) -> (r: Option<&VarMap>) ensures r is None == (v@.len() == 0) { v.first() }
}
fn main(){}
