use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
//@include std.vrs
//@include lines.vrs
#[verifier::external_body]
pub struct Junk { x: u8 }
//@item src/column.rs struct NamedCol

/// one value comparator: equality agrees with the ordering
pub trait Compare {
    spec fn ord(&self, l: Seq<u8>, r: Seq<u8>) -> Ordering;
    spec fn ords(&self, r: Seq<u8>) -> Ordering;
//@fn src/comp.rs trait Compare::comp (r)
   ensures r == self.ord(left@, right@),
//@end
//@fn src/comp.rs trait Compare::equal (r)
   ensures r == (self.ord(left@, right@) == Ordering::Equal),
//@end
//@fn src/comp.rs trait Compare::comp_self (r)
   ensures r == self.ords(right@),
//@end
//@fn src/comp.rs trait Compare::equal_self (r)
   ensures r == (self.ords(right@) == Ordering::Equal),
//@end
}

pub trait LineCompare {
    spec fn ord_cols(&self, l: TextLine, r: TextLine, lf: usize, rf: usize) -> Ordering;
    spec fn ord_lines(&self, l: Seq<u8>, r: Seq<u8>, d: u8, lf: usize, rf: usize) -> Ordering;
    spec fn ords_cols(&self, r: TextLine) -> Ordering;
    spec fn ords_line(&self, r: Seq<u8>, d: u8) -> Ordering;
    /// the file numbers that have been looked up
    spec fn files(&self) -> nat;
//@fn src/comp.rs trait LineCompare::comp_cols (r)
   requires left_file < old(self).files(), right_file < old(self).files(),
   ensures r == old(self).ord_cols(*left, *right, left_file, right_file),
     final(self).files() == old(self).files(),
     forall|l: TextLine, r: TextLine, lf: usize, rf: usize| #[trigger] final(self).ord_cols(l, r, lf, rf) == old(self).ord_cols(l, r, lf, rf),
     forall|l: Seq<u8>, r: Seq<u8>, d: u8, lf: usize, rf: usize| #[trigger] final(self).ord_lines(l, r, d, lf, rf) == old(self).ord_lines(l, r, d, lf, rf),
     forall|r: TextLine| #[trigger] final(self).ords_cols(r) == old(self).ords_cols(r),
     forall|r: Seq<u8>, d: u8| #[trigger] final(self).ords_line(r, d) == old(self).ords_line(r, d),
//@end
//@fn src/comp.rs trait LineCompare::equal_cols (r)
   requires left_file < old(self).files(), right_file < old(self).files(),
   ensures r == (old(self).ord_cols(*left, *right, left_file, right_file) == Ordering::Equal),
     final(self).files() == old(self).files(),
     forall|l: TextLine, r: TextLine, lf: usize, rf: usize| #[trigger] final(self).ord_cols(l, r, lf, rf) == old(self).ord_cols(l, r, lf, rf),
     forall|l: Seq<u8>, r: Seq<u8>, d: u8, lf: usize, rf: usize| #[trigger] final(self).ord_lines(l, r, d, lf, rf) == old(self).ord_lines(l, r, d, lf, rf),
     forall|r: TextLine| #[trigger] final(self).ords_cols(r) == old(self).ords_cols(r),
     forall|r: Seq<u8>, d: u8| #[trigger] final(self).ords_line(r, d) == old(self).ords_line(r, d),
//@end
//@fn src/comp.rs trait LineCompare::comp_lines (r)
   requires left_file < old(self).files(), right_file < old(self).files(),
   ensures r == old(self).ord_lines(left@, right@, delim, left_file, right_file),
     final(self).files() == old(self).files(),
     forall|l: TextLine, r: TextLine, lf: usize, rf: usize| #[trigger] final(self).ord_cols(l, r, lf, rf) == old(self).ord_cols(l, r, lf, rf),
     forall|l: Seq<u8>, r: Seq<u8>, d: u8, lf: usize, rf: usize| #[trigger] final(self).ord_lines(l, r, d, lf, rf) == old(self).ord_lines(l, r, d, lf, rf),
     forall|r: TextLine| #[trigger] final(self).ords_cols(r) == old(self).ords_cols(r),
     forall|r: Seq<u8>, d: u8| #[trigger] final(self).ords_line(r, d) == old(self).ords_line(r, d),
//@end
//@fn src/comp.rs trait LineCompare::equal_lines (r)
   requires left_file < old(self).files(), right_file < old(self).files(),
   ensures r == (old(self).ord_lines(left@, right@, delim, left_file, right_file) == Ordering::Equal),
     final(self).files() == old(self).files(),
     forall|l: TextLine, r: TextLine, lf: usize, rf: usize| #[trigger] final(self).ord_cols(l, r, lf, rf) == old(self).ord_cols(l, r, lf, rf),
     forall|l: Seq<u8>, r: Seq<u8>, d: u8, lf: usize, rf: usize| #[trigger] final(self).ord_lines(l, r, d, lf, rf) == old(self).ord_lines(l, r, d, lf, rf),
     forall|r: TextLine| #[trigger] final(self).ords_cols(r) == old(self).ords_cols(r),
     forall|r: Seq<u8>, d: u8| #[trigger] final(self).ords_line(r, d) == old(self).ords_line(r, d),
//@end
//@fn src/comp.rs trait LineCompare::comp_self_cols (r)
   requires old(self).files() > 0,
   ensures r == old(self).ords_cols(*right),
     final(self).files() == old(self).files(),
     forall|l: TextLine, r: TextLine, lf: usize, rf: usize| #[trigger] final(self).ord_cols(l, r, lf, rf) == old(self).ord_cols(l, r, lf, rf),
     forall|l: Seq<u8>, r: Seq<u8>, d: u8, lf: usize, rf: usize| #[trigger] final(self).ord_lines(l, r, d, lf, rf) == old(self).ord_lines(l, r, d, lf, rf),
     forall|r: TextLine| #[trigger] final(self).ords_cols(r) == old(self).ords_cols(r),
     forall|r: Seq<u8>, d: u8| #[trigger] final(self).ords_line(r, d) == old(self).ords_line(r, d),
//@end
//@fn src/comp.rs trait LineCompare::equal_self_cols (r)
   requires old(self).files() > 0,
   ensures r == (old(self).ords_cols(*right) == Ordering::Equal),
     final(self).files() == old(self).files(),
     forall|l: TextLine, r: TextLine, lf: usize, rf: usize| #[trigger] final(self).ord_cols(l, r, lf, rf) == old(self).ord_cols(l, r, lf, rf),
     forall|l: Seq<u8>, r: Seq<u8>, d: u8, lf: usize, rf: usize| #[trigger] final(self).ord_lines(l, r, d, lf, rf) == old(self).ord_lines(l, r, d, lf, rf),
     forall|r: TextLine| #[trigger] final(self).ords_cols(r) == old(self).ords_cols(r),
     forall|r: Seq<u8>, d: u8| #[trigger] final(self).ords_line(r, d) == old(self).ords_line(r, d),
//@end
//@fn src/comp.rs trait LineCompare::comp_self_line (r)
   requires old(self).files() > 0,
   ensures r == old(self).ords_line(right@, delim),
     final(self).files() == old(self).files(),
     forall|l: TextLine, r: TextLine, lf: usize, rf: usize| #[trigger] final(self).ord_cols(l, r, lf, rf) == old(self).ord_cols(l, r, lf, rf),
     forall|l: Seq<u8>, r: Seq<u8>, d: u8, lf: usize, rf: usize| #[trigger] final(self).ord_lines(l, r, d, lf, rf) == old(self).ord_lines(l, r, d, lf, rf),
     forall|r: TextLine| #[trigger] final(self).ords_cols(r) == old(self).ords_cols(r),
     forall|r: Seq<u8>, d: u8| #[trigger] final(self).ords_line(r, d) == old(self).ords_line(r, d),
//@end
//@fn src/comp.rs trait LineCompare::equal_self_line (r)
   requires old(self).files() > 0,
   ensures r == (old(self).ords_line(right@, delim) == Ordering::Equal),
     final(self).files() == old(self).files(),
     forall|l: TextLine, r: TextLine, lf: usize, rf: usize| #[trigger] final(self).ord_cols(l, r, lf, rf) == old(self).ord_cols(l, r, lf, rf),
     forall|l: Seq<u8>, r: Seq<u8>, d: u8, lf: usize, rf: usize| #[trigger] final(self).ord_lines(l, r, d, lf, rf) == old(self).ord_lines(l, r, d, lf, rf),
     forall|r: TextLine| #[trigger] final(self).ords_cols(r) == old(self).ords_cols(r),
     forall|r: Seq<u8>, d: u8| #[trigger] final(self).ords_line(r, d) == old(self).ords_line(r, d),
//@end
}
//@item src/comp.rs struct Comp
pub open spec fn rv(b: bool, o: Ordering) -> Ordering { if b { flip(o) } else { o } }
impl Comp {
    /// the order this value comparator stands for, its own reversal included
    pub open spec fn ko(&self, l: Seq<u8>, r: Seq<u8>) -> Ordering { rv(self.reverse, self.comp.ord(l, r)) }
    pub open spec fn kos(&self, r: Seq<u8>) -> Ordering { rv(self.reverse, self.comp.ords(r)) }
//@fn src/comp.rs Comp::reverse (r)
   ensures r == rv(self.reverse, x),
//@end
//@fn src/comp.rs Comp::comp (r)
   ensures r == self.ko(left@, right@),
//@end
//@fn src/comp.rs Comp::equal (r)
   ensures r == (self.ko(left@, right@) == Ordering::Equal),
//@end
//@fn src/comp.rs Comp::comp_self (r)
   ensures r == self.kos(right@),
//@end
//@fn src/comp.rs Comp::equal_self (r)
   ensures r == (self.kos(right@) == Ordering::Equal),
//@end
}
//@fn src/comp.rs no_newline (r)
  ensures r@ == no_nl(line@),
//@start
  proof { if line@.len() > 0 { assert(line@.drop_last() =~= line@.subrange(0, line@.len() - 1)); } }
//@end
//@item src/comp.rs struct LineCompWhole
impl LineCompare for LineCompWhole {
    open spec fn ord_cols(&self, l: TextLine, r: TextLine, lf: usize, rf: usize) -> Ordering { self.comp.ko(no_nl(tl_line(l)), no_nl(tl_line(r))) }
    open spec fn ord_lines(&self, l: Seq<u8>, r: Seq<u8>, d: u8, lf: usize, rf: usize) -> Ordering { self.comp.ko(no_nl(l), no_nl(r)) }
    open spec fn ords_cols(&self, r: TextLine) -> Ordering { self.comp.kos(no_nl(tl_line(r))) }
    open spec fn ords_line(&self, r: Seq<u8>, d: u8) -> Ordering { self.comp.kos(no_nl(r)) }
    open spec fn files(&self) -> nat { 0x1_0000_0000_0000_0000 }
//@fn src/comp.rs <LineCompWhole as LineCompare>::comp_cols
//@end
//@fn src/comp.rs <LineCompWhole as LineCompare>::equal_cols
//@end
//@fn src/comp.rs <LineCompWhole as LineCompare>::comp_lines
//@end
//@fn src/comp.rs <LineCompWhole as LineCompare>::equal_lines
//@end
//@fn src/comp.rs <LineCompWhole as LineCompare>::comp_self_cols
//@end
//@fn src/comp.rs <LineCompWhole as LineCompare>::equal_self_cols
//@end
//@fn src/comp.rs <LineCompWhole as LineCompare>::comp_self_line
//@end
//@fn src/comp.rs <LineCompWhole as LineCompare>::equal_self_line
//@end
}
//@item src/comp.rs struct LineCompCol
impl LineCompare for LineCompCol {
    open spec fn ord_cols(&self, l: TextLine, r: TextLine, lf: usize, rf: usize) -> Ordering { self.comp.ko(tl_col(l, self.cols@[lf as int].num as int), tl_col(r, self.cols@[rf as int].num as int)) }
    open spec fn ord_lines(&self, l: Seq<u8>, r: Seq<u8>, d: u8, lf: usize, rf: usize) -> Ordering { self.comp.ko(col_of(l, self.cols@[lf as int].num as int, d), col_of(r, self.cols@[rf as int].num as int, d)) }
    open spec fn ords_cols(&self, r: TextLine) -> Ordering { self.comp.kos(tl_col(r, self.cols@[0].num as int)) }
    open spec fn ords_line(&self, r: Seq<u8>, d: u8) -> Ordering { self.comp.kos(col_of(r, self.cols@[0].num as int, d)) }
    open spec fn files(&self) -> nat { self.cols@.len() }
//@fn src/comp.rs <LineCompCol as LineCompare>::comp_cols
//@end
//@fn src/comp.rs <LineCompCol as LineCompare>::equal_cols
//@end
//@fn src/comp.rs <LineCompCol as LineCompare>::comp_lines
//@end
//@fn src/comp.rs <LineCompCol as LineCompare>::equal_lines
//@end
//@fn src/comp.rs <LineCompCol as LineCompare>::comp_self_cols
//@end
//@fn src/comp.rs <LineCompCol as LineCompare>::equal_self_cols
//@end
//@fn src/comp.rs <LineCompCol as LineCompare>::comp_self_line
//@end
//@fn src/comp.rs <LineCompCol as LineCompare>::equal_self_line
//@end
}

//@include float.vrs
// an expression key: the value of the expression on a line is a function of the line (C14's subject)
#[verifier::external_body]
pub struct Expr { x: u8 }
impl Expr {
    pub uninterp spec fn vl(&self) -> spec_fn(Seq<u8>, u8) -> f64;
    pub uninterp spec fn vc(&self) -> spec_fn(TextLine) -> f64;
    #[verifier::external_body]
    pub fn eval(&mut self, line: &TextLine) -> (r: f64) ensures r == (old(self).vc())(*line), final(self).vl() == old(self).vl(), final(self).vc() == old(self).vc() { unimplemented!() }
    #[verifier::external_body]
    pub fn eval_line(&mut self, line: &[u8], delim: u8) -> (r: f64) ensures r == (old(self).vl())(line@, delim), final(self).vl() == old(self).vl(), final(self).vc() == old(self).vc() { unimplemented!() }
}
//@item src/comp.rs struct LineCompExpr
impl LineCompare for LineCompExpr {
    open spec fn ord_cols(&self, l: TextLine, r: TextLine, lf: usize, rf: usize) -> Ordering { kcmp(fkey((self.exprs@[lf as int].vc())(l)), fkey((self.exprs@[rf as int].vc())(r))) }
    open spec fn ord_lines(&self, l: Seq<u8>, r: Seq<u8>, d: u8, lf: usize, rf: usize) -> Ordering { kcmp(fkey((self.exprs@[lf as int].vl())(l, d)), fkey((self.exprs@[rf as int].vl())(r, d))) }
    open spec fn ords_cols(&self, r: TextLine) -> Ordering { kcmp(fkey(self.value), fkey((self.exprs@[0].vc())(r))) }
    open spec fn ords_line(&self, r: Seq<u8>, d: u8) -> Ordering { kcmp(fkey(self.value), fkey((self.exprs@[0].vl())(r, d))) }
    open spec fn files(&self) -> nat { self.exprs@.len() }
//@fn src/comp.rs <LineCompExpr as LineCompare>::comp_cols
//@end
//@fn src/comp.rs <LineCompExpr as LineCompare>::equal_cols
//@end
//@fn src/comp.rs <LineCompExpr as LineCompare>::comp_lines
//@end
//@fn src/comp.rs <LineCompExpr as LineCompare>::equal_lines
//@end
//@fn src/comp.rs <LineCompExpr as LineCompare>::comp_self_cols
//@end
//@fn src/comp.rs <LineCompExpr as LineCompare>::equal_self_cols
//@end
//@fn src/comp.rs <LineCompExpr as LineCompare>::comp_self_line
//@end
//@fn src/comp.rs <LineCompExpr as LineCompare>::equal_self_line
//@end
}

// ---------------------------------------------------------------- one key: reversal
//@item src/comp.rs struct LineComp
impl LineComp {
    pub open spec fn kc(&self, l: TextLine, r: TextLine, lf: usize, rf: usize) -> Ordering { rv(self.reverse, self.comp.ord_cols(l, r, lf, rf)) }
    pub open spec fn kl(&self, l: Seq<u8>, r: Seq<u8>, lf: usize, rf: usize) -> Ordering { rv(self.reverse, self.comp.ord_lines(l, r, self.delim, lf, rf)) }
    pub open spec fn kcs(&self, r: TextLine) -> Ordering { rv(self.reverse, self.comp.ords_cols(r)) }
    pub open spec fn kls(&self, r: Seq<u8>) -> Ordering { rv(self.reverse, self.comp.ords_line(r, self.delim)) }
    pub open spec fn files(&self) -> nat { self.comp.files() }
    pub open spec fn same(&self, o: &LineComp) -> bool {
        &&& self.files() == o.files()
        &&& forall|l: TextLine, r: TextLine, lf: usize, rf: usize| #[trigger] self.kc(l, r, lf, rf) == o.kc(l, r, lf, rf)
        &&& forall|l: Seq<u8>, r: Seq<u8>, lf: usize, rf: usize| #[trigger] self.kl(l, r, lf, rf) == o.kl(l, r, lf, rf)
        &&& forall|r: TextLine| #[trigger] self.kcs(r) == o.kcs(r)
        &&& forall|r: Seq<u8>| #[trigger] self.kls(r) == o.kls(r)
    }
//@fn src/comp.rs LineComp::reverse (r)
   ensures r == rv(self.reverse, x),
//@end
//@fn src/comp.rs LineComp::comp_cols (r)
   requires old(self).files() > 0,
   ensures r == old(self).kc(*left, *right, 0, 0), final(self).same(&*old(self)),
//@end
//@fn src/comp.rs LineComp::comp_cols_n (r)
   requires left_file < old(self).files(), right_file < old(self).files(),
   ensures r == old(self).kc(*left, *right, left_file, right_file), final(self).same(&*old(self)),
//@end
//@fn src/comp.rs LineComp::equal_cols (r)
   requires old(self).files() > 0,
   ensures r == (old(self).kc(*left, *right, 0, 0) == Ordering::Equal), final(self).same(&*old(self)),
//@end
//@fn src/comp.rs LineComp::equal_cols_n (r)
   requires left_file < old(self).files(), right_file < old(self).files(),
   ensures r == (old(self).kc(*left, *right, left_file, right_file) == Ordering::Equal), final(self).same(&*old(self)),
//@end
//@fn src/comp.rs LineComp::comp_lines (r)
   requires old(self).files() > 0,
   ensures r == old(self).kl(left@, right@, 0, 0), final(self).same(&*old(self)),
//@end
//@fn src/comp.rs LineComp::comp_lines_n (r)
   requires left_file < old(self).files(), right_file < old(self).files(),
   ensures r == old(self).kl(left@, right@, left_file, right_file), final(self).same(&*old(self)),
//@end
//@fn src/comp.rs LineComp::equal_lines (r)
   requires old(self).files() > 0,
   ensures r == (old(self).kl(left@, right@, 0, 0) == Ordering::Equal), final(self).same(&*old(self)),
//@end
//@fn src/comp.rs LineComp::equal_lines_n (r)
   requires left_file < old(self).files(), right_file < old(self).files(),
   ensures r == (old(self).kl(left@, right@, left_file, right_file) == Ordering::Equal), final(self).same(&*old(self)),
//@end
//@fn src/comp.rs LineComp::comp_self_cols (r)
   requires old(self).files() > 0,
   ensures r == old(self).kcs(*right), final(self).same(&*old(self)),
//@end
//@fn src/comp.rs LineComp::equal_self_cols (r)
   requires old(self).files() > 0,
   ensures r == (old(self).kcs(*right) == Ordering::Equal), final(self).same(&*old(self)),
//@end
//@fn src/comp.rs LineComp::comp_self_line (r)
   requires old(self).files() > 0,
   ensures r == old(self).kls(right@), final(self).same(&*old(self)),
//@end
//@fn src/comp.rs LineComp::equal_self_line (r)
   requires old(self).files() > 0,
   ensures r == (old(self).kls(right@) == Ordering::Equal), final(self).same(&*old(self)),
//@end
}

// ---------------------------------------------------------------- a list of keys: lexicographic
//@item src/comp.rs struct LineCompList
pub open spec fn lex(s: Seq<Ordering>, n: int) -> Ordering decreases s.len() - n {
    if n < 0 || n >= s.len() { Ordering::Equal } else if s[n] != Ordering::Equal { s[n] } else { lex(s, n + 1) }
}
impl LineCompList {
    pub open spec fn oc(&self, l: TextLine, r: TextLine, lf: usize, rf: usize) -> Seq<Ordering> { Seq::new(self.c@.len(), |i: int| self.c@[i].kc(l, r, lf, rf)) }
    pub open spec fn ol(&self, l: Seq<u8>, r: Seq<u8>, lf: usize, rf: usize) -> Seq<Ordering> { Seq::new(self.c@.len(), |i: int| self.c@[i].kl(l, r, lf, rf)) }
    pub open spec fn ocs(&self, r: TextLine) -> Seq<Ordering> { Seq::new(self.c@.len(), |i: int| self.c@[i].kcs(r)) }
    pub open spec fn ols(&self, r: Seq<u8>) -> Seq<Ordering> { Seq::new(self.c@.len(), |i: int| self.c@[i].kls(r)) }
    pub open spec fn has(&self, f: usize) -> bool { forall|i: int| 0 <= i < self.c@.len() ==> f < (#[trigger] self.c@[i]).files() }
    pub open spec fn same(&self, o: &LineCompList) -> bool {
        self.c@.len() == o.c@.len() && forall|i: int| 0 <= i < self.c@.len() ==> (#[trigger] self.c@[i]).same(&o.c@[i])
    }
//@fn src/comp.rs LineCompList::comp_cols (r)
   requires old(self).has(0),
   ensures r == lex(old(self).oc(*left, *right, 0, 0), 0), final(self).same(&*old(self)),
//@end
//@fn src/comp.rs LineCompList::comp_cols_n (r)
   requires old(self).has(left_file), old(self).has(right_file),
   ensures r == lex(old(self).oc(*left, *right, left_file, right_file), 0), final(self).same(&*old(self)),
//@loop 0 d
   invariant
     vi0 <= self.c@.len(), self.same(&*old(self)), old(self).has(left_file), old(self).has(right_file),
     lex(old(self).oc(*left, *right, left_file, right_file), 0) == lex(old(self).oc(*left, *right, left_file, right_file), vi0 as int),
   decreases self.c@.len() - vi0
//@loopstart 0
   proof { assert(self.c@[vi0 as int].same(&old(self).c@[vi0 as int])); }
//@end
//@fn src/comp.rs LineCompList::comp_lines (r)
   requires old(self).has(0),
   ensures r == lex(old(self).ol(left@, right@, 0, 0), 0), final(self).same(&*old(self)),
//@end
//@fn src/comp.rs LineCompList::comp_lines_n (r)
   requires old(self).has(left_file), old(self).has(right_file),
   ensures r == lex(old(self).ol(left@, right@, left_file, right_file), 0), final(self).same(&*old(self)),
//@loop 0 d
   invariant
     vi0 <= self.c@.len(), self.same(&*old(self)), old(self).has(left_file), old(self).has(right_file),
     lex(old(self).ol(left@, right@, left_file, right_file), 0) == lex(old(self).ol(left@, right@, left_file, right_file), vi0 as int),
   decreases self.c@.len() - vi0
//@loopstart 0
   proof { assert(self.c@[vi0 as int].same(&old(self).c@[vi0 as int])); }
//@end
//@fn src/comp.rs LineCompList::comp_self_cols (r)
   requires old(self).has(0),
   ensures r == lex(old(self).ocs(*right), 0), final(self).same(&*old(self)),
//@loop 0 d
   invariant
     vi0 <= self.c@.len(), self.same(&*old(self)), old(self).has(0),
     lex(old(self).ocs(*right), 0) == lex(old(self).ocs(*right), vi0 as int),
   decreases self.c@.len() - vi0
//@loopstart 0
   proof { assert(self.c@[vi0 as int].same(&old(self).c@[vi0 as int])); }
//@end
//@fn src/comp.rs LineCompList::comp_self_line (r)
   requires old(self).has(0),
   ensures r == lex(old(self).ols(right@), 0), final(self).same(&*old(self)),
//@loop 0 d
   invariant
     vi0 <= self.c@.len(), self.same(&*old(self)), old(self).has(0),
     lex(old(self).ols(right@), 0) == lex(old(self).ols(right@), vi0 as int),
   decreases self.c@.len() - vi0
//@loopstart 0
   proof { assert(self.c@[vi0 as int].same(&old(self).c@[vi0 as int])); }
//@end
//@fn src/comp.rs LineCompList::equal_cols (r)
   requires old(self).has(0),
   ensures r == (lex(old(self).oc(*left, *right, 0, 0), 0) == Ordering::Equal), final(self).same(&*old(self)),
//@end
//@fn src/comp.rs LineCompList::equal_cols_n (r)
   requires old(self).has(left_file), old(self).has(right_file),
   ensures r == (lex(old(self).oc(*left, *right, left_file, right_file), 0) == Ordering::Equal), final(self).same(&*old(self)),
//@loop 0 d
   invariant
     vi0 <= self.c@.len(), self.same(&*old(self)), old(self).has(left_file), old(self).has(right_file),
     lex(old(self).oc(*left, *right, left_file, right_file), 0) == lex(old(self).oc(*left, *right, left_file, right_file), vi0 as int),
   decreases self.c@.len() - vi0
//@loopstart 0
   proof { assert(self.c@[vi0 as int].same(&old(self).c@[vi0 as int])); }
//@end
//@fn src/comp.rs LineCompList::equal_lines (r)
   requires old(self).has(0),
   ensures r == (lex(old(self).ol(left@, right@, 0, 0), 0) == Ordering::Equal), final(self).same(&*old(self)),
//@end
//@fn src/comp.rs LineCompList::equal_lines_n (r)
   requires old(self).has(left_file), old(self).has(right_file),
   ensures r == (lex(old(self).ol(left@, right@, left_file, right_file), 0) == Ordering::Equal), final(self).same(&*old(self)),
//@loop 0 d
   invariant
     vi0 <= self.c@.len(), self.same(&*old(self)), old(self).has(left_file), old(self).has(right_file),
     lex(old(self).ol(left@, right@, left_file, right_file), 0) == lex(old(self).ol(left@, right@, left_file, right_file), vi0 as int),
   decreases self.c@.len() - vi0
//@loopstart 0
   proof { assert(self.c@[vi0 as int].same(&old(self).c@[vi0 as int])); }
//@end
//@fn src/comp.rs LineCompList::equal_self_cols (r)
   requires old(self).has(0),
   ensures r == (lex(old(self).ocs(*right), 0) == Ordering::Equal), final(self).same(&*old(self)),
//@loop 0 d
   invariant
     vi0 <= self.c@.len(), self.same(&*old(self)), old(self).has(0),
     lex(old(self).ocs(*right), 0) == lex(old(self).ocs(*right), vi0 as int),
   decreases self.c@.len() - vi0
//@loopstart 0
   proof { assert(self.c@[vi0 as int].same(&old(self).c@[vi0 as int])); }
//@end
//@fn src/comp.rs LineCompList::equal_self_line (r)
   requires old(self).has(0),
   ensures r == (lex(old(self).ols(right@), 0) == Ordering::Equal), final(self).same(&*old(self)),
//@loop 0 d
   invariant
     vi0 <= self.c@.len(), self.same(&*old(self)), old(self).has(0),
     lex(old(self).ols(right@), 0) == lex(old(self).ols(right@), vi0 as int),
   decreases self.c@.len() - vi0
//@loopstart 0
   proof { assert(self.c@[vi0 as int].same(&old(self).c@[vi0 as int])); }
//@end
}
//@item src/comp.rs struct CompList
impl CompList {
    pub open spec fn ov(&self, l: Seq<u8>, r: Seq<u8>) -> Seq<Ordering> { Seq::new(self.c@.len(), |i: int| self.c@[i].ko(l, r)) }
    pub open spec fn ovs(&self, r: Seq<u8>) -> Seq<Ordering> { Seq::new(self.c@.len(), |i: int| self.c@[i].kos(r)) }
//@fn src/comp.rs CompList::comp (r)
   ensures r == lex(self.ov(left@, right@), 0),
//@loop 0 d
   invariant vi0 <= self.c@.len(), lex(self.ov(left@, right@), 0) == lex(self.ov(left@, right@), vi0 as int),
   decreases self.c@.len() - vi0
//@end
//@fn src/comp.rs CompList::equal (r)
   ensures r == (lex(self.ov(left@, right@), 0) == Ordering::Equal),
//@loop 0 d
   invariant vi0 <= self.c@.len(), lex(self.ov(left@, right@), 0) == lex(self.ov(left@, right@), vi0 as int),
   decreases self.c@.len() - vi0
//@end
//@fn src/comp.rs CompList::comp_self (r)
   ensures r == lex(self.ovs(right@), 0),
//@loop 0 d
   invariant vi0 <= self.c@.len(), lex(self.ovs(right@), 0) == lex(self.ovs(right@), vi0 as int),
   decreases self.c@.len() - vi0
//@end
//@fn src/comp.rs CompList::equal_self (r)
   ensures r == (lex(self.ovs(right@), 0) == Ordering::Equal),
//@loop 0 d
   invariant vi0 <= self.c@.len(), lex(self.ovs(right@), 0) == lex(self.ovs(right@), vi0 as int),
   decreases self.c@.len() - vi0
//@end
}

// ---------------------------------------------------------------- the combination is again an ordering
pub open spec fn flips(a: Seq<Ordering>, b: Seq<Ordering>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == flip(a[i]) }
pub proof fn lemma_lex_flip(a: Seq<Ordering>, b: Seq<Ordering>, n: int)
  requires flips(a, b), 0 <= n
  ensures lex(b, n) == flip(lex(a, n))
  decreases a.len() - n
{ if n < a.len() { lemma_lex_flip(a, b, n + 1); } }
/// transitivity of one key: x = a?b, y = b?c, z = a?c
pub open spec fn chain(x: Ordering, y: Ordering, z: Ordering) -> bool {
    &&& (x == y ==> z == x)
    &&& (x == Ordering::Equal ==> z == y)
    &&& (y == Ordering::Equal ==> z == x)
}
pub open spec fn chains(x: Seq<Ordering>, y: Seq<Ordering>, z: Seq<Ordering>) -> bool {
    x.len() == y.len() && y.len() == z.len() && forall|i: int| 0 <= i < x.len() ==> chain(#[trigger] x[i], y[i], z[i])
}
pub proof fn lemma_lex_chain(x: Seq<Ordering>, y: Seq<Ordering>, z: Seq<Ordering>, n: int)
  requires chains(x, y, z), 0 <= n
  ensures chain(lex(x, n), lex(y, n), lex(z, n))
  decreases x.len() - n
{ if n < x.len() { lemma_lex_chain(x, y, z, n + 1); } }
/// antisymmetric and transitive on lines whenever every key's comparator is
pub proof fn theorem_multi_key(c: LineCompList, a: Seq<u8>, b: Seq<u8>, e: Seq<u8>)
  requires
    forall|i: int, l: Seq<u8>, r: Seq<u8>| #![trigger c.c@[i].comp.ord_lines(l, r, c.c@[i].delim, 0, 0)] 0 <= i < c.c@.len() ==> c.c@[i].comp.ord_lines(r, l, c.c@[i].delim, 0, 0) == flip(c.c@[i].comp.ord_lines(l, r, c.c@[i].delim, 0, 0)),
    forall|i: int, l: Seq<u8>, m: Seq<u8>, r: Seq<u8>| #![trigger c.c@[i].comp.ord_lines(l, m, c.c@[i].delim, 0, 0), c.c@[i].comp.ord_lines(m, r, c.c@[i].delim, 0, 0)] 0 <= i < c.c@.len() ==>
       chain(c.c@[i].comp.ord_lines(l, m, c.c@[i].delim, 0, 0), c.c@[i].comp.ord_lines(m, r, c.c@[i].delim, 0, 0), c.c@[i].comp.ord_lines(l, r, c.c@[i].delim, 0, 0)),
  ensures
    lex(c.ol(b, a, 0, 0), 0) == flip(lex(c.ol(a, b, 0, 0), 0)),
    chain(lex(c.ol(a, b, 0, 0), 0), lex(c.ol(b, e, 0, 0), 0), lex(c.ol(a, e, 0, 0), 0)),
{
    assert(flips(c.ol(a, b, 0, 0), c.ol(b, a, 0, 0)));
    lemma_lex_flip(c.ol(a, b, 0, 0), c.ol(b, a, 0, 0), 0);
    assert(chains(c.ol(a, b, 0, 0), c.ol(b, e, 0, 0), c.ol(a, e, 0, 0)));
    lemma_lex_chain(c.ol(a, b, 0, 0), c.ol(b, e, 0, 0), c.ol(a, e, 0, 0), 0);
}
}
fn main(){}
