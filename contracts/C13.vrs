use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
global size_of usize == 8;
//@include std.vrs
//@include lines.vrs
//@include ops.vrs
pub open spec fn mirror(op: CompareOp) -> CompareOp {
    match op { CompareOp::LT => CompareOp::GT, CompareOp::GT => CompareOp::LT, CompareOp::LE => CompareOp::GE, CompareOp::GE => CompareOp::LE, CompareOp::EQ => CompareOp::EQ, CompareOp::NE => CompareOp::NE }
}
/// swapping the operands gives the mirror image, and the operators come in complementary pairs
pub proof fn theorem_operators(op: CompareOp, o: Ordering)
  ensures holds(mirror(op), flip(o)) == holds(op, o), mirror(mirror(op)) == op,
    holds(CompareOp::LT, o) == !holds(CompareOp::GE, o), holds(CompareOp::GT, o) == !holds(CompareOp::LE, o), holds(CompareOp::EQ, o) == !holds(CompareOp::NE, o),
{}
/// a list of keys with a value to compare to, seen through its contract (C02)
#[verifier::external_body]
pub struct LineCompList { x: u8 }
/// the value the keys were last set to
pub uninterp spec fn lc_val(c: LineCompList) -> Seq<u8>;
/// which list of keys it is, and the column names it was last looked up for
pub uninterp spec fn lc_key(c: LineCompList) -> int;
pub uninterp spec fn lc_at(c: LineCompList) -> int;
pub uninterp spec fn key_ord(k: int, names: int, v: Seq<u8>, l: TextLine) -> Ordering;
pub uninterp spec fn key_cmp(k: int, names: int, l: TextLine, r: TextLine) -> Ordering;
/// how this value compares to the line's keys
pub open spec fn lc_ord(c: LineCompList, v: Seq<u8>, l: TextLine) -> Ordering { key_ord(lc_key(c), lc_at(c), v, l) }
/// how two lines compare
pub open spec fn lc_cmp(c: LineCompList, l: TextLine, r: TextLine) -> Ordering { key_cmp(lc_key(c), lc_at(c), l, r) }
pub open spec fn lc_same(a: LineCompList, b: LineCompList) -> bool { lc_key(a) == lc_key(b) && lc_at(a) == lc_at(b) }
/// the error that says no more than that the answer is no
pub uninterp spec fn silent(e: Error) -> bool;
#[verifier::external_body]
pub fn verif_silent() -> (r: Result<()>) ensures r is Err, silent(r->Err_0) { unimplemented!() }
/// a list of column names
pub uninterp spec fn names_of(v: Seq<&str>) -> int;
impl LineCompList {
    #[verifier::external_body]
    pub fn set(&mut self, value: &[u8], delim: u8) -> (r: Result<()>) ensures r.is_ok() ==> lc_val(*final(self)) == value@, lc_same(*final(self), *old(self)), r is Err ==> !silent(r->Err_0) { unimplemented!() }
    #[verifier::external_body]
    pub fn comp_self_cols(&mut self, right: &TextLine) -> (r: Ordering) ensures r == lc_ord(*old(self), lc_val(*old(self)), *right), lc_val(*final(self)) == lc_val(*old(self)), lc_same(*final(self), *old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn comp_cols(&mut self, left: &TextLine, right: &TextLine) -> (r: Ordering) ensures r == lc_cmp(*old(self), *left, *right), lc_val(*final(self)) == lc_val(*old(self)), lc_same(*final(self), *old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn lookup(&mut self, names: &Vec<&str>) -> (r: Result<()>) ensures lc_key(*final(self)) == lc_key(*old(self)), r is Ok ==> lc_at(*final(self)) == names_of(names@), r is Err ==> !silent(r->Err_0) { unimplemented!() }
}
/// line OP value
pub open spec fn lok(op: CompareOp, c: LineCompList, v: Seq<u8>, l: TextLine) -> bool { holds(op, flip(lc_ord(c, v, l))) }
//@gsub /prerr_n\([^;]*\);/ => ();
//@gsub /eprint!\([^;]*\);/ => ();
impl CompareOp {
//@fn src/util.rs CompareOp::ord_ok (r)
  ensures r == holds(*self, o),
//@end
//@fn src/util.rs CompareOp::invert (r) noconst
  ensures r == mirror(*self),
//@end
//@fn src/util.rs CompareOp::line_ok (r)
  ensures r == lok(*self, *old(comp), lc_val(*old(comp)), *line), lc_val(*final(comp)) == lc_val(*old(comp)), lc_same(*final(comp), *old(comp)),
//@start
  proof { theorem_operators(*self, flip(lc_ord(*comp, lc_val(*comp), *line))); }
//@end
//@fn src/util.rs CompareOp::line_ok_verbose (r)
  ensures r == lok(*self, *old(comp), lc_val(*old(comp)), *line), lc_val(*final(comp)) == lc_val(*old(comp)), lc_same(*final(comp), *old(comp)),
//@start
  proof { theorem_operators(*self, flip(lc_ord(*comp, lc_val(*comp), *line))); }
//@end
//@fn src/util.rs <CompareOp as FromStr>::from_str (r)
  ensures r is Ok == op_named(s@) is Some, r is Ok ==> op_named(s@) == Some(r.unwrap()),
//@start
  proof { lemma_names(s@); }
//@end
}
//@include opname.vrs
//@gsub /\bs\.eq_ignore_ascii_case\(("[^"]+")\)/ => verif_nocase(s, \1)
//@gsub /([\w.]+(\(\))?)\.parse::<CompareOp>\(\)/ => CompareOp::from_str(\1)
/// the bytes of a string
pub uninterp spec fn sbytes(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn verif_bytes(s: &String) -> (r: &[u8]) ensures r@ == sbytes(s@) { s.as_bytes() }
//@gsub /self\.val\.as_bytes\(\)/ => verif_bytes(&self.val)
//@gsub /self\.val2\.as_ref\(\)\.unwrap\(\)\.as_bytes\(\)/ => verif_bytes(self.val2.as_ref().unwrap())
//@item src/util.rs struct RangeSpec
#[verifier::external_body]
pub fn verif_clone_into(s: &str, d: &mut String) ensures final(d)@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn verif_owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
//@item src/util.rs struct CheckLine
impl CheckLine {
    pub open spec fn good(&self) -> bool { self.op2.is_some() ==> self.val2.is_some() }
    /// the line satisfies every operator given
    pub open spec fn sat(&self, c: LineCompList, l: TextLine) -> bool {
        lok(self.op, c, sbytes(self.val@), l) && (self.op2.is_some() ==> lok(self.op2.unwrap(), c, sbytes(self.val2.unwrap()@), l))
    }
    /// made from this specification: each operator with its own value
    pub open spec fn made(&self, r: RangeSpec) -> bool {
        &&& op_named(r.op1@) == Some(self.op) && self.val@ == r.val1@
        &&& self.op2 is Some == r.op2 is Some && (r.op2 is Some ==> op_named(r.op2->0@) == self.op2)
        &&& self.val2 is Some == r.val2 is Some && (r.val2 is Some ==> self.val2->0@ == r.val2->0@)
    }
//@fn src/util.rs CheckLine::set_with (q)
  ensures q is Ok ==> final(self).made(*r),
//@sub /r\.val1\.clone_into\(&mut self\.val\)/ => verif_clone_into(r.val1, &mut self.val)
//@sub /r\.val2\.unwrap\(\)\.to_owned\(\)/ => verif_owned(r.val2.unwrap())
//@end
//@fn src/util.rs CheckLine::line_ok (r)
  requires self.good(),
  ensures r.is_ok() ==> r.unwrap() == self.sat(*old(comp), *line), lc_same(*final(comp), *old(comp)), r is Err ==> !silent(r->Err_0),
//@end
//@fn src/util.rs CheckLine::line_ok_verbose (r)
  requires self.good(),
  ensures r.is_ok() ==> r.unwrap() == self.sat(*old(comp), *line), lc_same(*final(comp), *old(comp)), r is Err ==> !silent(r->Err_0),
//@end
}
/// a comparator with a value to compare to, seen through its contract (C02, C19)
#[verifier::external_body]
pub struct Comp { x: u8 }
/// which comparator it is, and the value it was last set to
pub uninterp spec fn co_key(c: Comp) -> int;
pub uninterp spec fn co_val(c: Comp) -> Seq<u8>;
pub uninterp spec fn value_ord(key: int, v: Seq<u8>, r: Seq<u8>) -> Ordering;
/// how its value compares to r
pub open spec fn co_self(c: Comp, r: Seq<u8>) -> Ordering { value_ord(co_key(c), co_val(c), r) }
/// the comparator a specification names
pub uninterp spec fn comp_named(s: Seq<char>) -> int;
pub struct CompMaker {}
impl CompMaker {
    #[verifier::external_body]
    pub fn make_comp(spec: &str) -> (r: Result<Comp>) ensures r is Ok ==> co_key(r.unwrap()) == comp_named(spec@) { unimplemented!() }
}
#[verifier::external_body]
pub fn verif_sbytes(s: &str) -> (r: &[u8]) ensures r@ == sbytes(s@) { s.as_bytes() }
impl Comp {
    #[verifier::external_body]
    pub fn set(&mut self, v: &[u8]) ensures co_key(*final(self)) == co_key(*old(self)), co_val(*final(self)) == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn comp_self(&self, right: &[u8]) -> (r: Ordering) ensures r == co_self(*self, right@) { unimplemented!() }
}
//@item src/util.rs struct CheckBuff
impl CheckBuff {
    pub open spec fn good(&self) -> bool { self.op2.is_some() ==> self.val2.is_some() }
    pub open spec fn sat(&self, x: Seq<u8>) -> bool {
        holds(self.op, flip(co_self(self.val, x))) && (self.op2.is_some() ==> holds(self.op2.unwrap(), flip(co_self(self.val2.unwrap(), x))))
    }
    pub open spec fn made(&self, spec: Seq<char>, r: RangeSpec) -> bool {
        &&& op_named(r.op1@) == Some(self.op) && co_key(self.val) == comp_named(spec) && co_val(self.val) == sbytes(r.val1@)
        &&& self.op2 is Some == r.op2 is Some && (r.op2 is Some ==> op_named(r.op2->0@) == self.op2)
        &&& self.val2 is Some == r.val2 is Some && (r.val2 is Some ==> co_key(self.val2->0) == comp_named(spec) && co_val(self.val2->0) == sbytes(r.val2->0@))
    }
//@fn src/util.rs CheckBuff::new_with (q)
  ensures q is Ok ==> q.unwrap().made(comp_spec@, *r),
//@sub /r\.val1\.as_bytes\(\)/ => verif_sbytes(r.val1)
//@sub /r\.val2\.unwrap\(\)\.as_bytes\(\)/ => verif_sbytes(r.val2.unwrap())
//@end
//@fn src/util.rs CheckBuff::buff_ok (r)
  requires self.good(),
  ensures r == self.sat(right@),
//@start
  proof {
    theorem_operators(self.op, flip(co_self(self.val, right@)));
    if self.op2.is_some() { theorem_operators(self.op2.unwrap(), flip(co_self(self.val2.unwrap(), right@))); }
  }
//@end
}
/// a file: the names of its columns and its data lines
pub struct File { pub names: int, pub ncols: nat, pub lines: Seq<TextLine> }
pub uninterp spec fn file_of(name: Seq<char>) -> File;
pub uninterp spec fn tl_cols(t: TextLine) -> nat;
impl TextLine {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == tl_cols(*self) { unimplemented!() }
}
/// a file being read (C18): its current line and the one before
#[verifier::external_body]
pub struct Reader { x: u8 }
pub uninterp spec fn rd_file(f: Reader) -> File;
/// the number of the current line; past the end when there is none
pub uninterp spec fn rd_at(f: Reader) -> int;
pub open spec fn rd_prev(f: Reader, n: int) -> TextLine { rd_file(f).lines[rd_at(f) - n] }
pub open spec fn rd_curr(f: Reader) -> TextLine { rd_file(f).lines[rd_at(f)] }
impl Reader {
    #[verifier::external_body]
    pub fn new() -> (r: Reader) { unimplemented!() }
    #[verifier::external_body]
    pub fn open(&mut self, name: &String) -> (r: Result<()>)
      ensures r is Ok ==> rd_file(*final(self)) == file_of(name@) && rd_at(*final(self)) == 0 && file_of(name@).lines.len() < 0x7fff_ffff_ffff_ffff, r is Err ==> !silent(r->Err_0) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r ==> rd_file(*self).lines.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_done(&self) -> (r: bool) ensures r == (rd_at(*self) >= rd_file(*self).lines.len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn names(&self) -> (r: Vec<&str>) ensures names_of(r@) == rd_file(*self).names, r@.len() == rd_file(*self).ncols { unimplemented!() }
    #[verifier::external_body]
    pub fn getline(&mut self) -> (r: Result<bool>) requires 0 <= rd_at(*old(self)) < rd_file(*old(self)).lines.len(),
      ensures r is Ok ==> rd_file(*final(self)) == rd_file(*old(self)) && rd_at(*final(self)) == rd_at(*old(self)) + 1 && r.unwrap() == (rd_at(*final(self)) == rd_file(*old(self)).lines.len()), r is Err ==> !silent(r->Err_0) { unimplemented!() }
    #[verifier::external_body]
    pub fn curr(&self) -> (r: &TextLine) requires 0 <= rd_at(*self) < rd_file(*self).lines.len(), ensures *r == rd_curr(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn prev_line(&self, n: usize) -> (r: &TextLine) requires n == 1, 1 <= rd_at(*self) <= rd_file(*self).lines.len(), ensures *r == rd_prev(*self, n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn curr_line(&self) -> (r: &TextLine) requires 0 <= rd_at(*self) < rd_file(*self).lines.len(), ensures *r == rd_curr(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn line_number(&self) -> (r: usize) ensures rd_at(*self) >= 1 ==> r >= 1 { unimplemented!() }
}
/// adjacent lines are out of order exactly when the comparison says Greater, or Equal where they must be unique
//@fn src/comp.rs comp_check (r)
  requires 1 <= rd_at(*f) < rd_file(*f).lines.len(),
  ensures r == (lc_cmp(*old(cmp), rd_prev(*f, 1), rd_curr(*f)) == Ordering::Greater || (unique && lc_cmp(*old(cmp), rd_prev(*f, 1), rd_curr(*f)) == Ordering::Equal)),
    lc_same(*final(cmp), *old(cmp)),
//@end
/// the matchers of the command line, seen through their contract (C16)
#[verifier::external_body]
pub struct LineMatcherList { x: u8 }
pub uninterp spec fn ml_key(c: LineMatcherList) -> int;
pub uninterp spec fn ml_at(c: LineMatcherList) -> int;
pub uninterp spec fn matches(key: int, names: int, l: TextLine) -> bool;
impl LineMatcherList {
    #[verifier::external_body]
    pub fn lookup(&mut self, names: &Vec<&str>) -> (r: Result<()>) ensures ml_key(*final(self)) == ml_key(*old(self)), r is Ok ==> ml_at(*final(self)) == names_of(names@), r is Err ==> !silent(r->Err_0) { unimplemented!() }
    #[verifier::external_body]
    pub fn ok_verbose(&mut self, line: &TextLine, n: usize, name: &String) -> (r: bool) ensures ml_key(*final(self)) == ml_key(*old(self)), ml_at(*final(self)) == ml_at(*old(self)), r == matches(ml_key(*old(self)), ml_at(*old(self)), *line) { unimplemented!() }
}
/// what the command line asks for
pub struct Ask { pub key: int, pub pat: int, pub sort: bool, pub unique: bool, pub first: Option<CheckLine>, pub last: Option<CheckLine> }
pub open spec fn csat(c: CheckLine, key: int, names: int, l: TextLine) -> bool {
    holds(c.op, flip(key_ord(key, names, sbytes(c.val@), l))) && (c.op2.is_some() ==> holds(c.op2.unwrap(), flip(key_ord(key, names, sbytes(c.val2.unwrap()@), l))))
}
/// line i by itself is as it should be
pub open spec fn line_good(a: Ask, f: File, i: int) -> bool { tl_cols(f.lines[i]) == f.ncols && matches(a.pat, f.names, f.lines[i]) }
/// lines i - 1 and i are in the order asked for
pub open spec fn in_order(a: Ask, f: File, i: int) -> bool { let o = key_cmp(a.key, f.names, f.lines[i - 1], f.lines[i]); a.sort ==> o != Ordering::Greater && (a.unique ==> o != Ordering::Equal) }
/// every line of the file satisfies every requested condition
pub open spec fn file_good(a: Ask, f: File) -> bool {
    &&& forall|i: int| 0 <= i < f.lines.len() ==> #[trigger] line_good(a, f, i)
    &&& forall|i: int| 1 <= i < f.lines.len() ==> #[trigger] in_order(a, f, i)
    &&& f.lines.len() > 0 && a.first is Some ==> csat(a.first->0, a.key, f.names, f.lines[0])
    &&& f.lines.len() > 0 && a.last is Some ==> csat(a.last->0, a.key, f.names, f.lines.last())
}
/// the file loop of cdx verify: it succeeds exactly when every line of every file satisfies every requested condition
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@fn src/bin/cdx/verify_main.rs main (r)
  requires first is Some ==> first->0.good(), last is Some ==> last->0.good(), do_unique ==> do_sort,
  ensures
    r is Ok ==> forall|k: int| 0 <= k < files@.len() ==> file_good(Ask { key: lc_key(*old(comp)), pat: ml_key(*old(list)), sort: do_sort, unique: do_unique, first: first, last: last }, #[trigger] file_of(files@[k]@)),
    r is Err && silent(r->Err_0) ==> exists|k: int| 0 <= k < files@.len() && !file_good(Ask { key: lc_key(*old(comp)), pat: ml_key(*old(list)), sort: do_sort, unique: do_unique, first: first, last: last }, #[trigger] file_of(files@[k]@)),
//@from /let mut fails = 0;/
//@sig fn verify_files(list: &mut LineMatcherList, comp: &mut LineCompList, do_sort: bool, do_unique: bool, max_fails: usize, first: Option<CheckLine>, last: Option<CheckLine>, files: Vec<String>) -> Result<()>
//@sub /let mut fails = 0;/ => let mut fails: usize = 0;
//@sub /Reader::new\(&settings\.text_in\)/ => Reader::new()
//@sub /cdx_err\(CdxError::Silent\)/ => verif_silent()
//@sub /&mut comp\b/ => comp
//@start
  let ghost a = Ask { key: lc_key(*comp), pat: ml_key(*list), sort: do_sort, unique: do_unique, first: first, last: last };
//@loop 0 d
  invariant fails == 0, lc_key(*comp) == a.key, ml_key(*list) == a.pat, forall|k: int| 0 <= k < vi0 ==> file_good(a, #[trigger] file_of(files@[k]@)),
  decreases files@.len() - vi0,
//@loop 1 l
  invariant_except_break fails == 0 ==> forall|i: int| 0 <= i < rd_at(f) ==> #[trigger] line_good(a, rd_file(f), i),
    fails == 0 ==> forall|i: int| 1 <= i <= rd_at(f) ==> #[trigger] in_order(a, rd_file(f), i), 0 <= rd_at(f) < rd_file(f).lines.len(), fails <= rd_at(f) + 1,
  invariant rd_file(f) == file_of(x@), rd_file(f).lines.len() < 0x7fff_ffff_ffff_ffff, lc_key(*comp) == a.key, lc_at(*comp) == rd_file(f).names, ml_key(*list) == a.pat, ml_at(*list) == rd_file(f).names, num_cols == rd_file(f).ncols,
    a.first is Some ==> fails == 0 ==> csat(a.first->0, a.key, rd_file(f).names, rd_file(f).lines[0]),
    fails > 0 ==> !file_good(a, rd_file(f)),
  ensures fails == 0 ==> file_good(a, rd_file(f)),
  decreases rd_file(f).lines.len() - rd_at(f),
//@loopstart 1
  let ghost n0 = rd_at(f); let ghost good = line_good(a, rd_file(f), n0); let ghost ord = in_order(a, rd_file(f), n0 + 1);
//@afterloop 1
  proof { assert(file_of(files@[vi0 - 1]@) == rd_file(f)); }
//@end
}
fn main(){}
