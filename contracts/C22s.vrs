// C22: cat with numbering, removing or skipping: every line kept whole, in order, each numbered once
use vstd::prelude::*;
verus! {
global size_of usize == 8;
use std::cmp::Ordering;
//@include std.vrs
//@include io.vrs
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub struct TextLine { x: u8 }
pub uninterp spec fn tl_line(t: TextLine) -> Seq<u8>;
impl TextLine {
    #[verifier::external_body]
    pub fn line(&self) -> (r: &[u8]) ensures r@ == tl_line(*self) { unimplemented!() }
}
#[verifier::external_body]
pub struct StringLine { x: u8 }
/// the columns' names in a header
pub uninterp spec fn sl_names(t: StringLine) -> Seq<Seq<char>>;
#[derive(Copy, Clone)]
pub struct TextFileMode { pub delim: u8, pub style: u8 }
/// a value in the file's style (C07)
pub uninterp spec fn styled(m: TextFileMode, v: Seq<u8>) -> Seq<u8>;
impl TextFileMode {
    #[verifier::external_body]
    pub fn write(&self, w: &mut dyn Write, v: &Vec<u8>) -> (r: Result<()>) ensures r is Ok ==> final(w).out() == old(w).out() + styled(*self, v@) { unimplemented!() }
}
/// decimal digits of a number
pub uninterp spec fn dec(n: int) -> Seq<u8>;
#[verifier::external_body]
pub fn verif_dec(n: isize) -> (r: Vec<u8>) ensures r@ == dec(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn verif_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn verif_as_str(s: &String) -> (r: &str) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn verif_no_bytes() -> (r: &'static [u8]) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn verif_unused() -> (r: &'static str) { unimplemented!() }
#[verifier::external_body]
pub fn verif_no_string() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn verif_sbytes(s: &String) -> (r: &[u8]) ensures r@ == enc(s@) { unimplemented!() }
pub open spec fn enc(s: Seq<char>) -> Seq<u8> { if s.len() == 0 { seq![] } else { utf8(s) } }
/// the output header (C20): the names it was given, in order
#[verifier::external_body]
pub struct ColumnHeader { x: u8 }
pub uninterp spec fn head_text(policy: int, given: Seq<Seq<char>>, text: TextFileMode) -> Seq<char>;
impl ColumnHeader {
    pub uninterp spec fn given(&self) -> Seq<Seq<char>>;
    pub uninterp spec fn policy(&self) -> int;
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).given() == Seq::<Seq<char>>::empty(), final(self).policy() == old(self).policy() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, name: &str) -> (r: Result<()>) ensures final(self).policy() == old(self).policy(), r is Ok ==> final(self).given() == old(self).given().push(name@) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_all(&mut self, h: &StringLine) -> (r: Result<()>) ensures final(self).policy() == old(self).policy(), r is Ok ==> final(self).given() == old(self).given() + sl_names(*h) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_head(&self, text: &TextFileMode) -> (r: String) ensures r@ == head_text(self.policy(), self.given(), *text) { unimplemented!() }
}
/// the columns an output line is made of
pub ghost enum K { Count { num: int, name: Seq<char> }, Whole, Lit { v: Seq<u8>, name: Seq<char> } }
pub open spec fn shown(k: K, l: Seq<u8>, m: TextFileMode) -> Seq<u8> { match k { K::Count { num, .. } => dec(num), K::Whole => l.drop_last(), K::Lit { v, .. } => styled(m, v) } }
pub open spec fn after(k: K) -> K { match k { K::Count { num, name } => K::Count { num: num + 1, name }, _ => k } }
pub open spec fn named(k: K, h: StringLine) -> Seq<Seq<char>> { match k { K::Count { name, .. } => seq![name], K::Whole => sl_names(h), K::Lit { name, .. } => seq![name] } }
pub open spec fn room(k: K) -> bool { match k { K::Count { num, .. } => num < isize::MAX, _ => true } }
pub trait ColumnFun {
    spec fn kind(&self) -> K;
    fn add_names(&self, w: &mut ColumnHeader, head: &StringLine) -> (r: Result<()>)
      ensures final(w).policy() == old(w).policy(), r is Ok ==> final(w).given() == old(w).given() + named(self.kind(), *head);
    fn write(&mut self, w: &mut dyn Write, line: &TextLine, text: &TextFileMode) -> (r: Result<()>)
      requires room(old(self).kind()), tl_line(*line).len() > 0, ensures r is Ok ==> final(self).kind() == after(old(self).kind()) && final(w).out() == old(w).out() + shown(old(self).kind(), tl_line(*line), *text);
    fn lookup(&mut self, fieldnames: &[&str]) -> (r: Result<()>) ensures final(self).kind() == old(self).kind();
    fn is_empty(&self) -> (r: bool) ensures r == false;
}
#[verifier::external_body]
pub fn verif_sub(l: &[u8], a: usize, b: usize) -> (r: &[u8]) requires a <= b <= l@.len(), ensures r@ == l@.subrange(a as int, b as int) { unimplemented!() }
pub struct ColumnWhole;
impl ColumnFun for ColumnWhole {
    open spec fn kind(&self) -> K { K::Whole }
//@fn src/column.rs <ColumnWhole as ColumnFun>::add_names (r)
//@end
//@fn src/column.rs <ColumnWhole as ColumnFun>::write (r)
//@sub /&line\.line\(\)\[0?\.\.line\.line\(\)\.len\(\) - 1\]/ => verif_sub(line.line(), 0, line.line().len() - 1)
//@start
  proof { assert(tl_line(*line).subrange(0, tl_line(*line).len() - 1) =~= tl_line(*line).drop_last()); }
//@end
//@fn src/column.rs <ColumnWhole as ColumnFun>::lookup (r)
//@end
//@fn src/column.rs trait ColumnFun::is_empty (r)
//@end
}
//@item src/column.rs struct ColumnCount
impl ColumnCount {
//@fn src/column.rs ColumnCount::new (r)
  ensures r.kind() == (K::Count { num: num as int, name: name@ }),
//@sub /name\.to_string\(\)/ => verif_string(name)
//@end
}
impl ColumnFun for ColumnCount {
    open spec fn kind(&self) -> K { K::Count { num: self.num as int, name: self.name@ } }
//@fn src/column.rs <ColumnCount as ColumnFun>::add_names (r)
//@sub /&self\.name/ => verif_as_str(&self.name)
//@end
//@fn src/column.rs <ColumnCount as ColumnFun>::write (r)
//@sub /self\.num\.to_string\(\)\.as_bytes\(\)/ => verif_dec(self.num).as_slice()
//@end
//@fn src/column.rs <ColumnCount as ColumnFun>::lookup (r)
//@end
//@fn src/column.rs trait ColumnFun::is_empty (r)
//@end
}
//@item src/column.rs struct ColumnLiteral
impl ColumnLiteral {
//@fn src/column.rs ColumnLiteral::new (r)
  ensures r.kind() == (K::Lit { v: value@, name: name@ }),
//@sub /name\.to_string\(\)/ => verif_string(name)
//@end
}
impl ColumnFun for ColumnLiteral {
    open spec fn kind(&self) -> K { K::Lit { v: self.value@, name: self.name@ } }
//@fn src/column.rs <ColumnLiteral as ColumnFun>::add_names (r)
//@sub /&self\.name/ => verif_as_str(&self.name)
//@end
//@fn src/column.rs <ColumnLiteral as ColumnFun>::write (r)
//@end
//@fn src/column.rs <ColumnLiteral as ColumnFun>::lookup (r)
//@end
//@fn src/column.rs trait ColumnFun::is_empty (r)
//@end
}
//@item src/column.rs struct Writer
pub open spec fn cells(k: Seq<K>, l: Seq<u8>, m: TextFileMode, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else if n == 1 { shown(k[0], l, m) } else { cells(k, l, m, n - 1) + seq![m.delim] + shown(k[n - 1], l, m) } }
pub open spec fn all_named(k: Seq<K>, h: StringLine, n: int) -> Seq<Seq<char>> decreases n { if n <= 0 { seq![] } else { all_named(k, h, n - 1) + named(k[n - 1], h) } }
#[verifier::opaque]
pub open spec fn rooms(k: Seq<K>) -> bool { forall|i: int| 0 <= i < k.len() ==> room(#[trigger] k[i]) }
pub open spec fn all_after(k: Seq<K>) -> Seq<K> { Seq::new(k.len(), |i: int| after(k[i])) }
impl Writer {
    #[verifier::opaque]
    pub open spec fn kinds(&self) -> Seq<K> { Seq::new(self.v@.len(), |i: int| self.v@[i].kind()) }
//@fn src/column.rs Writer::new (r)
  ensures r.kinds() == Seq::<K>::empty(), r.text == text,
//@start
  proof { reveal(Writer::kinds); }
//@end
//@fn src/column.rs Writer::push
  ensures final(self).kinds() == old(self).kinds().push(x.kind()), final(self).text == old(self).text,
//@start
  proof { reveal(Writer::kinds); }
  let ghost k = x.kind();
//@after /self\.v\.push\(x\);/
  proof { assert(self.kinds() =~= old(self).kinds().push(k)); }
//@end
//@fn src/column.rs Writer::lookup (r)
  ensures final(self).kinds() == old(self).kinds(), final(self).text == old(self).text,
//@start
  proof { reveal(Writer::kinds); }
//@loop 0 d
  invariant self.v@.len() == old(self).v@.len(), self.kinds() =~= old(self).kinds(), self.text == old(self).text,
  decreases self.v@.len() - vi0,
//@loopstart 0
  proof { reveal(Writer::kinds); }
//@end
//@fn src/column.rs Writer::add_names (r)
  ensures final(w).policy() == old(w).policy(), r is Ok ==> final(w).given() == old(w).given() + all_named(self.kinds(), *head, self.kinds().len() as int),
//@start
  proof { reveal(Writer::kinds); }
  let ghost g0 = w.given(); let ghost k = self.kinds(); proof { assert(g0 + all_named(k, *head, 0) =~= g0); }
//@loop 0 d
  invariant vi0 <= self.v@.len(), k == self.kinds(), w.policy() == old(w).policy(), w.given() =~= g0 + all_named(k, *head, vi0 as int),
  decreases self.v@.len() - vi0,
//@loopstart 0
  proof { reveal(Writer::kinds); }
//@end
//@fn src/column.rs Writer::write (r)
  requires rooms(old(self).kinds()), tl_line(*line).len() > 0,
  ensures final(self).text == old(self).text, r is Ok ==> final(self).kinds() == all_after(old(self).kinds()) && final(w).out() == old(w).out() + cells(old(self).kinds(), tl_line(*line), old(self).text, old(self).kinds().len() as int) + seq![10u8],
//@start
  proof { reveal(Writer::kinds); }
  proof { reveal(rooms); } let ghost k = self.kinds(); let ghost o0 = w.out(); let ghost l = tl_line(*line); proof { assert(o0 + cells(k, l, self.text, 0) =~= o0); }
//@loop 0 d
  invariant vi0 <= self.v@.len(), self.v@.len() == k.len(), l == tl_line(*line), l.len() > 0, self.text == old(self).text, need_delim == (vi0 > 0), forall|i: int| 0 <= i < k.len() ==> room(#[trigger] k[i]),
    forall|i: int| 0 <= i < k.len() ==> #[trigger] self.kinds()[i] == (if i < vi0 { after(k[i]) } else { k[i] }), w.out() =~= o0 + cells(k, l, self.text, vi0 as int),
  decreases self.v@.len() - vi0,
//@loopstart 0
  proof { reveal(Writer::kinds); }
  let ghost s0 = *self; let ghost j0 = vi0 as int; proof { assert(room(k[vi0 as int])); assert(self.kinds()[vi0 as int] == k[vi0 as int]); }
//@loopend 0
  proof { assert forall|i: int| 0 <= i < k.len() implies #[trigger] self.kinds()[i] == (if i < vi0 { after(k[i]) } else { k[i] }) by { if i != j0 { assert(self.v@[i] == s0.v@[i]); assert(s0.kinds()[i] == s0.v@[i].kind()); } } }
//@afterloop 0
  proof { assert(self.kinds() =~= all_after(k)); }
//@end
}
/// a file: whether it has no line at all, its header, whether that is in the file, and its data lines, each with its newline
pub ghost struct CFile { pub empty: bool, pub head: StringLine, pub has: bool, pub lines: Seq<Seq<u8>> }
pub uninterp spec fn cfile_of(name: Seq<char>) -> CFile;
#[verifier::external_body]
pub struct Reader { x: u8 }
pub open spec fn nonl(l: Seq<u8>) -> Seq<u8> { if l.len() > 0 && l.last() == 10u8 { l.drop_last() } else { l } }
impl Reader {
    pub uninterp spec fn file(&self) -> CFile;
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    pub fn new_open(name: &str) -> (r: Result<Reader>) ensures r matches Ok(f) ==> f.file() == cfile_of(name@) && f.at() == 0 && forall|i: int| 0 <= i < f.file().lines.len() ==> (#[trigger] f.file().lines[i]).len() > 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == self.file().empty { unimplemented!() }
    #[verifier::external_body]
    pub fn names(&self) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body]
    pub fn header(&self) -> (r: &StringLine) ensures *r == self.file().head { unimplemented!() }
    #[verifier::external_body]
    pub fn has_header(&self) -> (r: bool) ensures r == self.file().has { unimplemented!() }
    #[verifier::external_body]
    pub fn is_done(&self) -> (r: bool) ensures r == (self.at() >= self.file().lines.len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn do_split(&mut self, b: bool) ensures final(self).file() == old(self).file(), final(self).at() == old(self).at() { unimplemented!() }
    #[verifier::external_body]
    pub fn curr(&self) -> (r: &TextLine) requires 0 <= self.at() < self.file().lines.len(), ensures tl_line(*r) == self.file().lines[self.at()] { unimplemented!() }
    #[verifier::external_body]
    pub fn curr_nl(&self) -> (r: &[u8]) requires 0 <= self.at() < self.file().lines.len(), ensures r@ == nonl(self.file().lines[self.at()]) { unimplemented!() }
    #[verifier::external_body]
    pub fn getline(&mut self) -> (r: Result<bool>) requires old(self).at() < old(self).file().lines.len(), ensures final(self).file() == old(self).file(), r matches Ok(b) ==> final(self).at() == old(self).at() + 1 && b == (final(self).at() == final(self).file().lines.len()) { unimplemented!() }
}
/// the header rule over several files (C09)
#[verifier::external_body]
pub struct HeaderChecker { x: u8 }
pub uninterp spec fn hc_writes(st: int, h: Seq<u8>) -> bool;
pub uninterp spec fn hc_after(st: int, h: Seq<u8>) -> int;
impl HeaderChecker {
    pub uninterp spec fn st(&self) -> int;
    #[verifier::external_body]
    pub fn check_header(&mut self, header: &[u8], fname: &str) -> (r: Result<bool>) ensures r matches Ok(b) ==> b == hc_writes(old(self).st(), header@) && final(self).st() == hc_after(old(self).st(), header@) { unimplemented!() }
}
/// matchers on a value (C16)
#[verifier::external_body]
pub struct MatcherList { x: u8 }
pub uninterp spec fn accepts(id: int, v: Seq<u8>) -> bool;
impl MatcherList {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn umatch(&mut self, v: &[u8]) -> (r: bool) ensures final(self).id() == old(self).id(), r == accepts(old(self).id(), v@) { unimplemented!() }
}
//@item src/bin/cdx/cat_main.rs struct LineNumber
/// what is asked for
pub ghost struct Cat { pub number: bool, pub end: bool, pub name: Seq<char>, pub start: int, pub remove: int, pub skip: int, pub m: TextFileMode, pub policy: int }
/// a number (or whatever is in its place) before or after the line
#[verifier::opaque]
pub open spec fn numbered(c: Cat, n: Seq<u8>, l: Seq<u8>) -> Seq<u8> { if !c.number { l.drop_last() + seq![10u8] } else if c.end { l.drop_last() + seq![c.m.delim] + n + seq![10u8] } else { n + seq![c.m.delim] + l.drop_last() + seq![10u8] } }
/// how many of the first k lines are numbered
pub open spec fn counted(c: Cat, f: CFile, k: int) -> int decreases k { if k <= 0 { 0 } else { counted(c, f, k - 1) + (if !accepts(c.remove, nonl(f.lines[k - 1])) && !accepts(c.skip, nonl(f.lines[k - 1])) { 1int } else { 0 }) } }
pub open spec fn cat_lines(c: Cat, f: CFile, n: int, k: int) -> Seq<u8> decreases k {
    if k <= 0 { seq![] } else { let l = f.lines[k - 1]; cat_lines(c, f, n, k - 1) + (if accepts(c.remove, nonl(l)) { seq![] } else if accepts(c.skip, nonl(l)) { numbered(c, styled(c.m, seq![]), l) } else { numbered(c, dec(n + counted(c, f, k - 1)), l) }) }
}
pub open spec fn cat_names(c: Cat, h: StringLine) -> Seq<Seq<char>> { if !c.number { sl_names(h) } else if c.end { sl_names(h).push(c.name) } else { seq![c.name] + sl_names(h) } }
pub open spec fn cat_head(c: Cat, f: CFile) -> Seq<u8> { if f.has { enc(head_text(c.policy, cat_names(c, f.head), c.m)) } else { seq![] } }
pub open spec fn cat_st(c: Cat, st: int, fs: Seq<String>, k: int) -> int decreases k { if k <= 0 { st } else { let f = cfile_of(fs[k - 1]@); let s = cat_st(c, st, fs, k - 1); if f.empty { s } else { hc_after(s, cat_head(c, f)) } } }
pub open spec fn cat_n(c: Cat, fs: Seq<String>, k: int) -> int decreases k { if k <= 0 { c.start } else { let f = cfile_of(fs[k - 1]@); cat_n(c, fs, k - 1) + (if f.empty { 0 } else { counted(c, f, f.lines.len() as int) }) } }
/// what is written for the first k files
pub open spec fn cat_all(c: Cat, st: int, fs: Seq<String>, k: int) -> Seq<u8> decreases k { if k <= 0 { seq![] } else { let f = cfile_of(fs[k - 1]@); let h = cat_head(c, f);
    cat_all(c, st, fs, k - 1) + (if f.empty { seq![] } else { (if hc_writes(cat_st(c, st, fs, k - 1), h) { h } else { seq![] }) + cat_lines(c, f, cat_n(c, fs, k - 1), f.lines.len() as int) }) } }
pub proof fn lemma_counted(c: Cat, f: CFile, k: int) requires 0 <= k, ensures 0 <= counted(c, f, k) decreases k { if k > 0 { lemma_counted(c, f, k - 1); } }
pub proof fn lemma_counted_le(c: Cat, f: CFile, k: int, j: int) requires 0 <= k <= j, ensures counted(c, f, k) <= counted(c, f, j) decreases j { if k < j { lemma_counted_le(c, f, k, j - 1); } }
pub proof fn lemma_n_le(c: Cat, fs: Seq<String>, k: int, j: int) requires 0 <= k <= j, ensures cat_n(c, fs, k) <= cat_n(c, fs, j) decreases j { if k < j { lemma_n_le(c, fs, k, j - 1); let f = cfile_of(fs[j - 1]@); lemma_counted(c, f, f.lines.len() as int); } }
/// the columns of a numbered line, and of one that is not
#[verifier::opaque]
pub open spec fn kinds_at(c: Cat, n: int) -> Seq<K> { if !c.number { seq![K::Whole] } else if c.end { seq![K::Whole, K::Count { num: n, name: c.name }] } else { seq![K::Count { num: n, name: c.name }, K::Whole] } }
#[verifier::opaque]
pub open spec fn plain(c: Cat, k: Seq<K>) -> bool { if !c.number { k == seq![K::Whole] } else { k.len() == 2 && k[if c.end { 0int } else { 1 }] == K::Whole && k[if c.end { 1int } else { 0 }] is Lit && k[if c.end { 1int } else { 0 }]->Lit_v == Seq::<u8>::empty() } }
pub proof fn lemma_row(c: Cat, n: int, l: Seq<u8>, k: Seq<K>)
  ensures n < isize::MAX ==> rooms(kinds_at(c, n)), plain(c, k) ==> rooms(k), cells(kinds_at(c, n), l, c.m, kinds_at(c, n).len() as int) + seq![10u8] == numbered(c, dec(n), l), all_after(kinds_at(c, n)) == kinds_at(c, n + 1),
    plain(c, k) ==> cells(k, l, c.m, k.len() as int) + seq![10u8] == numbered(c, styled(c.m, seq![]), l) && all_after(k) == k,
{
    reveal_with_fuel(cells, 4); reveal(rooms); reveal(plain); reveal(kinds_at); reveal(numbered);
    let a = kinds_at(c, n);
    assert(all_after(a) =~= kinds_at(c, n + 1));
    if plain(c, k) { assert(all_after(k) =~= k); }
}
pub proof fn lemma_names(c: Cat, n: int, h: StringLine) ensures all_named(kinds_at(c, n), h, kinds_at(c, n).len() as int) == cat_names(c, h) { reveal_with_fuel(all_named, 4); reveal(kinds_at); assert(all_named(kinds_at(c, n), h, kinds_at(c, n).len() as int) =~= cat_names(c, h)); }
/// the file loop of cdx cat, when lines are numbered, removed or skipped
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@fn src/bin/cdx/cat_main.rs main (r)
  requires ({ let c = Cat { number: num.do_it, end: num.end, name: num.name@, start: num.start as int, remove: old(removes).id(), skip: old(skips).id(), m: text_out, policy: old(header).policy() }; cat_n(c, files@, files@.len() as int) < isize::MAX }),
  ensures r is Ok ==> ({ let c = Cat { number: num.do_it, end: num.end, name: num.name@, start: num.start as int, remove: old(removes).id(), skip: old(skips).id(), m: text_out, policy: old(header).policy() };
    final(w).out() == old(w).out() + cat_all(c, old(checker).st(), files@, files@.len() as int) }),
//@from /let mut v = Writer::new\(/
//@upto /\}\s*else\s*\{\s*const SIZE/
//@sig fn cat_slow(num: LineNumber, removes: &mut MatcherList, skips: &mut MatcherList, header: &mut ColumnHeader, checker: &mut HeaderChecker, text_out: TextFileMode, files: Vec<String>, w: &mut dyn Write) -> Result<()>
//@sub /String::new\(\)/ => verif_no_string()
//@sub /not_header\.clear\(\)/ => not_header = verif_no_string()
//@sub /Reader::new_open\(x, &settings\.text_in\)/ => Reader::new_open(verif_as_str(x))
//@sub /&settings\.text_out\(\)/ => &text_out
//@sub /settings\.text_out\(\)/ => text_out
//@sub /settings\.checker/ => checker
//@sub /not_header\.as_bytes\(\)/ => verif_sbytes(&not_header)
//@sub /&mut header\b/ => header
//@sub /&mut w\.0/ => w
//@sub /&num\.name/ => verif_as_str(&num.name)
//@sub /ColumnLiteral::new\(b"", "unused"\)/ => ColumnLiteral::new(verif_no_bytes(), verif_unused())
//@sub /\.check_header\(verif_sbytes\(&not_header\), x\)/ => .check_header(verif_sbytes(&not_header), verif_as_str(x))
//@start
  let ghost c = Cat { number: num.do_it, end: num.end, name: num.name@, start: num.start as int, remove: removes.id(), skip: skips.id(), m: text_out, policy: header.policy() }; let ghost st0 = checker.st(); let ghost o0 = w.out(); let ghost m = files@.len() as int; proof { assert(o0 + cat_all(c, st0, files@, 0) =~= o0); }
//@beforeloop 0
  proof { assert(v.kinds() == kinds_at(c, c.start)) by { reveal(kinds_at); assert(v.kinds() =~= kinds_at(c, c.start)); } assert(plain(c, not_v.kinds())) by { reveal(plain); if !c.number { assert(not_v.kinds() =~= seq![K::Whole]); } } }
//@loop 0 d
  invariant vi0 <= m, m == files@.len(), v.text == c.m, not_v.text == c.m, v.kinds() == kinds_at(c, cat_n(c, files@, vi0 as int)), plain(c, not_v.kinds()), removes.id() == c.remove, skips.id() == c.skip, header.policy() == c.policy, checker.st() == cat_st(c, st0, files@, vi0 as int), w.out() =~= o0 + cat_all(c, st0, files@, vi0 as int),
  decreases m - vi0,
//@loopstart 0
  let ghost k0 = vi0 as int; let ghost o1 = w.out(); let ghost cf = cfile_of(files@[k0]@); let ghost n0 = cat_n(c, files@, k0); proof { lemma_names(c, n0, cf.head); lemma_n_le(c, files@, k0 + 1, m); }
//@after /v\.add_names\([^;]*\)\?;/
  proof { assert(header.given() =~= cat_names(c, cf.head)); }
//@beforeloop 1
  let ghost o2 = w.out(); proof { assert(o2 + cat_lines(c, cf, n0, 0) =~= o2); }
//@loop 1 l
  invariant_except_break 0 <= f.at() < cf.lines.len(),
  invariant f.file() == cf, 0 <= f.at() <= cf.lines.len(), v.text == c.m, not_v.text == c.m, v.kinds() == kinds_at(c, n0 + counted(c, cf, f.at())), plain(c, not_v.kinds()), removes.id() == c.remove, skips.id() == c.skip, w.out() =~= o2 + cat_lines(c, cf, n0, f.at()),
  ensures f.at() == cf.lines.len(),
  decreases cf.lines.len() - f.at(),
//@loopstart 1
  let ghost i0 = f.at(); let ghost n1 = n0 + counted(c, cf, i0); proof { lemma_row(c, n1, cf.lines[i0], not_v.kinds()); lemma_counted_le(c, cf, i0 + 1, cf.lines.len() as int); assert(!accepts(c.remove, nonl(cf.lines[i0])) && !accepts(c.skip, nonl(cf.lines[i0])) ==> n1 < isize::MAX); assert(o2 + cat_lines(c, cf, n0, i0) + numbered(c, dec(n1), cf.lines[i0]) =~= o2 + (cat_lines(c, cf, n0, i0) + numbered(c, dec(n1), cf.lines[i0]))); }
//@end
}
fn main(){}
