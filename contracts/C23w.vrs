// C23: cdx wc reports exactly the lines of each file, and the sums over the files
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@include std.vrs
//@include io.vrs
//@include str.vrs
pub type Text = Seq<char>;
pub type Ls = Seq<Seq<u8>>;
pub uninterp spec fn fadd(a: f64, b: f64) -> f64;
#[verifier::external_body]
pub fn verif_fadd(a: f64, b: f64) -> (r: f64) ensures r == fadd(a, b) { unimplemented!() }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct NumFormat { x: u8 }
pub uninterp spec fn shown(f: NumFormat, x: f64) -> Seq<u8>;
impl NumFormat {
    #[verifier::external_body]
    pub fn print(&self, x: f64, w: &mut dyn Write) -> (r: Result<()>) ensures r is Ok ==> final(w).out() == old(w).out() + shown(*self, x) { unimplemented!() }
}
//@item src/util.rs enum Tri
/// a file: its header line, its column names, its lines
pub ghost struct WFile { pub something: bool, pub delim: u8, pub names: Seq<Text>, pub lines: Ls }
pub uninterp spec fn file_of(name: Text) -> WFile;
#[verifier::external_body]
pub struct TextLine { x: u8 }
impl TextLine {
    pub uninterp spec fn text(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn line(&self) -> (r: &[u8]) ensures r@ == self.text() { unimplemented!() }
}
#[verifier::external_body]
pub struct Reader { x: u8 }
#[verifier::external_body]
pub struct Names { x: u8 }
impl Names { pub uninterp spec fn all(&self) -> Seq<Text>; }
impl Reader {
    pub uninterp spec fn file(&self) -> WFile;
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn open(&mut self, s: &String) -> (r: Result<()>) ensures r is Ok ==> final(self).file() == file_of(s@) && final(self).at() == 0 && (!final(self).file().something ==> final(self).file().lines.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == !self.file().something { unimplemented!() }
    #[verifier::external_body]
    pub fn is_done(&self) -> (r: bool) ensures r == (self.at() >= self.file().lines.len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn delim(&self) -> (r: u8) ensures r == self.file().delim { unimplemented!() }
    #[verifier::external_body]
    pub fn names(&self) -> (r: Names) ensures r.all() == self.file().names { unimplemented!() }
    #[verifier::external_body]
    pub fn header(&self) -> (r: &Names) ensures r.all() == self.file().names { unimplemented!() }
    #[verifier::external_body]
    pub fn do_split(&mut self, b: bool) ensures final(self).file() == old(self).file(), final(self).at() == old(self).at() { unimplemented!() }
    #[verifier::external_body]
    pub fn curr_line(&self) -> (r: &TextLine) ensures 0 <= self.at() < self.file().lines.len() ==> r.text() == self.file().lines[self.at()] { unimplemented!() }
    #[verifier::external_body]
    pub fn getline(&mut self) -> (r: Result<bool>) requires 0 <= old(self).at() < old(self).file().lines.len(), ensures r matches Ok(b) ==> final(self).file() == old(self).file() && final(self).at() == old(self).at() + 1 && b == (final(self).at() == final(self).file().lines.len()) { unimplemented!() }
}
/// the aggregates: what was asked for, and what was added since the last reset (C23)
#[verifier::external_body]
pub struct AggList { x: u8 }
/// the number an aggregate stands at
pub uninterp spec fn aval(a: Seq<Text>, f: NumFormat, i: int, h: Ls) -> f64;
/// the line of all the aggregates
pub uninterp spec fn row(a: Seq<Text>, f: NumFormat, h: Ls, d: u8) -> Seq<u8>;
/// the header line: the name for the file column, if any, and the names of the aggregates
pub uninterp spec fn head(a: Seq<Text>, f: NumFormat, file_col: Seq<Text>) -> Seq<u8>;
pub uninterp spec fn fmt0() -> NumFormat;
impl AggList {
    pub uninterp spec fn asked(&self) -> Seq<Text>;
    pub uninterp spec fn added(&self) -> Ls;
    pub uninterp spec fn form(&self) -> NumFormat;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.asked().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.asked().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, s: &str) -> (r: Result<()>) ensures r is Ok ==> final(self).asked() == old(self).asked().push(s@) && final(self).added() == old(self).added() && final(self).form() == old(self).form() { unimplemented!() }
    #[verifier::external_body]
    pub fn fmt(&mut self, f: NumFormat) ensures final(self).asked() == old(self).asked(), final(self).added() == old(self).added(), final(self).form() == f { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&mut self, d: &[u8]) ensures final(self).asked() == old(self).asked(), final(self).added() == old(self).added().push(d@), final(self).form() == old(self).form() { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self) ensures final(self).asked() == old(self).asked(), final(self).added() == Ls::empty(), final(self).form() == old(self).form() { unimplemented!() }
    #[verifier::external_body]
    pub fn verif_value(&self, i: usize) -> (r: f64) requires i < self.asked().len(), ensures r == aval(self.asked(), self.form(), i as int, self.added()) { unimplemented!() }
    #[verifier::external_body]
    pub fn fill(&self, w: &mut Writer) ensures final(w).asked() == self.asked(), final(w).delim() == old(w).delim() { unimplemented!() }
}
/// writes the aggregates it was filled from (it shares their state)
#[verifier::external_body]
pub struct Writer { x: u8 }
#[verifier::external_body]
pub struct ColumnHeader { x: u8 }
impl ColumnHeader {
    pub uninterp spec fn first(&self) -> Seq<Text>;
    pub uninterp spec fn aggs(&self) -> Seq<Text>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.first() == Seq::<Text>::empty(), r.aggs() == Seq::<Text>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, s: &String) -> (r: Result<()>) ensures r is Ok && old(self).aggs().len() == 0 ==> final(self).first() == old(self).first().push(s@) && final(self).aggs() == old(self).aggs() { unimplemented!() }
    #[verifier::external_body]
    pub fn verif_head(&self, f: NumFormat) -> (r: &[u8]) ensures r@ == head(self.aggs(), f, self.first()) { unimplemented!() }
}
impl Writer {
    pub uninterp spec fn asked(&self) -> Seq<Text>;
    pub uninterp spec fn delim(&self) -> u8;
    #[verifier::external_body]
    pub fn verif_new(d: u8) -> (r: Self) ensures r.delim() == d { unimplemented!() }
    #[verifier::external_body]
    pub fn lookup(&mut self, n: &Names) -> (r: Result<()>) ensures r is Ok ==> final(self).asked() == old(self).asked() && final(self).delim() == old(self).delim() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_names(&mut self, c: &mut ColumnHeader, n: &Names) -> (r: Result<()>) ensures r is Ok ==> final(self).asked() == old(self).asked() && final(self).delim() == old(self).delim() && final(c).first() == old(c).first() && final(c).aggs() == old(self).asked() { unimplemented!() }
    #[verifier::external_body]
    pub fn verif_write(&mut self, a: &AggList, w: &mut dyn Write) -> (r: Result<()>) requires old(self).asked() == a.asked(), ensures r is Ok ==> final(self).asked() == old(self).asked() && final(self).delim() == old(self).delim() && final(w).out() == old(w).out() + row(a.asked(), a.form(), a.added(), old(self).delim()) { unimplemented!() }
}
pub open spec fn tri(t: Tri, dflt: bool) -> bool { match t { Tri::Yes => true, Tri::No => false, Tri::Maybe => dflt } }
/// what is asked for
pub ghost struct Wc { pub a: Seq<Text>, pub f: NumFormat, pub show_file: bool, pub header: bool, pub only: bool, pub col: Text, pub files: Seq<Text> }
/// the output for the first k files
pub open spec fn rows(c: Wc, k: int) -> Seq<u8> decreases k { if k <= 0 { seq![] } else { rows(c, k - 1) + head_part(c, k - 1) + row_part(c, k - 1) } }
/// the header comes before the first file with anything in it
pub open spec fn head_part(c: Wc, i: int) -> Seq<u8> { if c.header && file_of(c.files[i]).something && !seen(c, i) { head(c.a, c.f, if c.show_file { seq![c.col] } else { seq![] }) } else { seq![] } }
pub open spec fn seen(c: Wc, i: int) -> bool decreases i { i > 0 && (file_of(c.files[i - 1]).something || seen(c, i - 1)) }
/// a file with lines has a line of its own, of exactly its lines
pub open spec fn row_part(c: Wc, i: int) -> Seq<u8> { let f = file_of(c.files[i]); if c.only || !f.something || f.lines.len() == 0 { seq![] } else { (if c.show_file { utf8(c.files[i]) + seq![9u8] } else { seq![] }) + row(c.a, c.f, f.lines, f.delim) } }
/// the sums over the first k files
pub open spec fn sum(c: Wc, i: int, k: int) -> f64 decreases k { if k <= 0 { 0.0f64 } else { let f = file_of(c.files[k - 1]); if !f.something || f.lines.len() == 0 { sum(c, i, k - 1) } else { fadd(sum(c, i, k - 1), aval(c.a, c.f, i, f.lines)) } } }
pub open spec fn names(f: Seq<String>) -> Seq<Text> { Seq::new(f.len(), |i: int| f[i]@) }
pub open spec fn asked_or(a: Seq<Text>) -> Seq<Text> { if a.len() == 0 { seq!["lines,count"@] } else { a } }
pub open spec fn wc_of(a: Seq<Text>, f: NumFormat, nm: Tri, hd: Tri, only: bool, col: Text, files: Seq<Text>) -> Wc {
    let s = tri(nm, files.len() > 1 && !only); let aa = asked_or(a);
    Wc { a: aa, f, show_file: s, header: tri(hd, aa.len() > 1 || s), only, col, files }
}
#[verifier::external_body]
pub fn verif_zeros(v: &mut Vec<f64>, n: usize) requires old(v)@.len() == 0, ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(v)@[i] == 0.0f64 { unimplemented!() }
#[verifier::external_body]
pub fn verif_sbytes(s: &String) -> (r: &[u8]) ensures r@ == utf8(s@) { unimplemented!() }
/// cdx wc without --columns
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@fn src/bin/cdx/wc_main.rs main (r)
  requires old(agg).added() == Ls::empty(), first_file, old(totals)@.len() == 0,
  ensures r matches Ok(v) ==> ({ let c = wc_of(old(agg).asked(), fmt, show_file_name, show_header, total_only, file_name_col@, names(files@));
    &&& final(w).out() == old(w).out() + rows(c, files@.len() as int)
    &&& final(totals)@.len() == c.a.len() && forall|i: int| 0 <= i < c.a.len() ==> #[trigger] final(totals)@[i] == sum(c, i, files@.len() as int)
    &&& v.0 == c.show_file && v.1 == (tri(show_totals, files@.len() > 1) || total_only)
  }),
//@from /if agg\.is_empty\(\) \{\s*agg\.push\("lines,count"\)/
//@upto /\}\s*if do_totals \{\s*if show_file/
//@sig fn wc_plain(agg: &mut AggList, fmt: NumFormat, totals: &mut Vec<f64>, show_file_name: Tri, show_header: Tri, show_totals: Tri, total_only: bool, file_name_col: String, files: Vec<String>, mut first_file: bool, w: &mut dyn Write) -> Result<(bool, bool)>
//@sub /\bshow_file = match/ => let show_file = match
//@sub /\bdo_totals = match/ => let do_totals = match
//@sub /totals\.resize\(agg\.len\(\), 0\.0\)/ => verif_zeros(totals, agg.len())
//@sub /Reader::new\(&settings\.text_in\)/ => Reader::new()
//@sub /Writer::new\(settings\.text_out2\(f\.delim\(\)\)\)/ => Writer::verif_new(f.delim())
//@sub /ch\.get_head\(&settings\.text_out\(\)\)\.as_bytes\(\)/ => ch.verif_head(fmt)
//@sub /x\.as_bytes\(\)/ => verif_sbytes(x)
//@sub /c_write\.write\(&mut w\.0, &nada\)/ => c_write.verif_write(agg, w)
//@sub /totals\[i\] \+= agg\.get\(i\)\.agg\.borrow\(\)\.value\(\);/ => let vsum = verif_fadd(totals[i], agg.verif_value(i)); totals.set(i, vsum);
//@sub /Ok\(\(\)\)\s*\}\s*$/ => Ok((show_file, do_totals)) }
//@start
  let ghost o0 = w.out(); let ghost a0 = agg.asked();
//@beforeloop 0
  let ghost c = wc_of(a0, fmt, show_file_name, show_header, total_only, file_name_col@, names(files@));
  proof { assert(c.a =~= agg.asked()); assert(names(files@).len() == files@.len()); assert(o0 + rows(c, 0) =~= o0); }
//@loop 0 d
  invariant vi0 <= files@.len(), agg.asked() == c.a, agg.form() == fmt, agg.added() == Ls::empty(), first_file == (!c.header || !seen(c, vi0 as int)),
    w.out() == o0 + rows(c, vi0 as int), totals@.len() == c.a.len(), forall|i: int| 0 <= i < c.a.len() ==> #[trigger] totals@[i] == sum(c, i, vi0 as int),
  decreases files@.len() - vi0,
//@loopstart 0
  let ghost k0 = vi0 as int; let ghost o1 = w.out(); let ghost fl = file_of(files@[k0]@); let ghost t0 = totals@;
  proof { assert(names(files@)[k0] == files@[k0]@); assert(c.files[k0] == files@[k0]@); assert(o0 + rows(c, k0 + 1) =~= o1 + head_part(c, k0) + row_part(c, k0)); }
//@loop 1 l
  invariant_except_break 0 <= f.at() < fl.lines.len(),
  invariant f.file() == fl, 0 <= f.at() <= fl.lines.len(), agg.asked() == c.a, agg.form() == fmt, agg.added() =~= fl.lines.subrange(0, f.at()),
  ensures f.at() == fl.lines.len(), agg.added() == fl.lines,
  decreases fl.lines.len() - f.at(),
//@loop 2 f
  invariant agg.asked() == c.a, agg.form() == fmt, agg.added() == fl.lines, totals@.len() == c.a.len(),
    forall|j: int| 0 <= j < i ==> #[trigger] totals@[j] == fadd(t0[j], aval(c.a, c.f, j, fl.lines)), forall|j: int| i <= j < c.a.len() ==> #[trigger] totals@[j] == t0[j],
//@end
/// the numbers of the last line, with tabs between them
pub open spec fn totals_row(f: NumFormat, t: Seq<f64>, k: int) -> Seq<u8> decreases k { if k <= 0 { seq![] } else { totals_row(f, t, k - 1) + (if k > 1 { seq![9u8] } else { seq![] }) + shown(f, t[k - 1]) } }
pub open spec fn totals_line(f: NumFormat, t: Seq<f64>, show_file: bool) -> Seq<u8> { (if show_file { seq![0x74u8, 0x6fu8, 0x74u8, 0x61u8, 0x6cu8, 0x73u8, 9u8] } else { seq![] }) + totals_row(f, t, t.len() as int) + seq![10u8] }
/// the line of totals
#[verifier::loop_isolation(false)] #[verifier::spinoff_prover]
//@fn src/bin/cdx/wc_main.rs main (r)
  ensures r is Ok ==> final(w).out() == old(w).out() + (if do_totals { totals_line(fmt, totals@, show_file) } else { seq![] }),
//@from /if do_totals \{\s*if show_file/
//@sig fn wc_totals(do_totals: bool, show_file: bool, totals: Vec<f64>, fmt: NumFormat, w: &mut dyn Write) -> Result<()>
//@sub /fmt\.print\(\*t, &mut w\.0\)/ => fmt.print(*t, w)
//@start
  let ghost o0 = w.out(); proof { assert(o0 + Seq::<u8>::empty() =~= o0); }
//@beforeloop 0
  let ghost o1 = w.out(); proof { assert(o1 + totals_row(fmt, totals@, 0) =~= o1); }
//@loop 0 d
  invariant vi0 <= totals@.len(), w.out() == o1 + totals_row(fmt, totals@, vi0 as int),
  decreases totals@.len() - vi0,
//@loopstart 0
  let ghost k0 = vi0 as int; let ghost o2 = w.out(); proof { assert(o1 + totals_row(fmt, totals@, k0 + 1) =~= o2 + (if k0 > 0 { seq![9u8] } else { seq![] }) + shown(fmt, totals@[k0])); }
//@afterloop 0
  proof { assert(o1 + totals_row(fmt, totals@, totals@.len() as int) + seq![10u8] =~= o0 + totals_line(fmt, totals@, show_file)); }
//@end
// ---- the options
/// equal but for the case of ASCII letters
pub uninterp spec fn nocase(a: Text, b: Text) -> bool;
#[verifier::external_body]
pub fn verif_nocase(a: &str, b: &str) -> (r: bool) ensures r == nocase(a@, b@) { a.eq_ignore_ascii_case(b) }
//@gsub /(?<![\w.])(\w+)\.eq_ignore_ascii_case\(/ => verif_nocase(\1, 
/// this text means this answer
pub open spec fn says(t: Tri, s: Text) -> bool {
    match t {
        Tri::Yes => nocase(s, "yes"@) || nocase(s, "true"@) || nocase(s, "1"@) || nocase(s, "on"@),
        Tri::No => nocase(s, "no"@) || nocase(s, "false"@) || nocase(s, "0"@) || nocase(s, "off"@),
        Tri::Maybe => nocase(s, "maybe"@) || nocase(s, "sometimes"@),
    }
}
impl Tri {
//@fn src/util.rs Tri::new (r)
  ensures r matches Ok(t) ==> says(t, x@), r is Err ==> forall|t: Tri| !#[trigger] says(t, x@),
//@end
}
/// the format by its name
pub uninterp spec fn fmt_of(s: Text) -> NumFormat;
#[verifier::external_body]
pub fn verif_fmt(s: &str) -> (r: Result<NumFormat>) ensures r matches Ok(f) ==> f == fmt_of(s@) { unimplemented!() }
#[verifier::external_body]
pub fn verif_fmt0() -> (r: NumFormat) ensures r == fmt0() { unimplemented!() }
#[verifier::external_body]
pub fn verif_agg0() -> (r: AggList) ensures r.asked() == Seq::<Text>::empty(), r.added() == Ls::empty() { unimplemented!() }
#[verifier::external_body]
pub fn verif_unreachable() requires false { unimplemented!() }
//@item src/bin/cdx/args.rs struct ArgValue
/// an answer asked for, or none
pub open spec fn answers(t: Tri, s: Option<Text>) -> bool { match s { None => t is Maybe, Some(x) => says(t, x) } }
pub ghost struct Opts { pub a: Seq<Text>, pub col: Text, pub file: Option<Text>, pub head: Option<Text>, pub tot: Option<Text>, pub only: bool, pub columns: bool, pub fmt: NumFormat }
pub open spec fn opts(a: Seq<ArgValue>, k: int) -> Opts decreases k {
    if k <= 0 { Opts { a: seq![], col: "file"@, file: None, head: None, tot: None, only: false, columns: false, fmt: fmt0() } } else {
        let o = opts(a, k - 1); let x = a[k - 1]; let n = x.name@; let v = x.value@;
        if n == "agg"@ { Opts { a: o.a.push(v), ..o } }
        else if n == "lines"@ { Opts { a: o.a.push("lines,count"@), ..o } }
        else if n == "bytes"@ { Opts { a: o.a.push("bytes,asum,chars"@), ..o } }
        else if n == "chars"@ { Opts { a: o.a.push("chars,asum,utf8.chars"@), ..o } }
        else if n == "words"@ { Opts { a: o.a.push("words,asum,swords"@), ..o } }
        else if n == "format"@ { Opts { fmt: fmt_of(v), ..o } }
        else if n == "columns"@ { Opts { columns: true, ..o } }
        else if n == "total"@ { if nocase(v, "only"@) { Opts { only: true, ..o } } else { Opts { tot: Some(v), ..o } } }
        else if n == "with-header"@ { Opts { head: Some(v), ..o } }
        else { let c = index_of(v, ','); if c >= 0 { Opts { file: Some(v.subrange(0, c)), col: v.skip(c + 1), ..o } } else { Opts { file: Some(v), ..o } } }
    }
}
pub open spec fn wc_arg(n: Text) -> bool { n == "agg"@ || n == "lines"@ || n == "bytes"@ || n == "chars"@ || n == "words"@ || n == "format"@ || n == "columns"@ || n == "total"@ || n == "with-header"@ || n == "file"@ }
/// the names of the options are all different
pub proof fn lemma_names()
  ensures forall|n: Text| wc_arg(n) ==> code(n) != 0 && (n == "agg"@) == (code(n) == 1) && (n == "lines"@) == (code(n) == 2) && (n == "bytes"@) == (code(n) == 3) && (n == "chars"@) == (code(n) == 4) && (n == "words"@) == (code(n) == 5)
    && (n == "format"@) == (code(n) == 6) && (n == "columns"@) == (code(n) == 7) && (n == "total"@) == (code(n) == 8) && (n == "with-header"@) == (code(n) == 9) && (n == "file"@) == (#[trigger] code(n) == 10),
{
    reveal_strlit("agg"); reveal_strlit("lines"); reveal_strlit("bytes"); reveal_strlit("chars"); reveal_strlit("words"); reveal_strlit("format"); reveal_strlit("columns"); reveal_strlit("total"); reveal_strlit("with-header"); reveal_strlit("file");
    assert("agg"@[0] == 'a' && "lines"@[0] == 'l' && "bytes"@[0] == 'b' && "chars"@[0] == 'c' && "words"@[0] == 'w' && "format"@[0] == 'f' && "columns"@[0] == 'c' && "total"@[0] == 't' && "with-header"@[0] == 'w' && "file"@[0] == 'f');
    assert("chars"@.len() == 5 && "columns"@.len() == 7 && "words"@.len() == 5 && "with-header"@.len() == 11 && "format"@.len() == 6 && "file"@.len() == 4);
}
pub open spec fn code(n: Text) -> int { if n.len() == 0 { 0 } else if n[0] == 'a' { 1 } else if n[0] == 'l' { 2 } else if n[0] == 'b' { 3 } else if n[0] == 'c' { if n.len() == 5 { 4 } else { 7 } } else if n[0] == 'w' { if n.len() == 5 { 5 } else { 9 } } else if n[0] == 'f' { if n.len() == 6 { 6 } else { 10 } } else if n[0] == 't' { 8 } else { 0 } }
/// reading the options of cdx wc
#[verifier::loop_isolation(false)] #[verifier::spinoff_prover]
//@fn src/bin/cdx/wc_main.rs main (r)
  requires forall|i: int| 0 <= i < args@.len() ==> wc_arg((#[trigger] args@[i]).name@),
  ensures r matches Ok(v) ==> ({ let o = opts(args@, args@.len() as int); v.0.asked() == o.a && v.0.added() == Ls::empty() && v.1@ == o.col && answers(v.2, o.file) && answers(v.3, o.head) && answers(v.4, o.tot) && v.5 == o.only && v.6 == o.columns && v.7 == o.fmt }),
//@from /let mut agg = AggList::new\(\);/
//@upto /let nada = TextLine::new\(\);/
//@sig fn wc_args(args: Vec<ArgValue>) -> Result<(AggList, String, Tri, Tri, Tri, bool, bool, NumFormat)>
//@sub /AggList::new\(\)/ => verif_agg0()
//@sub /NumFormat::default\(\)/ => verif_fmt0()
//@sub /NumFormat::new\(/ => verif_fmt(
//@sub /"file"\.to_string\(\)/ => verif_to_string("file")
//@sub /\bb\.to_string\(\)/ => verif_to_string(b)
//@sub /for x in args \{/ => for x in args.iter() {
//@sub /x\.name == ("[^"]*")/ => verif_s_eq(verif_as_str(&x.name), \1)
//@sub /x\.value\.eq_ignore_ascii_case\(/ => verif_nocase(verif_as_str(&x.value), 
//@sub /x\.value\.split_once\(','\)/ => verif_split_once(verif_as_str(&x.value), ',')
//@sub /(?<!verif_as_str\()&x\.value/ => verif_as_str(&x.value)
//@sub /unreachable!\(\)/ => verif_unreachable()
//@sub /Ok\(\(\)\)\s*\}\s*$/ => Ok((agg, file_name_col, show_file_name, show_header, show_totals, total_only, do_columns, fmt)) }
//@loop 0 d
  invariant vi0 <= args@.len(), ({ let o = opts(args@, vi0 as int); agg.asked() == o.a && agg.added() == Ls::empty() && file_name_col@ == o.col && answers(show_file_name, o.file) && answers(show_header, o.head) && answers(show_totals, o.tot) && total_only == o.only && do_columns == o.columns && fmt == o.fmt }),
  decreases args@.len() - vi0,
//@loopstart 0
  proof { lemma_names(); assert(wc_arg(args@[vi0 as int].name@)); assert(code(args@[vi0 as int].name@) >= 0); }
//@end
}
fn main(){}
