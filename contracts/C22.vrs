// C22: cat, paste and transpose rearrange whole lines and columns only
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@include std.vrs
//@include io.vrs
//@include str.vrs
//@include reader.vrs
#[verifier::external_body]
pub struct StringLine { x: u8 }
impl StringLine {
    pub uninterp spec fn names(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.names().len() { unimplemented!() }
    /// header()[i].as_bytes()
    #[verifier::external_body]
    pub fn verif_name(&self, i: usize) -> (r: &[u8]) ensures r@ == (if i < self.names().len() { self.names()[i as int] } else { seq![] }) { unimplemented!() }
}
impl Reader {
    pub uninterp spec fn head(&self) -> bool;
    pub uninterp spec fn names(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn has_header(&self) -> (r: bool) ensures r == self.head() { unimplemented!() }
    #[verifier::external_body]
    pub fn header(&self) -> (r: &StringLine) ensures r.names() == self.names() { unimplemented!() }
}
/// reading on changes neither header nor names
#[verifier::external_body]
pub proof fn axiom_header(a: &Reader, b: &Reader) requires a.same(b), ensures a.head() == b.head(), a.names() == b.names() { }
#[verifier::external_body]
pub struct Sink { x: u8 }
pub uninterp spec fn sunk(s: Sink) -> Seq<u8>;
impl Write for Sink {
    open spec fn out(&self) -> Seq<u8> { sunk(*self) }
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> (r: Result<()>) { unimplemented!() }
}
pub type Ls = Seq<Seq<u8>>;
// ---- transpose
/// column i of the first n lines, with its name in front if there is one
pub open spec fn turned(name: Option<Seq<u8>>, d: Ls, i: int, n: int) -> Seq<u8> decreases n { if n <= 0 { match name { Some(x) => x, None => seq![] } } else if n == 1 && name is None { colv(d[0], i) } else { turned(name, d, i, n - 1).push(9u8) + colv(d[n - 1], i) } }
pub open spec fn title(f: &Reader, i: int) -> Option<Seq<u8>> { if f.head() { Some(f.names()[i]) } else { None } }
pub open spec fn columns(f: &Reader, d: Ls, n: int, c: int) -> Seq<u8> decreases c { if c <= 0 { seq![] } else { columns(f, d, n, c - 1) + turned(title(f, c - 1), d, c - 1, n).push(10u8) } }
pub open spec fn least(a: int, b: int) -> int { if a < b { a } else { b } }
//@fn src/transpose.rs transpose (r)
  requires old(f).ok(), old(f).splits(), old(f).pos() == 0,
  ensures r is Ok ==> final(w).out() == old(w).out() + (if head { seq![32u8, 67, 68, 88, 9] } else { seq![] }) + columns(old(f), old(f).lines(), least(max_lines as int, old(f).lines().len() as int), old(f).names().len() as int),
//@from /let mut data = /
//@sig fn transpose_lines<W: Write>(f: &mut Reader, head: bool, max_lines: usize, w: &mut W) -> Result<()>
//@sub /let mut data = Vec::new\(\)/ => let mut data: Vec<TextLine> = Vec::new()
//@sub /let mut lines = 0;/ => let mut lines: usize = 0;
//@sub /let mut w = get_writer\("-"\)\?;/ => 
//@sub /f\.header\(\)\[i\]\.as_bytes\(\)/ => f.header().verif_name(i)
//@sub /&x\[i\]/ => x.get(i)
//@start
  let ghost f0 = *f; let ghost d = f.lines(); let ghost n = least(max_lines as int, d.len() as int); let ghost o0 = w.out(); let ghost cs = f.names().len() as int;
//@loop 0 w
  invariant f.same(&f0), f0.lines() == d, f.splits(), f0.ok(), n == least(max_lines as int, d.len() as int), f.pos() == lines, lines <= n, data@.len() == lines, forall|k: int| 0 <= k < lines ==> tl_split(#[trigger] data@[k]) && tl_line(data@[k]) == d[k],
  ensures lines == n,
  decreases n - lines,
//@afterloop 0
  proof { axiom_header(f, &f0); assert(columns(&f0, d, n, 0) =~= seq![]); }
//@beforeloop 1
  let ghost o1 = w.out();
//@loop 1 f
  invariant f.same(&f0), f.head() == f0.head(), f.names() == f0.names(), cs == f0.names().len(), data@.len() == n, forall|k: int| 0 <= k < n ==> tl_split(#[trigger] data@[k]) && tl_line(data@[k]) == d[k], w.out() =~= o1 + columns(&f0, d, n, i as int),
//@loopstart 1
  let ghost t = title(&f0, i as int); let ghost o2 = w.out();
//@loop 2 d
  invariant vi2 <= data@.len(), data@.len() == n, 0 <= i < f0.names().len(), t == title(&f0, i as int), forall|k: int| 0 <= k < n ==> tl_split(#[trigger] data@[k]) && tl_line(data@[k]) == d[k], w.out() =~= o2 + turned(t, d, i as int, vi2 as int), need_tab == (t is Some || vi2 > 0),
  decreases n - vi2,
//@loopend 1
  proof { assert(columns(&f0, d, n, i + 1) =~= columns(&f0, d, n, i as int) + turned(t, d, i as int, n).push(10u8)); }
//@end
// ---- paste
#[verifier::external_body]
pub struct ScopedValues { x: u8 }
impl ScopedValues {
    pub uninterp spec fn at(&self, j: int) -> Seq<u8>;
    /// get(j).as_bytes()
    #[verifier::external_body]
    pub fn verif_get(&self, j: usize) -> (r: &[u8]) ensures r@ == self.at(j as int) { unimplemented!() }
}
#[derive(PartialEq, Eq, Structural)]
//@item src/bin/cdx/paste_main.rs enum EndMode
pub struct Rng { pub start: usize, pub end: usize }
/// the fill values of columns a..b
pub open spec fn fill(v: &ScopedValues, a: int, b: int) -> Seq<u8> decreases b - a { if b <= a { seq![] } else if b == a + 1 { v.at(a) } else { fill(v, a, b - 1).push(9u8) + v.at(b - 1) } }
pub struct Plan { pub r: Seq<Ls>, pub g: Seq<Rng>, pub v: ScopedValues, pub last: bool }
/// what file i gives for row k: its line, its last line or the fill values
pub open spec fn cell(p: Plan, i: int, k: int) -> Seq<u8> { if k < p.r[i].len() { nonl(p.r[i][k]) } else if p.last && p.r[i].len() > 0 { nonl(p.r[i].last()) } else { fill(&p.v, p.g[i].start as int, p.g[i].end as int) } }
pub open spec fn cells(p: Plan, k: int, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else if n == 1 { cell(p, 0, k) } else { cells(p, k, n - 1).push(9u8) + cell(p, n - 1, k) } }
pub open spec fn rows(p: Plan, k: int) -> Seq<u8> decreases k { if k <= 0 { seq![] } else { rows(p, k - 1) + cells(p, k - 1, p.r.len() as int).push(10u8) } }
/// how many files have no row k
pub open spec fn ended(r: Seq<Ls>, k: int, n: int) -> int decreases n { if n <= 0 { 0 } else { ended(r, k, n - 1) + (if k >= r[n - 1].len() { 1int } else { 0 }) } }
/// where to stop
pub open spec fn stops(m: EndMode, r: Seq<Ls>, k: int) -> bool {
    match m {
        EndMode::Exact => forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).len() == k,
        EndMode::Early => (forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).len() >= k) && (r.len() > 0 ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).len() == k),
        EndMode::Late => (forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).len() <= k) && (k > 0 ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).len() == k),
    }
}
pub proof fn lemma_ended(r: Seq<Ls>, k: int, n: int) requires 0 <= n <= r.len(), ensures 0 <= ended(r, k, n) <= n, ended(r, k, n) == 0 ==> (forall|i: int| 0 <= i < n ==> k < (#[trigger] r[i]).len()), ended(r, k, n) == n ==> (forall|i: int| 0 <= i < n ==> k >= (#[trigger] r[i]).len()), ended(r, k, n) > 0 ==> (exists|i: int| 0 <= i < n && k >= (#[trigger] r[i]).len()), ended(r, k, n) < n ==> (exists|i: int| 0 <= i < n && k < (#[trigger] r[i]).len()) decreases n
{ if n > 0 { lemma_ended(r, k, n - 1); } }
pub open spec fn files_ok(f: Seq<Reader>, r: Seq<Ls>) -> bool { f.len() == r.len() && forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).lines() == r[i] && r[i].len() < usize::MAX }
/// file i stands at row k, or at its end
pub open spec fn at(f: Seq<Reader>, r: Seq<Ls>, i: int, k: int) -> bool { f[i].pos() == least(k, r[i].len() as int) }
//@fn src/bin/cdx/paste_main.rs main (r)
  requires files_ok(old(fds)@, p.r), p.g == rngs@, p.v == *dflt, p.last == use_last, rngs@.len() == p.r.len(), vn == p.r.len(), forall|i: int| 0 <= i < p.r.len() ==> at(old(fds)@, p.r, #[trigger] vid(i), 0), vlive + vdead == vn, vdead == ended(p.r, 0, p.r.len() as int),
    forall|i: int| 0 <= i < rngs@.len() ==> (#[trigger] had_data@[i]) == (p.r[i].len() > 0), had_data@.len() == p.r.len(), forall|i: int| 0 <= i < rngs@.len() ==> (#[trigger] rngs@[i]).start <= rngs@[i].end,
  ensures r is Ok ==> exists|k: int| 0 <= k && stops(end_mode, p.r, k) && final(w).out() == old(w).out() + #[trigger] rows(p, k),
//@from /while num_live > 0/
//@sig fn paste_lines<W: Write>(fds: &mut Vec<Reader>, rngs: &Vec<Rng>, had_data: &Vec<bool>, dflt: &ScopedValues, end_mode: EndMode, use_last: bool, vlive: usize, vdead: usize, vn: usize, w: &mut W, Ghost(p): Ghost<Plan>) -> Result<()>
//@sub /let mut s = String::new\(\);[\s\S]*?return err!\([^;]*\);/ => return err!("lengths");
//@sub /dflt\.get\(j\)\.as_bytes\(\)/ => dflt.verif_get(j)
//@start
  let mut num_live = vlive; let mut num_dead = vdead; let ghost o0 = w.out(); let ghost m = p.r.len() as int; let ghost mut k: int = 0;
  proof { lemma_ended(p.r, 0, m); }
//@loop 0 w
  invariant files_ok(fds@, p.r), p.g == rngs@, p.v == *dflt, p.last == use_last, rngs@.len() == m, m == p.r.len(), 0 <= k, forall|i: int| 0 <= i < m ==> at(fds@, p.r, #[trigger] vid(i), k), num_live + num_dead == m, num_dead == ended(p.r, k, m), w.out() =~= o0 + rows(p, k),
    num_live == 0 ==> stops(end_mode, p.r, k), m <= usize::MAX, had_data@.len() == m, forall|i: int| 0 <= i < m ==> (#[trigger] rngs@[i]).start <= rngs@[i].end, forall|i: int| 0 <= i < m ==> (#[trigger] had_data@[i]) == (p.r[i].len() > 0),
    end_mode is Exact || end_mode is Early ==> (k > 0 ==> ended(p.r, k - 1, m) == 0), end_mode is Late ==> (k > 0 ==> ended(p.r, k - 1, m) < m),
  ensures stops(end_mode, p.r, k),
  decreases longest(p.r, m) - k,
//@loopstart 0
  proof { lemma_ended(p.r, k, m); if k > 0 { lemma_ended(p.r, k - 1, m); } lemma_longest(p.r, m); }
//@beforeloop 1
  let ghost o1 = w.out();
//@loop 1 d
  invariant vi1 <= m, files_ok(fds@, p.r), p.g == rngs@, p.v == *dflt, p.last == use_last, rngs@.len() == m, m == p.r.len(), m <= usize::MAX, 0 <= k, forall|i: int| 0 <= i < vi1 ==> at(fds@, p.r, #[trigger] vid(i), k + 1), forall|i: int| vi1 <= i < m ==> at(fds@, p.r, #[trigger] vid(i), k),
    had_data@.len() == m, forall|i: int| 0 <= i < m ==> (#[trigger] rngs@[i]).start <= rngs@[i].end, forall|i: int| 0 <= i < m ==> (#[trigger] had_data@[i]) == (p.r[i].len() > 0),
    num_live + num_dead == m, num_dead == ended(p.r, k + 1, vi1 as int) + ended(p.r, k, m) - ended(p.r, k, vi1 as int), w.out() =~= o1 + cells(p, k, vi1 as int), need_delim == (vi1 > 0),
  decreases m - vi1,
//@loopstart 1
  let ghost fi = vi1 as int; proof { assert(at(fds@, p.r, vid(fi), k)); lemma_rest(p.r, k, vi1 + 1, m); lemma_ended(p.r, k + 1, fi); }
//@beforeloop 2
  let ghost o2 = w.out();
//@loop 2 f
  invariant p.g == rngs@, p.v == *dflt, rngs@.len() == m, i < m, w.out() =~= o2 + fill(&p.v, rngs@[i as int].start as int, j as int), nd == (j > rngs@[i as int].start),
//@loopend 1
  proof { assert(at(fds@, p.r, vid(fi), k + 1)); assert forall|i: int| vi1 <= i < m implies at(fds@, p.r, #[trigger] vid(i), k) by { } }
//@loopend 0
  proof { k = k + 1; lemma_ended(p.r, k - 1, m); lemma_ended(p.r, k, m); }
//@afterloop 0
  proof { assert(w.out() == o0 + rows(p, k)); }
//@end
pub open spec fn longest(r: Seq<Ls>, n: int) -> int decreases n { if n <= 0 { 0 } else if r[n - 1].len() > longest(r, n - 1) { r[n - 1].len() as int } else { longest(r, n - 1) } }
pub proof fn lemma_longest(r: Seq<Ls>, n: int) requires 0 <= n <= r.len(), ensures forall|i: int| 0 <= i < n ==> (#[trigger] r[i]).len() <= longest(r, n) decreases n { if n > 0 { lemma_longest(r, n - 1); } }
pub proof fn lemma_rest(r: Seq<Ls>, k: int, a: int, n: int) requires 0 <= a <= n <= r.len(), ensures 0 <= ended(r, k, n) - ended(r, k, a) <= n - a decreases n { if n > a { lemma_rest(r, k, a, n - 1); } }
pub open spec fn vid(i: int) -> int { i }
// ---- cat
#[derive(PartialEq, Eq, Structural)]
//@item src/bin/cdx/cat_main.rs enum PadMode
/// what the header checker makes of the first line of a file (C09)
pub uninterp spec fn shows(s: int, line: Seq<u8>) -> bool;
pub uninterp spec fn next(s: int, line: Seq<u8>) -> int;
#[verifier::external_body]
pub struct HeaderChecker { x: u8 }
impl HeaderChecker {
    pub uninterp spec fn st(&self) -> int;
    #[verifier::external_body]
    pub fn check(&mut self, line: &[u8], name: &str) -> (r: Result<bool>) ensures r matches Ok(b) ==> b == shows(old(self).st(), line@) && final(self).st() == next(old(self).st(), line@) { unimplemented!() }
}
pub struct Settings { pub checker: HeaderChecker }
/// a file opened for reading
#[verifier::external_body]
pub struct Infile { x: u8 }
pub uninterp spec fn unread(f: Infile) -> Seq<u8>;
/// the bytes of the file of this name
pub uninterp spec fn content(name: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn get_reader(name: &str) -> (r: Result<Infile>) ensures r matches Ok(f) ==> unread(f) == content(name@) { unimplemented!() }
impl BufRead for Infile {
    open spec fn rest(&self) -> Seq<u8> { unread(*self) }
    #[verifier::external_body]
    fn read_until(&mut self, d: u8, buf: &mut Vec<u8>) -> (r: Result<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn fill_buf(&mut self) -> (r: Result<&[u8]>) { unimplemented!() }
}
/// std::io::Read::read
#[verifier::external_body]
pub fn verif_read<const N: usize>(f: &mut Infile, b: &mut [u8; N]) -> (r: Result<usize>) requires N > 0, ensures r matches Ok(n) ==> n <= N && n <= old(f).rest().len() && final(b)@.subrange(0, n as int) == old(f).rest().subrange(0, n as int) && final(f).rest() == old(f).rest().skip(n as int) && (n == 0 ==> old(f).rest().len() == 0) { unimplemented!() }
#[verifier::external_body]
pub fn verif_start<const N: usize>(b: &[u8; N], n: usize) -> (r: &[u8]) requires n <= N, ensures r@ == b@.subrange(0, n as int) { unimplemented!() }
pub open spec fn ends_nl(s: Seq<u8>) -> bool { s.len() == 0 || s.last() == 10u8 }
/// the part of a file that is written: all of it, without the first line if that is a header already written
pub open spec fn body(st: int, d: Seq<u8>) -> Seq<u8> { let l = upto(d, 10u8); if d.len() == 0 { seq![] } else if shows(st, l) { d } else { d.skip(l.len() as int) } }
pub open spec fn state(st: int, d: Ls, n: int) -> int decreases n { if n <= 0 { st } else if d[n - 1].len() == 0 { state(st, d, n - 1) } else { next(state(st, d, n - 1), upto(d[n - 1], 10u8)) } }
pub open spec fn close(s: Seq<u8>, yes: bool) -> Seq<u8> { if yes && !ends_nl(s) { s.push(10u8) } else { s } }
/// the first n files, one after the other, a newline added after one that has no final newline if asked for
pub open spec fn together(st: int, d: Ls, pad: PadMode, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else { close(together(st, d, pad, n - 1) + body(state(st, d, n - 1), d[n - 1]), pad == PadMode::All) } }
pub open spec fn contents(names: Seq<String>) -> Ls { Seq::new(names.len(), |i: int| content(names[i]@)) }
#[verifier::rlimit(60)]
//@fn src/bin/cdx/cat_main.rs main (r)
  requires old(w).out().len() == 0,
  ensures r is Ok ==> final(w).out() == close(together(old(settings).checker.st(), contents(files@), pad, files@.len() as int), pad == PadMode::End),
//@from /const SIZE/
//@upto /\}\s*Ok\(\(\)\)\s*\}\s*$/
//@sig fn cat_files<W: Write>(files: &Vec<String>, settings: &mut Settings, pad: PadMode, w: &mut W) -> Result<()>
//@sub /let mut first_line = Vec::new\(\)/ => let mut first_line: Vec<u8> = Vec::new()
//@sub /for x in files \{/ => for x in files.iter() {
//@sub /get_reader\(&x\)/ => get_reader(x.as_str())
//@sub /\.check\(&first_line, &x\)/ => .check(&first_line, x.as_str())
//@sub /first_line\.last\(\)\.unwrap\(\) == &b'\\n'/ => first_line[first_line.len() - 1] == b'\\n'
//@sub /f\.read\(&mut buffer\[\.\.\]\)/ => verif_read(&mut f, &mut buffer)
//@sub /&buffer\[0?\.\.n\]/ => verif_start(&buffer, n)
//@start
  let ghost st = settings.checker.st(); let ghost d = contents(files@); let ghost m = files@.len() as int; proof { assert(w.out() =~= seq![]); }
//@loop 0 d
  invariant vi0 <= m, m == files@.len(), d == contents(files@), settings.checker.st() == state(st, d, vi0 as int), w.out() == together(st, d, pad, vi0 as int), last_was_cr == ends_nl(w.out()), pad == PadMode::All ==> last_was_cr,
  decreases m - vi0,
//@loopstart 0
  let ghost fi = vi0 as int; let ghost o1 = w.out(); let ghost b = d[fi]; let ghost s1 = state(st, d, fi); let ghost l = upto(b, 10u8); proof { lemma_upto(b, 10u8); assert(b == content(files@[fi]@)); if b.len() == 0 { assert(o1 + body(s1, b) =~= o1); } }
//@loop 1 l
  invariant w.out() + f.rest() =~= o1 + body(s1, b), last_was_cr == ends_nl(w.out()),
  ensures f.rest().len() == 0,
  decreases f.rest().len(),
//@loopend 0
  proof { assert(w.out() =~= together(st, d, pad, fi + 1)); }
//@end
//@include writer.vrs
impl Writer {
//@fn src/column.rs Writer::write (r)
  ensures r is Ok ==> final(w).out() == old(w).out() + parts(old(self).v@, tl_line(*line), old(self).text.delim, old(self).v@.len() as int).push(10u8) && final(self).v@.len() == old(self).v@.len() && final(self).text == old(self).text,
//@start
  let ghost v0 = self.v@; let ghost o0 = w.out(); let ghost l = tl_line(*line); let ghost dl = self.text.delim; let ghost t0 = self.text;
//@loop 0 d
  invariant vi0 <= v0.len(), self.v@.len() == v0.len(), self.text == t0, t0.delim == dl, l == tl_line(*line), forall|k: int| vi0 <= k < v0.len() ==> #[trigger] self.v@[k] == v0[k], need_delim == some(v0, vi0 as int), w.out() =~= o0 + parts(v0, l, dl, vi0 as int),
  decreases v0.len() - vi0,
//@loopstart 0
  let ghost o1 = w.out(); let ghost fi = vi0 as int; proof { lemma_some(v0, fi); assert(self.v@[fi] == v0[fi]); }
//@loopend 0
  proof { assert(!v0[fi].none()); assert(parts(v0, l, dl, fi + 1) =~= (if some(v0, fi) { parts(v0, l, dl, fi).push(dl) + v0[fi].shown(l, dl) } else { v0[fi].shown(l, dl) })); if !some(v0, fi) { lemma_no_parts(v0, l, dl, fi); } assert(w.out() =~= o0 + parts(v0, l, dl, vi0 as int)); }
//@end
}
fn main() {}
}
