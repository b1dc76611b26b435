use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
//@include std.vrs
//@include cols.vrs
//@include io.vrs
//@include str.vrs
#[derive(Copy, Clone)]
//@item src/util.rs struct FakeSlice
//@item src/util.rs struct TextLine
//@item src/util.rs struct StringLine
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/util.rs enum HeadMode
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/util.rs enum QuoteMode
#[derive(Copy, Clone)]
//@item src/util.rs struct TextFileMode
//@item src/util.rs struct InfileContext
//@item src/util.rs struct FileLocData
//@item src/util.rs struct Reader
//@include recs.vrs
// ---- the file behind a reader ----
#[verifier::external_body]
pub struct Infile { x: u8 }
pub uninterp spec fn in_rest(f: Infile) -> Seq<u8>;
/// the bytes of a file (uncompressed)
pub uninterp spec fn file_text(name: Seq<char>) -> Seq<u8>;
impl BufRead for Infile {
    open spec fn rest(&self) -> Seq<u8> { in_rest(*self) }
    #[verifier::external_body]
    fn read_until(&mut self, d: u8, buf: &mut Vec<u8>) -> (r: Result<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn fill_buf(&mut self) -> (r: Result<&[u8]>) { unimplemented!() }
}
/// opening delivers the bytes of the file; the first bytes are available together (with_start), so that a header can be recognized
#[verifier::external_body]
pub fn get_reader(name: &str) -> (r: Result<Infile>) ensures r matches Ok(f) ==> f.rest() == file_text(name@), { unimplemented!() }
// ---- text of a line, columns of a line ----
pub open spec fn text(t: TextLine) -> Seq<u8> { if t.orig@.len() == 0 { t.line@ } else { t.orig@ } }
/// the columns a line stands for (spelled out in C07)
pub uninterp spec fn meaning(m: TextFileMode, l: Seq<u8>) -> Seq<Seq<u8>>;
pub open spec fn marks(parts: Seq<FakeSlice>, s: Seq<u8>, c: Seq<Seq<u8>>) -> bool {
    parts.len() == c.len() && forall|i: int| 0 <= i < parts.len() ==> (#[trigger] parts[i]).begin <= parts[i].end <= s.len() && s.subrange(parts[i].begin as int, parts[i].end as int) == c[i]
}
pub open spec fn shows(t: TextLine, m: TextFileMode) -> bool { marks(t.parts@, t.line@, meaning(m, text(t))) }
impl TextFileMode {
/// proved in C07
    #[verifier::external_body]
    pub fn split(&self, line: &mut TextLine)
      ensures old(line).orig@.len() == 0 && old(line).line@.len() > 0 ==> text(*final(line)) == old(line).line@ && shows(*final(line), *self),
    { unimplemented!() }
/// splits the names; the text of the header stays
    #[verifier::external_body]
    pub fn split_head(&self, line: &mut StringLine) ensures final(line).line == old(line).line, { unimplemented!() }
}
impl StringLine {
//@fn src/util.rs StringLine::clear
  ensures final(self).line@.len() == 0, utf8(final(self).line@).len() == 0, final(self).parts@.len() == 0,
//@sub /self\.line\.clear\(\)/ => verif_s_clear(&mut self.line)
//@end
}
#[verifier::external_body]
pub fn verif_s_clear(s: &mut String) ensures final(s)@.len() == 0, utf8(final(s)@).len() == 0, { unimplemented!() }
#[verifier::external_body]
pub fn verif_s_len(s: &String) -> (r: usize) ensures r == utf8(s@).len(), { unimplemented!() }
#[verifier::external_body]
pub fn verif_from_utf8(x: Vec<u8>) -> (r: Result<String>) ensures r matches Ok(s) ==> utf8(s@) == x@ && (s@.len() == 0) == (x@.len() == 0), { unimplemented!() }
#[verifier::external_body]
pub fn verif_string_empty(s: &String) -> (r: bool) ensures r == (utf8(s@).len() == 0), { unimplemented!() }
#[verifier::external_body]
pub fn verif_starts(b: &[u8], x: &[u8]) -> (r: bool) ensures r == starts(b@, x@), { unimplemented!() }
pub open spec fn starts(b: Seq<u8>, x: Seq<u8>) -> bool { x.len() <= b.len() && b.subrange(0, x.len() as int) == x }
pub proof fn lemma_starts(s: Seq<u8>)
  ensures forall|n: int| 0 <= n <= s.len() ==> starts(#[trigger] s.subrange(0, n), cdx()) == (n >= 4 && starts(s, cdx())),
{ assert forall|n: int| 0 <= n <= s.len() implies starts(#[trigger] s.subrange(0, n), cdx()) == (n >= 4 && starts(s, cdx())) by { if n >= 4 { assert(s.subrange(0, n).subrange(0, 4) =~= s.subrange(0, 4)); } } }
pub open spec fn cdx() -> Seq<u8> { seq![32u8, 67u8, 68u8, 88u8] }
#[verifier::external_body]
pub fn verif_no_header(c: &mut InfileContext, n: usize) ensures final(c).is_done == old(c).is_done, final(c).is_empty == old(c).is_empty, final(c).has_header == old(c).has_header, final(c).head_bytes == old(c).head_bytes, final(c).text == old(c).text, { unimplemented!() }
// ---- the records of a text ----
/// the length of the first record
pub open spec fn rec_n(m: TextFileMode, s: Seq<u8>) -> int { rec_q(m.col_mode == QuoteMode::Quote, m.line_break, s) }
pub open spec fn rec_q(q: bool, e: u8, s: Seq<u8>) -> int { if q { choose|n: int| is_rec(s, n, e) } else { upto(s, e).len() as int } }
pub proof fn lemma_find(s: Seq<u8>, e: u8, k: int) -> (n: int)
  requires 0 < k <= s.len(), forall|j: int| 0 < j < k ==> !#[trigger] rec_end(s, j, e),
  ensures is_rec(s, n, e), n > 0,
  decreases s.len() - k,
{ if rec_end(s, k, e) || k == s.len() { k } else { lemma_find(s, e, k + 1) } }
pub proof fn lemma_rec(m: TextFileMode, s: Seq<u8>)
  ensures 0 <= rec_n(m, s) <= s.len(), s.len() > 0 ==> rec_n(m, s) > 0, m.col_mode == QuoteMode::Quote ==> forall|n: int| #[trigger] is_rec(s, n, m.line_break) ==> n == rec_n(m, s),
    rec_n(m, s) < s.len() ==> as_line(s.subrange(0, rec_n(m, s)), m.line_break).len() == rec_n(m, s),
    s.len() > 0 ==> as_line(s.subrange(0, rec_n(m, s)), m.line_break).len() > 0,
{
    let e = m.line_break;
    lemma_upto(s, e);
    if m.col_mode == QuoteMode::Quote {
        if s.len() == 0 { assert(is_rec(s, 0, e)); } else { let n = lemma_find(s, e, 1); assert(is_rec(s, n, e)); }
        let r = rec_n(m, s);
        assert(is_rec(s, r, e));
        assert forall|n: int| #[trigger] is_rec(s, n, e) implies n == r by { if n < r { assert(n == 0 || rec_end(s, n, e)); if n == 0 { assert(n == s.len()); } } if r < n { assert(r == 0 || rec_end(s, r, e)); if r == 0 { assert(s.len() == 0); } } }
        if r < s.len() { assert(rec_end(s, r, e)); assert(s.subrange(0, r).last() == e); }
    } else if rec_n(m, s) < s.len() { let u = upto(s, e); assert(u == s.subrange(0, u.len() as int)); assert(u.last() == e); }
}
/// the lines of a text: its records, with a newline added if the last has none
pub open spec fn lines(m: TextFileMode, s: Seq<u8>) -> Seq<Seq<u8>> decreases s.len() {
    if s.len() == 0 || rec_n(m, s) <= 0 || rec_n(m, s) > s.len() { seq![] } else { seq![as_line(s.subrange(0, rec_n(m, s)), m.line_break)] + lines(m, s.skip(rec_n(m, s))) }
}
/// where line i begins
pub open spec fn off(m: TextFileMode, s: Seq<u8>, i: int) -> int decreases i { if i <= 0 { 0 } else { off(m, s, i - 1) + rec_n(m, s.skip(off(m, s, i - 1))) } }
pub proof fn lemma_off(m: TextFileMode, s: Seq<u8>, i: int)
  requires 0 <= i <= lines(m, s).len(),
  ensures 0 <= off(m, s, i) <= s.len(), lines(m, s.skip(off(m, s, i))) == lines(m, s).skip(i), (off(m, s, i) < s.len()) == (i < lines(m, s).len()),
    i < lines(m, s).len() ==> ({ let t = s.skip(off(m, s, i)); t.len() > 0 && lines(m, s)[i] == as_line(t.subrange(0, rec_n(m, t)), m.line_break) && off(m, s, i + 1) == off(m, s, i) + rec_n(m, t) && off(m, s, i + 1) <= s.len() }),
  decreases i,
{
    let t = s.skip(off(m, s, i));
    if i == 0 { assert(s.skip(0) =~= s); assert(lines(m, s).skip(0) =~= lines(m, s)); }
    else {
        lemma_off(m, s, i - 1);
        let p = s.skip(off(m, s, i - 1)); let n = rec_n(m, p);
        lemma_rec(m, p);
        assert(p.skip(n) =~= t);
        assert(lines(m, p) == seq![as_line(p.subrange(0, n), m.line_break)] + lines(m, t));
        assert(lines(m, t) =~= lines(m, p).skip(1));
        assert(lines(m, p).skip(1) =~= lines(m, s).skip(i));
    }
    lemma_rec(m, t);
    if t.len() > 0 { assert(lines(m, t).len() > 0); assert(lines(m, t)[0] == lines(m, s)[i]); } else { assert(lines(m, t).len() == 0); }
}
// ---- the reader ----
pub open spec fn idx(curr: int, k: int, n: int) -> int { if k <= curr { curr - k } else { curr + n - k } }
// x % n for x < 2n, for code that wraps around with % instead of a comparison
pub proof fn lemma_wrap(n: int)
  requires n > 0,
  ensures forall|x: int| 0 <= x < n ==> #[trigger] (x % n) == x, forall|x: int| n <= x < 2 * n ==> #[trigger] (x % n) == x - n,
{
  assert forall|x: int| 0 <= x < n implies #[trigger] (x % n) == x by { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, n as nat); }
  assert forall|x: int| n <= x < 2 * n implies #[trigger] (x % n) == x - n by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, n, 1, x - n); }
}
impl Reader {
    pub open spec fn ok(self) -> bool { 0 <= self.curr < self.lines@.len() && 2 * self.lines@.len() <= usize::MAX }
    /// the line k before the current one
    pub open spec fn back(self, k: int) -> TextLine { self.lines@[idx(self.curr as int, k, self.lines@.len() as int)] }
    /// standing at line i of the text s0, which begins h bytes into the file
    pub open spec fn at(self, s0: Seq<u8>, h: int, i: int) -> bool {
        let m = self.cont.text; let d = lines(m, s0);
        &&& self.ok() && 0 <= i <= d.len() && self.loc.line == i + 1 && self.cont.is_done == (i == d.len())
        &&& self.file.rest() == s0.skip(off(m, s0, if i < d.len() { i + 1 } else { i }))
        &&& i < d.len() ==> self.loc.bytes == h + off(m, s0, i)
        &&& forall|k: int| 0 <= k < self.lines@.len() ==> text(#[trigger] self.back(k)) == if 0 <= i - k < d.len() { d[i - k] } else { seq![] }
    }
}
/// the first line of data, and how a header is recognized
pub open spec fn has_head(m: TextFileMode, s: Seq<u8>) -> bool { match m.head_mode { HeadMode::Yes => s.len() > 0, HeadMode::Cdx => s.len() > 0, HeadMode::No => false, HeadMode::Maybe => starts(s, cdx()), HeadMode::Skip => starts(s, cdx()) } }
pub open spec fn head_len(m: TextFileMode, s: Seq<u8>) -> int { if has_head(m, s) { rec_n(m, s) } else { 0 } }
pub open spec fn head_text(m: TextFileMode, s: Seq<u8>) -> Seq<u8> { as_line(s.subrange(0, head_len(m, s)), m.line_break) }
/// there is neither data nor a header that counts
pub open spec fn nothing(m: TextFileMode, s: Seq<u8>) -> bool { s.len() == 0 || (m.head_mode == HeadMode::Skip && head_len(m, s) == s.len()) }
impl TextFileMode {
//@fn src/util.rs TextFileMode::read_string (r)
  ensures r matches Ok(eof) ==> eof == (old(f).rest().len() == 0) && final(f).rest() == old(f).rest().skip(rec_n(*self, old(f).rest())) && (!eof ==> utf8(final(line)@) == as_line(old(f).rest().subrange(0, rec_n(*self, old(f).rest())), self.line_break)) && (eof ==> final(line)@ == old(line)@),
//@sub /Vec::new\(\)/ => Vec::<u8>::new()
//@sub /String::from_utf8\(x\)/ => verif_from_utf8(x)
//@start
  proof { lemma_rec(*self, f.rest()); }
//@end
//@fn src/util.rs TextFileMode::read_header (r)
  ensures r matches Ok(e) ==> e == nothing(*self, old(f).rest()) && final(f).rest() == old(f).rest().skip(head_len(*self, old(f).rest())) && utf8(final(line)@) == (if self.head_mode == HeadMode::Skip { seq![] } else { head_text(*self, old(f).rest()) }),
//@sub /line\.clear\(\)/ => verif_s_clear(line)
//@sub /start\.starts_with\(&\[/ => verif_starts(start, &[
//@sub /start\.starts_with\(b" CDX"\)/ => verif_starts(start, &[32u8, 67u8, 68u8, 88u8])
//@sub /f\.fill_buf\(\)/ => verif_peek(f)
//@start
  let ghost r0 = f.rest(); proof { lemma_rec(*self, r0); assert(r0.skip(0) =~= r0); assert(r0.subrange(0, 0) =~= seq![]); lemma_starts(r0); assert([32u8, 67u8, 68u8, 88u8]@ =~= cdx()); assert(forall|s: Seq<u8>| s.len() == 0 ==> s =~= seq![]); }
//@end
}
/// fill_buf on a stream whose first bytes arrive together: with_start sees to that for every file that is opened
#[verifier::external_body]
pub fn verif_peek<T: BufRead>(f: &mut T) -> (r: Result<&[u8]>) ensures final(f).rest() == old(f).rest(), r matches Ok(b) ==> b@.len() <= old(f).rest().len() && b@ == old(f).rest().subrange(0, b@.len() as int) && (b@.len() == 0 ==> old(f).rest().len() == 0) && (b@.len() >= 4 || !starts(old(f).rest(), cdx())), { unimplemented!() }
impl InfileContext {
//@fn src/util.rs InfileContext::read_header (r)
  requires text(*old(line)).len() == 0,
  ensures final(self).text == old(self).text,
    r is Ok ==> ({ let s = old(file).rest(); let m = old(self).text; let h = head_len(m, s); let d = s.skip(h); let n = rec_n(m, d);
      &&& final(self).is_empty == nothing(m, s) && final(self).has_header == (has_head(m, s) && m.head_mode != HeadMode::Skip)
      &&& final(self).is_done == (d.len() == 0)
      &&& final(self).has_header ==> utf8(final(self).header.line@) == head_text(m, s)
      &&& d.len() > 0 ==> final(self).head_bytes == h && text(*final(line)) == as_line(d.subrange(0, n), m.line_break) && shows(*final(line), m) && final(file).rest() == d.skip(n)
      &&& d.len() == 0 ==> text(*final(line)).len() == 0 && final(file).rest().len() == 0 }),
//@sigsub /file: &mut impl BufRead/ => file: &mut F
//@sigsub /fn read_header\(/ => fn read_header<F: BufRead>(
//@sub /(?s)let mut head_str = String::new\(\);.*self\.header\.split\(self\.text\.delim\);/ => verif_no_header(self, line.parts.len());
//@sub /self\.header\.line\.len\(\)/ => verif_s_len(&self.header.line)
//@sub /self\.header\.line\.is_empty\(\)/ => verif_string_empty(&self.header.line)
//@start
  let ghost s = file.rest(); let ghost m = self.text;
  proof { lemma_rec(m, s); assert(s.skip(0) =~= s); let h = head_len(m, s); lemma_rec(m, s.skip(h)); assert(s.subrange(0, 0) =~= seq![]); let d = s.skip(h); assert(d.len() == 0 ==> d.skip(0) =~= d); }
//@end
}
impl TextLine {
//@fn src/util.rs TextLine::clear
  ensures final(self).parts@.len() == 0, final(self).line@.len() == 0, final(self).orig@.len() == 0,
//@end
//@fn src/util.rs TextLine::line (r)
  ensures r@ == text(*self),
//@end
}
impl Reader {
//@fn src/util.rs Reader::incr
  requires old(self).ok(), old(self).loc.line < usize::MAX,
  ensures *final(self) == (Reader { curr: final(self).curr, loc: final(self).loc, ..*old(self) }), final(self).loc == (FileLocData { line: final(self).loc.line, ..old(self).loc }), final(self).loc.line == old(self).loc.line + 1,
    final(self).curr == if old(self).curr + 1 < old(self).lines@.len() { old(self).curr + 1 } else { 0 },
//@start
  proof { lemma_wrap(self.lines@.len() as int); }
//@end
//@fn src/util.rs Reader::curr (r)
  requires self.ok(),
  ensures *r == self.back(0),
//@end
//@fn src/util.rs Reader::curr_line (r)
  requires self.ok(),
  ensures *r == self.back(0),
//@end
//@fn src/util.rs Reader::prev_line (r)
  requires self.ok(), lookback < self.lines@.len(),
  ensures *r == self.back(lookback as int),
//@start
  proof { lemma_wrap(self.lines@.len() as int); }
//@end
//@fn src/util.rs Reader::line_number (r) noconst
  ensures r == self.loc.line,
//@end
//@fn src/util.rs Reader::is_done (r) noconst
  ensures r == self.cont.is_done,
//@end
//@fn src/util.rs Reader::is_empty (r) noconst
  ensures r == self.cont.is_empty,
//@end
//@fn src/util.rs Reader::has_header (r) noconst
  ensures r == self.cont.has_header,
//@end
//@fn src/util.rs Reader::write (r)
  requires self.ok(),
  ensures r is Ok ==> final(w).out() == old(w).out() + text(self.back(0)),
//@sigsub /w: &mut impl Write/ => w: &mut W
//@sigsub /fn write\(/ => fn write<W: Write>(
//@end
//@fn src/util.rs Reader::write_curr (r)
  requires self.ok(),
  ensures r is Ok ==> final(w).out() == old(w).out() + text(self.back(0)),
//@sigsub /w: &mut impl Write/ => w: &mut W
//@sigsub /fn write_curr\(/ => fn write_curr<W: Write>(
//@end
//@fn src/util.rs Reader::write_prev (r)
  requires self.ok(), lookback < self.lines@.len(),
  ensures r is Ok ==> final(w).out() == old(w).out() + text(self.back(lookback as int)),
//@sigsub /w: &mut impl Write/ => w: &mut W
//@sigsub /fn write_prev\(/ => fn write_prev<W: Write>(
//@end
//@fn src/util.rs Reader::curr_nl (r)
  requires self.ok(),
  ensures r@ == (if text(self.back(0)).len() > 0 { text(self.back(0)).drop_last() } else { seq![] }),
//@end
//@fn src/util.rs Reader::prev_nl (r)
  requires self.ok(), n < self.lines@.len(),
  ensures r@ == (if text(self.back(n as int)).len() > 0 { text(self.back(n as int)).drop_last() } else { seq![] }),
//@end
/// reading a line moves on by exactly one line: everything the reader shows is again true of the text
//@fn src/util.rs Reader::getline (r)
  requires old(self).ok(), old(self).loc.line < usize::MAX, old(self).loc.bytes + text(old(self).back(0)).len() <= usize::MAX,
  ensures r matches Ok(done) ==> done == final(self).cont.is_done && forall|s0: Seq<u8>, h: int, i: int| #![trigger old(self).at(s0, h, i)] old(self).at(s0, h, i) && i < lines(old(self).cont.text, s0).len() ==> final(self).at(s0, h, i + 1),
    r matches Ok(done) ==> !done && old(self).do_split ==> shows(final(self).back(0), final(self).cont.text),
//@sub /&mut \*self\.file/ => &mut self.file
//@start
  let ghost this = *self;
//@before /Ok\(self\.cont\.is_done\)/
  proof {
    let m = this.cont.text; let n = this.lines@.len() as int;
    assert forall|k: int| 0 < k < n implies #[trigger] self.back(k) == this.back(k - 1) by { }
    assert forall|s0: Seq<u8>, h: int, i: int| #![trigger this.at(s0, h, i)] this.at(s0, h, i) && i < lines(m, s0).len() implies self.at(s0, h, i + 1) by {
      let d = lines(m, s0);
      lemma_off(m, s0, i); lemma_off(m, s0, i + 1);
      let p = s0.skip(off(m, s0, i)); let t = s0.skip(off(m, s0, i + 1));
      lemma_rec(m, p); lemma_rec(m, t);
      assert(t == this.file.rest());
      assert(text(this.back(0)) == d[i]);
      assert(t.skip(rec_n(m, t)) =~= self.file.rest());
      if i + 1 < d.len() { lemma_off(m, s0, i + 1); assert(self.file.rest() =~= s0.skip(off(m, s0, i + 2))); assert(text(self.back(0)) == d[i + 1]); assert(self.loc.bytes == h + off(m, s0, i + 1)); }
      else { assert(self.file.rest() =~= s0.skip(off(m, s0, i + 1))); assert(text(self.back(0)) =~= seq![]); }
      assert forall|k: int| 0 <= k < n implies text(#[trigger] self.back(k)) == if 0 <= i + 1 - k < d.len() { d[i + 1 - k] } else { seq![] } by { if k > 0 { assert(self.back(k) == this.back(k - 1)); } }
    }
  }
//@end
/// opening a file stands at its first line, with nothing before it
//@fn src/util.rs Reader::open (r)
  requires old(self).ok(),
  ensures r is Ok ==> ({ let s = file_text(name@); let m = final(self).cont.text; let h = head_len(m, s);
      &&& m == old(self).cont.text && final(self).loc.name@ == name@ && final(self).lines@.len() == old(self).lines@.len()
      &&& final(self).cont.is_empty == nothing(m, s)
      &&& final(self).cont.has_header == (has_head(m, s) && m.head_mode != HeadMode::Skip)
      &&& final(self).cont.has_header ==> utf8(final(self).cont.header.line@) == head_text(m, s)
      &&& final(self).at(s.skip(h), h, 0) && (!final(self).cont.is_done ==> shows(final(self).back(0), m)) }),
//@sub /&mut \*self\.file/ => &mut self.file
//@sub /name\.to_string\(\)/ => verif_to_string(name)
//@loop 0 d
  invariant vi0 <= self.lines@.len(), self.lines@.len() == old(self).lines@.len(), self.cont.text == old(self).cont.text, self.file.rest() == file_text(name@), self.ok(),
    forall|k: int| 0 <= k < vi0 ==> text(#[trigger] self.lines@[k]).len() == 0,
  decreases self.lines@.len() - vi0,
//@before /Ok\(\(\)\)/
  proof {
    let m = self.cont.text; let s = file_text(name@); let s0 = s.skip(head_len(m, s));
    lemma_off(m, s0, 0); lemma_rec(m, s0); assert(s0.skip(0) =~= s0);
    if s0.len() > 0 { lemma_off(m, s0, 1); }
    assert forall|k: int| 0 < k < self.lines@.len() implies text(#[trigger] self.back(k)) =~= seq![] by { }
    assert(s0.len() == 0 ==> text(self.back(0)) =~= seq![] && self.file.rest() =~= s0);
  }
//@end
}
}
fn main(){}
