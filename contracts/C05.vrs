use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
//@include std.vrs
//@include io.vrs
//@include str.vrs

// ---------------------------------------------------------------- spec
/// p is the first byte of a line, or the end of the data
pub open spec fn bound(d: Seq<u8>, p: int) -> bool {
    0 <= p <= d.len() && (p == d.len() || starts(d, p))
}
/// a line begins at s
pub open spec fn starts(d: Seq<u8>, s: int) -> bool { s == 0 || (0 < s <= d.len() && d[s - 1] == 10u8) }
/// d[s..e] is one whole line, including its newline if it has one
pub open spec fn is_line(d: Seq<u8>, s: int, e: int) -> bool {
    &&& 0 <= s < e <= d.len()
    &&& starts(d, s)
    &&& (forall|i: int| s <= i < e - 1 ==> d[i] != 10u8)
    &&& (d[e - 1] == 10u8 || e == d.len())
}
/// the lines of d are in order, as seen from the value being searched for
#[verifier::opaque]
pub open spec fn ordered(d: Seq<u8>, c: LineCompList) -> bool {
    forall|s1: int, e1: int, s2: int, e2: int| #![trigger is_line(d, s1, e1), is_line(d, s2, e2)]
        is_line(d, s1, e1) && is_line(d, s2, e2) && s1 <= s2 ==> {
            &&& (c.ord(d.subrange(s1, e1)) == Ordering::Less ==> c.ord(d.subrange(s2, e2)) == Ordering::Less)
            &&& (c.ord(d.subrange(s1, e1)) == Ordering::Equal ==> c.ord(d.subrange(s2, e2)) != Ordering::Greater)
        }
}
pub open spec fn all_before(d: Seq<u8>, c: LineCompList, p: int, o: Ordering) -> bool {
    forall|s: int, e: int| #[trigger] is_line(d, s, e) && s < p ==> c.ord(d.subrange(s, e)) == o
}
pub open spec fn none_before(d: Seq<u8>, c: LineCompList, p: int, o: Ordering) -> bool {
    forall|s: int, e: int| #[trigger] is_line(d, s, e) && s < p ==> c.ord(d.subrange(s, e)) != o
}
pub open spec fn all_from(d: Seq<u8>, c: LineCompList, p: int, o: Ordering) -> bool {
    forall|s: int, e: int| #[trigger] is_line(d, s, e) && s >= p ==> c.ord(d.subrange(s, e)) == o
}
/// lines are disjoint, so a line that starts before a boundary ends at or before it
pub proof fn line_in(d: Seq<u8>, s: int, e: int, p: int)
    requires is_line(d, s, e), bound(d, p), s < p
    ensures e <= p
{ }
pub proof fn line_unique(d: Seq<u8>, s: int, e: int, e2: int)
    requires is_line(d, s, e), is_line(d, s, e2)
    ensures e == e2
{ if e < e2 { assert(d[e-1] != 10u8); } else if e2 < e { assert(d[e2-1] != 10u8); } }

/// the comparison against the value searched for: a fixed function of the line.
/// (proved for the real LineCompList in C02, assumed here)
#[verifier::external_body]
pub struct LineCompList { x: u8 }
impl LineCompList {
    pub uninterp spec fn ord(&self, line: Seq<u8>) -> Ordering;
    /// the keys and the value searched for, before the columns are looked up
    pub uninterp spec fn keys(&self) -> int;
    /// the columns are looked up by the file's names (C02, C08)
    #[verifier::external_body]
    pub fn lookup(&mut self, names: &[&str]) -> (r: Result<()>)
      ensures final(self).keys() == old(self).keys(), r is Ok ==> forall|l: Seq<u8>| #[trigger] final(self).ord(l) == ord_in(old(self).keys(), shown_names(names@), l)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn comp_self_line(&mut self, right: &[u8]) -> (r: Ordering)
      ensures final(self).keys() == old(self).keys(), r == old(self).ord(right@), forall|l: Seq<u8>| #[trigger] final(self).ord(l) == old(self).ord(l)
    { unimplemented!() }
}
pub uninterp spec fn ord_in(keys: int, names: Seq<Seq<char>>, line: Seq<u8>) -> Ordering;
pub open spec fn shown_names(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn same(a: LineCompList, b: LineCompList) -> bool {
    a.keys() == b.keys() && forall|l: Seq<u8>| #[trigger] a.ord(l) == b.ord(l)
}

// ---------------------------------------------------------------- real code
#[verifier::loop_isolation(false)]
//@fn src/binsearch.rs find_end (r)
 ensures
   start >= data.len() ==> r == start,
   start < data.len() ==> start < r <= data.len() && (forall|i:int| start <= i < r-1 ==> data@[i] != 10u8)
       && (data@[r-1]==10u8 || r==data.len())
       && bound(data@, r as int),
   start < data.len() ==> forall|s: int| #[trigger] starts(data@, s) && 0 <= s <= start && (forall|i: int| s <= i < start ==> data@[i] != 10u8)
        ==> is_line(data@, s, r as int),
//@start
    let ghost s0 = start;
//@loop 0 w
      invariant s0<=start, start<=data.len() || start==s0, forall|i:int| s0 <= i < start ==> data@[i] != 10u8,
      decreases data.len()-start
//@end

#[verifier::loop_isolation(false)]
//@fn src/binsearch.rs find_start (r)
 requires start <= data.len(),
 ensures
   r <= start, starts(data@, r as int),
   forall|i:int| r <= i < start ==> data@[i] != 10u8,
//@start
    let ghost s0 = start;
//@loop 0 w
      invariant start <= s0 <= data.len(), forall|i:int| start <= i < s0 ==> data@[i] != 10u8,
      decreases start
//@end

/// moving back one line from a boundary reaches the start of the preceding line
//@fn src/binsearch.rs find_prev (r)
 requires bound(data@, start as int),
 ensures
   start == 0 ==> r == 0,
   start > 0 ==> is_line(data@, r as int, start as int),
//@end

//@fn src/binsearch.rs lower_bound_n (r)
 requires ordered(data@, *old(comp)), data.len() <= isize::MAX,
 ensures
   same(*final(comp), *old(comp)),
   r.0 <= r.1 <= data.len(), bound(data@, r.0 as int), bound(data@, r.1 as int),
   all_before(data@, *old(comp), r.0 as int, Ordering::Greater),
   r.0 < r.1 ==> is_line(data@, r.0 as int, r.1 as int) && old(comp).ord(data@.subrange(r.0 as int, r.1 as int)) == Ordering::Equal,
   r.0 == r.1 ==> all_from(data@, *old(comp), r.0 as int, Ordering::Less),
//@start
  proof { reveal(ordered); reveal(matches); }
//@loop 0 w
      invariant
        begin <= end <= data.len() <= isize::MAX, bound(data@, begin as int), bound(data@, end as int),
        same(*comp, *old(comp)), ordered(data@, *old(comp)),
        all_before(data@, *old(comp), begin as int, Ordering::Greater),
        trapped ==> (exists|s: int| #[trigger] is_line(data@, s, end as int) && old(comp).ord(data@.subrange(s, end as int)) == Ordering::Equal && begin <= s),
        all_from(data@, *old(comp), end as int, Ordering::Less)
         || (exists|s: int| #[trigger] is_line(data@, s, end as int) && old(comp).ord(data@.subrange(s, end as int)) == Ordering::Equal && begin <= s),
      decreases end - begin, if trapped { 0int } else { 1int }
//@loopstart 0
  proof { reveal(ordered); }
//@end

//@fn src/binsearch.rs upper_bound_n (r)
 requires ordered(data@, *old(comp)), data.len() <= isize::MAX,
 ensures
   same(*final(comp), *old(comp)),
   r <= data.len(), bound(data@, r as int),
   none_before(data@, *old(comp), r as int, Ordering::Less),
   all_from(data@, *old(comp), r as int, Ordering::Less),
//@start
  proof { reveal(ordered); reveal(matches); }
//@loop 0 w
      invariant
        begin <= end <= data.len() <= isize::MAX, bound(data@, begin as int), bound(data@, end as int),
        same(*comp, *old(comp)), ordered(data@, *old(comp)),
        none_before(data@, *old(comp), begin as int, Ordering::Less),
        all_from(data@, *old(comp), end as int, Ordering::Less),
      decreases end - begin
//@loopstart 0
  proof { reveal(ordered); }
//@end

/// the property: the range returned is exactly the lines that compare equal
//@fn src/binsearch.rs equal_range_n (r)
 requires ordered(data@, *old(comp)), data.len() <= isize::MAX,
 ensures
   same(*final(comp), *old(comp)),
   r.0 <= r.1 <= data.len(), bound(data@, r.0 as int), bound(data@, r.1 as int),
   matches(data@, *old(comp), r.0 as int, r.1 as int),
//@start
  proof { reveal(ordered); reveal(matches); }
//@end

//@fn src/binsearch.rs lower_bound (r)
 requires ordered(data@, *old(comp)), data.len() <= isize::MAX,
 ensures
   r@.len() == 0 ==> (forall|s: int, e: int| #[trigger] is_line(data@, s, e) ==> old(comp).ord(data@.subrange(s, e)) != Ordering::Equal),
   r@.len() > 0 ==> (exists|s: int, e: int| #[trigger] is_line(data@, s, e) && r@ == data@.subrange(s, e)
       && old(comp).ord(r@) == Ordering::Equal && all_before(data@, *old(comp), s, Ordering::Greater)),
//@start
  proof { reveal(ordered); reveal(matches); }
//@end
//@fn src/binsearch.rs equal_range (r)
 requires ordered(data@, *old(comp)), data.len() <= isize::MAX,
 ensures
   exists|a: int, b: int| #![trigger data@.subrange(a, b)] 0 <= a <= b <= data.len() && r@ == data@.subrange(a, b)
     && (forall|s: int, e: int| #[trigger] is_line(data@, s, e) ==>
      (a <= s && e <= b <==> old(comp).ord(data@.subrange(s, e)) == Ordering::Equal)),
//@start
  proof { reveal(ordered); reveal(matches); }
//@end

// ---------------------------------------------------------------- the tool: one file, after its header was dealt with
/// d[a..b] is exactly n whole lines
pub open spec fn lines_between(d: Seq<u8>, a: int, b: int, n: int) -> bool decreases n {
    if n <= 0 { a == b } else { exists|e: int| #[trigger] is_line(d, a, e) && lines_between(d, e, b, n - 1) }
}
pub proof fn lemma_more(d: Seq<u8>, a: int, b: int, n: int, e: int)
  requires n >= 0, lines_between(d, a, b, n), is_line(d, b, e),
  ensures lines_between(d, a, e, n + 1),
  decreases n,
{
    if n == 0 { assert(lines_between(d, e, e, 0)); assert(is_line(d, a, e)); }
    else { let x = choose|x: int| #[trigger] is_line(d, a, x) && lines_between(d, x, b, n - 1); lemma_more(d, x, b, n - 1, e); }
}
/// n lines before p, or all there are
pub open spec fn before_ok(d: Seq<u8>, a: int, p: int, n: int) -> bool { lines_between(d, a, p, n) || (a == 0 && exists|k: int| 0 <= k < n && #[trigger] lines_between(d, 0, p, k)) }
/// at the start, asking for more lines gives no more
pub proof fn lemma_at_start(d: Seq<u8>, p: int, n: int, m: int) requires 0 <= n < m, before_ok(d, 0, p, n), ensures before_ok(d, 0, p, m)
{ if lines_between(d, 0, p, n) { assert(0 <= n < m); } else { let k = choose|k: int| 0 <= k < n && #[trigger] lines_between(d, 0, p, k); assert(0 <= k < m && lines_between(d, 0, p, k)); } }
/// n lines from p on, or all there are
pub open spec fn after_ok(d: Seq<u8>, p: int, b: int, n: int) -> bool { lines_between(d, p, b, n) || (b == d.len() && exists|k: int| 0 <= k < n && #[trigger] lines_between(d, p, d.len() as int, k)) }
/// d[lo..hi] is exactly the lines that compare equal (or, if there are none, the place where they would be)
#[verifier::opaque]
pub open spec fn matches(d: Seq<u8>, c: LineCompList, lo: int, hi: int) -> bool {
    0 <= lo <= hi <= d.len() && bound(d, lo) && bound(d, hi) && all_before(d, c, lo, Ordering::Greater) && all_from(d, c, hi, Ordering::Less)
    && (forall|s: int, e: int| #[trigger] is_line(d, s, e) ==> (lo <= s && e <= hi <==> c.ord(d.subrange(s, e)) == Ordering::Equal))
}
/// with a final newline
pub open spec fn closed(t: Seq<u8>) -> Seq<u8> { if t.len() > 0 && t.last() != 10u8 { t.push(10u8) } else { t } }
pub open spec fn line_end(d: Seq<u8>, a: int) -> int { choose|e: int| is_line(d, a, e) }
/// every line with the file's name in front
pub open spec fn tagged(d: Seq<u8>, a: int, b: int, pre: Seq<u8>) -> Seq<u8> decreases (if b > a { b - a } else { 0 }) {
    if a >= b || !(a < line_end(d, a)) { seq![] } else { pre.push(9u8) + closed(d.subrange(a, line_end(d, a))) + tagged(d, line_end(d, a), b, pre) }
}
pub open spec fn tag_of(f: Option<FileNameColumn>, name: Seq<char>) -> Option<Seq<u8>> { match f { Some(n) => Some(tail_path(name, n.tail)), None => None } }
pub open spec fn shown(d: Seq<u8>, a: int, b: int, t: Option<Seq<u8>>) -> Seq<u8> { match t { None => closed(d.subrange(a, b)), Some(n) => tagged(d, a, b, n) } }
pub uninterp spec fn tail_path(s: Seq<char>, n: usize) -> Seq<u8>;
/// tail_path_u8(n, b'/').as_bytes(): the last n parts of a path
#[verifier::external_body]
pub fn verif_tail(s: &str, n: usize) -> (r: &[u8]) ensures r@ == tail_path(s@, n) { unimplemented!() }
/// the mapped file: its header, if it has one, is its first line
#[verifier::external_body]
pub struct Mmap { x: u8 }
impl Mmap {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    /// &map[..]
    #[verifier::external_body]
    pub fn all(&self) -> (r: &[u8]) ensures r@ == self.bytes(), r@.len() <= isize::MAX { unimplemented!() }
}
pub uninterp spec fn file_bytes(name: Seq<char>) -> Seq<u8>;
/// File::open and Mmap::map
#[verifier::external_body]
pub fn verif_map(name: &str) -> (r: Result<Mmap>) ensures r matches Ok(m) ==> m.bytes() == file_bytes(name@) { unimplemented!() }
#[verifier::external_body]
pub fn verif_utf8_string(s: &[u8]) -> (r: Result<String>) ensures r matches Ok(t) ==> utf8(t@) == s@ && t@ == decoded(s@) { unimplemented!() }
pub uninterp spec fn decoded(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
pub fn verif_sbytes(s: &String) -> (r: &[u8]) ensures r@ == utf8(s@) { unimplemented!() }
/// map[0..n].split(delim).count()
#[verifier::external_body]
pub fn verif_count_cols(s: &[u8], d: u8) -> (r: usize) ensures r == ncols(s@, d) { unimplemented!() }
pub uninterp spec fn ncols(s: Seq<u8>, d: u8) -> usize;
/// the columns of a header (C06)
pub struct StringLine { pub line: String, pub parts: Vec<u8> }
pub uninterp spec fn faked(n: usize, d: u8) -> Seq<char>;
pub uninterp spec fn cut_at(l: Seq<char>, d: u8) -> Seq<u8>;
pub uninterp spec fn cols_in(l: Seq<char>, p: Seq<u8>) -> Seq<Seq<char>>;
impl StringLine {
    #[verifier::external_body]
    pub fn new() -> (r: StringLine) { unimplemented!() }
    #[verifier::external_body]
    pub fn split(&mut self, d: u8) ensures final(self).line == old(self).line, final(self).parts@ == cut_at(old(self).line@, d), final(self).parts@.len() > 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn fake(&mut self, n: usize, d: u8) ensures final(self).line@ == faked(n, d) { unimplemented!() }
    #[verifier::external_body]
    pub fn vec(&self) -> (r: Vec<&str>) ensures shown_names(r@) == cols_in(self.line@, self.parts@) { unimplemented!() }
}
pub open spec fn cdx() -> Seq<u8> { seq![0x20u8, 0x43u8, 0x44u8, 0x58u8] }
#[verifier::external_body]
pub fn is_cdx(s: &[u8]) -> (r: bool) ensures r == (s@.len() >= 4 && s@.subrange(0, 4) == cdx()) { unimplemented!() }
pub open spec fn has_head(t: Seq<u8>) -> bool { t.len() >= 4 && t.subrange(0, 4) == cdx() }
pub open spec fn first_end(t: Seq<u8>, n: int) -> bool { 0 <= n <= t.len() && (n == 0 <==> t.len() == 0) && (n > 0 ==> is_line(t, 0, n)) }
pub open spec fn head_end(t: Seq<u8>) -> int { if has_head(t) { line_end(t, 0) } else { 0 } }
/// the names of a file's columns: those of its header, or c1, c2, ... for as many as its first line has
pub open spec fn names_in(t: Seq<u8>) -> Seq<Seq<char>> {
    let e = if t.len() > 0 { line_end(t, 0) } else { 0 };
    let l = if has_head(t) { decoded(t.subrange(0, e)) } else { faked(ncols(t.subrange(0, e), 9), 9) };
    cols_in(l, cut_at(l, if has_head(t) { t[4] } else { 9 }).remove(0))
}
/// the sorted part of a file
pub open spec fn body_of(t: Seq<u8>) -> Seq<u8> { t.skip(head_end(t)) }
//@item src/binsearch.rs struct MemMap
pub mod memmap2 { pub use crate::Mmap; }
impl MemMap {
    pub open spec fn ok(&self) -> bool { self.header_len == head_end(self.map.bytes()) && self.header_len <= self.map.bytes().len() && (self.header_len > 0 <==> has_head(self.map.bytes())) && (self.header_len > 0 ==> self.header_len > 4 && utf8(self.header.line@) == self.map.bytes().subrange(0, self.header_len as int)) }
//@fn src/binsearch.rs MemMap::new (r)
  requires has_head(file_bytes(fname@)) ==> line_end(file_bytes(fname@), 0) > 4,
  ensures r matches Ok(m) ==> m.ok() && cols_in(m.header.line@, m.header.parts@) == names_in(file_bytes(fname@)) && m.map.bytes() == file_bytes(fname@),
//@sub /(?s)let file = fs::File::open\(fname\)\?;\s*let map = unsafe \{ memmap2::Mmap::map\(&file\)\? \};/ => let map = verif_map(fname)?;
//@sub /&map\[\.\.\]/ => map.all()
//@sub /map\[4\]/ => map.all()[4]
//@sub /(?:std::)?str::from_utf8\(&map\[([^\]]*)\]\)\?\.to_string\(\)/ => verif_utf8_string(&map.all()[\1])?
//@sub /map\[0?\.\.header_len\]\.split\(\|ch\| \*ch == delim\)\.count\(\)/ => verif_count_cols(&map.all()[0..header_len], delim)
//@start
  let ghost t = file_bytes(fname@);
//@after /let mut header_len = [^;]*;/
  proof { assert(starts(t, 0)); if t.len() > 0 { assert(is_line(t, 0, header_len as int)); line_unique(t, 0, header_len as int, line_end(t, 0)); } }
//@end
//@fn src/binsearch.rs MemMap::get (r)
  ensures r@ == self.map.bytes(), r@.len() <= isize::MAX,
//@sub /&self\.map\[\.\.\]/ => self.map.all()
//@end
//@fn src/binsearch.rs MemMap::has_header (r)
  ensures r == (self.header_len > 0),
//@end
//@fn src/binsearch.rs MemMap::header (r)
  ensures r@ == utf8(self.header.line@),
//@sub /self\.header\.line\.as_bytes\(\)/ => verif_sbytes(&self.header.line)
//@end
//@fn src/binsearch.rs MemMap::names (r)
  ensures shown_names(r@) == cols_in(self.header.line@, self.header.parts@),
//@end
}
pub struct OutBox<W: Write>(pub W);
impl<W: Write> OutBox<W> {
    pub fn write_all(&mut self, b: &[u8]) -> (r: Result<()>) ensures r is Ok ==> final(self).0.out() == old(self).0.out() + b@ { self.0.write_all(b) }
}
//@item src/bin/cdx/binsearch_main.rs struct FileNameColumn
//@item src/bin/cdx/binsearch_main.rs struct Context
/// the number a text stands for (C21)
pub uninterp spec fn whole(s: Seq<char>) -> Option<usize>;
#[verifier::external_body]
pub fn verif_to_usize_whole(s: &str) -> (r: Result<usize>) ensures r is Ok == whole(s@) is Some, r matches Ok(x) ==> whole(s@) == Some(x), { unimplemented!() }
/// lines for a match and for none: one number for both, or two with a dot between
pub open spec fn pair_of(s: Seq<char>) -> Option<(usize, usize)> {
    let p = spieces(s, '.');
    if p.len() == 1 { match whole(p[0]) { Some(a) => Some((a, a)), None => None } }
    else if p.len() == 2 { match (whole(p[0]), whole(p[1])) { (Some(a), Some(b)) => Some((a, b)), _ => None } }
    else { None }
}
/// before and after: one part for both, or two with a comma between
pub open spec fn context_of(s: Seq<char>) -> Option<((usize, usize), (usize, usize))> {
    let p = spieces(s, ',');
    if p.len() == 1 { match pair_of(p[0]) { Some(a) => Some((a, a)), None => None } }
    else if p.len() == 2 { match (pair_of(p[0]), pair_of(p[1])) { (Some(a), Some(b)) => Some((a, b)), _ => None } }
    else { None }
}
//@gsub /spec\.split\(('[.,]')\)\.collect\(\)/ => verif_s_split(spec, \1)
//@gsub /(\w+(?:\[\d\])?)\.to_usize_whole\(spec\.as_bytes\(\), "[a-z ]*"\)/ => verif_to_usize_whole(\1)
//@fn src/bin/cdx/binsearch_main.rs do_set (r)
  ensures r is Ok == pair_of(spec@) is Some, r is Ok ==> *final(yes_match) == pair_of(spec@)->Some_0.0 && *final(no_match) == pair_of(spec@)->Some_0.1,
//@end
/// --filename: a name, the number of parts of the path, or both
pub open spec fn column_of(s: Seq<char>) -> Option<(Seq<char>, usize)> {
    let k = index_of(s, ':');
    if s.len() == 0 { Some((seq![], 0)) }
    else if k >= 0 { match whole(s.skip(k + 1)) { Some(n) => Some((s.subrange(0, k), n)), None => None } }
    else if digit_first(s) { match whole(s) { Some(n) => Some((seq![], n)), None => None } }
    else { Some((s, 0)) }
}
pub open spec fn digit_first(s: Seq<char>) -> bool { s.len() > 0 && '0' <= s[0] && s[0] <= '9' }
#[verifier::external_body]
pub fn verif_digit_first(s: &str) -> (r: bool) requires s@.len() > 0, ensures r == digit_first(s@) { unimplemented!() }
#[verifier::external_body]
pub fn verif_has_colon(s: &str) -> (r: bool) ensures r == (index_of(s@, ':') >= 0) { unimplemented!() }
#[verifier::external_body]
pub fn verif_no_column() -> (r: FileNameColumn) ensures r.name@ == Seq::<char>::empty(), r.tail == 0 { unimplemented!() }
#[verifier::external_body]
pub fn verif_clear_string(s: &mut String) ensures final(s)@ == Seq::<char>::empty() { unimplemented!() }
impl FileNameColumn {
//@fn src/bin/cdx/binsearch_main.rs FileNameColumn::set (r)
  ensures r is Ok == column_of(spec@) is Some, r is Ok ==> final(self).name@ == column_of(spec@)->Some_0.0 && final(self).tail == column_of(spec@)->Some_0.1,
//@sub /Self::default\(\)/ => verif_no_column()
//@sub /spec\.is_empty\(\)/ => verif_s_empty(spec)
//@sub /spec\.as_bytes\(\)\.contains\(&b':'\)/ => verif_has_colon(spec)
//@sub /spec\.as_bytes\(\)\[0\]\.is_ascii_digit\(\)/ => verif_digit_first(spec)
//@sub /spec\.split_once\((':')\)/ => verif_split_once(spec, \1)
//@sub /self\.name\.clear\(\)/ => verif_clear_string(&mut self.name)
//@sub /(\w+)\.to_string\(\)/ => verif_to_string(\1)
//@end
}
impl Context {
//@fn src/bin/cdx/binsearch_main.rs Context::set (r)
  ensures r is Ok == context_of(spec@) is Some, r is Ok ==> ({ let c = context_of(spec@)->Some_0; final(self).before_match == c.0.0 && final(self).before_non == c.0.1 && final(self).after_match == c.1.0 && final(self).after_non == c.1.1 }),
//@end
//@fn src/bin/cdx/binsearch_main.rs Context::get (r)
  ensures r == (if is_empty { (self.before_non, self.after_non) } else { (self.before_match, self.after_match) }),
//@end
}
//@fn src/util.rs write_all_nl (r)
  ensures r is Ok ==> final(w).out() == old(w).out() + closed(buf@),
//@start
  proof { assert(w.out() + seq![] =~= w.out()); if buf@.len() == 0 { assert(closed(buf@) =~= seq![]); } assert((w.out() + buf@) + seq![10u8] =~= w.out() + buf@.push(10u8)); }
//@end
/// what is written for one file: the matches, with the lines of context asked for, and nothing else
#[verifier::opaque]
pub open spec fn found(d: Seq<u8>, c: LineCompList, x: Context, o: Seq<u8>, name: Option<Seq<u8>>) -> bool {
    exists|a: int, lo: int, hi: int, b: int| #![trigger matches(d, c, lo, hi), d.subrange(a, b)]
        matches(d, c, lo, hi) && 0 <= a <= b <= d.len()
        && before_ok(d, a, lo, if lo == hi { x.before_non as int } else { x.before_match as int }) && after_ok(d, hi, b, if lo == hi { x.after_non as int } else { x.after_match as int })
        && o == shown(d, a, b, name)
}
/// the header rule over several files (C09): whether this header is written, and what it goes on from
#[verifier::external_body]
pub struct HeaderChecker { x: u8 }
pub uninterp spec fn hc_writes(st: int, h: Seq<u8>) -> bool;
pub uninterp spec fn hc_after(st: int, h: Seq<u8>) -> int;
impl HeaderChecker {
    pub uninterp spec fn st(&self) -> int;
    #[verifier::external_body]
    pub fn check_header(&mut self, header: &[u8], fname: &str) -> (r: Result<bool>) ensures r matches Ok(b) ==> b == hc_writes(old(self).st(), header@) && final(self).st() == hc_after(old(self).st(), header@) { unimplemented!() }
}
#[verifier::external_body]
pub fn verif_extend(v: &mut Vec<u8>, d: &[u8]) ensures final(v)@ == old(v)@ + d@ { unimplemented!() }
/// the header for a file: its own, with a column for the file's name in front if asked for
pub open spec fn head_for(t: Seq<u8>, f: Option<FileNameColumn>) -> Seq<u8> { if !has_head(t) { seq![] } else { match f { Some(c) => cdx().push(9u8) + utf8(c.name@) + t.subrange(4, head_end(t)), None => t.subrange(0, head_end(t)) } } }
pub open spec fn looked(c: LineCompList, keys: int, names: Seq<Seq<char>>) -> bool { forall|l: Seq<u8>| #[trigger] c.ord(l) == ord_in(keys, names, l) }
/// what is written for a file
#[verifier::opaque]
pub open spec fn file_ok(keys: int, x: Context, fc: Option<FileNameColumn>, st: int, name: Seq<char>, p: Seq<u8>) -> bool {
    let t = file_bytes(name); let h = head_for(t, fc);
    if t.len() == 0 { p.len() == 0 } else { exists|c: LineCompList, o: Seq<u8>| looked(c, keys, names_in(t)) && #[trigger] found(body_of(t), c, x, o, tag_of(fc, name)) && p == (if hc_writes(st, h) { h } else { seq![] }) + o }
}
pub open spec fn st_at(fc: Option<FileNameColumn>, st: int, fs: Seq<String>, k: int) -> int decreases k { if k <= 0 { st } else { let t = file_bytes(fs[k - 1]@); let s = st_at(fc, st, fs, k - 1); if t.len() == 0 { s } else { hc_after(s, head_for(t, fc)) } } }
pub open spec fn cat(v: Seq<Seq<u8>>) -> Seq<u8> decreases v.len() { if v.len() == 0 { seq![] } else { cat(v.drop_last()) + v.last() } }
/// a file that can be searched: in order by the keys, and its header, if any, well-formed
#[verifier::opaque]
pub open spec fn searchable(keys: int, t: Seq<u8>) -> bool { (has_head(t) ==> line_end(t, 0) > 4) && forall|c: LineCompList| #[trigger] looked(c, keys, names_in(t)) ==> ordered(body_of(t), c) }
//@fn src/bin/cdx/binsearch_main.rs main (r)
  requires m.ok(), ordered(body_of(m.map.bytes()), *old(comp)),
  ensures r is Ok ==> final(comp).keys() == old(comp).keys(), r is Ok ==> exists|o: Seq<u8>| final(w).0.out() == old(w).0.out() + o && #[trigger] found(body_of(m.map.bytes()), *old(comp), *context, o, tag_of(*filename, f@)),
//@from /let data = if m\.has_header/
//@upto /\}\s*Ok\(\(\)\)\s*\}\s*$/
//@sig fn search_file<W: Write>(m: &MemMap, comp: &mut LineCompList, context: &Context, filename: &Option<FileNameColumn>, f: &str, w: &mut OutBox<W>) -> Result<()>
//@sub /equal_range_n\(data, &mut comp\)/ => equal_range_n(data, comp)
//@sub /f\.tail_path_u8\(file\.tail, b'\/'\)\.as_bytes\(\)/ => verif_tail(f, file.tail)
//@before /let \(mut start, mut stop\) = [^;]*;/
  proof { assert(data@ =~= body_of(m.map.bytes())); }
//@after /let \(mut start, mut stop\) = [^;]*;/
  let ghost d = body_of(m.map.bytes()); let ghost c0 = *old(comp); let ghost lo = start as int; let ghost hi = stop as int; let ghost o0 = w.0.out();
//@loop 0 r
  invariant before_ok(d, start as int, lo, vi0 as int), bound(d, start as int), start <= lo, data@ == d, lo <= d.len(), vi0 <= before, vend0 == before,
  ensures before_ok(d, start as int, lo, before as int),
  decreases before - vi0,
//@loopstart 0
  proof { if start == 0 { lemma_at_start(d, lo, vi0 as int, vi0 + 1); lemma_at_start(d, lo, vi0 as int, before as int); } else { assert(lines_between(d, start as int, lo, vi0 as int)); } }
//@loop 1 r
  invariant hi <= stop <= d.len(), bound(d, stop as int), data@ == d, vi1 <= after, vend1 == after, after_ok(d, hi, stop as int, vi1 as int),
  decreases after - vi1,
//@loopstart 1
  let ghost s1 = stop as int; let ghost k1 = vi1 as int;
//@loopend 1
  proof { if s1 < d.len() { assert(starts(d, s1)); assert(is_line(d, s1, stop as int)); lemma_more(d, hi, s1, k1, stop as int); } else if lines_between(d, hi, s1, k1) { assert(lines_between(d, hi, d.len() as int, k1)); } }
//@before /if filename\.is_none\(\)/
  let ghost a = start as int; let ghost b = stop as int;
//@loop 2 w
  invariant start <= stop <= d.len(), stop == b, bound(d, start as int), bound(d, stop as int), data@ == d, w.0.out() + tagged(d, start as int, b, tail_path(f@, file.tail)) == o0 + tagged(d, a, b, tail_path(f@, file.tail)),
  decreases stop - start,
//@before /Ok\(\(\)\)\s*\}\s*$/
  proof { let o = shown(d, a, b, tag_of(*filename, f@)); assert(matches(d, c0, lo, hi)); assert(found(d, c0, *context, o, tag_of(*filename, f@))) by { reveal(found); assert(d.subrange(a, b) == d.subrange(a, b)); } }
//@end
/// the file loop of cdx binsearch
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@fn src/bin/cdx/binsearch_main.rs main (r)
  requires forall|i: int| 0 <= i < files@.len() ==> searchable(old(comp).keys(), #[trigger] file_bytes(files@[i]@)),
  ensures r is Ok ==> exists|p: Seq<Seq<u8>>| p.len() == files@.len() && final(w).0.out() == old(w).0.out() + #[trigger] cat(p) && (forall|i: int| 0 <= i < p.len() ==> file_ok(old(comp).keys(), context, filename, st_at(filename, old(checker).st(), files@, i), files@[i]@, #[trigger] p[i])),
//@from /let mut not_header: Vec<u8>/
//@sig fn search_files<W: Write>(files: Vec<String>, comp: &mut LineCompList, context: Context, filename: Option<FileNameColumn>, checker: &mut HeaderChecker, w: &mut OutBox<W>) -> Result<()>
//@sub /settings\.checker/ => checker
//@sub /MemMap::new\(f\)/ => MemMap::new(verif_as_str(f))
//@sub /check_header\(&not_header, f\)/ => check_header(&not_header, verif_as_str(f))
//@sub /f\.name\.as_bytes\(\)/ => verif_sbytes(&f.name)
//@sub /not_header\.extend\(([^;]*)\);/ => verif_extend(&mut not_header, \1);
//@sub /equal_range_n\(data, &mut comp\)/ => equal_range_n(data, comp)
//@sub /f\.tail_path_u8\(file\.tail, b'\/'\)\.as_bytes\(\)/ => verif_tail(verif_as_str(f), file.tail)
//@start
  let ghost st0 = checker.st(); let ghost oo = w.0.out(); let ghost mut p: Seq<Seq<u8>> = seq![]; let ghost keys = comp.keys(); proof { assert(oo + cat(p) =~= oo); }
//@loop 0 d
  invariant vi0 <= files@.len(), comp.keys() == keys, checker.st() == st_at(filename, st0, files@, vi0 as int), p.len() == vi0, w.0.out() =~= oo + cat(p), forall|i: int| 0 <= i < p.len() ==> file_ok(keys, context, filename, st_at(filename, st0, files@, i), files@[i]@, #[trigger] p[i]),
  decreases files@.len() - vi0,
//@loopstart 0
  let ghost k0 = vi0 as int; let ghost o1 = w.0.out(); let ghost name = files@[k0]@; let ghost t = file_bytes(name); let ghost s1 = checker.st(); let ghost h0 = if hc_writes(s1, head_for(t, filename)) { head_for(t, filename) } else { seq![] };
  proof { assert(has_head(t) ==> line_end(t, 0) > 4) by { reveal(searchable); } }
//@sub /continue;/ => { proof { let q = p.push(Seq::<u8>::empty()); assert(q.drop_last() =~= p); assert(file_ok(keys, context, filename, s1, name, q[k0])) by { reveal(file_ok); } p = q; } continue; }
//@before /(?:if |match |let \w+ = )checker\s*\.check_header/
  proof { assert(not_header@ =~= head_for(t, filename)); }
//@sub /(?s)let data = if m\.has_header.*(?=\}\s*Ok\(\(\)\)\s*\}\s*$)/ => search_file(&m, comp, &context, &filename, verif_as_str(f), w)?;
//@before /search_file\(&m/
  let ghost c0 = *comp; let ghost d = body_of(t); let ghost o0 = w.0.out(); proof { assert(looked(c0, keys, names_in(t))); assert(ordered(d, c0)) by { reveal(searchable); assert(searchable(keys, t)); } assert(o0 =~= o1 + h0); }
//@loopend 0
  proof { let o = choose|o: Seq<u8>| w.0.out() == o0 + o && #[trigger] found(d, c0, context, o, tag_of(filename, name));
    assert(w.0.out() =~= o1 + (h0 + o)); let q = p.push(h0 + o); assert(q.drop_last() =~= p); assert(file_ok(keys, context, filename, s1, name, q[k0])) by { reveal(file_ok); } p = q; }
//@end
}
fn main(){}
