use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
//@include std.vrs
//@include bytes.vrs
//@include str.vrs
/// without its leading blanks
pub open spec fn blank_trim(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() > 0 && s[0] <= 32u8 { blank_trim(s.drop_first()) } else { s }
}
//@include trimw.vrs
// ------------------------------------------------------------ what the methods mean
pub open spec fn begins<T>(h: Seq<T>, n: Seq<T>) -> bool { n.len() <= h.len() && h.subrange(0, n.len() as int) == n }
pub open spec fn ends<T>(h: Seq<T>, n: Seq<T>) -> bool { n.len() <= h.len() && h.subrange(h.len() - n.len(), h.len() as int) == n }
pub open spec fn has_at<T>(h: Seq<T>, n: Seq<T>, i: int) -> bool { 0 <= i && i + n.len() <= h.len() && h.subrange(i, i + n.len()) == n }
pub open spec fn has<T>(h: Seq<T>, n: Seq<T>) -> bool { exists|i: int| #[trigger] has_at(h, n, i) }
/// the lower case form of a character (char::to_lowercase, one to three characters)
pub uninterp spec fn lower_of(c: char) -> Seq<char>;
pub open spec fn slow(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { slow(s.drop_last()) + lower_of(s.last()) } }
/// in UTF-8 one text contains, begins or ends with another, or is the same, exactly when its bytes do (the encoding is self-synchronizing)
#[verifier::external_body]
pub proof fn axiom_utf8_has(h: Seq<char>, n: Seq<char>) ensures has(utf8(h), utf8(n)) == has(h, n) {}
#[verifier::external_body]
pub proof fn axiom_utf8_inj(h: Seq<char>, n: Seq<char>) ensures (utf8(h) == utf8(n)) == (h == n) {}
// ------------------------------------------------------------ trusted: characters and strings
#[verifier::external_body]
pub struct VIter { x: u8 }
impl VIter {
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
      ensures r is Some == (old(self).rest().len() > 0), r matches Some(c) ==> c == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), r is None ==> final(self).rest() == old(self).rest(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.rest().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VIter) ensures r.rest() == (if n <= self.rest().len() { self.rest().skip(n as int) } else { seq![] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn eq(self, o: VIter) -> (r: bool) ensures r == (self.rest() == o.rest()) { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: String) ensures r@ == self.rest() { unimplemented!() }
}
pub trait VChars {
    spec fn vs(&self) -> Seq<char>;
    fn vchars(&self) -> (r: VIter) ensures r.rest() == self.vs();
    fn vlower(&self) -> (r: VIter) ensures r.rest() == slow(self.vs());
}
impl VChars for str {
    open spec fn vs(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vchars(&self) -> (r: VIter) { unimplemented!() }
    #[verifier::external_body]
    fn vlower(&self) -> (r: VIter) { unimplemented!() }
}
//@gsub /\.chars\(\)\s*\.flat_map\(char::to_lowercase\)/ => .vlower()
//@gsub /\.chars\(\)/ => .vchars()
pub trait VStr { spec fn st(&self) -> Seq<char>; fn vstr(&self) -> (r: &str) ensures r@ == self.st(); }
impl VStr for String {
    open spec fn st(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vstr(&self) -> (r: &str) { self }
}
impl VStr for str {
    open spec fn st(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vstr(&self) -> (r: &str) { self }
}
//@gsub /&self\.(data|s_data|needle)\b(?!\.)/ => self.\1.vstr()
//@gsub /\b(self\.data|self\.s_data|self\.needle|data|buff|haystack)\.as_bytes\(\)/ => verif_bytes(\1.vstr())
//@gsub /\b(self\.s_data)\.equal_/ => \1.vstr().equal_
//@gsub /\bself\.data(?:\.as_str\(\))? == buff\b/ => verif_s_eq(self.data.vstr(), buff)
//@gsub /\bbuff == self\.data\b(?!\.as_bytes)(?:\.as_str\(\))?/ => verif_s_eq(self.data.vstr(), buff)
//@gsub /(verif_bytes\([^()]*\([^()]*\)\)) == buff\b/ => verif_seq_eq(\1, buff)
//@gsub /\bbuff == (verif_bytes\([^()]*\([^()]*\)\))/ => verif_seq_eq(\1, buff)
//@gsub /\.(starts_with|ends_with|contains)\(/ => .v_\1(
//@gsub /\b(data|file_name)\.to_string\(\)/ => verif_to_string(\1)
/// starts_with, ends_with and contains of the standard library, and memmem::find
pub trait VFind { 
    type Elem;
    spec fn fs(&self) -> Seq<Self::Elem>;
    fn v_starts_with(&self, n: &Self) -> (r: bool) ensures r == begins(self.fs(), n.fs());
    fn v_ends_with(&self, n: &Self) -> (r: bool) ensures r == ends(self.fs(), n.fs());
}
impl VFind for str {
    type Elem = char;
    open spec fn fs(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_starts_with(&self, n: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_ends_with(&self, n: &Self) -> (r: bool) { unimplemented!() }
}
impl VFind for [u8] {
    type Elem = u8;
    open spec fn fs(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn v_starts_with(&self, n: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_ends_with(&self, n: &Self) -> (r: bool) { unimplemented!() }
}
pub trait VHas { spec fn hs(&self) -> Seq<char>; fn v_contains(&self, n: &str) -> (r: bool) ensures r == has(self.hs(), n@); }
impl VHas for str {
    open spec fn hs(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_contains(&self, n: &str) -> (r: bool) { unimplemented!() }
}
impl VHas for String {
    open spec fn hs(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_contains(&self, n: &str) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
pub fn find(h: &[u8], n: &[u8]) -> (r: Option<usize>) ensures r is Some == has(h@, n@) { unimplemented!() }
pub assume_specification [<[u8]>::to_ascii_lowercase] (s: &[u8]) -> (r: Vec<u8>) ensures r@ == lowers(s@);
#[verifier::external_body]
pub fn verif_extend_blower(d: &mut Vec<u8>, s: &[u8]) ensures final(d)@ == old(d)@ + lowers(s@) { unimplemented!() }
#[verifier::external_body]
pub fn verif_extend_chars(d: &mut String, s: VIter) ensures final(d)@ == old(d)@ + s.rest() { unimplemented!() }
#[verifier::external_body]
pub fn verif_sclear(d: &mut String) ensures final(d)@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn verif_bieq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (lowers(a@) == lowers(b@)) { unimplemented!() }
// ------------------------------------------------------------ letter case
pub trait Lower {
    type Container;
    type V;
    spec fn lv(&self) -> Self::V;
    spec fn cv(c: Self::Container) -> Self::V;
    spec fn lowered(v: Self::V) -> Self::V;
    /// is the pattern, already in lower case, the same as the text but for case?
    fn equal_insens_quick(&self, other: &Self) -> (r: bool) ensures Self::lowered(self.lv()) == self.lv() || Self::lowered(other.lv()) == other.lv() ==> r == (self.quick(other.lv()));
    spec fn quick(&self, o: Self::V) -> bool;
    fn assign_lower(&self, dst: &mut Self::Container) ensures Self::cv(*final(dst)) == Self::lowered(self.lv());
    fn new_lower(&self) -> (r: Self::Container) ensures Self::cv(r) == Self::lowered(self.lv());
}
impl Lower for str {
    type Container = String;
    type V = Seq<char>;
    open spec fn lv(&self) -> Seq<char> { self@ }
    open spec fn cv(c: String) -> Seq<char> { c@ }
    open spec fn lowered(v: Seq<char>) -> Seq<char> { slow(v) }
    open spec fn quick(&self, o: Seq<char>) -> bool { self@ == slow(o) }
//@fn src/text.rs <str as Text>::equal_insens_quick (r)
  ensures r == (self@ == slow(other@)),
//@end
//@fn src/text.rs <str as Text>::assign_lower
//@sub /dst\.clear\(\);/ => verif_sclear(dst);
//@sub /dst\.extend\(([^;]*)\);/ => verif_extend_chars(dst, \1);
//@end
//@fn src/text.rs <str as Text>::new_lower
//@end
}
impl Lower for [u8] {
    type Container = Vec<u8>;
    type V = Seq<u8>;
    open spec fn lv(&self) -> Seq<u8> { self@ }
    open spec fn cv(c: Vec<u8>) -> Seq<u8> { c@ }
    open spec fn lowered(v: Seq<u8>) -> Seq<u8> { lowers(v) }
    open spec fn quick(&self, o: Seq<u8>) -> bool { lowers(self@) == lowers(o) }
//@fn src/text.rs <[u8] as Text>::equal_insens_quick (r)
  ensures r == (lowers(self@) == lowers(other@)),
//@sub /self\.eq_ignore_ascii_case\(other\)/ => verif_bieq(self, other)
//@end
//@fn src/text.rs <[u8] as Text>::assign_lower
//@sub /dst\.extend\(self\.iter\(\)\.map\(u8::to_ascii_lowercase\)\)/ => verif_extend_blower(dst, self)
//@end
//@fn src/text.rs <[u8] as Text>::new_lower
//@end
}
//@fn src/matcher.rs scase_prefix (r)
  ensures r == begins(slow(haystack@), needle@),
//@beforeloop 0
  let ghost h = slow(haystack@);
  let ghost n = needle@;
  let ghost mut k: int = 0;
//@loop 0 l
  invariant 0 <= k <= n.len(), k <= h.len(), n == needle@, h == slow(haystack@), iter1.rest() =~= n.skip(k), iter2.rest() =~= h.skip(k), forall|j: int| 0 <= j < k ==> n[j] == h[j],
  decreases n.len() - k
//@loopend 0
  proof { k = k + 1; }
//@before /return true/
  proof { assert(h.subrange(0, n.len() as int) =~= n); }
//@before /return false;\s*\}\s*if/
  proof { assert(!begins(h, n)); }
//@before /return false;\s*\}\s*\}/
  proof { if begins(h, n) { assert(h.subrange(0, n.len() as int)[k] == h[k]); } }
//@end
//@fn src/matcher.rs bcase_prefix (r)
  ensures r == begins(lowers(haystack@), needle@),
//@loop 0 r
  invariant vi0 <= vend0, vend0 == needle@.len() <= haystack@.len(), forall|j: int| 0 <= j < vi0 ==> lower(haystack@[j]) == needle@[j],
  decreases vend0 - vi0
//@before /return false;\s*\}\s*\}/
  proof { if begins(lowers(haystack@), needle@) { assert(lowers(haystack@).subrange(0, needle@.len() as int)[x as int] == lower(haystack@[x as int])); } }
//@afterloop 0
  proof { assert(lowers(haystack@).subrange(0, needle@.len() as int) =~= needle@); }
//@end
//@fn src/matcher.rs bcase_suffix (r)
  ensures r == ends(lowers(haystack@), needle@),
//@start
  proof { if needle@.len() <= haystack@.len() { let k = haystack@.len() - needle@.len(); let t = lowers(haystack@.subrange(k, haystack@.len() as int));
    assert(t.subrange(0, needle@.len() as int) =~= lowers(haystack@).subrange(k, haystack@.len() as int)); } }
//@end
//@fn src/matcher.rs scase_suffix (r)
  ensures r == ends(slow(haystack@), needle@),
//@beforeloop 0
  let ghost h = slow(haystack@).skip(haystack_len - needle_len);
  let ghost n = needle@;
  proof { assert(h =~= slow(haystack@).subrange(haystack_len - needle_len, haystack_len as int)); assert(ends(slow(haystack@), n) == (h == n)); }
//@loop 0 r
  invariant vi0 <= vend0, vend0 == n.len(), h.len() == n.len(), needle_it.rest() =~= n.skip(vi0 as int), haystack_it.rest() =~= h.skip(vi0 as int), ends(slow(haystack@), needle@) == (h == n), forall|j: int| 0 <= j < vi0 ==> n[j] == h[j],
  decreases vend0 - vi0
//@loopstart 0
  let ghost k = vi0 as int;
  proof { assert(n.skip(k)[0] == n[k] && h.skip(k)[0] == h[k]); }
//@afterloop 0
  proof { assert(h =~= n); }
//@end
// ------------------------------------------------------------ the matchers
pub trait Match {
    spec fn sm(&self, s: Seq<char>) -> bool;
    spec fn um(&self, s: Seq<u8>) -> bool;
//@fn src/matcher.rs trait Match::smatch (r)
  ensures r == self.sm(buff@),
//@end
//@fn src/matcher.rs trait Match::umatch (r)
  ensures r == self.um(buff@),
//@end
}
//@item src/matcher.rs struct PrefixMatch
impl PrefixMatch {
//@fn src/matcher.rs PrefixMatch::new (r)
  ensures r.data@ == data@,
//@end
}
impl Match for PrefixMatch {
    open spec fn sm(&self, s: Seq<char>) -> bool { begins(s, self.data@) }
    open spec fn um(&self, s: Seq<u8>) -> bool { begins(s, utf8(self.data@)) }
//@fn src/matcher.rs <PrefixMatch as Match>::smatch
//@end
//@fn src/matcher.rs <PrefixMatch as Match>::umatch
//@end
}
//@item src/matcher.rs struct PrefixMatchC
impl PrefixMatchC {
//@fn src/matcher.rs PrefixMatchC::new (r)
  ensures r.s_data@ == slow(data@), r.u_data@ == lowers(utf8(data@)),
//@end
}
impl Match for PrefixMatchC {
    open spec fn sm(&self, s: Seq<char>) -> bool { begins(slow(s), self.s_data@) }
    open spec fn um(&self, s: Seq<u8>) -> bool { begins(lowers(s), self.u_data@) }
//@fn src/matcher.rs <PrefixMatchC as Match>::smatch
//@end
//@fn src/matcher.rs <PrefixMatchC as Match>::umatch
//@end
}
//@item src/matcher.rs struct SuffixMatch
impl SuffixMatch {
//@fn src/matcher.rs SuffixMatch::new (r)
  ensures r.data@ == data@,
//@end
}
impl Match for SuffixMatch {
    open spec fn sm(&self, s: Seq<char>) -> bool { ends(s, self.data@) }
    open spec fn um(&self, s: Seq<u8>) -> bool { ends(s, utf8(self.data@)) }
//@fn src/matcher.rs <SuffixMatch as Match>::smatch
//@end
//@fn src/matcher.rs <SuffixMatch as Match>::umatch
//@end
}
//@item src/matcher.rs struct SuffixMatchC
impl SuffixMatchC {
//@fn src/matcher.rs SuffixMatchC::new (r)
  ensures r.s_data@ == slow(data@), r.u_data@ == lowers(utf8(data@)),
//@end
}
impl Match for SuffixMatchC {
    open spec fn sm(&self, s: Seq<char>) -> bool { ends(slow(s), self.s_data@) }
    open spec fn um(&self, s: Seq<u8>) -> bool { ends(lowers(s), self.u_data@) }
//@fn src/matcher.rs <SuffixMatchC as Match>::smatch
//@end
//@fn src/matcher.rs <SuffixMatchC as Match>::umatch
//@end
}
//@item src/matcher.rs struct InfixMatch
impl InfixMatch {
//@fn src/matcher.rs InfixMatch::new (r)
  ensures r.needle@ == data@,
//@end
}
impl Match for InfixMatch {
    open spec fn sm(&self, s: Seq<char>) -> bool { has(s, self.needle@) }
    open spec fn um(&self, s: Seq<u8>) -> bool { has(s, utf8(self.needle@)) }
//@fn src/matcher.rs <InfixMatch as Match>::smatch
//@start
  proof { axiom_utf8_has(haystack@, self.needle@); }
//@end
//@fn src/matcher.rs <InfixMatch as Match>::umatch
//@end
}
//@item src/matcher.rs struct InfixMatchC
impl InfixMatchC {
//@fn src/matcher.rs InfixMatchC::new (r)
  ensures r.s_data@ == slow(data@), r.u_data@ == lowers(utf8(data@)),
//@end
}
impl Match for InfixMatchC {
    open spec fn sm(&self, s: Seq<char>) -> bool { has(slow(s), self.s_data@) }
    open spec fn um(&self, s: Seq<u8>) -> bool { has(lowers(s), self.u_data@) }
//@fn src/matcher.rs <InfixMatchC as Match>::smatch
//@end
//@fn src/matcher.rs <InfixMatchC as Match>::umatch
//@end
}
//@item src/matcher.rs struct ExactMatch
impl ExactMatch {
//@fn src/matcher.rs ExactMatch::new (r)
  ensures r.data@ == data@,
//@end
}
impl Match for ExactMatch {
    open spec fn sm(&self, s: Seq<char>) -> bool { s == self.data@ }
    open spec fn um(&self, s: Seq<u8>) -> bool { s == utf8(self.data@) }
//@fn src/matcher.rs <ExactMatch as Match>::smatch
//@end
//@fn src/matcher.rs <ExactMatch as Match>::umatch
//@end
}
//@item src/matcher.rs struct ExactMatchC
impl ExactMatchC {
//@fn src/matcher.rs ExactMatchC::new (r)
  ensures r matches Ok(m) && m.s_data@ == slow(data@) && m.u_data@ == lowers(utf8(data@)),
//@end
}
impl Match for ExactMatchC {
    open spec fn sm(&self, s: Seq<char>) -> bool { slow(s) == self.s_data@ }
    open spec fn um(&self, s: Seq<u8>) -> bool { lowers(s) == lowers(self.u_data@) }
//@fn src/matcher.rs <ExactMatchC as Match>::smatch
//@end
//@fn src/matcher.rs <ExactMatchC as Match>::umatch
//@end
}
//@item src/matcher.rs struct YesMatch
impl Match for YesMatch {
    open spec fn sm(&self, s: Seq<char>) -> bool { true }
    open spec fn um(&self, s: Seq<u8>) -> bool { true }
//@fn src/matcher.rs <YesMatch as Match>::smatch
//@end
//@fn src/matcher.rs <YesMatch as Match>::umatch
//@end
}
//@item src/matcher.rs struct NoMatch
impl Match for NoMatch {
    open spec fn sm(&self, s: Seq<char>) -> bool { false }
    open spec fn um(&self, s: Seq<u8>) -> bool { false }
//@fn src/matcher.rs <NoMatch as Match>::smatch
//@end
//@fn src/matcher.rs <NoMatch as Match>::umatch
//@end
}
// ------------------------------------------------------------ length
/// the number a text stands for, if all of it is a number (C04)
pub uninterp spec fn whole(s: Seq<char>) -> Option<usize>;
#[verifier::external_body]
pub fn verif_to_usize_whole(s: &str) -> (r: Result<usize>) ensures r is Ok == whole(s@) is Some, r matches Ok(x) ==> whole(s@) == Some(x), { unimplemented!() }
//@gsub /\b(\*?\w+)\.to_usize_whole\([^;?]*?, "[a-z ]*"\)/ => verif_to_usize_whole(\1)
//@item src/matcher.rs struct LengthMatch
/// X or X,Y
pub open spec fn length_of(s: Seq<char>) -> Option<(usize, Option<usize>)> {
    let p = spieces(s, ',');
    if s.len() == 0 || p.len() > 2 { None }
    else if p.len() == 1 { match whole(p[0]) { Some(a) => Some((a, None)), None => None } }
    else { match (whole(p[0]), whole(p[1])) { (Some(a), Some(b)) => Some((a, Some(b))), _ => None } }
}
pub open spec fn length_ok(r: (usize, Option<usize>), n: nat) -> bool { r.0 <= n && (r.1 matches Some(m) ==> n <= m) }
impl LengthMatch {
    #[verifier::external_body]
    pub fn default() -> (r: LengthMatch) ensures r.min == 0, r.max is None { unimplemented!() }
//@fn src/matcher.rs LengthMatch::new (r)
  ensures r is Ok == length_of(data@) is Some, r matches Ok(m) ==> length_of(data@) == Some((m.min, m.max)),
//@sub /data\.is_empty\(\)/ => verif_s_empty(data)
//@sub /for \(n, x\) in data\.split\(','\)\.enumerate\(\)/ => let vsp = verif_s_split(data, ','); for (n, x) in vsp.iter().enumerate()
//@start
  proof { lemma_spieces_len(data@, ','); }
//@loop 0 d
  invariant vi0 <= vsp@.len(), vi0 <= 2, data@.len() > 0, vsp@.len() > 0, vsp@.len() == spieces(data@, ',').len(), forall|i: int| 0 <= i < vsp@.len() ==> (#[trigger] vsp@[i])@ == spieces(data@, ',')[i],
    vi0 == 0 ==> val.min == 0 && val.max is None,
    vi0 >= 1 ==> whole(spieces(data@, ',')[0]) == Some(val.min),
    vi0 == 1 ==> val.max is None,
    vi0 == 2 ==> val.max is Some && whole(spieces(data@, ',')[1]) == val.max,
  decreases vsp@.len() - vi0
//@end
}
impl Match for LengthMatch {
    open spec fn sm(&self, s: Seq<char>) -> bool { length_ok((self.min, self.max), s.len()) }
    open spec fn um(&self, s: Seq<u8>) -> bool { length_ok((self.min, self.max), s.len()) }
//@fn src/matcher.rs <LengthMatch as Match>::smatch
//@end
//@fn src/matcher.rs <LengthMatch as Match>::umatch
//@end
}
// ------------------------------------------------------------ lines of a file
pub struct TextFileMode { pub x: u8 }
impl TextFileMode { pub fn default() -> TextFileMode { TextFileMode { x: 0 } } }
/// the data lines of a file, each with its newline (C06, C18)
pub uninterp spec fn file_lines(f: Seq<char>) -> Seq<Seq<u8>>;
#[verifier::external_body]
pub struct TextLine { x: u8 }
pub uninterp spec fn tl_line(t: TextLine) -> Seq<u8>;
impl TextLine {
    #[verifier::external_body]
    pub fn line(&self) -> (r: &[u8]) ensures r@ == tl_line(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn line_nl(&self) -> (r: &[u8]) ensures tl_line(*self).len() > 0 ==> r@ == tl_line(*self).drop_last() { unimplemented!() }
}
#[verifier::external_body]
pub struct Reader { x: u8 }
impl Reader {
    pub uninterp spec fn lines(&self) -> Seq<Seq<u8>>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn new(m: &TextFileMode) -> Reader { unimplemented!() }
    #[verifier::external_body]
    pub fn do_split(&mut self, b: bool) ensures final(self).lines() == old(self).lines(), final(self).pos() == old(self).pos() { unimplemented!() }
    #[verifier::external_body]
    pub fn open(&mut self, f: &str) -> (r: Result<()>) ensures r is Ok ==> final(self).pos() == 0 && final(self).lines() == file_lines(f@) && forall|i: int| 0 <= i < final(self).lines().len() ==> (#[trigger] final(self).lines()[i]).len() > 0 && final(self).lines()[i].last() == 10u8 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_done(&self) -> (r: bool) ensures r == (self.pos() >= self.lines().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn curr(&self) -> (r: &TextLine) ensures self.pos() < self.lines().len() ==> tl_line(*r) == self.lines()[self.pos()] { unimplemented!() }
    #[verifier::external_body]
    pub fn getline(&mut self) -> (r: Result<bool>) requires old(self).pos() < old(self).lines().len(), ensures final(self).lines() == old(self).lines(), r matches Ok(b) ==> final(self).pos() == old(self).pos() + 1 && b == (final(self).pos() == final(self).lines().len()) { unimplemented!() }
}
/// a set of byte strings (std::collections::HashSet)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct HashSet<T> { x: Vec<T> }
impl HashSet<Vec<u8>> {
    pub uninterp spec fn has(&self, s: Seq<u8>) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures forall|s: Seq<u8>| !#[trigger] r.has(s) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, v: Vec<u8>) -> bool ensures forall|s: Seq<u8>| #[trigger] final(self).has(s) == (old(self).has(s) || s == v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_contains(&self, v: &[u8]) -> (r: bool) ensures r == self.has(v@) { unimplemented!() }
}
/// is it one of the first k lines that are not empty?
pub open spec fn one_of(l: Seq<Seq<u8>>, k: int, s: Seq<u8>) -> bool { exists|i: int| 0 <= i < k && (#[trigger] l[i]).len() > 1 && l[i].drop_last() == s }
/// and with letter case set aside?
pub open spec fn low_of(l: Seq<u8>, unicode: bool) -> Seq<u8> { if unicode { utf8(slow(text_of(l.drop_last()))) } else { lowers(l.drop_last()) } }
pub open spec fn one_low(l: Seq<Seq<u8>>, k: int, unicode: bool, s: Seq<u8>) -> bool { exists|i: int| 0 <= i < k && (#[trigger] l[i]).len() > 1 && low_of(l[i], unicode) == s }
/// the text these bytes encode
pub uninterp spec fn text_of(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
pub fn verif_from_utf8(v: Vec<u8>) -> (r: Result<String>) ensures r matches Ok(s) ==> s@ == text_of(v@) && utf8(s@) == v@ { unimplemented!() }
#[verifier::external_body]
pub fn verif_into_bytes(s: String) -> (r: Vec<u8>) ensures r@ == utf8(s@) { unimplemented!() }
//@fn src/matcher.rs load_hashset (r)
  ensures r is Ok ==> forall|s: Seq<u8>| #[trigger] final(data).has(s) == (old(data).has(s) || one_of(file_lines(fname@), file_lines(fname@).len() as int, s)),
//@sub /let line = &f\.curr\(\)\.line\(\);/ => let line = f.curr().line();
//@beforeloop 0
  let ghost ls = f.lines();
//@loop 0 l
  invariant_except_break 0 <= f.pos() < ls.len(),
    forall|s: Seq<u8>| #[trigger] data.has(s) == (old(data).has(s) || one_of(ls, f.pos(), s)),
  invariant f.lines() == ls, forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).len() > 0 && ls[i].last() == 10u8,
  ensures forall|s: Seq<u8>| #[trigger] data.has(s) == (old(data).has(s) || one_of(ls, ls.len() as int, s)),
  decreases ls.len() - f.pos()
//@loopstart 0
  let ghost k = f.pos();
  let ghost d0 = *data;
//@before /if f\.getline\(\)/
  proof {
    assert(ls[k].subrange(0, ls[k].len() - 1) =~= ls[k].drop_last());
    assert forall|s: Seq<u8>| #[trigger] data.has(s) == (old(data).has(s) || one_of(ls, k + 1, s)) by {
        assert(d0.has(s) == (old(data).has(s) || one_of(ls, k, s)));
        if one_of(ls, k + 1, s) { let i = choose|i: int| 0 <= i < k + 1 && (#[trigger] ls[i]).len() > 1 && ls[i].drop_last() == s; if i < k { assert(one_of(ls, k, s)); } }
        if data.has(s) && !d0.has(s) { assert(ls[k].len() > 1 && ls[k].drop_last() == s); }
    }
  }
//@end
//@fn src/matcher.rs load_hashset_c (r)
  ensures r is Ok ==> forall|s: Seq<u8>| #[trigger] final(data).has(s) == (old(data).has(s) || one_low(file_lines(fname@), file_lines(fname@).len() as int, unicode, s)),
//@sub /String::from_utf8\(line\.to_vec\(\)\)\?\.new_lower\(\)\.into_bytes\(\)/ => verif_into_bytes(verif_from_utf8(line.to_vec())?.vstr().new_lower())
//@sub /line\.last\(\)\.unwrap\(\) == &b'\\n'/ => line[line.len() - 1] == 10u8
//@beforeloop 0
  let ghost ls = f.lines();
//@loop 0 l
  invariant_except_break 0 <= f.pos() < ls.len(),
    forall|s: Seq<u8>| #[trigger] data.has(s) == (old(data).has(s) || one_low(ls, f.pos(), unicode, s)),
  invariant f.lines() == ls, forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).len() > 0 && ls[i].last() == 10u8,
  ensures forall|s: Seq<u8>| #[trigger] data.has(s) == (old(data).has(s) || one_low(ls, ls.len() as int, unicode, s)),
  decreases ls.len() - f.pos()
//@loopstart 0
  let ghost k = f.pos();
  let ghost d0 = *data;
//@before /if f\.getline\(\)/
  proof {
    assert(ls[k].subrange(0, ls[k].len() - 1) =~= ls[k].drop_last());
    assert forall|s: Seq<u8>| #[trigger] data.has(s) == (old(data).has(s) || one_low(ls, k + 1, unicode, s)) by {
        assert(d0.has(s) == (old(data).has(s) || one_low(ls, k, unicode, s)));
        if one_low(ls, k + 1, unicode, s) { let i = choose|i: int| 0 <= i < k + 1 && (#[trigger] ls[i]).len() > 1 && low_of(ls[i], unicode) == s; if i < k { assert(one_low(ls, k, unicode, s)); } }
        if data.has(s) && !d0.has(s) { assert(ls[k].len() > 1 && low_of(ls[k], unicode) == s); }
    }
  }
//@end
//@item src/matcher.rs struct FileExactMatch
impl FileExactMatch {
//@fn src/matcher.rs FileExactMatch::new (r)
  ensures r matches Ok(m) ==> forall|s: Seq<u8>| #[trigger] m.data.has(s) == one_of(file_lines(file_name@), file_lines(file_name@).len() as int, s),
//@end
}
impl Match for FileExactMatch {
    open spec fn sm(&self, s: Seq<char>) -> bool { self.data.has(utf8(s)) }
    open spec fn um(&self, s: Seq<u8>) -> bool { self.data.has(s) }
//@fn src/matcher.rs <FileExactMatch as Match>::smatch
//@end
//@fn src/matcher.rs <FileExactMatch as Match>::umatch
//@end
}
//@item src/matcher.rs struct FileExactMatchC
impl FileExactMatchC {
//@fn src/matcher.rs FileExactMatchC::new (r)
  ensures r matches Ok(m) ==> forall|s: Seq<u8>| #[trigger] m.data.has(s) == one_low(file_lines(file_name@), file_lines(file_name@).len() as int, unicode, s),
//@end
}
impl Match for FileExactMatchC {
    open spec fn sm(&self, s: Seq<char>) -> bool { self.data.has(utf8(slow(s))) }
    open spec fn um(&self, s: Seq<u8>) -> bool { self.data.has(lowers(s)) }
//@fn src/matcher.rs <FileExactMatchC as Match>::smatch
//@sub /&buff\.new_lower\(\)\.into_bytes\(\)/ => &verif_into_bytes(buff.new_lower())
//@end
//@fn src/matcher.rs <FileExactMatchC as Match>::umatch
//@end
}
// ------------------------------------------------------------ matchers defined elsewhere, seen through their contracts
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/text.rs enum Case
/// glob (C10)
pub uninterp spec fn sglob(pat: Seq<char>, ic: Case, s: Seq<char>) -> bool;
pub uninterp spec fn uglob(pat: Seq<u8>, ic: Case, s: Seq<u8>) -> bool;
#[verifier::external_body]
pub fn verif_sglob(s: &str, pat: &str, ic: Case) -> (r: bool) ensures r == sglob(pat@, ic, s@) { unimplemented!() }
#[verifier::external_body]
pub fn verif_uglob(s: &[u8], pat: &[u8], ic: Case) -> (r: bool) ensures r == uglob(pat@, ic, s@) { unimplemented!() }
//@item src/matcher.rs struct GlobMatch
impl GlobMatch {
//@fn src/matcher.rs GlobMatch::new (r)
  ensures r.data@ == data@, r.ic == ic,
//@end
}
impl Match for GlobMatch {
    open spec fn sm(&self, s: Seq<char>) -> bool { sglob(self.data@, self.ic, s) }
    open spec fn um(&self, s: Seq<u8>) -> bool { uglob(utf8(self.data@), self.ic, s) }
//@fn src/matcher.rs <GlobMatch as Match>::smatch
//@sub /buff\.glob\(/ => verif_sglob(buff, 
//@end
//@fn src/matcher.rs <GlobMatch as Match>::umatch
//@sub /buff\.glob\(/ => verif_uglob(buff, 
//@end
}
/// the regex crate
pub uninterp spec fn sregex(pat: Seq<char>, ic: bool, s: Seq<char>) -> bool;
pub uninterp spec fn uregex(pat: Seq<char>, ic: bool, s: Seq<u8>) -> bool;
#[verifier::external_body]
pub struct Regex { x: u8 }
impl Regex {
    pub uninterp spec fn pat(&self) -> Seq<char>;
    pub uninterp spec fn ic(&self) -> bool;
    #[verifier::external_body]
    pub fn is_match(&self, s: &str) -> (r: bool) ensures r == sregex(self.pat(), self.ic(), s@) { unimplemented!() }
}
pub mod regex {
    use super::*;
    #[verifier::external_body]
    pub struct RegexBuilder { x: u8 }
    impl RegexBuilder {
        pub uninterp spec fn pat(&self) -> Seq<char>;
        pub uninterp spec fn ic(&self) -> bool;
        #[verifier::external_body]
        pub fn new(p: &str) -> (r: Self) ensures r.pat() == p@, !r.ic() { unimplemented!() }
        #[verifier::external_body]
        pub fn case_insensitive(self, b: bool) -> (r: Self) ensures r.pat() == self.pat(), r.ic() == b { unimplemented!() }
        #[verifier::external_body]
        pub fn build(self) -> (r: Result<Regex>) ensures r matches Ok(x) ==> x.pat() == self.pat() && x.ic() == self.ic() { unimplemented!() }
    }
    pub mod bytes {
        use super::super::*;
        #[verifier::external_body]
        pub struct Regex { x: u8 }
        impl Regex {
            pub uninterp spec fn pat(&self) -> Seq<char>;
            pub uninterp spec fn ic(&self) -> bool;
            #[verifier::external_body]
            pub fn is_match(&self, s: &[u8]) -> (r: bool) ensures r == uregex(self.pat(), self.ic(), s@) { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct RegexBuilder { x: u8 }
        impl RegexBuilder {
            pub uninterp spec fn pat(&self) -> Seq<char>;
            pub uninterp spec fn ic(&self) -> bool;
            #[verifier::external_body]
            pub fn new(p: &str) -> (r: Self) ensures r.pat() == p@, !r.ic() { unimplemented!() }
            #[verifier::external_body]
            pub fn case_insensitive(self, b: bool) -> (r: Self) ensures r.pat() == self.pat(), r.ic() == b { unimplemented!() }
            #[verifier::external_body]
            pub fn build(self) -> (r: Result<Regex>) ensures r matches Ok(x) ==> x.pat() == self.pat() && x.ic() == self.ic() { unimplemented!() }
        }
    }
}
//@item src/matcher.rs struct RegexMatch
impl RegexMatch {
//@fn src/matcher.rs RegexMatch::new (r)
  ensures r matches Ok(m) ==> m.s_data.pat() == data@ && m.u_data.pat() == data@ && m.s_data.ic() == (case == Case::Insens) && m.u_data.ic() == (case == Case::Insens),
//@end
}
impl Match for RegexMatch {
    open spec fn sm(&self, s: Seq<char>) -> bool { sregex(self.s_data.pat(), self.s_data.ic(), s) }
    open spec fn um(&self, s: Seq<u8>) -> bool { uregex(self.u_data.pat(), self.u_data.ic(), s) }
//@fn src/matcher.rs <RegexMatch as Match>::smatch
//@end
//@fn src/matcher.rs <RegexMatch as Match>::umatch
//@end
}
/// range (C13)
#[verifier::external_body]
pub struct CheckBuff { x: u8 }
pub uninterp spec fn srange(pat: Seq<char>, s: Seq<char>) -> bool;
pub uninterp spec fn urange(pat: Seq<char>, s: Seq<u8>) -> bool;
impl CheckBuff {
    pub uninterp spec fn pat(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(p: &str) -> (r: Result<Self>) ensures r matches Ok(x) ==> x.pat() == p@ { unimplemented!() }
}
impl Match for CheckBuff {
    open spec fn sm(&self, s: Seq<char>) -> bool { srange(self.pat(), s) }
    open spec fn um(&self, s: Seq<u8>) -> bool { urange(self.pat(), s) }
    #[verifier::external_body]
    fn smatch(&self, buff: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn umatch(&self, buff: &[u8]) -> (r: bool) { unimplemented!() }
}
// ------------------------------------------------------------ from the name of a method to its matcher
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/matcher.rs enum Combiner
//@item src/matcher.rs struct Matcher
/// which texts does the method accept?
pub open spec fn saccepts(tag: Seq<char>, case: bool, utf: bool, p: Seq<char>, s: Seq<char>) -> bool {
    &&& tag == "exact"@ ==> if case { slow(s) == slow(p) } else { s == p }
    &&& tag == "prefix"@ ==> if case { begins(slow(s), slow(p)) } else { begins(s, p) }
    &&& tag == "suffix"@ ==> if case { ends(slow(s), slow(p)) } else { ends(s, p) }
    &&& tag == "infix"@ ==> if case { has(slow(s), slow(p)) } else { has(s, p) }
    &&& tag == "length"@ ==> length_of(p) is Some && length_ok(length_of(p)->Some_0, s.len())
    &&& tag == "file-exact"@ ==> { let l = file_lines(p); if case { one_low(l, l.len() as int, utf, utf8(slow(s))) } else { one_of(l, l.len() as int, utf8(s)) } }
    &&& tag == "glob"@ ==> sglob(p, if case { Case::Insens } else { Case::Sens }, s)
    &&& tag == "regex"@ ==> sregex(p, case, s)
    &&& tag == "range"@ ==> srange(p, s)
    &&& tag != "blank"@
    &&& tag == "empty"@ ==> s.len() == 0
}
pub open spec fn uaccepts(tag: Seq<char>, case: bool, utf: bool, p: Seq<char>, s: Seq<u8>) -> bool {
    &&& tag == "exact"@ ==> if case { lowers(s) == lowers(utf8(p)) } else { s == utf8(p) }
    &&& tag == "prefix"@ ==> if case { begins(lowers(s), lowers(utf8(p))) } else { begins(s, utf8(p)) }
    &&& tag == "suffix"@ ==> if case { ends(lowers(s), lowers(utf8(p))) } else { ends(s, utf8(p)) }
    &&& tag == "infix"@ ==> if case { has(lowers(s), lowers(utf8(p))) } else { has(s, utf8(p)) }
    &&& tag == "length"@ ==> length_of(p) is Some && length_ok(length_of(p)->Some_0, s.len())
    &&& tag == "file-exact"@ ==> { let l = file_lines(p); if case { one_low(l, l.len() as int, utf, lowers(s)) } else { one_of(l, l.len() as int, s) } }
    &&& tag == "glob"@ ==> uglob(utf8(p), if case { Case::Insens } else { Case::Sens }, s)
    &&& tag == "regex"@ ==> uregex(p, case, s)
    &&& tag == "range"@ ==> urange(p, s)
    &&& tag != "blank"@
    &&& tag == "empty"@ ==> s.len() == 0
}
pub open spec fn documented(tag: Seq<char>) -> bool {
    tag == "exact"@ || tag == "prefix"@ || tag == "suffix"@ || tag == "infix"@ || tag == "length"@ || tag == "file-exact"@ || tag == "glob"@ || tag == "regex"@ || tag == "range"@ || tag == "blank"@ || tag == "empty"@ || tag == "yes"@
}
pub open spec fn same_but(a: Matcher, b: Matcher, trim: bool) -> bool {
    a.ctype == b.ctype && a.string == b.string && a.case == b.case && a.negate == b.negate && a.multi_mode == b.multi_mode && a.trim == (b.trim || trim) && a.empty == (b.empty || trim)
}
/// the number zero, as it is written (C04)
#[verifier::external_body]
pub proof fn axiom_whole_zero() ensures whole(seq!['0']) == Some(0usize) {}
pub proof fn lemma_zero() ensures length_of("0,0"@) == Some((0usize, Some(0usize)))
{
    reveal_strlit("0,0");
    axiom_whole_zero();
    let s = "0,0"@;
    let s2 = s.drop_last();
    let s1 = s2.drop_last();
    let s0 = s1.drop_last();
    assert(spieces(s0, ',') =~= seq![Seq::<char>::empty()]);
    assert(spieces(s1, ',') =~= seq![seq!['0']]) by { assert(Seq::<char>::empty().push('0') =~= seq!['0']); }
    assert(spieces(s2, ',') =~= seq![seq!['0'], Seq::<char>::empty()]);
    assert(spieces(s, ',') =~= seq![seq!['0'], seq!['0']]) by { assert(Seq::<char>::empty().push('0') =~= seq!['0']); }
}
pub proof fn lemma_lowers2(s: Seq<u8>) ensures lowers(lowers(s)) == lowers(s) { assert(lowers(lowers(s)) =~= lowers(s)); }
/// the names of the methods are all different
pub proof fn lemma_names()
  ensures
    "prefix"@ != "float"@,
    "prefix"@ != "integer"@,
    "prefix"@ != "number"@,
    "prefix"@ != "ip"@,
    "prefix"@ != "regex"@,
    "prefix"@ != "range"@,
    "prefix"@ != "file-exact"@,
    "prefix"@ != "exact"@,
    "prefix"@ != "length"@,
    "prefix"@ != "yes"@,
    "prefix"@ != "suffix"@,
    "prefix"@ != "infix"@,
    "prefix"@ != "glob"@,
    "prefix"@ != "empty"@,
    "prefix"@ != "blank"@,
    "prefix"@ != "comment"@,
    "prefix"@ != "hash"@,
    "prefix"@ != "slash"@,
    "float"@ != "regex"@,
    "float"@ != "range"@,
    "float"@ != "file-exact"@,
    "float"@ != "exact"@,
    "float"@ != "length"@,
    "float"@ != "yes"@,
    "float"@ != "suffix"@,
    "float"@ != "infix"@,
    "float"@ != "glob"@,
    "float"@ != "empty"@,
    "float"@ != "blank"@,
    "integer"@ != "regex"@,
    "integer"@ != "range"@,
    "integer"@ != "file-exact"@,
    "integer"@ != "exact"@,
    "integer"@ != "length"@,
    "integer"@ != "yes"@,
    "integer"@ != "suffix"@,
    "integer"@ != "infix"@,
    "integer"@ != "glob"@,
    "integer"@ != "empty"@,
    "integer"@ != "blank"@,
    "number"@ != "regex"@,
    "number"@ != "range"@,
    "number"@ != "file-exact"@,
    "number"@ != "exact"@,
    "number"@ != "length"@,
    "number"@ != "yes"@,
    "number"@ != "suffix"@,
    "number"@ != "infix"@,
    "number"@ != "glob"@,
    "number"@ != "empty"@,
    "number"@ != "blank"@,
    "ip"@ != "regex"@,
    "ip"@ != "range"@,
    "ip"@ != "file-exact"@,
    "ip"@ != "exact"@,
    "ip"@ != "length"@,
    "ip"@ != "yes"@,
    "ip"@ != "suffix"@,
    "ip"@ != "infix"@,
    "ip"@ != "glob"@,
    "ip"@ != "empty"@,
    "ip"@ != "blank"@,
    "regex"@ != "range"@,
    "regex"@ != "file-exact"@,
    "regex"@ != "exact"@,
    "regex"@ != "length"@,
    "regex"@ != "yes"@,
    "regex"@ != "suffix"@,
    "regex"@ != "infix"@,
    "regex"@ != "glob"@,
    "regex"@ != "empty"@,
    "regex"@ != "blank"@,
    "regex"@ != "comment"@,
    "regex"@ != "hash"@,
    "regex"@ != "slash"@,
    "range"@ != "file-exact"@,
    "range"@ != "exact"@,
    "range"@ != "length"@,
    "range"@ != "yes"@,
    "range"@ != "suffix"@,
    "range"@ != "infix"@,
    "range"@ != "glob"@,
    "range"@ != "empty"@,
    "range"@ != "blank"@,
    "range"@ != "comment"@,
    "range"@ != "hash"@,
    "range"@ != "slash"@,
    "file-exact"@ != "exact"@,
    "file-exact"@ != "length"@,
    "file-exact"@ != "yes"@,
    "file-exact"@ != "suffix"@,
    "file-exact"@ != "infix"@,
    "file-exact"@ != "glob"@,
    "file-exact"@ != "empty"@,
    "file-exact"@ != "blank"@,
    "file-exact"@ != "comment"@,
    "file-exact"@ != "hash"@,
    "file-exact"@ != "slash"@,
    "exact"@ != "length"@,
    "exact"@ != "yes"@,
    "exact"@ != "suffix"@,
    "exact"@ != "infix"@,
    "exact"@ != "glob"@,
    "exact"@ != "empty"@,
    "exact"@ != "blank"@,
    "exact"@ != "comment"@,
    "exact"@ != "hash"@,
    "exact"@ != "slash"@,
    "length"@ != "yes"@,
    "length"@ != "suffix"@,
    "length"@ != "infix"@,
    "length"@ != "glob"@,
    "length"@ != "empty"@,
    "length"@ != "blank"@,
    "length"@ != "comment"@,
    "length"@ != "hash"@,
    "length"@ != "slash"@,
    "yes"@ != "suffix"@,
    "yes"@ != "infix"@,
    "yes"@ != "glob"@,
    "yes"@ != "empty"@,
    "yes"@ != "blank"@,
    "yes"@ != "comment"@,
    "yes"@ != "hash"@,
    "yes"@ != "slash"@,
    "suffix"@ != "infix"@,
    "suffix"@ != "glob"@,
    "suffix"@ != "empty"@,
    "suffix"@ != "blank"@,
    "suffix"@ != "comment"@,
    "suffix"@ != "hash"@,
    "suffix"@ != "slash"@,
    "infix"@ != "glob"@,
    "infix"@ != "empty"@,
    "infix"@ != "blank"@,
    "infix"@ != "comment"@,
    "infix"@ != "hash"@,
    "infix"@ != "slash"@,
    "glob"@ != "empty"@,
    "glob"@ != "blank"@,
    "glob"@ != "comment"@,
    "glob"@ != "hash"@,
    "glob"@ != "slash"@,
    "empty"@ != "blank"@,
    "empty"@ != "comment"@,
    "empty"@ != "hash"@,
    "empty"@ != "slash"@,
    "blank"@ != "comment"@,
    "blank"@ != "hash"@,
    "blank"@ != "slash"@,
{
    reveal_strlit("prefix"); assert("prefix"@.len() == 6);
    reveal_strlit("float"); assert("float"@.len() == 5);
    reveal_strlit("integer"); assert("integer"@.len() == 7);
    reveal_strlit("number"); assert("number"@.len() == 6);
    reveal_strlit("ip"); assert("ip"@.len() == 2);
    reveal_strlit("regex"); assert("regex"@.len() == 5);
    reveal_strlit("range"); assert("range"@.len() == 5);
    reveal_strlit("file-exact"); assert("file-exact"@.len() == 10);
    reveal_strlit("exact"); assert("exact"@.len() == 5);
    reveal_strlit("length"); assert("length"@.len() == 6);
    reveal_strlit("yes"); assert("yes"@.len() == 3);
    reveal_strlit("suffix"); assert("suffix"@.len() == 6);
    reveal_strlit("infix"); assert("infix"@.len() == 5);
    reveal_strlit("glob"); assert("glob"@.len() == 4);
    reveal_strlit("empty"); assert("empty"@.len() == 5);
    reveal_strlit("blank"); assert("blank"@.len() == 5);
    reveal_strlit("comment"); assert("comment"@.len() == 7);
    reveal_strlit("hash"); assert("hash"@.len() == 4);
    reveal_strlit("slash"); assert("slash"@.len() == 5);
    assert("prefix"@[0] != "number"@[0]);
    assert("prefix"@[0] != "length"@[0]);
    assert("prefix"@[0] != "suffix"@[0]);
    assert("float"@[0] != "regex"@[0]);
    assert("float"@[0] != "range"@[0]);
    assert("float"@[0] != "exact"@[0]);
    assert("float"@[0] != "infix"@[0]);
    assert("float"@[0] != "empty"@[0]);
    assert("float"@[0] != "blank"@[0]);
    assert("number"@[0] != "length"@[0]);
    assert("number"@[0] != "suffix"@[0]);
    assert("regex"@[1] != "range"@[1]);
    assert("regex"@[0] != "exact"@[0]);
    assert("regex"@[0] != "infix"@[0]);
    assert("regex"@[0] != "empty"@[0]);
    assert("regex"@[0] != "blank"@[0]);
    assert("regex"@[0] != "slash"@[0]);
    assert("range"@[0] != "exact"@[0]);
    assert("range"@[0] != "infix"@[0]);
    assert("range"@[0] != "empty"@[0]);
    assert("range"@[0] != "blank"@[0]);
    assert("range"@[0] != "slash"@[0]);
    assert("exact"@[0] != "infix"@[0]);
    assert("exact"@[1] != "empty"@[1]);
    assert("exact"@[0] != "blank"@[0]);
    assert("exact"@[0] != "slash"@[0]);
    assert("length"@[0] != "suffix"@[0]);
    assert("infix"@[0] != "empty"@[0]);
    assert("infix"@[0] != "blank"@[0]);
    assert("infix"@[0] != "slash"@[0]);
    assert("glob"@[0] != "hash"@[0]);
    assert("empty"@[0] != "blank"@[0]);
    assert("empty"@[0] != "slash"@[0]);
    assert("blank"@[0] != "slash"@[0]);
}
/// MatchMaker::init, with the registry written as a function of the name
//@fn src/matcher.rs MatchMaker::init noinline
  ensures
    r matches Ok(b) ==> documented(tag@) ==> forall|s: Seq<char>| #[trigger] b.sm(s) == saccepts(tag@, old(m).case == Case::Insens, old(m).string, p@, s),
    r matches Ok(b) ==> documented(tag@) ==> forall|s: Seq<u8>| #[trigger] b.um(s) == uaccepts(tag@, old(m).case == Case::Insens, old(m).string, p@, s),
    r is Ok ==> documented(tag@) ==> same_but(*final(m), *old(m), tag@ == "blank"@),
//@sig pub fn made(tag: &str, m: &mut Matcher, p: &str) -> (r: Result<Box<dyn Match>>)
//@from /Self::do_push\(\s*"/
//@sub /Self::do_push\(\s*"([\w-]+)",\s*"[^"]*",\s*\|\w+, \w+\|/ => if verif_s_eq(tag, "\1") { return (
//@sub /,?\s*\)\?;/ => ); }
//@sub /,\s*\)\s*\}\s*$/ => ); } Err(verif_err()) }
//@start
  proof { lemma_names(); lemma_zero(); lemma_lowers2(utf8(p@)); }
//@end
// ------------------------------------------------------------ modifiers
pub uninterp spec fn strim(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn verif_strim(s: &str) -> (r: &str) ensures r@ == strim(s@) { s.trim() }
impl Matcher {
    pub open spec fn uplain(&self, s: Seq<u8>) -> bool {
        let b = if self.trim { btrim(s) } else { s };
        (self.empty && b.len() == 0) || self.matcher.um(b)
    }
    pub open spec fn splain(&self, s: Seq<char>) -> bool {
        let b = if self.trim { strim(s) } else { s };
        (self.empty && b.len() == 0) || self.matcher.sm(b)
    }
    pub open spec fn su(&self, s: Seq<u8>) -> bool { self.negate ^ self.uplain(s) }
    pub open spec fn ss(&self, s: Seq<char>) -> bool { self.negate ^ self.splain(s) }
//@fn src/matcher.rs Matcher::smatch (r)
  ensures r == self.ss(buff@),
//@end
//@fn src/matcher.rs Matcher::umatch (r)
  ensures r == self.su(buff@),
//@end
//@fn src/matcher.rs Matcher::smatch_plain (r)
  ensures r == self.splain(buff@),
//@sub /buff\.trimw\(\)/ => verif_strim(buff)
//@sub /buff\.is_empty\(\)/ => verif_s_empty(buff)
//@end
//@fn src/matcher.rs Matcher::umatch_plain (r)
  ensures r == self.uplain(buff@),
//@end
//@fn src/matcher.rs <Matcher as Default>::default (r)
  ensures r.ctype@ == "regex"@, !r.string, r.case == Case::Sens, !r.negate, !r.trim, !r.empty, r.multi_mode is None,
//@sub /"regex"\.to_string\(\)/ => verif_to_string("regex")
//@end
//@fn src/matcher.rs <Matcher as Clone>::clone (r)
  ensures r.ctype@ == self.ctype@, r.string == self.string, r.case == self.case, r.negate == self.negate, r.trim == self.trim, r.empty == self.empty, r.multi_mode == self.multi_mode,
//@end
}
/// is it this word, in capitals or not?
/// a letter without its case, for ASCII letters (char::to_ascii_lowercase)
pub uninterp spec fn lowc(c: char) -> char;
#[verifier::external_body]
pub proof fn axiom_lowc(c: char) ensures !('A' <= c && c <= 'Z') ==> lowc(c) == c {}
pub open spec fn lowcs(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| lowc(s[i])) }
pub open spec fn word(s: Seq<char>, w: Seq<char>) -> bool { lowcs(s) == lowcs(w) }
#[verifier::external_body]
pub fn verif_word(s: &str, w: &str) -> (r: bool) ensures r == word(s@, w@) { unimplemented!() }
/// the words are all different
pub proof fn lemma_words()
  ensures
    lowcs("utf8"@) != lowcs("not"@),
    lowcs("utf8"@) != lowcs("trim"@),
    lowcs("utf8"@) != lowcs("null"@),
    lowcs("utf8"@) != lowcs("case"@),
    lowcs("utf8"@) != lowcs("and"@),
    lowcs("utf8"@) != lowcs("or"@),
    lowcs("not"@) != lowcs("trim"@),
    lowcs("not"@) != lowcs("null"@),
    lowcs("not"@) != lowcs("case"@),
    lowcs("not"@) != lowcs("and"@),
    lowcs("not"@) != lowcs("or"@),
    lowcs("trim"@) != lowcs("null"@),
    lowcs("trim"@) != lowcs("case"@),
    lowcs("trim"@) != lowcs("and"@),
    lowcs("trim"@) != lowcs("or"@),
    lowcs("null"@) != lowcs("case"@),
    lowcs("null"@) != lowcs("and"@),
    lowcs("null"@) != lowcs("or"@),
    lowcs("case"@) != lowcs("and"@),
    lowcs("case"@) != lowcs("or"@),
    lowcs("and"@) != lowcs("or"@),
{
    reveal_strlit("utf8"); assert(lowcs("utf8"@).len() == 4);
    axiom_lowc('u'); assert(lowcs("utf8"@)[0] == 'u');
    axiom_lowc('t'); assert(lowcs("utf8"@)[1] == 't');
    axiom_lowc('f'); assert(lowcs("utf8"@)[2] == 'f');
    axiom_lowc('8'); assert(lowcs("utf8"@)[3] == '8');
    reveal_strlit("not"); assert(lowcs("not"@).len() == 3);
    axiom_lowc('n'); assert(lowcs("not"@)[0] == 'n');
    axiom_lowc('o'); assert(lowcs("not"@)[1] == 'o');
    axiom_lowc('t'); assert(lowcs("not"@)[2] == 't');
    reveal_strlit("trim"); assert(lowcs("trim"@).len() == 4);
    axiom_lowc('t'); assert(lowcs("trim"@)[0] == 't');
    axiom_lowc('r'); assert(lowcs("trim"@)[1] == 'r');
    axiom_lowc('i'); assert(lowcs("trim"@)[2] == 'i');
    axiom_lowc('m'); assert(lowcs("trim"@)[3] == 'm');
    reveal_strlit("null"); assert(lowcs("null"@).len() == 4);
    axiom_lowc('n'); assert(lowcs("null"@)[0] == 'n');
    axiom_lowc('u'); assert(lowcs("null"@)[1] == 'u');
    axiom_lowc('l'); assert(lowcs("null"@)[2] == 'l');
    axiom_lowc('l'); assert(lowcs("null"@)[3] == 'l');
    reveal_strlit("case"); assert(lowcs("case"@).len() == 4);
    axiom_lowc('c'); assert(lowcs("case"@)[0] == 'c');
    axiom_lowc('a'); assert(lowcs("case"@)[1] == 'a');
    axiom_lowc('s'); assert(lowcs("case"@)[2] == 's');
    axiom_lowc('e'); assert(lowcs("case"@)[3] == 'e');
    reveal_strlit("and"); assert(lowcs("and"@).len() == 3);
    axiom_lowc('a'); assert(lowcs("and"@)[0] == 'a');
    axiom_lowc('n'); assert(lowcs("and"@)[1] == 'n');
    axiom_lowc('d'); assert(lowcs("and"@)[2] == 'd');
    reveal_strlit("or"); assert(lowcs("or"@).len() == 2);
    axiom_lowc('o'); assert(lowcs("or"@)[0] == 'o');
    axiom_lowc('r'); assert(lowcs("or"@)[1] == 'r');
}
/// the name an alias stands for
pub uninterp spec fn alias(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn verif_alias(s: String) -> (r: String) ensures r@ == alias(s@) { unimplemented!() }
/// what the words before the comma ask for
pub struct Asked { pub utf: bool, pub not: bool, pub trim: bool, pub null: bool, pub case: bool, pub multi: Option<Combiner>, pub method: Seq<char> }
pub open spec fn asked(p: Seq<Seq<char>>, k: int) -> Asked decreases k {
    if k <= 0 { Asked { utf: false, not: false, trim: false, null: false, case: false, multi: None, method: "regex"@ } }
    else {
        let a = asked(p, k - 1);
        let w = p[k - 1];
        if word(w, "utf8"@) { Asked { utf: true, ..a } }
        else if word(w, "not"@) { Asked { not: true, ..a } }
        else if word(w, "trim"@) { Asked { trim: true, ..a } }
        else if word(w, "null"@) { Asked { null: true, ..a } }
        else if word(w, "case"@) { Asked { case: true, ..a } }
        else if word(w, "and"@) { Asked { multi: Some(Combiner::And), ..a } }
        else if word(w, "or"@) { Asked { multi: Some(Combiner::Or), ..a } }
        else { Asked { method: w, ..a } }
    }
}
pub open spec fn asks(s: Seq<char>) -> Asked {
    let p = spieces(s, '.');
    let a = asked(p, p.len() as int);
    if s.len() == 0 { asked(p, 0) } else { Asked { method: alias(a.method), ..a } }
}
/// does a matcher do what was asked, the combination of several patterns and the negation apart?
pub open spec fn splain1(a: Asked, p: Seq<char>, s: Seq<char>) -> bool {
    let bl = a.method == "blank"@;
    let b = if a.trim || bl { strim(s) } else { s };
    ((a.null || bl) && b.len() == 0) || saccepts(a.method, a.case, a.utf, p, b)
}
pub open spec fn uplain1(a: Asked, p: Seq<char>, s: Seq<u8>) -> bool {
    let bl = a.method == "blank"@;
    let b = if a.trim || bl { btrim(s) } else { s };
    ((a.null || bl) && b.len() == 0) || uaccepts(a.method, a.case, a.utf, p, b)
}
pub open spec fn has_flags(m: Matcher, a: Asked) -> bool {
    m.string == a.utf && m.negate == a.not && m.trim == a.trim && m.empty == a.null && (m.case == Case::Insens) == a.case && m.multi_mode == a.multi && m.ctype@ == a.method
}
/// several patterns, after their delimiter
pub open spec fn patterns(p: Seq<char>) -> Seq<Seq<char>> { spieces(p.skip(1), p[0]) }
#[verifier::external_body]
pub fn verif_skip_first(s: &str) -> (r: &str) requires s@.len() > 0, ensures r@ == s@.skip(1) { unimplemented!() }
//@item src/matcher.rs struct MatcherList
impl MatcherList {
//@fn src/matcher.rs MatcherList::new_with (r) noconst
  ensures r.multi == multi, r.matchers@ == Seq::<Matcher>::empty(),
//@end
//@fn src/matcher.rs MatcherList::push_obj
  ensures final(self).multi == old(self).multi, final(self).matchers@ == old(self).matchers@.push(item),
//@end
}
pub open spec fn u_list(l: MatcherList, s: Seq<u8>) -> bool { if l.multi == Combiner::And { forall|i: int| 0 <= i < l.matchers@.len() ==> (#[trigger] l.matchers@[i]).su(s) } else { exists|i: int| 0 <= i < l.matchers@.len() && (#[trigger] l.matchers@[i]).su(s) } }
pub open spec fn s_list(l: MatcherList, s: Seq<char>) -> bool { if l.multi == Combiner::And { forall|i: int| 0 <= i < l.matchers@.len() ==> (#[trigger] l.matchers@[i]).ss(s) } else { exists|i: int| 0 <= i < l.matchers@.len() && (#[trigger] l.matchers@[i]).ss(s) } }
/// MatcherList as a matcher (MatcherList::smatch and umatch, C16)
#[verifier::external_body]
pub fn verif_list(l: Box<MatcherList>) -> (r: Box<dyn Match>) ensures forall|s: Seq<char>| #[trigger] r.sm(s) == s_list(*l, s), forall|s: Seq<u8>| #[trigger] r.um(s) == u_list(*l, s) { unimplemented!() }
pub open spec fn splain_multi(a: Asked, c: Combiner, ps: Seq<Seq<char>>, s: Seq<char>) -> bool {
    let b = if a.trim { strim(s) } else { s };
    (a.null && b.len() == 0) || (if c == Combiner::And { forall|i: int| 0 <= i < ps.len() ==> splain1(a, #[trigger] ps[i], b) } else { exists|i: int| 0 <= i < ps.len() && splain1(a, #[trigger] ps[i], b) })
}
pub open spec fn uplain_multi(a: Asked, c: Combiner, ps: Seq<Seq<char>>, s: Seq<u8>) -> bool {
    let b = if a.trim { btrim(s) } else { s };
    (a.null && b.len() == 0) || (if c == Combiner::And { forall|i: int| 0 <= i < ps.len() ==> uplain1(a, #[trigger] ps[i], b) } else { exists|i: int| 0 <= i < ps.len() && uplain1(a, #[trigger] ps[i], b) })
}
/// a full spec: the words, a comma and the pattern
pub open spec fn before(s: Seq<char>) -> Seq<char> { let k = index_of(s, ','); if k >= 0 { s.subrange(0, k) } else { s } }
pub open spec fn after(s: Seq<char>) -> Seq<char> { let k = index_of(s, ','); if k >= 0 { s.skip(k + 1) } else { seq![] } }
pub struct MatchMaker { pub x: u8 }
impl MatchMaker {
    /// the registry calls the maker that was pushed under the name
    #[verifier::external_body]
    pub fn remake(m: &mut Matcher, pattern: &str) -> (r: Result<()>)
      ensures
        r is Ok ==> documented(old(m).ctype@) ==> forall|s: Seq<char>| #[trigger] final(m).matcher.sm(s) == saccepts(old(m).ctype@, old(m).case == Case::Insens, old(m).string, pattern@, s),
        r is Ok ==> documented(old(m).ctype@) ==> forall|s: Seq<u8>| #[trigger] final(m).matcher.um(s) == uaccepts(old(m).ctype@, old(m).case == Case::Insens, old(m).string, pattern@, s),
        r is Ok ==> documented(old(m).ctype@) ==> same_but(*final(m), *old(m), old(m).ctype@ == "blank"@),
    { unimplemented!() }
#[verifier::loop_isolation(false)]
//@fn src/matcher.rs MatchMaker::make2 (r)
  ensures
    r matches Ok(m) ==> documented(asks(matcher@).method) ==> {
        let a = asks(matcher@);
        &&& m.string == a.utf && m.negate == a.not
        &&& a.multi is None ==> forall|s: Seq<char>| #[trigger] m.splain(s) == splain1(a, pattern@, s)
        &&& a.multi is None ==> forall|s: Seq<u8>| #[trigger] m.uplain(s) == uplain1(a, pattern@, s)
        &&& a.multi matches Some(c) ==> forall|s: Seq<char>| #[trigger] m.splain(s) == splain_multi(a, c, patterns(pattern@), s)
        &&& a.multi matches Some(c) ==> forall|s: Seq<u8>| #[trigger] m.uplain(s) == uplain_multi(a, c, patterns(pattern@), s)
    },
//@sub /Self::init\(\)\?;/ => 
//@sub /!matcher\.is_empty\(\)/ => !verif_s_empty(matcher)
//@sub /pattern\.is_empty\(\)/ => verif_s_empty(pattern)
//@sub /for x in matcher\.split\('\.'\)/ => let words = verif_s_split(matcher, '.'); for x in words.iter()
//@sub /for x in pattern\.split\(delim\)/ => let pats = verif_s_split(pattern, delim); for x in pats.iter()
//@sub /\bx\.eq_ignore_ascii_case\(/ => verif_word(x, 
//@sub /m\.ctype = x\.to_string\(\)/ => m.ctype = verif_to_string(x)
//@sub /Self::resolve_alias\(/ => verif_alias(
//@sub /pattern\.first\(\)/ => verif_s_first(pattern)
//@sub /pattern\.skip_first\(\)/ => verif_skip_first(pattern)
//@sub /m\.matcher = outer;/ => m.matcher = verif_list(outer);
//@start
  proof { lemma_words(); }
  let ghost a = asks(matcher@);
  let ghost pattern0 = pattern@;
//@loop 0 d
  invariant vi0 <= words@.len(), has_flags(m, asked(spieces(matcher@, '.'), vi0 as int)),
  decreases words@.len() - vi0
//@loop 1 d
  invariant vi1 <= pats@.len(), outer.multi == mm, outer.matchers@.len() == vi1, has_flags(m, a), a == asks(matcher@), a.multi == Some(mm),
    documented(a.method) ==> forall|i: int, s: Seq<char>| 0 <= i < vi1 ==> #[trigger] outer.matchers@[i].ss(s) == splain1(a, pats@[i]@, s),
    documented(a.method) ==> forall|i: int, s: Seq<u8>| 0 <= i < vi1 ==> #[trigger] outer.matchers@[i].su(s) == uplain1(a, pats@[i]@, s),
  decreases pats@.len() - vi1
//@afterloop 1
  proof {
    assert(pats@.len() == patterns(pattern0).len());
    assert forall|s: Seq<char>| documented(a.method) implies #[trigger] s_list(*outer, s) == (if mm == Combiner::And { forall|i: int| 0 <= i < pats@.len() ==> splain1(a, #[trigger] patterns(pattern0)[i], s) } else { exists|i: int| 0 <= i < pats@.len() && splain1(a, #[trigger] patterns(pattern0)[i], s) }) by {
        assert forall|i: int| 0 <= i < pats@.len() implies outer.matchers@[i].ss(s) == splain1(a, #[trigger] patterns(pattern0)[i], s) by { assert(pats@[i]@ == patterns(pattern0)[i]); }
        if mm == Combiner::And { if s_list(*outer, s) { assert forall|i: int| 0 <= i < pats@.len() implies splain1(a, #[trigger] patterns(pattern0)[i], s) by { assert(outer.matchers@[i].ss(s)); } }
            else { let i = choose|i: int| 0 <= i < outer.matchers@.len() && !(#[trigger] outer.matchers@[i]).ss(s); let ghost t = patterns(pattern0)[i]; } }
        else { if s_list(*outer, s) { let i = choose|i: int| 0 <= i < outer.matchers@.len() && (#[trigger] outer.matchers@[i]).ss(s); let ghost t = patterns(pattern0)[i]; } }
    }
    assert forall|s: Seq<u8>| documented(a.method) implies #[trigger] u_list(*outer, s) == (if mm == Combiner::And { forall|i: int| 0 <= i < pats@.len() ==> uplain1(a, #[trigger] patterns(pattern0)[i], s) } else { exists|i: int| 0 <= i < pats@.len() && uplain1(a, #[trigger] patterns(pattern0)[i], s) }) by {
        assert forall|i: int| 0 <= i < pats@.len() implies outer.matchers@[i].su(s) == uplain1(a, #[trigger] patterns(pattern0)[i], s) by { assert(pats@[i]@ == patterns(pattern0)[i]); }
        if mm == Combiner::And { if u_list(*outer, s) { assert forall|i: int| 0 <= i < pats@.len() implies uplain1(a, #[trigger] patterns(pattern0)[i], s) by { assert(outer.matchers@[i].su(s)); } }
            else { let i = choose|i: int| 0 <= i < outer.matchers@.len() && !(#[trigger] outer.matchers@[i]).su(s); let ghost t = patterns(pattern0)[i]; } }
        else { if u_list(*outer, s) { let i = choose|i: int| 0 <= i < outer.matchers@.len() && (#[trigger] outer.matchers@[i]).su(s); let ghost t = patterns(pattern0)[i]; } }
    }
  }
//@end
//@fn src/matcher.rs MatchMaker::make (r)
  ensures
    r matches Ok(m) ==> documented(asks(before(spec@)).method) ==> {
        let a = asks(before(spec@));
        &&& m.string == a.utf && m.negate == a.not
        &&& a.multi is None ==> forall|s: Seq<char>| #[trigger] m.splain(s) == splain1(a, after(spec@), s)
        &&& a.multi is None ==> forall|s: Seq<u8>| #[trigger] m.uplain(s) == uplain1(a, after(spec@), s)
        &&& a.multi matches Some(c) ==> forall|s: Seq<char>| #[trigger] m.splain(s) == splain_multi(a, c, patterns(after(spec@)), s)
        &&& a.multi matches Some(c) ==> forall|s: Seq<u8>| #[trigger] m.uplain(s) == uplain_multi(a, c, patterns(after(spec@)), s)
    },
//@sub /spec\.split_once\(','\)/ => verif_split_once(spec, ',')
//@start
  proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
}
}
fn main(){}
