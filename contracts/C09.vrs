use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
//@include std.vrs
//@include bytes.vrs
//@include str.vrs

#[derive(Clone, Copy, PartialEq, Eq)]
//@item src/util.rs enum HeaderMode
pub assume_specification [<HeaderMode as PartialEq<HeaderMode>>::eq] (a: &HeaderMode, b: &HeaderMode) -> (r: bool)
    ensures r == (*a == *b);
/// the string in lower case (str::to_ascii_lowercase)
pub uninterp spec fn slower(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn verif_lower_is(s: &str, t: &str) -> (r: bool) ensures r == (slower(s@) == t@) { unimplemented!() }
/// the name by which a policy is chosen, in any case
pub open spec fn mode_name(m: HeaderMode) -> Seq<char> {
    match m { HeaderMode::Match => "match"@, HeaderMode::Require => "require"@, HeaderMode::Strip => "strip"@, HeaderMode::None => "none"@, HeaderMode::Trust => "trust"@, HeaderMode::Ignore => "ignore"@ }
}
impl HeaderMode {
//@fn src/util.rs <HeaderMode as FromStr>::from_str (r)
  ensures r matches Ok(m) ==> slower(spec@) == mode_name(m),
    r is Err ==> forall|m: HeaderMode| slower(spec@) != #[trigger] mode_name(m),
//@end
//@fn src/util.rs <HeaderMode as Default>::default (r)
  ensures r == HeaderMode::Match,
//@end
}
//@item src/util.rs struct HeaderChecker
pub open spec fn cdx() -> Seq<u8> { seq![0x20u8, 0x43u8, 0x44u8, 0x58u8] }
pub open spec fn starts(s: Seq<u8>, p: Seq<u8>) -> bool { s.len() >= p.len() && s.subrange(0, p.len() as int) == p }
#[verifier::external_body]
pub fn verif_is_cdx(s: &[u8]) -> (r: bool) ensures r == starts(s@, cdx()) { s.starts_with(b" CDX") }
#[verifier::external_body]
pub fn verif_from_utf8(s: &[u8]) -> (r: Result<&str>) ensures r matches Ok(t) ==> utf8(t@) == s@ { unimplemented!() }
#[verifier::external_body]
pub fn verif_ascii(c: u8) -> (r: char) requires c <= 127, ensures r == ascii(c) { unimplemented!() }
#[verifier::external_body]
pub fn verif_alnum(c: u8) -> (r: bool) { c.is_ascii_alphanumeric() }
/// char::is_alphabetic, char::is_alphanumeric: the tables of the standard library
pub uninterp spec fn alpha(c: char) -> bool;
pub uninterp spec fn alnum(c: char) -> bool;
#[verifier::external_body]
pub fn verif_c_alpha(c: char) -> (r: bool) ensures r == alpha(c) { unimplemented!() }
#[verifier::external_body]
pub fn verif_c_alnum(c: char) -> (r: bool) ensures r == alnum(c) { unimplemented!() }
#[verifier::external_body]
pub fn verif_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
pub open spec fn valid_name(s: Seq<char>) -> bool { s.len() > 0 && alpha(s[0]) && forall|i: int| 0 <= i < s.len() ==> alnum(#[trigger] s[i]) || s[i] == '_' }
/// the character of this code
pub uninterp spec fn ascii(c: u8) -> char;

//@gsub /(\w+)\.starts_with\(b" CDX"\)/ => verif_is_cdx(\1)
//@gsub /str::from_utf8\(/ => verif_from_utf8(
//@gsub /char::from_u32\(u32::from\(delim\)\)\.unwrap\(\)/ => verif_ascii(delim)
//@gsub /delim\.is_ascii_alphanumeric\(\)/ => verif_alnum(delim)
//@gsub /x\.first\(\)\.is_alphabetic\(\)/ => verif_c_alpha(verif_s_first(x))
//@gsub /ch\.is_alphanumeric\(\)/ => verif_c_alnum(ch)
//@gsub /x\.is_empty\(\)/ => verif_s_empty(x)
//@gsub /\b(\w+)\.to_ascii_lowercase\(\) == ("\w+")/ => verif_lower_is(\1, \2)
//@gsub /\bfname: &str/ => fname: &str
//@fn src/util.rs is_cdx (r)
  ensures r == starts(data@, cdx()),
//@end
/// is the line a header under this policy?
pub open spec fn head_line(mode: HeaderMode, s: Seq<u8>) -> bool { mode != HeaderMode::Ignore && starts(s, cdx()) }
/// the names of a header line, as the line is split by its own delimiter
pub open spec fn header_names(line: Seq<u8>, names: Seq<char>, d: char) -> bool { line.len() >= 6 && d == ascii(line[4]) && utf8(names) == (if line.last() == 10u8 { line.subrange(5, line.len() - 1) } else { line.skip(5) }) }
/// every name of the header is valid
pub open spec fn well_formed(line: Seq<u8>) -> bool {
    exists|names: Seq<char>, d: char| #[trigger] header_names(line, names, d) && forall|i: int| 0 <= i < spieces(names, d).len() ==> valid_name(#[trigger] spieces(names, d)[i])
}
#[verifier::loop_isolation(false)]
//@fn src/util.rs is_valid_cdx (r)
  ensures r matches Ok(b) ==> b == head_line(mode, data_in@) && (b && mode != HeaderMode::Strip && mode != HeaderMode::None ==> well_formed(data_in@)),
//@loop 0 d
  invariant
    vs@.len() == spieces(data@, delim).len(), forall|i: int| 0 <= i < vs@.len() ==> (#[trigger] vs@[i])@ == spieces(data@, delim)[i],
    vi0 <= vs@.len(), forall|i: int| 0 <= i < vi0 ==> valid_name(#[trigger] spieces(data@, delim)[i]),
  decreases vs@.len() - vi0,
//@loop 1 d
  invariant
    vc@ == x@, vi1 <= vc@.len(), forall|i: int| 0 <= i < vi1 ==> alnum(#[trigger] x@[i]) || x@[i] == '_',
  decreases vc@.len() - vi1,
//@sub /for x in data\.split\(\|ch\| ch == delim\) \{/ => let vs = verif_s_split(data, delim); for x in vs.iter() {
//@sub /for ch in x\.chars\(\) \{/ => let vc = verif_chars(x); for &ch in vc.iter() {
//@sub /(?s)Ok\(true\)\s*\}$/ => proof { let l = data_in@; if l.last() == 10u8 { assert(l.subrange(0, l.len() - 1).subrange(5, l.len() - 1) =~= l.subrange(5, l.len() - 1)); } else { assert(l.subrange(5, l.len() as int) =~= l.skip(5)); } assert(header_names(l, data@, delim)); } Ok(true) }
//@end
/// what is to become of the first line of a file that comes after the first file: None is an error
pub open spec fn later(mode: HeaderMode, head: Seq<u8>, line: Seq<u8>, is_head: bool) -> Option<bool> {
    match mode {
        HeaderMode::Match => if is_head { if line == head { Some(false) } else { None } } else { if head.len() == 0 { Some(true) } else { None } },
        HeaderMode::Require => if is_head && line == head { Some(false) } else { None },
        HeaderMode::Strip => Some(!is_head),
        HeaderMode::Ignore => Some(true),
        HeaderMode::None => if is_head { None } else { Some(true) },
        HeaderMode::Trust => Some(!is_head),
    }
}
/// and of the first line of the first file
pub open spec fn first(mode: HeaderMode, is_head: bool) -> Option<bool> {
    match mode {
        HeaderMode::Require => if is_head { Some(true) } else { None },
        HeaderMode::None => if is_head { None } else { Some(true) },
        HeaderMode::Strip => Some(!is_head),
        _ => Some(true),
    }
}
pub ghost struct St { pub mode: HeaderMode, pub saw: bool, pub head: Seq<u8> }
pub open spec fn answer(s: St, line: Seq<u8>, is_head: bool) -> Option<bool> { if s.saw { later(s.mode, s.head, line, is_head) } else { first(s.mode, is_head) } }
/// the state after a file that was accepted
pub open spec fn after(s: St, line: Seq<u8>, is_head: bool) -> St {
    St { mode: s.mode, saw: true, head: if s.saw || !is_head || s.mode == HeaderMode::Strip { s.head } else { line } }
}
impl HeaderChecker {
    pub open spec fn st(&self) -> St { St { mode: self.mode, saw: self.saw_one, head: self.head@ } }
    pub open spec fn good(&self) -> bool { !self.saw_one ==> self.head@.len() == 0 }
    /// the derived default
    #[verifier::external_body]
    pub fn verif_default() -> (r: Self) ensures r.mode == HeaderMode::Match, r.head@ == Seq::<u8>::empty(), !r.saw_one { unimplemented!() }
//@fn src/util.rs HeaderChecker::new (r)
  ensures r.good(), r.st() == new(HeaderMode::Match),
//@sub /Self::default\(\)/ => Self::verif_default()
//@end
//@fn src/util.rs HeaderChecker::from_mode (r)
  ensures r.good(), r.st() == new(mode),
//@sub /Self::default\(\)/ => Self::verif_default()
//@end
//@fn src/util.rs HeaderChecker::check_first (r)
  requires old(self).good(), cdx ==> first_line@.len() > 0,
  ensures
    r matches Ok(b) ==> answer(old(self).st(), first_line@, cdx) == Some(b) && final(self).st() == after(old(self).st(), first_line@, cdx),
    r is Err ==> answer(old(self).st(), first_line@, cdx) is None,
    final(self).good(), final(self).mode == old(self).mode,
//@sub /first_line != self\.head/ => !verif_seq_eq(first_line, self.head.as_slice())
//@end
//@fn src/util.rs HeaderChecker::check (r)
  requires old(self).good(),
  ensures final(self).good(), final(self).mode == old(self).mode,
    ({ let h = head_line(old(self).mode, first_line@);
    r matches Ok(b) ==> if first_line@.len() == 0 { !b && final(self).st() == old(self).st() } else {
        &&& answer(old(self).st(), first_line@, h) == Some(b) && final(self).st() == after(old(self).st(), first_line@, h)
        &&& h ==> first_line@.last() == 10u8
        &&& h && old(self).mode != HeaderMode::Strip && old(self).mode != HeaderMode::None ==> well_formed(first_line@)
    } }),
//@end
//@fn src/util.rs HeaderChecker::check_header (r)
  requires old(self).good(),
  ensures final(self).good(), final(self).mode == old(self).mode,
    ({ let h = header@.len() > 0 && old(self).mode != HeaderMode::Ignore;
    r matches Ok(b) ==> (exists|a: bool| answer(old(self).st(), header@, h) == Some(a) && b == (a && header@.len() > 0)) && final(self).st() == after(old(self).st(), header@, h) }),
//@end
//@fn src/util.rs HeaderChecker::check_file (r)
  requires old(self).good(),
  ensures final(self).good(), final(self).mode == old(self).mode,
    ({ let t = file.head_text(); let h = t.len() > 0 && old(self).mode != HeaderMode::Ignore;
    r matches Ok(b) ==> (exists|a: bool| answer(old(self).st(), t, h) == Some(a) && b == (a && t.len() > 0)) && final(self).st() == after(old(self).st(), t, h) }),
//@sub /file\.header\(\)\.line\.as_bytes\(\)/ => file.verif_head()
//@sub /b""/ => &[]
//@end
}
/// a reader, seen through its contract (C18)
#[verifier::external_body]
pub struct Reader { x: u8 }
impl Reader {
    /// the header line, empty if there is none
    pub uninterp spec fn head_text(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn has_header(&self) -> (r: bool) ensures r == (self.head_text().len() > 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn verif_head(&self) -> (r: &[u8]) ensures r@ == self.head_text() { unimplemented!() }
}
// ---- over all the files of a command
/// the state after files with these headers (empty: none)
pub open spec fn run(s: St, hs: Seq<Seq<u8>>) -> St decreases hs.len() { if hs.len() == 0 { s } else { let p = run(s, hs.drop_last()); after(p, hs.last(), hs.last().len() > 0) } }
pub open spec fn new(mode: HeaderMode) -> St { St { mode, saw: false, head: seq![] } }
/// every file was accepted
pub open spec fn accepted(mode: HeaderMode, hs: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < hs.len() ==> #[trigger] acc(mode, hs, i) }
pub open spec fn acc(mode: HeaderMode, hs: Seq<Seq<u8>>, i: int) -> bool { answer(run(new(mode), hs.take(i)), hs[i], hs[i].len() > 0) is Some }
/// the header of this file is written
pub open spec fn written(mode: HeaderMode, hs: Seq<Seq<u8>>, i: int) -> bool { hs[i].len() > 0 && answer(run(new(mode), hs.take(i)), hs[i], true) == Some(true) }
pub proof fn lemma_run(mode: HeaderMode, hs: Seq<Seq<u8>>)
  requires hs.len() > 0,
  ensures run(new(mode), hs).saw, run(new(mode), hs).mode == mode, run(new(mode), hs).head == (if mode == HeaderMode::Strip { seq![] } else { hs[0] }),
  decreases hs.len(),
{
    if hs.len() == 1 { reveal_with_fuel(run, 2); assert(hs.drop_last().len() == 0); if hs[0].len() == 0 { assert(hs[0] =~= seq![]); } }
    else { lemma_run(mode, hs.drop_last()); assert(hs.drop_last()[0] == hs[0]); }
}
/// Match, Require: files are combined only if they all have the same header (or all none), and it is written once, for the first
pub proof fn theorem_one_header(mode: HeaderMode, hs: Seq<Seq<u8>>)
  requires accepted(mode, hs), mode == HeaderMode::Match || mode == HeaderMode::Require,
  ensures forall|i: int| 0 <= i < hs.len() ==> #[trigger] hs[i] == hs[0], forall|i: int| 0 <= i < hs.len() ==> (#[trigger] written(mode, hs, i) <==> i == 0 && hs[0].len() > 0),
    mode == HeaderMode::Require && hs.len() > 0 ==> hs[0].len() > 0,
{
    if hs.len() > 0 { assert(hs.take(0) =~= seq![]); assert(acc(mode, hs, 0)); }
    assert forall|i: int| 0 <= i < hs.len() implies #[trigger] hs[i] == hs[0] && (written(mode, hs, i) <==> i == 0 && hs[0].len() > 0) by {
        assert(acc(mode, hs, i));
        if i == 0 { assert(hs.take(0) =~= seq![]); }
        else { lemma_run(mode, hs.take(i)); assert(hs.take(i)[0] == hs[0]); if hs[0].len() == 0 { assert(hs[i] =~= hs[0]); } }
    }
}
/// None: no file has a header. Strip: no header is written. Trust: only the first file's is.
pub proof fn theorem_other_modes(mode: HeaderMode, hs: Seq<Seq<u8>>)
  requires accepted(mode, hs),
  ensures mode == HeaderMode::None ==> forall|i: int| 0 <= i < hs.len() ==> (#[trigger] hs[i]).len() == 0,
    mode == HeaderMode::Strip ==> forall|i: int| 0 <= i < hs.len() ==> !#[trigger] written(mode, hs, i),
    mode == HeaderMode::Trust ==> forall|i: int| 0 <= i < hs.len() ==> (#[trigger] written(mode, hs, i) <==> i == 0 && hs[0].len() > 0),
{
    assert forall|i: int| 0 <= i < hs.len() implies (mode == HeaderMode::None ==> #[trigger] hs[i].len() == 0) && (mode == HeaderMode::Strip ==> !written(mode, hs, i)) && (mode == HeaderMode::Trust ==> (written(mode, hs, i) <==> i == 0 && hs[0].len() > 0)) by {
        assert(acc(mode, hs, i));
        if i == 0 { assert(hs.take(0) =~= seq![]); } else { lemma_run(mode, hs.take(i)); }
    }
}
}
fn main() {}
