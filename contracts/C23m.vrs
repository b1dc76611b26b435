use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
global size_of usize == 8;
//@include std.vrs
//@include str.vrs
/// which aggregate a specification asks for, and how the lists hand on every value to every aggregate
pub type H = Seq<Seq<u8>>;
pub open spec fn lowc(c: char) -> int { if 'A' <= c && c <= 'Z' { c as int + 32 } else { c as int } }
pub open spec fn nocase(a: Seq<char>, b: Seq<char>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> lowc(#[trigger] a[i]) == lowc(b[i]) }
#[verifier::external_body]
pub fn verif_nocase(a: &str, b: &str) -> (r: bool) ensures r == nocase(a@, b@) { a.eq_ignore_ascii_case(b) }
//@gsub /\b(\w+)\.eq_ignore_ascii_case\(/ => verif_nocase(\1, 
//@gsub /\b(spec|sp)\.is_empty\(\)/ => verif_s_empty(\1)
//@gsub /\b(spec|sp|rep)\.split_once\('(.)'\)/ => verif_split_once(\1, '\2')
//@gsub /\b(\w+)\.to_string\(\)/ => verif_to_string(\1)
//@gsub /Self::init\(\)\?;/ => proof { }
//@gsub /\b(self|x)\.agg\.borrow(_mut)?\(\)\./ => \1.agg.
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct NumFormat { x: u8 }
pub uninterp spec fn fmt0() -> NumFormat;
#[verifier::external_body]
pub fn verif_fmt() -> (r: NumFormat) ensures r == fmt0() { unimplemented!() }
//@gsub /NumFormat::default\(\)/ => verif_fmt()
// ------------------------------------------------------------ comparators (C02, C19)
#[verifier::external_body]
pub struct Comp { x: u8 }
pub uninterp spec fn comp0() -> Comp;
/// the comparator a specification names (C02)
pub uninterp spec fn comp_of(s: Seq<char>) -> Option<Comp>;
pub struct CompMaker { x: u8 }
impl CompMaker {
    #[verifier::external_body]
    pub fn make_comp(s: &str) -> (r: Result<Comp>) ensures r is Ok == comp_of(s@) is Some, r matches Ok(c) ==> Some(c) == comp_of(s@) { unimplemented!() }
}
#[verifier::external_body]
pub fn verif_comp() -> (r: Comp) ensures r == comp0() { unimplemented!() }
//@gsub /Comp::default\(\)/ => verif_comp()
/// a whole text as a number (C21)
pub uninterp spec fn usize_whole(s: Seq<char>) -> Option<usize>;
pub uninterp spec fn isize_whole(s: Seq<char>) -> Option<isize>;
#[verifier::external_body]
pub fn verif_usize_whole(s: &str) -> (r: Result<usize>) ensures r is Ok == usize_whole(s@) is Some, r matches Ok(c) ==> Some(c) == usize_whole(s@) { unimplemented!() }
#[verifier::external_body]
pub fn verif_isize_whole(s: &str) -> (r: Result<isize>) ensures r is Ok == isize_whole(s@) is Some, r matches Ok(c) ==> Some(c) == isize_whole(s@) { unimplemented!() }
//@gsub /\b(\w+)\.to_(u|i)size_whole\(\w+\.as_bytes\(\), "\w+"\)/ => verif_\2size_whole(\1)
// ------------------------------------------------------------ what there is to count
pub enum Ctr { Chars(bool), Swords(bool), Awords(bool) }
pub trait Counter { spec fn ctr(&self) -> Ctr; }
//@item src/agg.rs struct Chars
//@item src/agg.rs struct Swords
//@item src/agg.rs struct Awords
impl Counter for Chars { open spec fn ctr(&self) -> Ctr { Ctr::Chars(self.utf8) } }
impl Counter for Swords { open spec fn ctr(&self) -> Ctr { Ctr::Swords(self.utf8) } }
impl Counter for Awords { open spec fn ctr(&self) -> Ctr { Ctr::Awords(self.utf8) } }
impl Chars {
//@fn src/agg.rs Chars::new (r) noconst
  ensures r.utf8 == utf8,
//@end
}
impl Swords {
//@fn src/agg.rs Swords::new (r) noconst
  ensures r.utf8 == utf8,
//@end
}
impl Awords {
//@fn src/agg.rs Awords::new (r) noconst
  ensures r.utf8 == utf8,
//@end
}
/// AggMaker::init, with the registry of counters written as a function of the name
pub open spec fn ctr_named(t: Seq<char>, u: bool) -> Option<Ctr> { if t == "chars"@ { Some(Ctr::Chars(u)) } else if t == "swords"@ { Some(Ctr::Swords(u)) } else if t == "awords"@ { Some(Ctr::Awords(u)) } else { None } }
pub proof fn lemma_ctrs() ensures "chars"@ != "swords"@, "chars"@ != "awords"@, "swords"@ != "awords"@ {
    reveal_strlit("chars"); reveal_strlit("swords"); reveal_strlit("awords");
    assert("chars"@.len() == 5 && "swords"@.len() == 6 && "awords"@.len() == 6); assert("swords"@[0] != "awords"@[0]);
}
//@fn src/agg.rs AggMaker::init noinline
  ensures r is Ok == ctr_named(tag@, utf8) is Some, r matches Ok(b) ==> Some(b.ctr()) == ctr_named(tag@, utf8),
//@sig pub fn made_counter(tag: &str, utf8: bool, p: &str) -> (r: Result<Box<dyn Counter>>)
//@from /Self::do_push_counter\(\s*"/
//@upto /Self::do_push\(\s*"/
//@sub /Self::do_push_counter\(\s*"([\w-]+)",\s*"[^"]*",\s*\|utf8, \w+\|/ => if verif_s_eq(tag, "\1") { return (
//@sub /,?\s*\)\?;/ => ); }
//@sub /Ok\(\(\)\)\s*\}\s*$/ => Err(verif_err()) }
//@start
  proof { lemma_ctrs(); }
//@end
/// the short names
pub open spec fn alias(n: Seq<char>) -> Seq<char> { if n == "minimum"@ { "min"@ } else if n == "maximum"@ { "max"@ } else if n == "avg"@ { "mean"@ } else if n == "aavg"@ { "amean"@ } else { n } }
//@fn src/agg.rs AggMaker::init noinline
  ensures r@ == alias(name@),
//@sig pub fn alias_of<'a>(name: &'a str) -> (r: &'a str)
//@from /Self::do_add_alias\(/
//@upto /Self::do_push_counter\(/
//@sub /Self::do_add_alias\("(\w*)", "(\w*)"\)\?;/ => if verif_s_eq(name, "\2") { return "\1"; }
//@sub /Ok\(\(\)\)\s*\}\s*$/ => name }
//@start
  proof { reveal_strlit("minimum"); reveal_strlit("maximum"); reveal_strlit("avg"); reveal_strlit("aavg"); assert("minimum"@.len() == 7 && "maximum"@.len() == 7 && "avg"@.len() == 3 && "aavg"@.len() == 4); assert("minimum"@[1] != "maximum"@[1]); }
//@end
//@gsub /Self::resolve_alias\(/ => alias_of(
/// the name is the last of the words, of those that are not a modifier
pub open spec fn ctr_words(p: Seq<Seq<char>>, k: int) -> (Seq<char>, bool) decreases k { if k <= 0 { (seq![], false) } else { let a = ctr_words(p, k - 1); if nocase(p[k - 1], "utf8"@) { (a.0, true) } else { (p[k - 1], a.1) } } }
pub open spec fn cut_at(s: Seq<char>, c: char) -> (Seq<char>, Seq<char>) { let k = index_of(s, c); if k >= 0 { (s.subrange(0, k), s.skip(k + 1)) } else { (s, seq![]) } }
pub open spec fn ctr_of(s: Seq<char>) -> Option<Ctr> { let a = cut_at(s, ',').0; let p = spieces(a, '.'); let w = ctr_words(p, if a.len() == 0 { 0 } else { p.len() as int }); ctr_named(alias(w.0), w.1) }
pub struct AggMaker { x: u8 }
impl AggMaker {
//@fn src/agg.rs AggMaker::make_counter2 (r)
  ensures ({ let p = spieces(spec@, '.'); let w = ctr_words(p, if spec@.len() == 0 { 0 } else { p.len() as int }); let c = ctr_named(alias(w.0), w.1);
     r is Ok == c is Some && (r matches Ok(b) ==> Some(b.ctr()) == c) }),
//@sub /for x in &\*COUNTER_MAKER\.lock\(\)\.unwrap\(\) \{\s*if x\.tag == name \{\s*return \(x\.maker\)\(utf8, pattern\);\s*\}\s*\}\s*err!\([^;]*?\)(?=\s*\}\s*$)/ => made_counter(name, utf8, pattern)
//@sub /for x in spec\.split\('\.'\)/ => let parts = verif_s_split(spec, '.'); for x in parts.iter()
//@loop 0 d
  invariant vi0 <= parts@.len(), parts@.len() == spieces(spec@, '.').len(), forall|i: int| 0 <= i < parts@.len() ==> (#[trigger] parts@[i])@ == spieces(spec@, '.')[i],
    (name@, utf8) == ctr_words(spieces(spec@, '.'), vi0 as int),
  decreases parts@.len() - vi0
//@start
  proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(alias(seq![]) == Seq::<char>::empty()) by { reveal_strlit("minimum"); reveal_strlit("maximum"); reveal_strlit("avg"); reveal_strlit("aavg"); assert("minimum"@.len() == 7 && "maximum"@.len() == 7 && "avg"@.len() == 3 && "aavg"@.len() == 4); } }
//@end
//@fn src/agg.rs AggMaker::make_counter (r)
  ensures r is Ok == ctr_of(spec@) is Some, r matches Ok(b) ==> Some(b.ctr()) == ctr_of(spec@),
//@end
}
// ------------------------------------------------------------ the aggregates
pub struct MergeV { pub delim: u8, pub out: u8, pub max_parts: usize, pub comp: Comp, pub sort: bool, pub uniq: bool, pub min_len: usize, pub max_len: usize, pub count: bool }
pub enum Kind { Count(isize), Sum, Mean, Min(Comp), Max(Comp), Prefix, Suffix, ASum(Ctr), AMin(Ctr), AMax(Ctr), AMean(Ctr), Merge(MergeV) }
/// an aggregate: which one, and the values added since the last reset
pub struct AggSt { pub kind: Kind, pub h: H }
pub open spec fn fresh(k: Kind) -> AggSt { AggSt { kind: k, h: seq![] } }
pub trait Agg { spec fn kind(&self) -> Kind; spec fn starts(&self) -> bool; }
//@item src/agg.rs struct Count
//@item src/agg.rs struct Sum
//@item src/agg.rs struct Mean
//@item src/agg.rs struct Min
//@item src/agg.rs struct Max
//@item src/agg.rs struct Prefix
//@item src/agg.rs struct Suffix
//@item src/agg.rs struct ASum
//@item src/agg.rs struct AMin
//@item src/agg.rs struct AMax
//@item src/agg.rs struct AMean
impl Agg for Count { open spec fn kind(&self) -> Kind { Kind::Count(self.init) } open spec fn starts(&self) -> bool { self.val == self.init } }
impl Agg for Sum { open spec fn kind(&self) -> Kind { Kind::Sum } open spec fn starts(&self) -> bool { self.val == 0.0f64 } }
impl Agg for Mean { open spec fn kind(&self) -> Kind { Kind::Mean } open spec fn starts(&self) -> bool { self.val == 0.0f64 && self.cnt == 0.0f64 } }
impl Agg for Min { open spec fn kind(&self) -> Kind { Kind::Min(self.comp) } open spec fn starts(&self) -> bool { self.empty && self.val@.len() == 0 } }
impl Agg for Max { open spec fn kind(&self) -> Kind { Kind::Max(self.comp) } open spec fn starts(&self) -> bool { self.empty && self.val@.len() == 0 } }
impl Agg for Prefix { open spec fn kind(&self) -> Kind { Kind::Prefix } open spec fn starts(&self) -> bool { self.empty && self.val@.len() == 0 } }
impl Agg for Suffix { open spec fn kind(&self) -> Kind { Kind::Suffix } open spec fn starts(&self) -> bool { self.empty && self.val@.len() == 0 } }
impl Agg for ASum { open spec fn kind(&self) -> Kind { Kind::ASum(self.cnt.ctr()) } open spec fn starts(&self) -> bool { self.val == 0 } }
impl Agg for AMin { open spec fn kind(&self) -> Kind { Kind::AMin(self.cnt.ctr()) } open spec fn starts(&self) -> bool { self.val == usize::MAX } }
impl Agg for AMax { open spec fn kind(&self) -> Kind { Kind::AMax(self.cnt.ctr()) } open spec fn starts(&self) -> bool { self.val == 0 } }
impl Agg for AMean { open spec fn kind(&self) -> Kind { Kind::AMean(self.cnt.ctr()) } open spec fn starts(&self) -> bool { self.val == 0 && self.num == 0 } }
/// which aggregate, and with which pattern (of merge: patterns of ASCII text)
pub open spec fn count_of(p: Seq<char>) -> Option<Kind> { if p.len() == 0 { Some(Kind::Count(0)) } else if isize_whole(p) is Some { Some(Kind::Count(isize_whole(p)->Some_0)) } else { None } }
pub open spec fn bare(p: Seq<char>, k: Kind) -> Option<Kind> { if p.len() == 0 { Some(k) } else { None } }
pub open spec fn min_of(p: Seq<char>) -> Option<Kind> { if comp_of(p) is Some { Some(Kind::Min(comp_of(p)->Some_0)) } else { None } }
pub open spec fn max_of(p: Seq<char>) -> Option<Kind> { if comp_of(p) is Some { Some(Kind::Max(comp_of(p)->Some_0)) } else { None } }
pub open spec fn makes<T: Agg>(r: Result<T>, k: Option<Kind>) -> bool { r is Ok == k is Some && (r matches Ok(x) ==> Some(x.kind()) == k && x.starts()) }
impl Count {
//@fn src/agg.rs Count::new (r)
  ensures makes(r, count_of(spec@)),
//@end
}
impl Sum {
//@fn src/agg.rs Sum::new (r)
  ensures makes(r, bare(spec@, Kind::Sum)),
//@end
}
impl Mean {
//@fn src/agg.rs Mean::new (r)
  ensures makes(r, bare(spec@, Kind::Mean)),
//@end
}
impl Min {
//@fn src/agg.rs Min::new (r)
  ensures makes(r, min_of(spec@)),
//@end
}
impl Max {
//@fn src/agg.rs Max::new (r)
  ensures makes(r, max_of(spec@)),
//@end
}
impl Prefix {
//@fn src/agg.rs Prefix::new (r)
  ensures makes(r, bare(spec@, Kind::Prefix)),
//@end
}
impl Suffix {
//@fn src/agg.rs Suffix::new (r)
  ensures makes(r, bare(spec@, Kind::Suffix)),
//@end
}
impl ASum {
//@fn src/agg.rs ASum::new (r)
  ensures makes(r, match ctr_of(spec@) { Some(c) => Some(Kind::ASum(c)), None => None }),
//@end
}
impl AMin {
//@fn src/agg.rs AMin::new (r)
  ensures makes(r, match ctr_of(spec@) { Some(c) => Some(Kind::AMin(c)), None => None }),
//@end
}
impl AMax {
//@fn src/agg.rs AMax::new (r)
  ensures makes(r, match ctr_of(spec@) { Some(c) => Some(Kind::AMax(c)), None => None }),
//@end
}
impl AMean {
//@fn src/agg.rs AMean::new (r)
  ensures makes(r, match ctr_of(spec@) { Some(c) => Some(Kind::AMean(c)), None => None }),
//@end
}
// ------------------------------------------------------------ merge
pub struct TextLine { pub line: Vec<u8>, pub v: Ghost<Seq<Seq<u8>>> }
#[verifier::external_body]
pub fn verif_line() -> (r: TextLine) ensures r.line@.len() == 0 { unimplemented!() }
//@gsub /TextLine::default\(\)/ => verif_line()
//@item src/agg.rs struct Merge
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 127 }
impl Merge { pub open spec fn v(&self) -> MergeV { MergeV { delim: self.delim, out: self.out_delim, max_parts: self.max_parts, comp: self.comp, sort: self.do_sort, uniq: self.do_uniq, min_len: self.min_len, max_len: self.max_len, count: self.do_count } } }
impl Agg for Merge { open spec fn kind(&self) -> Kind { Kind::Merge(self.v()) } open spec fn starts(&self) -> bool { self.data.line@.len() == 0 } }
pub open spec fn merge0() -> MergeV { MergeV { delim: 44u8, out: 44u8, max_parts: usize::MAX, comp: comp0(), sort: false, uniq: false, min_len: 0, max_len: usize::MAX, count: false } }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.subrange(0, p.len() as int) == p }
/// one part of a merge pattern
pub open spec fn merge_one(m: MergeV, s: Seq<char>) -> Option<MergeV> {
    if s.len() == 0 { None }
    else if s[0] == 'D' { if s.len() == 3 { Some(MergeV { delim: s[1] as u8, out: s[2] as u8, ..m }) } else { None } }
    else if nocase(s, "sort"@) { Some(MergeV { sort: true, ..m }) }
    else if nocase(s, "uniq"@) { Some(MergeV { uniq: true, ..m }) }
    else if nocase(s, "count"@) { Some(MergeV { count: true, ..m }) }
    else if starts(s, "comp:"@) { match comp_of(s.skip(5)) { Some(c) => Some(MergeV { comp: c, ..m }), None => None } }
    else if starts(s, "min_len:"@) { match usize_whole(s.skip(8)) { Some(c) => Some(MergeV { min_len: c, ..m }), None => None } }
    else if starts(s, "max_len:"@) { match usize_whole(s.skip(8)) { Some(c) => Some(MergeV { max_len: c, ..m }), None => None } }
    else if starts(s, "max_parts:"@) { match usize_whole(s.skip(10)) { Some(c) => Some(MergeV { max_parts: c, ..m }), None => None } }
    else { None }
}
/// the parts, with a period between; comp: takes all the rest
pub open spec fn merge_all(m: MergeV, s: Seq<char>) -> Option<MergeV> decreases s.len() {
    if s.len() == 0 { Some(m) }
    else if starts(s, "comp:"@) { merge_one(m, s) }
    else if s[0] == 'D' {
        if s.len() < 3 { None } else {
            match merge_one(m, s.subrange(0, 3)) { None => None, Some(n) => { let t = s.skip(3); if t.len() == 0 { Some(n) } else if t[0] != '.' { None } else { merge_all(n, t.skip(1)) } } }
        }
    }
    else { let k = index_of(s, '.'); if 0 <= k < s.len() { match merge_one(m, s.subrange(0, k)) { None => None, Some(n) => merge_all(n, s.skip(k + 1)) } } else { merge_one(m, s) } }
}
pub open spec fn merge_of(p: Seq<char>) -> Option<Kind> { match merge_all(merge0(), p) { Some(m) => Some(Kind::Merge(m)), None => None } }
#[verifier::external_body]
pub fn verif_byte(s: &str, i: usize) -> (r: u8) ensures ascii(s@) && i < s@.len() ==> r == s@[i as int] as u8 { unimplemented!() }
#[verifier::external_body]
pub fn verif_alen(s: &str) -> (r: usize) ensures ascii(s@) ==> r == s@.len(), r >= s@.len() { unimplemented!() }
#[verifier::external_body]
pub fn verif_asub(s: &str, a: usize, b: usize) -> (r: &str) ensures ascii(s@) && a <= b <= s@.len() ==> r@ == s@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn verif_afrom(s: &str, a: usize) -> (r: &str) requires a > 0, ensures ascii(s@) && a <= s@.len() ==> r@ == s@.skip(a as int), s@.len() > 0 ==> r@.len() < s@.len() { unimplemented!() }
#[verifier::external_body]
pub fn verif_starts(s: &str, p: &str) -> (r: bool) ensures r == starts(s@, p@) { s.starts_with(p) }
#[verifier::external_body]
pub fn verif_strip_str<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>) ensures r is Some == starts(s@, p@), r matches Some(x) ==> x@ == s@.skip(p@.len() as int) { s.strip_prefix(p) }
pub proof fn lemma_index(s: Seq<char>, c: char) ensures index_of(s, c) < s.len(), index_of(s, c) >= -1, decreases s.len() { if s.len() > 0 { lemma_index(s.skip(1), c); } }
pub proof fn lemma_lits()
  ensures "sort"@.len() == 4, "sort"@[0] == 's', "uniq"@.len() == 4, "uniq"@[0] == 'u', "count"@.len() == 5, "count"@[0] == 'c', "count"@[2] == 'u', "comp:"@.len() == 5, "comp:"@[0] == 'c', "comp:"@[2] == 'm',
    "min_len:"@.len() == 8, "min_len:"@[0] == 'm', "min_len:"@[1] == 'i', "max_len:"@.len() == 8, "max_len:"@[0] == 'm', "max_len:"@[1] == 'a', "max_len:"@[4] == 'l', "max_parts:"@.len() == 10, "max_parts:"@[0] == 'm', "max_parts:"@[1] == 'a', "max_parts:"@[4] == 'p',
{ reveal_strlit("sort"); reveal_strlit("uniq"); reveal_strlit("count"); reveal_strlit("comp:"); reveal_strlit("min_len:"); reveal_strlit("max_len:"); reveal_strlit("max_parts:"); }
/// no two parts are the same
pub proof fn lemma_apart(s: Seq<char>)
  ensures ({ let l = (if nocase(s, "sort"@) { 1int } else { 0 }) + (if nocase(s, "uniq"@) { 1int } else { 0 }) + (if nocase(s, "count"@) { 1int } else { 0 }) + (if starts(s, "comp:"@) { 1int } else { 0 }) + (if starts(s, "min_len:"@) { 1int } else { 0 }) + (if starts(s, "max_len:"@) { 1int } else { 0 }) + (if starts(s, "max_parts:"@) { 1int } else { 0 }) + (if s.len() > 0 && s[0] == 'D' { 1int } else { 0 }); l <= 1 }),
    "comp:"@.len() == 5, "min_len:"@.len() == 8, "max_len:"@.len() == 8, "max_parts:"@.len() == 10,
{
    lemma_lits();
    if s.len() > 0 { let ghost t = lowc(s[0]); }
    if nocase(s, "sort"@) { assert(lowc(s[0]) == lowc('s')); }
    if nocase(s, "uniq"@) { assert(lowc(s[0]) == lowc('u')); }
    if nocase(s, "count"@) { assert(lowc(s[0]) == lowc('c')); assert(lowc(s[2]) == lowc('u')); }
    if starts(s, "comp:"@) { assert(s.subrange(0, 5)[0] == s[0]); assert(s.subrange(0, 5)[2] == s[2]); }
    if starts(s, "min_len:"@) { assert(s.subrange(0, 8)[0] == s[0]); assert(s.subrange(0, 8)[1] == s[1]); }
    if starts(s, "max_len:"@) { assert(s.subrange(0, 8)[0] == s[0]); assert(s.subrange(0, 8)[1] == s[1]); assert(s.subrange(0, 8)[4] == s[4]); }
    if starts(s, "max_parts:"@) { assert(s.subrange(0, 10)[0] == s[0]); assert(s.subrange(0, 10)[1] == s[1]); assert(s.subrange(0, 10)[4] == s[4]); }
}
impl Merge {
//@fn src/agg.rs <Merge as Default>::default (r)
  ensures r.v() == merge0(), r.starts(),
//@end
//@fn src/agg.rs Merge::add_one (r)
  ensures ascii(spec@) ==> r is Ok == merge_one(old(self).v(), spec@) is Some, ascii(spec@) && r is Ok ==> Some(final(self).v()) == merge_one(old(self).v(), spec@), final(self).data == old(self).data,
//@sub /\b(spec|sp)\.as_bytes\(\)\[(\d+)\]/ => verif_byte(\1, \2)
//@sub /\b(spec|sp)\.len\(\)/ => verif_alen(\1)
//@sub /spec\.strip_prefix\(/ => verif_strip_str(spec, 
//@start
  proof { lemma_apart(spec@); }
//@end
#[verifier::rlimit(40)]
//@fn src/agg.rs Merge::new (r)
  ensures ascii(spec@) ==> makes(r, merge_of(spec@)), r matches Ok(x) ==> x.starts(),
//@sub /sp\.starts_with\(/ => verif_starts(sp, 
//@sub /\bsp\.as_bytes\(\)\[(\d+)\]/ => verif_byte(sp, \1)
//@sub /\bsp\.len\(\)/ => verif_alen(sp)
//@sub /&sp\[(\d)\.\.(\d)\]/ => verif_asub(sp, \1, \2)
//@sub /&sp\[(\d)\.\.\]/ => verif_afrom(sp, \1)
//@loop 0 l
  invariant_except_break ascii(spec@) ==> ascii(sp@) && merge_all(merge0(), spec@) == merge_all(m.v(), sp@),
  invariant m.starts(),
  ensures ascii(spec@) ==> Some(m.v()) == merge_all(merge0(), spec@),
  decreases sp@.len(),
//@loopstart 0
  proof { lemma_index(sp@, '.'); assert(sp@.subrange(0, sp@.len() as int) =~= sp@); }
//@end
}
// ------------------------------------------------------------ the registry
/// Rc<RefCell<dyn Agg>>: one owner, whatever the number of handles
#[verifier::external_body]
pub struct AggRef { x: u8 }
impl View for AggRef { type V = AggSt; uninterp spec fn view(&self) -> AggSt; }
impl AggRef {
    /// the aggregates' own add and reset, proved in C23
    #[verifier::external_body]
    pub fn add(&mut self, data: &[u8]) ensures final(self)@ == (AggSt { kind: old(self)@.kind, h: old(self)@.h.push(data@) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self) ensures final(self)@ == fresh(old(self)@.kind) { unimplemented!() }
}
#[verifier::external_body]
pub fn verif_wrap<T: Agg>(x: T) -> (r: AggRef) requires x.starts(), ensures r@ == fresh(x.kind()) { unimplemented!() }
//@gsub /Rc::new\(RefCell::new\((\w+)::new\(p\)\?\)\)/ => verif_wrap(\1::new(p)?)
pub open spec fn agg_named(t: Seq<char>, p: Seq<char>) -> Option<Kind> {
    if t == "asum"@ { match ctr_of(p) { Some(c) => Some(Kind::ASum(c)), None => None } }
    else if t == "amin"@ { match ctr_of(p) { Some(c) => Some(Kind::AMin(c)), None => None } }
    else if t == "amax"@ { match ctr_of(p) { Some(c) => Some(Kind::AMax(c)), None => None } }
    else if t == "amean"@ { match ctr_of(p) { Some(c) => Some(Kind::AMean(c)), None => None } }
    else if t == "merge"@ { merge_of(p) }
    else if t == "count"@ { count_of(p) }
    else if t == "prefix"@ { bare(p, Kind::Prefix) }
    else if t == "suffix"@ { bare(p, Kind::Suffix) }
    else if t == "min"@ { min_of(p) }
    else if t == "max"@ { max_of(p) }
    else if t == "mean"@ { bare(p, Kind::Mean) }
    else if t == "sum"@ { bare(p, Kind::Sum) }
    else { None }
}
/// a merge pattern that is not ASCII is not spoken of
pub open spec fn spoken(t: Seq<char>, p: Seq<char>) -> bool { t == "merge"@ ==> ascii(p) }
pub open spec fn gives(r: Result<AggRef>, k: Option<Kind>) -> bool { r is Ok == k is Some && (r matches Ok(x) ==> x@ == fresh(k->Some_0)) }
pub proof fn lemma_tags()
  ensures "min"@.len() == 3, "max"@.len() == 3, "sum"@.len() == 3, "min"@[1] == 'i', "max"@[1] == 'a', "sum"@[1] == 'u',
    "asum"@.len() == 4, "amin"@.len() == 4, "amax"@.len() == 4, "mean"@.len() == 4, "asum"@[1] == 's', "amin"@[1] == 'm', "amin"@[2] == 'i', "amax"@[1] == 'm', "amax"@[2] == 'a', "mean"@[1] == 'e',
    "amean"@.len() == 5, "merge"@.len() == 5, "count"@.len() == 5, "amean"@[0] == 'a', "merge"@[0] == 'm', "count"@[0] == 'c', "prefix"@.len() == 6, "suffix"@.len() == 6, "prefix"@[0] == 'p', "suffix"@[0] == 's',
{
    reveal_strlit("min"); reveal_strlit("max"); reveal_strlit("sum"); reveal_strlit("asum"); reveal_strlit("amin"); reveal_strlit("amax"); reveal_strlit("mean"); reveal_strlit("amean"); reveal_strlit("merge"); reveal_strlit("count"); reveal_strlit("prefix"); reveal_strlit("suffix");
}
//@fn src/agg.rs AggMaker::init noinline
  ensures spoken(tag@, p@) ==> gives(r, agg_named(tag@, p@)),
//@sig pub fn made(tag: &str, p: &str) -> (r: Result<AggRef>)
//@from /Self::do_push\(\s*"/
//@sub /Self::do_push\(\s*"([\w-]+)",\s*"[^"]*",\s*\|p\|/ => if verif_s_eq(tag, "\1") { return (
//@sub /,?\s*\)\?;/ => ); }
//@sub /Ok\(\(\)\)\s*\}\s*$/ => Err(verif_err()) }
//@start
  proof { lemma_tags(); }
//@end
pub open spec fn agg_name(s: Seq<char>) -> Seq<char> { let a = cut_at(s, ',').0; if a.len() == 0 { seq![] } else { alias(spieces(a, '.').last()) } }
/// the aggregate a specification asks for
pub open spec fn agg_of(s: Seq<char>) -> Option<Kind> { agg_named(agg_name(s), cut_at(s, ',').1) }
pub open spec fn heard(s: Seq<char>) -> bool { spoken(agg_name(s), cut_at(s, ',').1) }
impl AggMaker {
//@fn src/agg.rs AggMaker::make2 (r)
  ensures ({ let n = if spec@.len() == 0 { Seq::<char>::empty() } else { alias(spieces(spec@, '.').last()) }; spoken(n, pattern@) ==> gives(r, agg_named(n, pattern@)) }),
//@sub /for x in &\*AGG_MAKER\.lock\(\)\.unwrap\(\) \{\s*if x\.tag == name \{\s*return \(x\.maker\)\(pattern\);\s*\}\s*\}\s*err!\([^;]*?\)(?=\s*\}\s*$)/ => made(name, pattern)
//@sub /for x in spec\.split\('\.'\)/ => let parts = verif_s_split(spec, '.'); for x in parts.iter()
//@loop 0 d
  invariant vi0 <= parts@.len(), parts@.len() == spieces(spec@, '.').len(), forall|i: int| 0 <= i < parts@.len() ==> (#[trigger] parts@[i])@ == spieces(spec@, '.')[i],
    vi0 > 0 ==> name@ == spieces(spec@, '.')[vi0 - 1],
  decreases parts@.len() - vi0
//@start
  proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); lemma_spieces_len(spec@, '.'); }
//@end
//@fn src/agg.rs AggMaker::make (r)
  ensures heard(spec@) ==> gives(r, agg_of(spec@)),
//@start
  proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
}
// ------------------------------------------------------------ one aggregate with a name
pub struct Agger { pub spec: String, pub agg: AggRef, pub out: String, pub fmt: NumFormat }
/// NewName,Agg,Pattern or Agg
pub open spec fn agger_of(s: Seq<char>) -> (Seq<char>, Seq<char>) { let k = index_of(s, ','); if k >= 0 { (s.subrange(0, k), s.skip(k + 1)) } else { (seq![], s) } }
#[verifier::external_body]
pub fn verif_unwrap<T>(r: Result<T>) -> (x: T) requires r is Ok, ensures r == Ok::<T, Error>(x) { unimplemented!() }
impl Agger {
//@fn src/agg.rs Agger::new2 (r)
  ensures heard(spec@) ==> (r is Ok == agg_of(spec@) is Some) && (r matches Ok(x) ==> x.agg@ == fresh(agg_of(spec@)->Some_0)),
    r matches Ok(x) ==> x.out@ == name@ && x.spec@ == orig@ && x.fmt == fmt0(),
//@end
//@fn src/agg.rs Agger::new (r)
  ensures heard(agger_of(spec@).1) ==> (r is Ok == agg_of(agger_of(spec@).1) is Some) && (r matches Ok(x) ==> x.agg@ == fresh(agg_of(agger_of(spec@).1)->Some_0)),
    r matches Ok(x) ==> x.out@ == agger_of(spec@).0 && x.spec@ == spec@ && x.fmt == fmt0(),
//@start
  proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
//@fn src/agg.rs Agger::add
  ensures final(self).agg@ == (AggSt { kind: old(self).agg@.kind, h: old(self).agg@.h.push(data@) }), final(self).out == old(self).out, final(self).spec == old(self).spec, final(self).fmt == old(self).fmt,
//@end
//@fn src/agg.rs Agger::reset
  ensures final(self).agg@ == fresh(old(self).agg@.kind), final(self).out == old(self).out, final(self).spec == old(self).spec, final(self).fmt == old(self).fmt,
//@end
    /// made from its own specification
    pub open spec fn own(&self) -> bool { let s = agger_of(self.spec@); heard(s.1) && agg_of(s.1) == Some(self.agg@.kind) && self.out@ == s.0 }
/// a copy starts empty, and shares nothing
//@fn src/agg.rs Agger::deep_clone (r)
  requires self.own(),
  ensures r.agg@ == fresh(self.agg@.kind), r.out@ == self.out@, r.own(),
//@sub /Self::new\(&self\.spec\)\.unwrap\(\)/ => verif_unwrap(Self::new(verif_as_str(&self.spec)))
//@end
}
//@item src/agg.rs struct AggList
#[verifier::external_body]
pub fn verif_list0() -> (r: AggList) ensures r.v@.len() == 0 { unimplemented!() }
impl AggList {
//@fn src/agg.rs AggList::fmt
  ensures final(self).fmt == fmt, final(self).v@.len() == old(self).v@.len(), forall|i: int| 0 <= i < old(self).v@.len() ==> (#[trigger] final(self).v@[i]).fmt == fmt && final(self).v@[i].agg == old(self).v@[i].agg && final(self).v@[i].out == old(self).v@[i].out && final(self).v@[i].spec == old(self).v@[i].spec,
//@start
  let ghost a0 = self.v@;
//@loop 0 d
  invariant vi0 <= self.v@.len(), self.v@.len() == a0.len(), a0 == old(self).v@, self.fmt == fmt, forall|i: int| 0 <= i < vi0 ==> (#[trigger] self.v@[i]).fmt == fmt && self.v@[i].agg == a0[i].agg && self.v@[i].out == a0[i].out && self.v@[i].spec == a0[i].spec, forall|i: int| vi0 <= i < a0.len() ==> self.v@[i] == a0[i],
  decreases a0.len() - vi0
//@end
/// a copy has the same aggregates in the same order, each of them empty
//@fn src/agg.rs AggList::deep_clone (r)
  requires forall|i: int| 0 <= i < self.v@.len() ==> (#[trigger] self.v@[i]).own(),
  ensures r.v@.len() == self.v@.len(), forall|i: int| 0 <= i < self.v@.len() ==> (#[trigger] r.v@[i]).agg@ == fresh(self.v@[i].agg@.kind) && r.v@[i].out@ == self.v@[i].out@ && r.v@[i].fmt == self.fmt, r.fmt == self.fmt,
//@sub /let mut n = Self::new\(\)/ => let mut n = verif_list0()
//@sub /n\.push\(&x\.spec\)\.unwrap\(\)/ => verif_unwrap(n.push(verif_as_str(&x.spec)))
//@loop 0 d
  invariant vi0 <= self.v@.len(), n.v@.len() == vi0, forall|i: int| 0 <= i < self.v@.len() ==> (#[trigger] self.v@[i]).own(), forall|i: int| 0 <= i < vi0 ==> (#[trigger] n.v@[i]).agg@ == fresh(self.v@[i].agg@.kind) && n.v@[i].out@ == self.v@[i].out@,
  decreases self.v@.len() - vi0
//@loopstart 0
  proof { let ghost t = self.v@[vi0 as int].own(); }
//@end
//@fn src/agg.rs AggList::reset
  ensures final(self).v@.len() == old(self).v@.len(), forall|i: int| 0 <= i < old(self).v@.len() ==> (#[trigger] final(self).v@[i]).agg@ == fresh(old(self).v@[i].agg@.kind),
//@start
  let ghost a0 = self.v@;
//@loop 0 d
  invariant vi0 <= self.v@.len(), self.v@.len() == a0.len(), a0 == old(self).v@, forall|i: int| 0 <= i < vi0 ==> (#[trigger] self.v@[i]).agg@ == fresh(a0[i].agg@.kind), forall|i: int| vi0 <= i < a0.len() ==> self.v@[i] == a0[i],
  decreases a0.len() - vi0
//@end
//@fn src/agg.rs AggList::push (r)
  ensures ({ let s = agger_of(spec@); heard(s.1) ==> (r is Ok == agg_of(s.1) is Some) }),
    r is Ok ==> final(self).v@.len() == old(self).v@.len() + 1 && final(self).v@ =~= old(self).v@.push(final(self).v@.last()) && final(self).fmt == old(self).fmt && ({ let x = final(self).v@.last(); let s = agger_of(spec@); x.out@ == s.0 && (heard(s.1) ==> x.agg@ == fresh(agg_of(s.1)->Some_0)) }),
//@end
//@fn src/agg.rs AggList::do_push (r)
  ensures r is Ok, final(self).v@ == old(self).v@.push(item), final(self).fmt == old(self).fmt,
//@end
/// every aggregate gets the value
//@fn src/agg.rs AggList::add
  ensures final(self).v@.len() == old(self).v@.len(), forall|i: int| 0 <= i < old(self).v@.len() ==> (#[trigger] final(self).v@[i]).agg@ == (AggSt { kind: old(self).v@[i].agg@.kind, h: old(self).v@[i].agg@.h.push(data@) }),
//@start
  let ghost a0 = self.v@;
//@loop 0 d
  invariant vi0 <= self.v@.len(), self.v@.len() == a0.len(), a0 == old(self).v@, forall|i: int| 0 <= i < vi0 ==> (#[trigger] self.v@[i]).agg@ == (AggSt { kind: a0[i].agg@.kind, h: a0[i].agg@.h.push(data@) }), forall|i: int| vi0 <= i < a0.len() ==> self.v@[i] == a0[i],
  decreases a0.len() - vi0
//@end
}
// ------------------------------------------------------------ aggregates of a column of lines
/// columns, proved in C02 (unit C02m) and C06
pub enum ColV { Name(Seq<char>), FromEnd(int), Num(int) }
#[verifier::external_body]
pub struct NamedColRest { x: u8 }
pub struct NamedCol { pub num: usize, pub rest: NamedColRest }
impl View for NamedCol { type V = ColV; uninterp spec fn view(&self) -> ColV; }
pub uninterp spec fn col_whole(s: Seq<char>) -> Option<ColV>;
pub uninterp spec fn column(c: ColV, names: Seq<Seq<char>>) -> Option<int>;
pub open spec fn views(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
impl NamedCol {
    #[verifier::external_body]
    pub fn new_from(s: &str) -> (r: Result<NamedCol>) ensures r is Ok == col_whole(s@) is Some, r matches Ok(x) ==> Some(x@) == col_whole(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn lookup(&mut self, fieldnames: &[&str]) -> (r: Result<()>) ensures final(self)@ == old(self)@, r is Ok == column(old(self)@, views(fieldnames@)) is Some, r is Ok ==> final(self).num == column(old(self)@, views(fieldnames@))->Some_0 { unimplemented!() }
}
impl TextLine {
    pub open spec fn col(&self, i: int) -> Seq<u8> { if 0 <= i < self.v@.len() { self.v@[i] } else { seq![] } }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: &[u8]) ensures r@ == self.col(i as int) { unimplemented!() }
}
//@item src/agg.rs struct AggCol
/// the column, its place in the header that was looked at, and the aggregate; None for an expression
pub struct ColSt { pub src: ColV, pub num: int, pub st: AggSt }
pub open spec fn col_added(c: ColSt, l: TextLine) -> ColSt { ColSt { st: AggSt { kind: c.st.kind, h: c.st.h.push(l.col(c.num)) }, ..c } }
pub open spec fn col_reset(c: ColSt) -> ColSt { ColSt { st: fresh(c.st.kind), ..c } }
/// Column,Agg,Pattern
pub open spec fn colagg_of(s: Seq<char>) -> Option<(ColV, Kind)> { let k = index_of(s, ','); if k >= 0 && col_whole(s.subrange(0, k)) is Some && agg_of(s.skip(k + 1)) is Some { Some((col_whole(s.subrange(0, k))->Some_0, agg_of(s.skip(k + 1))->Some_0)) } else { None } }
pub open spec fn col_heard(s: Seq<char>) -> bool { index_of(s, ',') >= 0 ==> heard(s.skip(index_of(s, ',') + 1)) }
impl AggCol {
    pub open spec fn cs(&self) -> ColSt { ColSt { src: self.src@, num: self.src.num as int, st: self.agg.agg@ } }
//@fn src/agg.rs AggCol::new2 (r)
  ensures r matches Ok(x) ==> Some(x.src@) == col_whole(src@) && (heard(agger_of(spec@).1) ==> agg_of(agger_of(spec@).1) is Some && x.agg.agg@ == fresh(agg_of(agger_of(spec@).1)->Some_0)),
    heard(agger_of(spec@).1) ==> r is Ok == (col_whole(src@) is Some && agg_of(agger_of(spec@).1) is Some),
//@end
//@fn src/agg.rs AggCol::new (r)
  ensures col_heard(spec@) ==> r is Ok == colagg_of(spec@) is Some, col_heard(spec@) ==> (r matches Ok(x) ==> x.cs().src == colagg_of(spec@)->Some_0.0 && x.cs().st == fresh(colagg_of(spec@)->Some_0.1)),
//@end
//@fn src/agg.rs <AggCol as LineAgg>::is_col (r)
  ensures r == (self.cs().num == col),
//@end
//@fn src/agg.rs <AggCol as LineAgg>::reset
  ensures final(self).cs() == col_reset(old(self).cs()),
//@end
//@fn src/agg.rs <AggCol as LineAgg>::add
  ensures final(self).cs() == col_added(old(self).cs(), *data),
//@end
//@fn src/agg.rs <AggCol as LineAgg>::lookup (r)
  ensures r is Ok == column(old(self).cs().src, views(fieldnames@)) is Some, r is Ok ==> final(self).cs() == (ColSt { num: column(old(self).cs().src, views(fieldnames@))->Some_0, ..old(self).cs() }),
//@end
//@fn src/agg.rs <AggCol as LineAgg>::can_replace (r)
  ensures r,
//@end
}
//@item src/agg.rs enum AggType
/// Rc<RefCell<dyn LineAgg>>
#[verifier::external_body]
pub struct LineAggRef { x: u8 }
impl View for LineAggRef { type V = Option<ColSt>; uninterp spec fn view(&self) -> Option<ColSt>; }
impl LineAggRef {
    #[verifier::external_body]
    pub fn add(&mut self, data: &TextLine) ensures final(self)@ is Some == old(self)@ is Some, old(self)@ matches Some(c) ==> final(self)@ == Some(col_added(c, *data)) { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self) ensures final(self)@ is Some == old(self)@ is Some, old(self)@ matches Some(c) ==> final(self)@ == Some(col_reset(c)) { unimplemented!() }
    #[verifier::external_body]
    pub fn lookup(&mut self, fieldnames: &[&str]) -> (r: Result<()>) ensures final(self)@ is Some == old(self)@ is Some, old(self)@ matches Some(c) ==> r is Ok == column(c.src, views(fieldnames@)) is Some && (r is Ok ==> final(self)@ == Some(ColSt { num: column(c.src, views(fieldnames@))->Some_0, ..c })) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_col(&self, col: usize) -> (r: bool) ensures r == (self@ is Some && self@->Some_0.num == col) { unimplemented!() }
}
#[verifier::external_body]
pub fn verif_wrap_col(x: AggCol) -> (r: LineAggRef) ensures r@ == Some(x.cs()) { unimplemented!() }
#[verifier::external_body]
pub fn verif_wrap_expr(s: &str) -> (r: Result<LineAggRef>) ensures r matches Ok(x) ==> x@ is None { unimplemented!() }
pub open spec fn is_expr(s: Seq<char>) -> bool { index_of(s, ',') >= 0 && s.subrange(0, index_of(s, ',')) == "expr"@ }
pub open spec fn line_made(x: LineAggRef, s: Seq<char>) -> bool { if is_expr(s) { x@ is None } else { x@ is Some && (col_heard(s) ==> colagg_of(s) is Some && x@->Some_0.src == colagg_of(s)->Some_0.0 && x@->Some_0.st == fresh(colagg_of(s)->Some_0.1)) } }
impl AggMaker {
//@fn src/agg.rs AggMaker::make_line (r)
  ensures r matches Ok(x) ==> line_made(x, spec@), !is_expr(spec@) && col_heard(spec@) ==> r is Ok == colagg_of(spec@) is Some,
//@sub /\ba == "expr"/ => verif_s_eq(a, "expr")
//@sub /return Ok\(Rc::new\(RefCell::new\(ExprAgg::new\(b\)\?\)\)\);/ => return verif_wrap_expr(b);
//@sub /Rc::new\(RefCell::new\(AggCol::new\(spec\)\?\)\)/ => verif_wrap_col(AggCol::new(spec)?)
//@end
}
pub struct LineAgger { pub spec: String, pub agg: LineAggRef, pub out: AggType, pub fmt: NumFormat }
pub enum OutV { Replace, Prefix(Seq<char>), Append(Seq<char>) }
pub open spec fn outv(a: AggType) -> OutV { match a { AggType::Replace => OutV::Replace, AggType::Prefix(s) => OutV::Prefix(s@), AggType::Append(s) => OutV::Append(s@) } }
/// Placement,NewName,Column,Agg,Pattern
pub open spec fn is_word(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> bool { nocase(s, a) || nocase(s, b) }
pub open spec fn out_made(x: LineAgger, o: OutV, s: Seq<char>) -> bool { outv(x.out) == o && line_made(x.agg, s) && x.fmt == fmt0() }
/// an expression may be wrong, any other aggregate is made when its column and aggregate are good
pub open spec fn sure(s: Seq<char>) -> bool { !is_expr(s) && col_heard(s) && colagg_of(s) is Some }
pub open spec fn named_sure(s: Seq<char>) -> bool { index_of(s, ',') >= 0 && sure(s.skip(index_of(s, ',') + 1)) }
pub open spec fn named_made(x: LineAgger, pre: bool, s: Seq<char>) -> bool { let k = index_of(s, ','); k >= 0 && out_made(x, if pre { OutV::Prefix(s.subrange(0, k)) } else { OutV::Append(s.subrange(0, k)) }, s.skip(k + 1)) }
/// the format!("word,{spec}") kept for messages only
#[verifier::external_body]
pub fn verif_msg<'a>(s: &'a str) -> (r: &'a str) { unimplemented!() }
//@gsub /&format!\("\w+,\{spec\}"\)/ => verif_msg(spec)
pub proof fn lemma_places(s: Seq<char>) ensures is_word(s, "prefix"@, "prepend"@) ==> !nocase(s, "replace"@) && !is_word(s, "suffix"@, "append"@), is_word(s, "suffix"@, "append"@) ==> !nocase(s, "replace"@) {
    reveal_strlit("prefix"); reveal_strlit("prepend"); reveal_strlit("suffix"); reveal_strlit("append"); reveal_strlit("replace");
    assert("prefix"@.len() == 6 && "prepend"@.len() == 7 && "suffix"@.len() == 6 && "append"@.len() == 6 && "replace"@.len() == 7);
    if nocase(s, "prefix"@) { assert(lowc(s[0]) == lowc('p')); } if nocase(s, "prepend"@) { assert(lowc(s[0]) == lowc('p')); }
    if nocase(s, "suffix"@) { assert(lowc(s[0]) == lowc('s')); } if nocase(s, "append"@) { assert(lowc(s[0]) == lowc('a')); } if nocase(s, "replace"@) { assert(lowc(s[0]) == lowc('r')); }
}
impl LineAgger {
//@fn src/agg.rs LineAgger::new2 (r)
  ensures r matches Ok(x) ==> out_made(x, outv(out), rep@), !is_expr(rep@) && col_heard(rep@) ==> r is Ok == colagg_of(rep@) is Some,
//@end
//@fn src/agg.rs LineAgger::new_replace2 (r)
  ensures r matches Ok(x) ==> out_made(x, OutV::Replace, rep@), sure(rep@) ==> r is Ok,
//@end
//@fn src/agg.rs LineAgger::new_prefix2 (r)
  ensures r matches Ok(x) ==> named_made(x, true, rep@), named_sure(rep@) ==> r is Ok,
//@end
//@fn src/agg.rs LineAgger::new_append2 (r)
  ensures r matches Ok(x) ==> named_made(x, false, rep@), named_sure(rep@) ==> r is Ok,
//@end
//@fn src/agg.rs LineAgger::new_replace (r)
  ensures r matches Ok(x) ==> out_made(x, OutV::Replace, spec@), sure(spec@) ==> r is Ok,
//@end
//@fn src/agg.rs LineAgger::new_prefix (r)
  ensures r matches Ok(x) ==> named_made(x, true, spec@), named_sure(spec@) ==> r is Ok,
//@end
//@fn src/agg.rs LineAgger::new_append (r)
  ensures r matches Ok(x) ==> named_made(x, false, spec@), named_sure(spec@) ==> r is Ok,
//@end
//@fn src/agg.rs LineAgger::new (r)
  ensures r matches Ok(x) ==> ({ let k = index_of(spec@, ','); let a = spec@.subrange(0, k); let b = spec@.skip(k + 1);
      k >= 0 && (if nocase(a, "replace"@) { out_made(x, OutV::Replace, b) } else if is_word(a, "prefix"@, "prepend"@) { named_made(x, true, b) } else { is_word(a, "suffix"@, "append"@) && named_made(x, false, b) }) }),
    ({ let k = index_of(spec@, ','); let a = spec@.subrange(0, k); let b = spec@.skip(k + 1); k >= 0 && ((nocase(a, "replace"@) && sure(b)) || (is_word(a, "prefix"@, "prepend"@) && named_sure(b)) || (is_word(a, "suffix"@, "append"@) && named_sure(b))) }) ==> r is Ok,
//@start
  proof { lemma_places(spec@.subrange(0, index_of(spec@, ','))); }
//@end
//@fn src/agg.rs LineAgger::is_col (r)
  ensures r == (self.agg@ is Some && self.agg@->Some_0.num == col),
//@end
//@fn src/agg.rs LineAgger::add
  ensures added(*old(self), *final(self), *data), kept(*old(self), *final(self)),
//@end
//@fn src/agg.rs LineAgger::reset
  ensures old(self).agg@ matches Some(c) ==> final(self).agg@ == Some(col_reset(c)), kept(*old(self), *final(self)),
//@end
//@fn src/agg.rs LineAgger::lookup (r)
  ensures found(*old(self), *final(self), views(fieldnames@), r is Ok), kept(*old(self), *final(self)),
//@end
}
pub open spec fn kept(a: LineAgger, b: LineAgger) -> bool { a.out == b.out && a.fmt == b.fmt && a.spec == b.spec && a.agg@ is Some == b.agg@ is Some }
pub open spec fn added(a: LineAgger, b: LineAgger, l: TextLine) -> bool { a.agg@ matches Some(c) ==> b.agg@ == Some(col_added(c, l)) }
pub open spec fn found(a: LineAgger, b: LineAgger, n: Seq<Seq<char>>, ok: bool) -> bool { a.agg@ matches Some(c) ==> ok == column(c.src, n) is Some && (ok ==> b.agg@ == Some(ColSt { num: column(c.src, n)->Some_0, ..c })) }
//@item src/agg.rs struct LineAggList
impl LineAggList {
//@fn src/agg.rs LineAggList::reset
  ensures final(self).v@.len() == old(self).v@.len(), forall|i: int| 0 <= i < old(self).v@.len() ==> kept(old(self).v@[i], #[trigger] final(self).v@[i]) && (old(self).v@[i].agg@ matches Some(c) ==> final(self).v@[i].agg@ == Some(col_reset(c))),
//@start
  let ghost a0 = self.v@;
//@loop 0 d
  invariant vi0 <= self.v@.len(), self.v@.len() == a0.len(), a0 == old(self).v@, forall|i: int| 0 <= i < vi0 ==> kept(a0[i], #[trigger] self.v@[i]) && (a0[i].agg@ matches Some(c) ==> self.v@[i].agg@ == Some(col_reset(c))), forall|i: int| vi0 <= i < a0.len() ==> self.v@[i] == a0[i],
  decreases a0.len() - vi0
//@end
//@fn src/agg.rs LineAggList::fmt
  ensures final(self).v@.len() == old(self).v@.len(), forall|i: int| 0 <= i < old(self).v@.len() ==> (#[trigger] final(self).v@[i]).fmt == fmt && final(self).v@[i].agg == old(self).v@[i].agg && final(self).v@[i].out == old(self).v@[i].out,
//@start
  let ghost a0 = self.v@;
//@loop 0 d
  invariant vi0 <= self.v@.len(), self.v@.len() == a0.len(), a0 == old(self).v@, forall|i: int| 0 <= i < vi0 ==> (#[trigger] self.v@[i]).fmt == fmt && self.v@[i].agg == a0[i].agg && self.v@[i].out == a0[i].out, forall|i: int| vi0 <= i < a0.len() ==> self.v@[i] == a0[i],
  decreases a0.len() - vi0
//@end
//@fn src/agg.rs LineAggList::push (r)
  ensures r is Ok, final(self).v@ == old(self).v@.push(item),
//@end
//@fn src/agg.rs LineAggList::push_replace (r)
  ensures r is Ok ==> exists|x: LineAgger| final(self).v@ == #[trigger] old(self).v@.push(x) && out_made(x, OutV::Replace, spec@), sure(spec@) ==> r is Ok,
//@end
//@fn src/agg.rs LineAggList::push_prefix (r)
  ensures r is Ok ==> exists|x: LineAgger| final(self).v@ == #[trigger] old(self).v@.push(x) && named_made(x, true, spec@), named_sure(spec@) ==> r is Ok,
//@end
//@fn src/agg.rs LineAggList::push_append (r)
  ensures r is Ok ==> exists|x: LineAgger| final(self).v@ == #[trigger] old(self).v@.push(x) && named_made(x, false, spec@), named_sure(spec@) ==> r is Ok,
//@end
//@fn src/agg.rs LineAggList::push_first_prefix (r)
  ensures r is Ok ==> exists|x: LineAgger| final(self).v@ == #[trigger] old(self).v@.insert(0, x) && named_made(x, true, spec@), named_sure(spec@) ==> r is Ok,
//@end
/// every aggregate gets its column of the line
//@fn src/agg.rs LineAggList::add
  ensures final(self).v@.len() == old(self).v@.len(), forall|i: int| 0 <= i < old(self).v@.len() ==> kept(old(self).v@[i], #[trigger] final(self).v@[i]) && added(old(self).v@[i], final(self).v@[i], *data),
//@start
  let ghost a0 = self.v@;
//@loop 0 d
  invariant vi0 <= self.v@.len(), self.v@.len() == a0.len(), a0 == old(self).v@, forall|i: int| 0 <= i < vi0 ==> kept(a0[i], #[trigger] self.v@[i]) && added(a0[i], self.v@[i], *data), forall|i: int| vi0 <= i < a0.len() ==> self.v@[i] == a0[i],
  decreases a0.len() - vi0
//@end
//@fn src/agg.rs LineAggList::lookup (r)
  ensures r is Ok ==> final(self).v@.len() == old(self).v@.len() && forall|i: int| 0 <= i < old(self).v@.len() ==> kept(old(self).v@[i], #[trigger] final(self).v@[i]) && found(old(self).v@[i], final(self).v@[i], views(fieldnames@), true),
//@start
  let ghost a0 = self.v@;
//@loop 0 d
  invariant vi0 <= self.v@.len(), self.v@.len() == a0.len(), a0 == old(self).v@, forall|i: int| 0 <= i < vi0 ==> kept(a0[i], #[trigger] self.v@[i]) && found(a0[i], self.v@[i], views(fieldnames@), true), forall|i: int| vi0 <= i < a0.len() ==> self.v@[i] == a0[i],
  decreases a0.len() - vi0
//@end
}
// ------------------------------------------------------------ what is written for them
pub enum WCol { Agg(LineAgger), Col(Seq<char>) }
#[verifier::external_body]
pub struct Writer { x: u8 }
impl View for Writer { type V = Seq<WCol>; uninterp spec fn view(&self) -> Seq<WCol>; }
#[verifier::external_body]
pub fn verif_push_agg(w: &mut Writer, x: &LineAgger) ensures final(w)@ == old(w)@.push(WCol::Agg(*x)) { unimplemented!() }
#[verifier::external_body]
pub fn verif_push_col(w: &mut Writer, x: &String) ensures final(w)@ == old(w)@.push(WCol::Col(x@)) { unimplemented!() }
pub struct StringLine { pub parts: Vec<String> }
pub open spec fn ones(v: Seq<LineAgger>, pre: bool, k: int) -> Seq<WCol> decreases k { if k <= 0 { seq![] } else { let a = ones(v, pre, k - 1); if (if pre { v[k - 1].out is Prefix } else { v[k - 1].out is Append }) { a.push(WCol::Agg(v[k - 1])) } else { a } } }
pub open spec fn repl(x: LineAgger, i: int) -> bool { x.out is Replace && x.agg@ is Some && x.agg@->Some_0.num == i }
/// the first aggregate that replaces column i, or the column itself
pub open spec fn place(v: Seq<LineAgger>, i: int, s: Seq<char>, k: int) -> WCol decreases v.len() - k { if k < 0 || k >= v.len() { WCol::Col(s) } else if repl(v[k], i) { WCol::Agg(v[k]) } else { place(v, i, s, k + 1) } }
pub open spec fn body(v: Seq<LineAgger>, n: Seq<String>, k: int) -> Seq<WCol> decreases k { if k <= 0 { seq![] } else { body(v, n, k - 1).push(place(v, k - 1, n[k - 1]@, 0)) } }
impl LineAggList {
/// the new columns before, every column of the input or what replaces it, the new columns after
#[verifier::loop_isolation(false)]
//@fn src/agg.rs LineAggList::fill
  ensures final(w)@ =~= old(w)@ + ones(self.v@, true, self.v@.len() as int) + body(self.v@, head.parts@, head.parts@.len() as int) + ones(self.v@, false, self.v@.len() as int),
//@sub /w\.push\(Box::new\((x|y)\.clone\(\)\)\)/ => verif_push_agg(w, \1)
//@sub /w\.push\(Box::new\(ColumnSingle::with_name\(x\)\.unwrap\(\)\)\)/ => verif_push_col(w, x)
//@sub /head\.iter\(\)/ => head.parts.iter()
//@start
  let ghost w0 = w@; let ghost n = head.parts@; let ghost v = self.v@;
//@loop 0 d
  invariant v == self.v@, vi0 <= v.len(), w@ =~= w0 + ones(v, true, vi0 as int),
  decreases v.len() - vi0
//@loop 1 d
  invariant v == self.v@, n == head.parts@, vi1 <= n.len(), w@ =~= w0 + ones(v, true, v.len() as int) + body(v, n, vi1 as int),
  decreases n.len() - vi1
//@loop 2 d
  invariant v == self.v@, n == head.parts@, 0 < vi1 <= n.len(), i == vi1 - 1, *x == n[i as int], vi2 <= v.len(), place(v, i as int, n[i as int]@, 0) == place(v, i as int, n[i as int]@, vi2 as int), w@ =~= w0 + ones(v, true, v.len() as int) + body(v, n, vi1 - 1),
  decreases v.len() - vi2
//@loop 3 d
  invariant v == self.v@, n == head.parts@, vi3 <= v.len(), w@ =~= w0 + ones(v, true, v.len() as int) + body(v, n, n.len() as int) + ones(v, false, vi3 as int),
  decreases v.len() - vi3
//@end
}
fn main() {}
}
