use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
//@include std.vrs
//@include num.vrs
//@include str.vrs
//@include lines.vrs
//@include trimw.vrs
//@include ops.vrs
//@include opname.vrs
//@include float.vrs
//@include bpos.vrs
//@gsub /\b(s|spec)\.eq_ignore_ascii_case\(("[^"]+")\)/ => verif_nocase(\1, \2)
impl CompareOp {
//@fn src/util.rs <CompareOp as FromStr>::from_str (r)
  ensures r is Ok == op_named(s@) is Some, r is Ok ==> op_named(s@) == Some(r.unwrap()),
//@start
  proof { lemma_names(s@); }
//@end

//@fn src/util.rs CompareOp::ord_ok (r)
  ensures r == holds(*self, o),
//@end
}
// ------------------------------------------------------------ determiners
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/util.rs enum Tri
impl Tri {
//@fn src/util.rs Tri::yes_if (r) noconst
  ensures r == (if x { Tri::Yes } else { Tri::Maybe }),
//@end
//@fn src/util.rs Tri::no_if (r) noconst
  ensures r == (if x { Tri::No } else { Tri::Maybe }),
//@end
}
pub uninterp spec fn fless(f: f64, n: usize, d: usize) -> bool;
pub uninterp spec fn fgreater(f: f64, n: usize, d: usize) -> bool;
pub uninterp spec fn fequal(f: f64, n: usize, d: usize) -> bool;
pub uninterp spec fn fzero(f: f64) -> bool;
pub mod num {
    use super::*;
    #[verifier::external_body]
    pub fn f64_less(t: f64, n: usize, d: usize) -> (r: bool) ensures r == fless(t, n, d) { unimplemented!() }
    #[verifier::external_body]
    pub fn f64_greater(t: f64, n: usize, d: usize) -> (r: bool) ensures r == fgreater(t, n, d) { unimplemented!() }
    #[verifier::external_body]
    pub fn f64_equal(t: f64, n: usize, d: usize) -> (r: bool) ensures r == fequal(t, n, d) { unimplemented!() }
}
#[verifier::external_body]
pub fn verif_fzero(f: f64) -> (r: bool) ensures r == fzero(f) { f <= 0.0 }
//@gsub /\*f <= 0\.0/ => verif_fzero(*f)
#[derive(Copy, Clone)]
//@item src/matcher.rs enum Thresh
pub open spec fn t_most(t: Thresh, n: usize, tot: usize) -> bool { match t { Thresh::Count(c) => n <= c, Thresh::Frac(f) => tot == 0 || fgreater(f, n, tot) } }
pub open spec fn t_least(t: Thresh, n: usize, tot: usize) -> bool { match t { Thresh::Count(c) => n >= c, Thresh::Frac(f) => if tot == 0 { fzero(f) } else { fless(f, n, tot) } } }
pub open spec fn t_exact(t: Thresh, n: usize, tot: usize) -> bool { match t { Thresh::Count(c) => n == c, Thresh::Frac(f) => if tot == 0 { fzero(f) } else { fequal(f, n, tot) } } }
// assumed: what number a text is read as (C21)
pub uninterp spec fn whole(s: Seq<char>) -> Option<usize>;
#[verifier::external_body]
pub fn verif_to_usize_whole(s: &str) -> (r: Result<usize>) ensures r is Ok == whole(s@) is Some, r matches Ok(x) ==> whole(s@) == Some(x), { unimplemented!() }
//@gsub /\b(\w+)\.to_usize_whole\([^;?]*?,\s*"[A-Za-z ]*",?\s*\)/ => verif_to_usize_whole(\1)
pub uninterp spec fn fwhole(s: Seq<char>) -> Option<f64>;
#[verifier::external_body]
pub fn verif_to_f64_whole(s: &str) -> (r: Result<f64>) ensures r is Ok == fwhole(s@) is Some, r matches Ok(x) ==> fwhole(s@) == Some(x), { unimplemented!() }
//@gsub /\b(\w+)\.to_f64_whole\([^;?]*?,\s*"[A-Za-z ]*",?\s*\)/ => verif_to_f64_whole(\1)
#[verifier::external_body]
pub fn verif_has(s: &str, c: char) -> (r: bool) ensures r == (index_of(s@, c) >= 0) { s.contains(c) }
//@gsub /\bspec\.contains\('(.)'\)/ => verif_has(spec, '\1')
/// from a to b, the ends included
#[verifier::external_body]
pub fn verif_within(a: f64, b: f64, c: f64) -> (r: bool) ensures r == (!fnan(c) && fkey(a) <= fkey(c) <= fkey(b)) { a <= c && c <= b }
//@gsub /\((\d\.\d)\.\.=(\d\.\d)\)\.contains\(&(\w+)\)/ => verif_within(\1, \2, \3)
pub open spec fn in_unit(f: f64) -> bool { !fnan(f) && fkey(0.0f64) <= fkey(f) <= fkey(1.0f64) }
/// the threshold a text describes
pub open spec fn thresh_of(s: Seq<char>) -> Option<Thresh> {
    if index_of(s, '.') >= 0 { match fwhole(s) { Some(f) => if in_unit(f) { Some(Thresh::Frac(f)) } else { None }, None => None } }
    else { match whole(s) { Some(n) => Some(Thresh::Count(n)), None => None } }
}
impl Thresh {
//@fn src/matcher.rs Thresh::new (r)
  ensures r is Ok == thresh_of(spec@) is Some, r matches Ok(t) ==> thresh_of(spec@) == Some(t),
//@end
//@fn src/matcher.rs Thresh::new_count (r) noconst
  ensures r == Thresh::Count(c),
//@end
//@fn src/matcher.rs Thresh::new_frac (r)
  ensures r is Ok == in_unit(c), r matches Ok(t) ==> t == Thresh::Frac(c),
//@end
//@fn src/matcher.rs Thresh::at_most_mid (r) noconst
  ensures r == Tri::No ==> forall|m: usize, t: usize| n <= m ==> !#[trigger] t_most(*self, m, t) && !t_exact(*self, m, t),
    r == Tri::No ==> forall|m: usize, t: usize| n <= m ==> !#[trigger] t_exact(*self, m, t),
    r != Tri::Yes,
//@end
//@fn src/matcher.rs Thresh::at_least_mid (r) noconst
  ensures r == Tri::Yes ==> forall|m: usize, t: usize| n <= m ==> #[trigger] t_least(*self, m, t),
    r != Tri::No,
//@end
//@fn src/matcher.rs Thresh::at_most_final (r)
  ensures r == t_most(*self, n, tot),
//@end
//@fn src/matcher.rs Thresh::at_least_final (r)
  ensures r == t_least(*self, n, tot),
//@end
//@fn src/matcher.rs Thresh::exactly (r)
  ensures r == t_exact(*self, n, tot),
//@end
}
#[derive(Copy, Clone)]
//@item src/matcher.rs enum Determiner
/// does this many yes and this many no satisfy the determiner?
pub open spec fn dfin(d: Determiner, yes: usize, no: usize) -> bool {
    let tot = (yes + no) as usize;
    match d {
        Determiner::All => no == 0,
        Determiner::Some => yes > 0,
        Determiner::None => yes == 0,
        Determiner::NotAll => no > 0,
        Determiner::Mixed => yes > 0 && no > 0,
        Determiner::Uniform => yes == 0 || no == 0,
        Determiner::AtMost(t) => t_most(t, yes, tot),
        Determiner::AtLeast(t) => t_least(t, yes, tot),
        Determiner::Exactly(t) => t_exact(t, yes, tot),
        Determiner::AtMostNo(t) => t_most(t, no, tot),
        Determiner::AtLeastNo(t) => t_least(t, no, tot),
        Determiner::ExactlyNo(t) => t_exact(t, no, tot),
    }
}
/// the determiner a text describes
pub open spec fn det_of(s: Seq<char>) -> Option<Determiner> {
    if nocase(s, "all"@) { Some(Determiner::All) } else if nocase(s, "some"@) { Some(Determiner::Some) } else if nocase(s, "none"@) { Some(Determiner::None) } else if nocase(s, "notall"@) { Some(Determiner::NotAll) } else if nocase(s, "mixed"@) { Some(Determiner::Mixed) } else if nocase(s, "uniform"@) { Some(Determiner::Uniform) } else if starts(s, "atmost,"@) { match thresh_of(s.skip(7)) { Some(t) => Some(Determiner::AtMost(t)), None => None } } else if starts(s, "atleast,"@) { match thresh_of(s.skip(8)) { Some(t) => Some(Determiner::AtLeast(t)), None => None } } else if starts(s, "exactly,"@) { match thresh_of(s.skip(8)) { Some(t) => Some(Determiner::Exactly(t)), None => None } } else if starts(s, "atmostno,"@) { match thresh_of(s.skip(9)) { Some(t) => Some(Determiner::AtMostNo(t)), None => None } } else if starts(s, "atleastno,"@) { match thresh_of(s.skip(10)) { Some(t) => Some(Determiner::AtLeastNo(t)), None => None } } else if starts(s, "exactlyno,"@) { match thresh_of(s.skip(10)) { Some(t) => Some(Determiner::ExactlyNo(t)), None => None } } else { None }
}
/// no text is described by two of these
pub proof fn lemma_dets(s: Seq<char>) ensures
    nocase(s, "all"@) ==> s.len() == 3 && lowc(s[0]) == 97 && lowc(s[1]) == 108 && lowc(s[2]) == 108,
    nocase(s, "some"@) ==> s.len() == 4 && lowc(s[0]) == 115 && lowc(s[1]) == 111 && lowc(s[2]) == 109 && lowc(s[3]) == 101,
    nocase(s, "none"@) ==> s.len() == 4 && lowc(s[0]) == 110 && lowc(s[1]) == 111 && lowc(s[2]) == 110 && lowc(s[3]) == 101,
    nocase(s, "notall"@) ==> s.len() == 6 && lowc(s[0]) == 110 && lowc(s[1]) == 111 && lowc(s[2]) == 116 && lowc(s[3]) == 97 && lowc(s[4]) == 108 && lowc(s[5]) == 108,
    nocase(s, "mixed"@) ==> s.len() == 5 && lowc(s[0]) == 109 && lowc(s[1]) == 105 && lowc(s[2]) == 120 && lowc(s[3]) == 101 && lowc(s[4]) == 100,
    nocase(s, "uniform"@) ==> s.len() == 7 && lowc(s[0]) == 117 && lowc(s[1]) == 110 && lowc(s[2]) == 105 && lowc(s[3]) == 102 && lowc(s[4]) == 111 && lowc(s[5]) == 114 && lowc(s[6]) == 109,
    "atmost,"@.len() == 7, starts(s, "atmost,"@) ==> s.len() >= 7 && s[0] == 'a' && s[1] == 't' && s[2] == 'm' && s[3] == 'o' && s[4] == 's' && s[5] == 't' && s[6] == ',',
    "atleast,"@.len() == 8, starts(s, "atleast,"@) ==> s.len() >= 8 && s[0] == 'a' && s[1] == 't' && s[2] == 'l' && s[3] == 'e' && s[4] == 'a' && s[5] == 's' && s[6] == 't' && s[7] == ',',
    "exactly,"@.len() == 8, starts(s, "exactly,"@) ==> s.len() >= 8 && s[0] == 'e' && s[1] == 'x' && s[2] == 'a' && s[3] == 'c' && s[4] == 't' && s[5] == 'l' && s[6] == 'y' && s[7] == ',',
    "atmostno,"@.len() == 9, starts(s, "atmostno,"@) ==> s.len() >= 9 && s[0] == 'a' && s[1] == 't' && s[2] == 'm' && s[3] == 'o' && s[4] == 's' && s[5] == 't' && s[6] == 'n' && s[7] == 'o' && s[8] == ',',
    "atleastno,"@.len() == 10, starts(s, "atleastno,"@) ==> s.len() >= 10 && s[0] == 'a' && s[1] == 't' && s[2] == 'l' && s[3] == 'e' && s[4] == 'a' && s[5] == 's' && s[6] == 't' && s[7] == 'n' && s[8] == 'o' && s[9] == ',',
    "exactlyno,"@.len() == 10, starts(s, "exactlyno,"@) ==> s.len() >= 10 && s[0] == 'e' && s[1] == 'x' && s[2] == 'a' && s[3] == 'c' && s[4] == 't' && s[5] == 'l' && s[6] == 'y' && s[7] == 'n' && s[8] == 'o' && s[9] == ',',
{
    reveal_strlit("all");
    reveal_strlit("some");
    reveal_strlit("none");
    reveal_strlit("notall");
    reveal_strlit("mixed");
    reveal_strlit("uniform");
    reveal_strlit("atmost,");
    if starts(s, "atmost,"@) { assert(s.subrange(0, 7)[0] == "atmost,"@[0]); assert(s.subrange(0, 7)[1] == "atmost,"@[1]); assert(s.subrange(0, 7)[2] == "atmost,"@[2]); assert(s.subrange(0, 7)[3] == "atmost,"@[3]); assert(s.subrange(0, 7)[4] == "atmost,"@[4]); assert(s.subrange(0, 7)[5] == "atmost,"@[5]); assert(s.subrange(0, 7)[6] == "atmost,"@[6]); }
    reveal_strlit("atleast,");
    if starts(s, "atleast,"@) { assert(s.subrange(0, 8)[0] == "atleast,"@[0]); assert(s.subrange(0, 8)[1] == "atleast,"@[1]); assert(s.subrange(0, 8)[2] == "atleast,"@[2]); assert(s.subrange(0, 8)[3] == "atleast,"@[3]); assert(s.subrange(0, 8)[4] == "atleast,"@[4]); assert(s.subrange(0, 8)[5] == "atleast,"@[5]); assert(s.subrange(0, 8)[6] == "atleast,"@[6]); assert(s.subrange(0, 8)[7] == "atleast,"@[7]); }
    reveal_strlit("exactly,");
    if starts(s, "exactly,"@) { assert(s.subrange(0, 8)[0] == "exactly,"@[0]); assert(s.subrange(0, 8)[1] == "exactly,"@[1]); assert(s.subrange(0, 8)[2] == "exactly,"@[2]); assert(s.subrange(0, 8)[3] == "exactly,"@[3]); assert(s.subrange(0, 8)[4] == "exactly,"@[4]); assert(s.subrange(0, 8)[5] == "exactly,"@[5]); assert(s.subrange(0, 8)[6] == "exactly,"@[6]); assert(s.subrange(0, 8)[7] == "exactly,"@[7]); }
    reveal_strlit("atmostno,");
    if starts(s, "atmostno,"@) { assert(s.subrange(0, 9)[0] == "atmostno,"@[0]); assert(s.subrange(0, 9)[1] == "atmostno,"@[1]); assert(s.subrange(0, 9)[2] == "atmostno,"@[2]); assert(s.subrange(0, 9)[3] == "atmostno,"@[3]); assert(s.subrange(0, 9)[4] == "atmostno,"@[4]); assert(s.subrange(0, 9)[5] == "atmostno,"@[5]); assert(s.subrange(0, 9)[6] == "atmostno,"@[6]); assert(s.subrange(0, 9)[7] == "atmostno,"@[7]); assert(s.subrange(0, 9)[8] == "atmostno,"@[8]); }
    reveal_strlit("atleastno,");
    if starts(s, "atleastno,"@) { assert(s.subrange(0, 10)[0] == "atleastno,"@[0]); assert(s.subrange(0, 10)[1] == "atleastno,"@[1]); assert(s.subrange(0, 10)[2] == "atleastno,"@[2]); assert(s.subrange(0, 10)[3] == "atleastno,"@[3]); assert(s.subrange(0, 10)[4] == "atleastno,"@[4]); assert(s.subrange(0, 10)[5] == "atleastno,"@[5]); assert(s.subrange(0, 10)[6] == "atleastno,"@[6]); assert(s.subrange(0, 10)[7] == "atleastno,"@[7]); assert(s.subrange(0, 10)[8] == "atleastno,"@[8]); assert(s.subrange(0, 10)[9] == "atleastno,"@[9]); }
    reveal_strlit("exactlyno,");
    if starts(s, "exactlyno,"@) { assert(s.subrange(0, 10)[0] == "exactlyno,"@[0]); assert(s.subrange(0, 10)[1] == "exactlyno,"@[1]); assert(s.subrange(0, 10)[2] == "exactlyno,"@[2]); assert(s.subrange(0, 10)[3] == "exactlyno,"@[3]); assert(s.subrange(0, 10)[4] == "exactlyno,"@[4]); assert(s.subrange(0, 10)[5] == "exactlyno,"@[5]); assert(s.subrange(0, 10)[6] == "exactlyno,"@[6]); assert(s.subrange(0, 10)[7] == "exactlyno,"@[7]); assert(s.subrange(0, 10)[8] == "exactlyno,"@[8]); assert(s.subrange(0, 10)[9] == "exactlyno,"@[9]); }
}
/// the second comma
pub open spec fn second(s: Seq<char>) -> int { let i = index_of(s, ','); if i < 0 { -1 } else { let j = index_of(s.skip(i + 1), ','); if j < 0 { -1 } else { i + 1 + j } } }
/// Determiner,Columns: the determiner ends at the first or the second comma
pub open spec fn det_split(s: Seq<char>) -> Option<(Determiner, Seq<char>)> {
    let i = index_of(s, ','); let j = second(s);
    if i < 0 { None } else if det_of(s.subrange(0, i)) is Some { Some((det_of(s.subrange(0, i)).unwrap(), s.skip(i + 1))) }
    else if j < 0 { None } else if det_of(s.subrange(0, j)) is Some { Some((det_of(s.subrange(0, j)).unwrap(), s.skip(j + 1))) } else { None }
}
pub proof fn lemma_index(s: Seq<char>, c: char) ensures index_of(s, c) >= 0 ==> index_of(s, c) < s.len() && s[index_of(s, c)] == c, decreases s.len(), { if s.len() > 0 && s[0] != c { lemma_index(s.skip(1), c); } }
/// where the first n commas are
#[verifier::external_body]
pub fn verif_commas(s: &str, n: usize) -> (r: Vec<usize>) requires n == 2,
  ensures r@.len() == (if index_of(s@, ',') < 0 { 0int } else if second(s@) < 0 { 1 } else { 2 }), r@.len() > 0 ==> r@[0] == bpos(s@, index_of(s@, ',')) && r@[0] < usize::MAX,
    r@.len() > 1 ==> r@[1] == bpos(s@, second(s@)) && r@[1] < usize::MAX { unimplemented!() }
impl Determiner {
//@fn src/matcher.rs Determiner::new (r)
  ensures r is Ok == det_of(spec@) is Some, r matches Ok(d) ==> det_of(spec@) == Some(d),
//@sub /spec\.strip_prefix\(/ => verif_strip_str(spec, 
//@start
  proof { lemma_dets(spec@); }
//@end
#[verifier::loop_isolation(false)]
//@fn src/matcher.rs Determiner::split (r)
  ensures r is Ok == det_split(spec@) is Some, r matches Ok(d) ==> det_split(spec@) == Some((d.0, d.1@)),
//@sub /for \(pos, _\) in spec\.match_indices\(','\)\.take\((\d)\)/ => let commas = verif_commas(spec, \1); for pos in &commas
//@sub /&spec\[0?\.\.pos\]/ => verif_upto(spec, *pos)
//@sub /&spec\[pos \+ 1\.\.\]/ => verif_from(spec, *pos + 1)
//@loop 0 d
  invariant vi0 <= commas@.len(), vi0 > 0 ==> det_of(spec@.subrange(0, index_of(spec@, ','))) is None, vi0 > 1 ==> det_of(spec@.subrange(0, second(spec@))) is None,
  decreases commas@.len() - vi0
//@loopstart 0
  proof {
    let i = index_of(spec@, ','); lemma_index(spec@, ','); lemma_index(spec@.skip(i + 1), ',');
    let k = if vi0 == 0 { i } else { second(spec@) };
    assert(0 <= k < spec@.len() && spec@[k] == ',');
    assert(commas@[vi0 as int] == bpos(spec@, k)); assert(bpos(spec@, k + 1) == bpos(spec@, k) + 1);
  }
//@end
    /// an answer given early is the answer given in the end
//@fn src/matcher.rs Determiner::match_mid (r) noconst
  ensures
    r == Tri::Yes ==> forall|y: usize, n: usize| yes <= y && no <= n ==> #[trigger] dfin(*self, y, n),
    r == Tri::No ==> forall|y: usize, n: usize| yes <= y && no <= n ==> !#[trigger] dfin(*self, y, n),
//@end
//@fn src/matcher.rs Determiner::match_final (r)
  requires yes + no <= usize::MAX,
  ensures r == dfin(*self, yes, no),
//@end
}
// ------------------------------------------------------------ value matchers
pub trait Match {
    spec fn sm(&self, s: Seq<char>) -> bool;
    spec fn um(&self, s: Seq<u8>) -> bool;
//@fn src/matcher.rs trait Match::smatch (r)
  ensures r == self.sm(buff@),
//@end
//@fn src/matcher.rs trait Match::umatch (r)
  ensures r == self.um(buff@),
//@end
//@fn src/matcher.rs trait Match::show
//@sub /format!\(.*?\)/ => verif_shown()
//@end
//@fn src/matcher.rs trait Match::verbose_smatch (r)
  ensures r == self.sm(buff@),
//@end
//@fn src/matcher.rs trait Match::verbose_umatch (r)
  ensures r == self.um(buff@),
//@end
}
#[verifier::external_body]
pub fn verif_shown() -> String { unimplemented!() }
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/matcher.rs enum Combiner
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/text.rs enum Case
//@item src/matcher.rs struct Matcher
pub uninterp spec fn strim(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn verif_strim(s: &str) -> (r: &str) ensures r@ == strim(s@) { s.trim() }
#[verifier::external_body]
pub fn verif_sempty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
/// String::from_utf8_lossy
pub uninterp spec fn lossy(s: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
pub fn verif_lossy(s: &[u8]) -> (r: String) ensures r@ == lossy(s@) { unimplemented!() }
//@gsub /String::from_utf8_lossy\(/ => verif_lossy(
/// std::str::from_utf8
pub uninterp spec fn text8(s: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn verif_utf8(s: &[u8]) -> (r: Result<&str>) ensures r.is_ok() == text8(s@).is_some(), r.is_ok() ==> r.unwrap()@ == text8(s@).unwrap() { unimplemented!() }
//@gsub /std::str::from_utf8\(/ => verif_utf8(
impl Matcher {
    /// does it accept these bytes, the negation apart?
    pub open spec fn uplain(&self, s: Seq<u8>) -> bool {
        let b = if self.trim { btrim(s) } else { s };
        (self.empty && b.len() == 0) || self.matcher.um(b)
    }
    pub open spec fn splain(&self, s: Seq<char>) -> bool {
        let b = if self.trim { strim(s) } else { s };
        (self.empty && b.len() == 0) || self.matcher.sm(b)
    }
    pub open spec fn su(&self, s: Seq<u8>) -> bool { self.negate ^ self.uplain(s) }
    pub open spec fn ss(&self, s: Seq<char>) -> bool { self.negate ^ self.splain(s) }
//@fn src/matcher.rs Matcher::smatch (r)
  ensures r == self.ss(buff@),
//@end
//@fn src/matcher.rs Matcher::umatch (r)
  ensures r == self.su(buff@),
//@end
//@fn src/matcher.rs Matcher::smatch_plain (r)
  ensures r == self.splain(buff@),
//@sub /buff\.trimw\(\)/ => verif_strim(buff)
//@sub /buff\.is_empty\(\)/ => verif_sempty(buff)
//@end
//@fn src/matcher.rs Matcher::umatch_plain (r)
  ensures r == self.uplain(buff@),
//@end
//@fn src/matcher.rs Matcher::do_match (r)
  ensures
    r.is_ok() ==> r.unwrap() == (if self.string { self.ss(text8(buff@).unwrap()) } else { self.su(buff@) }),
    r.is_err() ==> self.string && text8(buff@).is_none(),
//@end
//@fn src/matcher.rs Matcher::do_match_safe (r)
  ensures r == (if self.string { if text8(buff@).is_some() { self.ss(text8(buff@).unwrap()) } else { self.negate } } else { self.su(buff@) }),
//@end
}
//@item src/matcher.rs struct MatcherList
pub open spec fn u_all(m: Seq<Matcher>, s: Seq<u8>) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).su(s) }
pub open spec fn u_any(m: Seq<Matcher>, s: Seq<u8>) -> bool { exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).su(s) }
pub open spec fn s_all(m: Seq<Matcher>, s: Seq<char>) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).ss(s) }
pub open spec fn s_any(m: Seq<Matcher>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).ss(s) }
impl MatcherList {
//@fn src/matcher.rs MatcherList::smatch_and (r)
  ensures r == s_all(self.matchers@, buff@),
//@loop 0 d
  invariant vi0 <= self.matchers@.len(), forall|i: int| 0 <= i < vi0 ==> (#[trigger] self.matchers@[i]).ss(buff@),
  decreases self.matchers@.len() - vi0
//@end
//@fn src/matcher.rs MatcherList::smatch_or (r)
  ensures r == s_any(self.matchers@, buff@),
//@loop 0 d
  invariant vi0 <= self.matchers@.len(), forall|i: int| 0 <= i < vi0 ==> !(#[trigger] self.matchers@[i]).ss(buff@),
  decreases self.matchers@.len() - vi0
//@end
//@fn src/matcher.rs MatcherList::umatch_and (r)
  ensures r == u_all(self.matchers@, buff@),
//@loop 0 d
  invariant vi0 <= self.matchers@.len(), forall|i: int| 0 <= i < vi0 ==> (#[trigger] self.matchers@[i]).su(buff@),
  decreases self.matchers@.len() - vi0
//@end
//@fn src/matcher.rs MatcherList::umatch_or (r)
  ensures r == u_any(self.matchers@, buff@),
//@loop 0 d
  invariant vi0 <= self.matchers@.len(), forall|i: int| 0 <= i < vi0 ==> !(#[trigger] self.matchers@[i]).su(buff@),
  decreases self.matchers@.len() - vi0
//@end
//@fn src/matcher.rs MatcherList::smatch_tagged (r)
  ensures r == (if multi == Combiner::And { s_all(self.matchers@, buff@) } else { s_any(self.matchers@, buff@) }),
//@end
//@fn src/matcher.rs MatcherList::umatch_tagged (r)
  ensures r == (if multi == Combiner::And { u_all(self.matchers@, buff@) } else { u_any(self.matchers@, buff@) }),
//@end
//@fn src/matcher.rs MatcherList::smatch (r)
  ensures r == (if self.multi == Combiner::And { s_all(self.matchers@, buff@) } else { s_any(self.matchers@, buff@) }),
//@end
//@fn src/matcher.rs MatcherList::umatch (r)
  ensures r == (if self.multi == Combiner::And { u_all(self.matchers@, buff@) } else { u_any(self.matchers@, buff@) }),
//@end
//@fn src/matcher.rs MatcherList::verbose_smatch (r)
  ensures r == (if self.multi == Combiner::And { s_all(self.matchers@, buff@) } else { s_any(self.matchers@, buff@) }),
//@end
}
// ------------------------------------------------------------ line matchers
pub type Names = Seq<Seq<char>>;
pub open spec fn views(v: Seq<&str>) -> Names { Seq::new(v.len(), |i: int| v[i]@) }
pub trait LineMatch {
    /// does it accept the line?
    spec fn acc(&self, l: TextLine) -> bool;
    /// does it accept the line, once its columns have been looked up in a header of these names?
    spec fn named(&self, n: Names, l: TextLine) -> bool;
//@fn src/matcher.rs trait LineMatch::lookup (r)
  ensures r is Ok ==> (forall|l: TextLine| #[trigger] final(self).acc(l) == old(self).named(views(fieldnames@), l)) && (forall|n: Names, l: TextLine| #[trigger] final(self).named(n, l) == old(self).named(n, l)),
//@end
//@fn src/matcher.rs trait LineMatch::ok (r)
  ensures r == old(self).acc(*line), forall|l: TextLine| #[trigger] final(self).acc(l) == old(self).acc(l), forall|n: Names, l: TextLine| #[trigger] final(self).named(n, l) == old(self).named(n, l),
//@end
//@fn src/matcher.rs trait LineMatch::show
//@end
//@fn src/matcher.rs trait LineMatch::ok_verbose (r)
  ensures r == old(self).acc(*line), forall|l: TextLine| #[trigger] final(self).acc(l) == old(self).acc(l), forall|n: Names, l: TextLine| #[trigger] final(self).named(n, l) == old(self).named(n, l),
//@end
}
//@item src/matcher.rs struct LineMatcherList
pub open spec fn l_all(m: Seq<Box<dyn LineMatch>>, l: TextLine) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).acc(l) }
pub open spec fn l_any(m: Seq<Box<dyn LineMatch>>, l: TextLine) -> bool { exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).acc(l) }
pub open spec fn same(a: Seq<Box<dyn LineMatch>>, b: Seq<Box<dyn LineMatch>>) -> bool {
    a.len() == b.len() && (forall|i: int, l: TextLine| 0 <= i < a.len() ==> #[trigger] a[i].acc(l) == b[i].acc(l)) && (forall|i: int, n: Names, l: TextLine| 0 <= i < a.len() ==> #[trigger] a[i].named(n, l) == b[i].named(n, l))
}
impl LineMatcherList {
//@fn src/matcher.rs LineMatcherList::ok_and (r)
  ensures r == l_all(old(self).matchers@, *line), same(final(self).matchers@, old(self).matchers@), final(self).multi == old(self).multi,
//@loop 0 d
  invariant vi0 <= self.matchers@.len(), same(self.matchers@, old(self).matchers@), self.multi == old(self).multi,
    forall|i: int| 0 <= i < vi0 ==> (#[trigger] old(self).matchers@[i]).acc(*line),
  decreases self.matchers@.len() - vi0
//@end
//@fn src/matcher.rs LineMatcherList::ok_verbose_and (r)
  ensures r == l_all(old(self).matchers@, *line), same(final(self).matchers@, old(self).matchers@), final(self).multi == old(self).multi,
//@loop 0 d
  invariant vi0 <= self.matchers@.len(), same(self.matchers@, old(self).matchers@), self.multi == old(self).multi,
    ret == (forall|i: int| 0 <= i < vi0 ==> (#[trigger] old(self).matchers@[i]).acc(*line)),
  decreases self.matchers@.len() - vi0
//@end
//@fn src/matcher.rs LineMatcherList::ok_or (r)
  ensures r == l_any(old(self).matchers@, *line), same(final(self).matchers@, old(self).matchers@), final(self).multi == old(self).multi,
//@loop 0 d
  invariant vi0 <= self.matchers@.len(), same(self.matchers@, old(self).matchers@), self.multi == old(self).multi,
    forall|i: int| 0 <= i < vi0 ==> !(#[trigger] old(self).matchers@[i]).acc(*line),
  decreases self.matchers@.len() - vi0
//@end
//@fn src/matcher.rs LineMatcherList::ok_verbose_or (r)
  ensures r == l_any(old(self).matchers@, *line), same(final(self).matchers@, old(self).matchers@), final(self).multi == old(self).multi,
//@loop 0 d
  invariant vi0 <= self.matchers@.len(), same(self.matchers@, old(self).matchers@), self.multi == old(self).multi,
    forall|i: int| 0 <= i < vi0 ==> !(#[trigger] old(self).matchers@[i]).acc(*line),
  decreases self.matchers@.len() - vi0
//@end
//@fn src/matcher.rs LineMatcherList::ok_tagged (r)
  ensures r == (if multi == Combiner::And { l_all(old(self).matchers@, *line) } else { l_any(old(self).matchers@, *line) }), same(final(self).matchers@, old(self).matchers@), final(self).multi == old(self).multi,
//@end
//@fn src/matcher.rs LineMatcherList::ok_verbose_tagged (r)
  ensures r == (if multi == Combiner::And { l_all(old(self).matchers@, *line) } else { l_any(old(self).matchers@, *line) }), same(final(self).matchers@, old(self).matchers@), final(self).multi == old(self).multi,
//@end
//@fn src/matcher.rs LineMatcherList::ok (r)
  ensures r == (if old(self).multi == Combiner::And { l_all(old(self).matchers@, *line) } else { l_any(old(self).matchers@, *line) }), same(final(self).matchers@, old(self).matchers@), final(self).multi == old(self).multi,
//@end
//@fn src/matcher.rs LineMatcherList::ok_verbose (r)
  ensures r == (if old(self).multi == Combiner::And { l_all(old(self).matchers@, *line) } else { l_any(old(self).matchers@, *line) }), same(final(self).matchers@, old(self).matchers@), final(self).multi == old(self).multi,
//@end
}
// ------------------------------------------------------------ column matchers
pub struct OutCol { pub num: usize }
pub struct ColumnSet { pub columns: Vec<OutCol>, pub parts: Vec<u8> }
/// the columns a set names in a header of these names (C08)
pub uninterp spec fn cs_in(c: ColumnSet, n: Names) -> Seq<OutCol>;
/// the set a specification describes
pub uninterp spec fn cs_of(s: Seq<char>) -> Option<ColumnSet>;
impl ColumnSet {
    #[verifier::external_body]
    pub fn from_spec(s: &str) -> (r: Result<Self>) ensures r is Ok == cs_of(s@) is Some, r matches Ok(x) ==> cs_of(s@) == Some(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn lookup(&mut self, fieldnames: &[&str]) -> (r: Result<()>) ensures r is Ok ==> final(self).columns@ == cs_in(*old(self), views(fieldnames@)) && forall|n: Names| #[trigger] cs_in(*final(self), n) == cs_in(*old(self), n) { unimplemented!() }
//@fn src/column.rs ColumnSet::get_cols (r) noconst
  ensures *r == self.columns,
//@end
}
pub struct NamedCol { pub num: usize, pub name: Vec<u8> }
/// the column a name or number stands for in a header of these names (C08)
pub uninterp spec fn nc_in(c: NamedCol, n: Names) -> usize;
/// the column a text starts with, and what comes after it
pub uninterp spec fn nc_of(s: Seq<char>) -> Option<(NamedCol, Seq<char>)>;
impl NamedCol {
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn parse<'a>(&mut self, s: &'a str) -> (r: Result<&'a str>) ensures r is Ok == nc_of(s@) is Some, r matches Ok(x) ==> nc_of(s@) == Some((*final(self), x@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn new_from(s: &str) -> (r: Result<Self>)
      ensures r is Ok == (nc_of(s@) is Some && nc_of(s@).unwrap().1.len() == 0), r matches Ok(x) ==> nc_of(s@).unwrap().0 == x { unimplemented!() }
    #[verifier::external_body]
    pub fn lookup(&mut self, fieldnames: &[&str]) -> (r: Result<()>) ensures r is Ok ==> final(self).num == nc_in(*old(self), views(fieldnames@)) && forall|n: Names| #[trigger] nc_in(*final(self), n) == nc_in(*old(self), n) { unimplemented!() }
}
impl Matcher {
    /// does this column's text match, as text or as bytes as requested, the negation apart?
    pub open spec fn mplain(&self, s: Seq<u8>) -> bool { if self.string { self.splain(lossy(s)) } else { self.uplain(s) } }
}
/// how many of the first k columns match
pub open spec fn cyes(m: Matcher, c: Seq<OutCol>, l: TextLine, k: int) -> nat decreases k {
    if k <= 0 { 0 } else { cyes(m, c, l, k - 1) + (if m.mplain(tl_col(l, c[k - 1].num as int)) { 1nat } else { 0 }) }
}
pub proof fn lemma_cyes(m: Matcher, c: Seq<OutCol>, l: TextLine, j: int, k: int)
  requires 0 <= j <= k
  ensures cyes(m, c, l, j) <= cyes(m, c, l, k), cyes(m, c, l, k) - cyes(m, c, l, j) <= k - j
  decreases k - j
{ if j < k { lemma_cyes(m, c, l, j, k - 1); } }
//@item src/matcher.rs struct ColSetMatcher
/// of these columns, do as many match as the determiner asks for?
pub open spec fn set_acc(m: Matcher, d: Determiner, c: Seq<OutCol>, l: TextLine) -> bool {
    let y = cyes(m, c, l, c.len() as int);
    m.negate ^ dfin(d, y as usize, (c.len() - y) as usize)
}
impl LineMatch for ColSetMatcher {
    open spec fn acc(&self, l: TextLine) -> bool {
        set_acc(self.matcher, self.det, self.col.columns@, l)
    }
    open spec fn named(&self, n: Names, l: TextLine) -> bool { set_acc(self.matcher, self.det, cs_in(self.col, n), l) }
//@fn src/matcher.rs <ColSetMatcher as LineMatch>::lookup
//@end
#[verifier::loop_isolation(false)]
//@fn src/matcher.rs <ColSetMatcher as LineMatch>::ok
//@beforeloop 0
  let ghost c = self.col.columns@;
  proof { lemma_cyes(self.matcher, c, *line, 0, c.len() as int); }
//@loop 0 d
  invariant vi0 <= c.len(), yes == cyes(self.matcher, c, *line, vi0 as int), no == vi0 - yes, *self == *old(self),
  decreases c.len() - vi0
//@loopstart 0
  proof { lemma_cyes(self.matcher, c, *line, vi0 + 1, c.len() as int); }
//@end
    #[verifier::external_body]
    fn show(&self) -> String { unimplemented!() }
}
//@item src/matcher.rs struct ColMatcher
impl LineMatch for ColMatcher {
    open spec fn acc(&self, l: TextLine) -> bool { self.matcher.negate ^ self.matcher.mplain(tl_col(l, self.col.num as int)) }
    open spec fn named(&self, n: Names, l: TextLine) -> bool { self.matcher.negate ^ self.matcher.mplain(tl_col(l, nc_in(self.col, n) as int)) }
//@fn src/matcher.rs <ColMatcher as LineMatch>::lookup
//@end
//@fn src/matcher.rs <ColMatcher as LineMatch>::ok
//@end
    #[verifier::external_body]
    fn show(&self) -> String { unimplemented!() }
}
/// a comparator, seen through its contract (C02 and C19)
#[verifier::external_body]
pub struct Comp { x: u8 }
pub uninterp spec fn cord(c: Comp, a: Seq<u8>, b: Seq<u8>) -> Ordering;
impl Comp {
    #[verifier::external_body]
    pub fn comp(&self, left: &[u8], right: &[u8]) -> (r: Ordering) ensures r == cord(*self, left@, right@) { unimplemented!() }
}
//@item src/matcher.rs struct ColGroup
//@item src/matcher.rs struct CompMatcher
/// in how many of the first k columns does the comparison hold
pub open spec fn pyes(op: CompareOp, m: Comp, t: usize, c: Seq<OutCol>, l: TextLine, k: int) -> nat decreases k {
    if k <= 0 { 0 } else { pyes(op, m, t, c, l, k - 1) + (if holds(op, cord(m, tl_col(l, t as int), tl_col(l, c[k - 1].num as int))) { 1nat } else { 0 }) }
}
pub proof fn lemma_pyes(op: CompareOp, m: Comp, t: usize, c: Seq<OutCol>, l: TextLine, j: int, k: int)
  requires 0 <= j <= k
  ensures pyes(op, m, t, c, l, j) <= pyes(op, m, t, c, l, k), pyes(op, m, t, c, l, k) - pyes(op, m, t, c, l, j) <= k - j
  decreases k - j
{ if j < k { lemma_pyes(op, m, t, c, l, j, k - 1); } }
/// in as many of the columns as the determiner asks for
pub open spec fn comp_acc(op: CompareOp, m: Comp, d: Determiner, t: usize, c: Seq<OutCol>, l: TextLine) -> bool {
    let y = pyes(op, m, t, c, l, c.len() as int);
    dfin(d, y as usize, (c.len() - y) as usize)
}
// ------------------------------------------------------------ matching brackets
/// after k bytes, how many more were opened than closed
pub open spec fn dep(b: Seq<u8>, o: u8, c: u8, k: int) -> int decreases k { if k <= 0 { 0 } else { dep(b, o, c, k - 1) + (if b[k - 1] == o { 1int } else if b[k - 1] == c { -1 } else { 0 }) } }
pub open spec fn first_zero(b: Seq<u8>, o: u8, c: u8, k: int) -> Option<int> decreases b.len() - k + 1 { if k > b.len() { None } else if dep(b, o, c, k) == 0 { Some(k) } else { first_zero(b, o, c, k + 1) } }
pub open spec fn closer_of(c: u8) -> Option<u8> { if c == 40 { Some(41u8) } else if c == 123 { Some(125u8) } else if c == 91 { Some(93u8) } else if c == 60 { Some(62u8) } else { None } }
/// up to and including the bracket that closes the one the text starts with
pub open spec fn close_len(b: Seq<u8>) -> Option<int> { if b.len() == 0 || closer_of(b[0]) is None { None } else { first_zero(b, b[0], closer_of(b[0]).unwrap(), 1) } }
pub mod util {
use super::*;
//@fn src/util.rs closer (r)
  ensures r is Ok == closer_of(ch) is Some, r matches Ok(x) ==> closer_of(ch) == Some(x),
//@end
#[verifier::loop_isolation(false)]
//@fn src/util.rs find_close (r)
  requires utf8(spec@).len() < 0x7fff_ffff,
  ensures r is Ok == close_len(utf8(spec@)) is Some, r matches Ok(x) ==> close_len(utf8(spec@)) == Some(x as int),
//@sub /spec\.is_empty\(\)/ => verif_s_empty(spec)
//@sub /spec\.as_bytes\(\)/ => verif_bytes(spec)
//@sub /let mut depth = 0;/ => let mut depth: i32 = 0;
//@start
  let ghost b = utf8(spec@);
  proof { axiom_utf8(spec@); if spec@.len() > 0 { lemma_bpos(spec@, 0, spec@.len() as int); } }
//@loop 0 d
  invariant vi0 <= b.len(), depth == dep(b, open, close, vi0 as int), depth <= vi0, depth >= 0 - vi0, vi0 > 0 ==> close_len(b) == first_zero(b, open, close, vi0 + 1),
  decreases b.len() - vi0
//@end
}
/// in a text that starts with [, the bracket found is a ] further on, and a place where the text can be cut
pub proof fn lemma_bracket(s: Seq<char>)
  requires s.len() > 0, s[0] == '[',
  ensures close_len(utf8(s)) matches Some(n) ==> n >= 2 && bnd(s, n) && bnd(s, 1) && bnd(s, n - 1) && chr(s, 1) == 1 && 2 <= chr(s, n) <= s.len() && bpos(s, chr(s, n)) == n && chr(s, n - 1) == chr(s, n) - 1 && s[chr(s, n) - 1] == ']'
    && bpos(s, 1) == 1 && bpos(s, chr(s, n) - 1) == n - 1,
{
    axiom_utf8(s); assert(bpos(s, 1) == 1) by { assert(bpos(s, 0) == 0); } lemma_chr(s, 1); lemma_bpos(s, 0, s.len() as int);
    let b = utf8(s); assert(b[bpos(s, 0)] == 91);
    if close_len(b) is Some {
        let n = close_len(b).unwrap(); let o = 91u8; let c = 93u8;
        assert(dep(b, o, c, 0) == 0); assert(dep(b, o, c, 1) == 1);
        lemma_close2(b, 1);
        assert(b[n - 1] == 93);
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] bpos(s, i) == n - 1 && s[i] as int == b[n - 1] as int;
        assert(s[i] == ']'); assert(bpos(s, i + 1) == n);
        lemma_chr(s, i); lemma_chr(s, i + 1);
        if i == 0 { assert(s[0] == ']'); }
    }
}
pub proof fn lemma_close2(b: Seq<u8>, k: int)
  requires 1 <= k, dep(b, 91u8, 93u8, k) > 0 || k > b.len(),
  ensures first_zero(b, 91u8, 93u8, k) matches Some(n) ==> k < n <= b.len() && b[n - 1] == 93,
  decreases b.len() - k + 1
{ if k <= b.len() { if k + 1 <= b.len() { if dep(b, 91u8, 93u8, k + 1) > 0 { lemma_close2(b, k + 1); } else { assert(dep(b, 91u8, 93u8, k + 1) == 0); assert(first_zero(b, 91u8, 93u8, k + 1) == Some(k + 1)); } assert(first_zero(b, 91u8, 93u8, k) == first_zero(b, 91u8, 93u8, k + 1)); } else { assert(first_zero(b, 91u8, 93u8, k + 1) is None); } } }
// ------------------------------------------------------------ matchers from their text
impl Determiner {
//@fn src/matcher.rs <Determiner as Default>::default (r)
  ensures r == Determiner::Some,
//@end
}
pub uninterp spec fn cs_none() -> ColumnSet;
#[verifier::external_body]
pub fn verif_group_default() -> (r: ColGroup) ensures r.col == cs_none(), r.det == Determiner::Some { unimplemented!() }
/// text before and after the first comma
pub open spec fn before(s: Seq<char>) -> Seq<char> { if index_of(s, ',') >= 0 { s.subrange(0, index_of(s, ',')) } else { s } }
pub open spec fn after(s: Seq<char>) -> Seq<char> { if index_of(s, ',') >= 0 { s.skip(index_of(s, ',') + 1) } else { seq![] } }
/// [all,this-that],foo or [this-that],foo or this-that,foo
pub open spec fn group_of(s: Seq<char>) -> Option<(ColumnSet, Determiner, Seq<char>)> {
    if s.len() == 0 { Some((cs_none(), Determiner::Some, s)) }
    else if s[0] == ',' { Some((cs_none(), Determiner::Some, s.skip(1))) }
    else if s[0] == '[' {
        match close_len(utf8(s)) { None => None, Some(n) => {
            let c = s.subrange(1, chr(s, n) - 1); let rest = skip_one(s.skip(chr(s, n)), ',');
            let (d, c) = match det_split(c) { Some((d, c)) => (d, c), None => (Determiner::Some, c) };
            match cs_of(c) { Some(x) => Some((x, d, rest)), None => None }
        } }
    } else { match cs_of(before(s)) { Some(x) => Some((x, Determiner::Some, after(s))), None => None } }
}
impl ColGroup {
#[verifier::spinoff_prover]
//@fn src/matcher.rs ColGroup::new_with (r)
  requires utf8(spec@).len() < 0x7fff_ffff,
  ensures r is Ok == group_of(spec@) is Some, r matches Ok((g, rest)) ==> group_of(spec@) == Some((g.col, g.det, rest@)),
//@sub /spec\.is_empty\(\)/ => verif_s_empty(spec)
//@sub /spec\.first\(\)/ => verif_s_first(spec)
//@sub /Self::default\(\)/ => verif_group_default()
//@sub /&spec\[1\.\.len - 1\]/ => verif_slice(spec, 1, len - 1)
//@sub /&spec\[len\.\.\]/ => verif_from(spec, len)
//@sub /&spec\[1\.\.\]/ => verif_from(spec, 1)
//@sub /rest\.strip_prefix\((','|'\.')\)\.unwrap_or\(rest\)/ => verif_strip_or(rest, \1)
//@sub /spec\.split_once\((','|'\.')\)/ => verif_split_once(spec, \1)
//@start
  proof { if spec@.len() > 0 { assert(bpos(spec@, 1) == clen(spec@[0])) by { assert(bpos(spec@, 0) == 0); } lemma_chr(spec@, 1); if spec@[0] == '[' { lemma_bracket(spec@); } } reveal_strlit(""); assert(""@ =~= seq![]); }
//@end
//@fn src/matcher.rs ColGroup::lookup (r)
  ensures r is Ok ==> final(self).col.columns@ == cs_in(old(self).col, views(fieldnames@)) && final(self).det == old(self).det && forall|n: Names| #[trigger] cs_in(final(self).col, n) == cs_in(old(self).col, n),
//@end
}
impl LineMatch for CompMatcher {
    open spec fn acc(&self, l: TextLine) -> bool {
        comp_acc(self.op, self.comp, self.col.det, self.target.num, self.col.col.columns@, l)
    }
    open spec fn named(&self, n: Names, l: TextLine) -> bool { comp_acc(self.op, self.comp, self.col.det, nc_in(self.target, n), cs_in(self.col.col, n), l) }
//@fn src/matcher.rs <CompMatcher as LineMatch>::lookup
//@end
#[verifier::loop_isolation(false)]
//@fn src/matcher.rs <CompMatcher as LineMatch>::ok
//@beforeloop 0
  let ghost c = self.col.col.columns@;
  let ghost t = self.target.num;
  proof { lemma_pyes(self.op, self.comp, t, c, *line, 0, c.len() as int); }
//@loop 0 d
  invariant vi0 <= c.len(), yes == pyes(self.op, self.comp, t, c, *line, vi0 as int), no == vi0 - yes, *self == *old(self),
  decreases c.len() - vi0
//@loopstart 0
  proof { lemma_pyes(self.op, self.comp, t, c, *line, vi0 + 1, c.len() as int); }
//@end
    #[verifier::external_body]
    fn show(&self) -> String { unimplemented!() }
}
/// a comparator from its text (C19)
pub uninterp spec fn comp_of(s: Seq<char>) -> Option<Comp>;
pub struct CompMaker {}
impl CompMaker {
    #[verifier::external_body]
    pub fn make_comp(s: &str) -> (r: Result<Comp>) ensures r is Ok == comp_of(s@) is Some, r matches Ok(x) ==> comp_of(s@) == Some(x) { unimplemented!() }
}
/// the operator a comparison starts with, and what comes after it
pub open spec fn op_split(s: Seq<char>) -> Option<(CompareOp, Seq<char>)> {
    if bpos(s, s.len() as int) < 3 { None }
    else if op_named(head(s, 2)) is Some { let t = s.skip(chr(s, 2)); Some((op_named(head(s, 2)).unwrap(), if is_letter(s[0]) { skip_one(t, '.') } else { t })) }
    else if op_named(head(s, 1)) is Some { Some((op_named(head(s, 1)).unwrap(), s.skip(chr(s, 1)))) }
    else if index_of(s, '.') >= 0 { match op_named(s.subrange(0, index_of(s, '.'))) { Some(o) => Some((o, s.skip(index_of(s, '.') + 1))), None => None } }
    else { None }
}
pub open spec fn comp_made(col: Seq<char>, p: Seq<char>) -> Option<CompMatcher> {
    if nc_of(col) is None || nc_of(col).unwrap().1.len() > 0 { None } else { match op_split(p) { None => None, Some((o, r)) => match group_of(r) { None => None, Some((c, d, rest)) => match comp_of(rest) { None => None,
        Some(m) => Some(CompMatcher { target: nc_of(col).unwrap().0, op: o, col: ColGroup { col: c, det: d, has_col: true }, comp: m }) } } } }
}
pub open spec fn same_comp(a: CompMatcher, b: CompMatcher) -> bool { a.target == b.target && a.op == b.op && a.col.col == b.col.col && a.col.det == b.col.det && a.comp == b.comp }
/// a text is cut into shorter ones
pub axiom fn axiom_utf8_skip(s: Seq<char>, i: int) requires 0 <= i <= s.len(), ensures utf8(s.skip(i)).len() <= utf8(s).len();
impl CompMatcher {
#[verifier::spinoff_prover]
//@fn src/matcher.rs CompMatcher::new (r)
  requires utf8(pattern@).len() < 0x7fff_ffff,
  ensures r is Ok == comp_made(incol@, pattern@) is Some, r matches Ok(m) ==> same_comp(comp_made(incol@, pattern@).unwrap(), m),
//@sub /pattern\.len\(\)/ => verif_blen(pattern)
//@sub /pattern\s*\.get\(0\.\.(\d)\)\s*\.unwrap_or\(""\)/ => verif_head(pattern, \1)
//@sub /verif_head\(pattern, (\d)\)\s*\.parse::<CompareOp>\(\)/ => CompareOp::from_str(verif_head(pattern, \1))
//@sub /\ba\.parse::<CompareOp>\(\)/ => CompareOp::from_str(a)
//@sub /pattern\.as_bytes\(\)\[0\]\.is_ascii_alphabetic\(\)/ => verif_letter0(pattern)
//@sub /&pattern\[(\d)\.\.\]/ => verif_from(pattern, \1)
//@sub /pattern\.strip_prefix\('(.)'\)\.unwrap_or\(pattern\)/ => verif_strip_or(pattern, '\1')
//@sub /pattern\.split_once\('(.)'\)/ => verif_split_once(pattern, '\1')
//@start
  proof {
    let s = pattern@; lemma_bpos(s, 0, s.len() as int);
    assert forall|n: int| bnd(s, n) implies bpos(s, chr(s, n)) == n && 0 <= chr(s, n) <= s.len() by {}
    lemma_names(seq![]);
    assert forall|i: int| 0 <= i <= s.len() implies #[trigger] chr(s, bpos(s, i)) == i by { lemma_chr(s, i); }
    assert forall|i: int| 0 <= i <= s.len() implies utf8(#[trigger] s.skip(i)).len() <= utf8(s).len() by { axiom_utf8_skip(s, i); }
    assert forall|x: Seq<char>| utf8(#[trigger] skip_one(x, '.')).len() <= utf8(x).len() by { if x.len() > 0 { axiom_utf8_skip(x, 1); } }
    lemma_index(s, '.');
  }
//@end
}
pub uninterp spec fn tl_count(t: TextLine) -> usize;
impl TextLine {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == tl_count(*self) { unimplemented!() }
}
//@item src/matcher.rs struct CountMatcher
impl CountMatcher {
//@fn src/matcher.rs CountMatcher::new (r)
  ensures r is Ok == whole(pattern@) is Some, r matches Ok(m) ==> whole(pattern@) == Some(m.count),
//@end
}
impl LineMatch for CountMatcher {
    open spec fn acc(&self, l: TextLine) -> bool { tl_count(l) == self.count }
    open spec fn named(&self, n: Names, l: TextLine) -> bool { self.acc(l) }
//@fn src/matcher.rs <CountMatcher as LineMatch>::lookup
//@end
//@fn src/matcher.rs <CountMatcher as LineMatch>::ok
//@end
//@fn src/matcher.rs <CountMatcher as LineMatch>::ok_verbose
//@end
    #[verifier::external_body]
    fn show(&self) -> String { unimplemented!() }
}
// an expression, seen through its contract (C14)
#[verifier::external_body]
pub struct Expr { x: u8 }
pub uninterp spec fn ex_of(s: Seq<char>) -> Option<Expr>;
pub uninterp spec fn ex_val(e: Expr, l: TextLine) -> f64;
pub uninterp spec fn ex_named(e: Expr, n: Names, l: TextLine) -> f64;
impl Expr {
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: Result<Self>) ensures r is Ok == ex_of(s@) is Some, r matches Ok(x) ==> ex_of(s@) == Some(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn eval(&mut self, l: &TextLine) -> (r: f64) ensures r == ex_val(*old(self), *l), forall|x: TextLine| #[trigger] ex_val(*final(self), x) == ex_val(*old(self), x), forall|n: Names, x: TextLine| #[trigger] ex_named(*final(self), n, x) == ex_named(*old(self), n, x) { unimplemented!() }
    #[verifier::external_body]
    pub fn lookup(&mut self, fieldnames: &[&str]) -> (r: Result<()>) ensures r is Ok ==> (forall|x: TextLine| #[trigger] ex_val(*final(self), x) == ex_named(*old(self), views(fieldnames@), x)) && (forall|n: Names, x: TextLine| #[trigger] ex_named(*final(self), n, x) == ex_named(*old(self), n, x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn expr(&self) -> &str { unimplemented!() }
}
pub open spec fn is_zero(f: f64) -> bool { !fnan(f) && !fnan(0.0f64) && fkey(f) == fkey(0.0f64) }
//@item src/matcher.rs struct ExprMatcher
impl ExprMatcher {
//@fn src/matcher.rs ExprMatcher::new (r)
  ensures r is Ok == ex_of(ex@) is Some, r matches Ok(m) ==> ex_of(ex@) == Some(m.con),
//@end
}
impl LineMatch for ExprMatcher {
    open spec fn acc(&self, l: TextLine) -> bool { !is_zero(ex_val(self.con, l)) }
    open spec fn named(&self, n: Names, l: TextLine) -> bool { !is_zero(ex_named(self.con, n, l)) }
//@fn src/matcher.rs <ExprMatcher as LineMatch>::lookup
//@end
//@fn src/matcher.rs <ExprMatcher as LineMatch>::ok
//@start
  broadcast use ieee;
//@end
//@fn src/matcher.rs <ExprMatcher as LineMatch>::ok_verbose
//@start
  broadcast use ieee;
//@end
    #[verifier::external_body]
    fn show(&self) -> String { unimplemented!() }
}
pub uninterp spec fn tl_text(t: TextLine) -> Seq<u8>;
impl TextLine {
    #[verifier::external_body]
    pub fn line_nl(&self) -> (r: &[u8]) ensures r@ == tl_text(*self) { unimplemented!() }
}
//@item src/matcher.rs struct WholeMatcher
impl LineMatch for WholeMatcher {
    open spec fn acc(&self, l: TextLine) -> bool { self.matcher.negate ^ self.matcher.mplain(tl_text(l)) }
    open spec fn named(&self, n: Names, l: TextLine) -> bool { self.acc(l) }
//@fn src/matcher.rs <WholeMatcher as LineMatch>::lookup
//@end
//@fn src/matcher.rs <WholeMatcher as LineMatch>::ok
//@end
    #[verifier::external_body]
    fn show(&self) -> String { unimplemented!() }
}
/// a value matcher from its text (C17)
pub uninterp spec fn mk(m: Seq<char>, p: Seq<char>) -> Option<Matcher>;
impl WholeMatcher {
//@fn src/matcher.rs WholeMatcher::new (r)
  ensures r is Ok == mk(method@, pattern@) is Some, r matches Ok(m) ==> mk(method@, pattern@) == Some(m.matcher),
//@end
}
impl ColMatcher {
//@fn src/matcher.rs ColMatcher::new (r)
  ensures r is Ok == (nc_of(cols@) is Some && mk(method@, pattern@) is Some), r matches Ok(m) ==> mk(method@, pattern@) == Some(m.matcher) && nc_of(cols@).unwrap().0 == m.col,
//@end
}
/// the columns and determiner between the brackets
pub open spec fn set_of(s: Seq<char>) -> Option<(Determiner, ColumnSet)> { match det_split(s) { Some((d, c)) => match cs_of(c) { Some(x) => Some((d, x)), None => None }, None => None } }
impl ColSetMatcher {
//@fn src/matcher.rs ColSetMatcher::new (r)
  ensures r is Ok == (set_of(cols@) is Some && mk(method@, pattern@) is Some), r matches Ok(m) ==> mk(method@, pattern@) == Some(m.matcher) && set_of(cols@) == Some((m.det, m.col)),
//@end
}
/// is there a line matcher of these columns, method and pattern
pub open spec fn made_ok(c: Seq<char>, m: Seq<char>, p: Seq<char>) -> bool {
    if m == "expr"@ { c.len() == 0 && ex_of(p) is Some }
    else if m == "comp"@ { comp_made(c, p) is Some }
    else if m == "count"@ { c.len() == 0 && whole(p) is Some }
    else { mk(m, p) is Some && (c.len() > 0 ==> if c[0] == '[' { set_of(c.subrange(1, c.len() - 1)) is Some } else { nc_of(c) is Some }) }
}
/// the lines it accepts, in a file with a header of these names
pub open spec fn made(c: Seq<char>, m: Seq<char>, p: Seq<char>, n: Names, l: TextLine) -> bool {
    if m == "expr"@ { !is_zero(ex_named(ex_of(p).unwrap(), n, l)) }
    else if m == "comp"@ { comp_made(c, p).unwrap().named(n, l) }
    else if m == "count"@ { tl_count(l) == whole(p).unwrap() }
    else {
        let x = mk(m, p).unwrap();
        if c.len() == 0 { x.negate ^ x.mplain(tl_text(l)) }
        else if c[0] == '[' { let (d, s) = set_of(c.subrange(1, c.len() - 1)).unwrap(); set_acc(x, d, cs_in(s, n), l) }
        else { x.negate ^ x.mplain(tl_col(l, nc_in(nc_of(c).unwrap().0, n) as int)) }
    }
}
/// Columns,Method,Pattern
pub open spec fn line_parts(s: Seq<char>) -> Option<(Seq<char>, Seq<char>, Seq<char>)> {
    if s.len() > 0 && s[0] == '[' { match close_len(utf8(s)) { None => None, Some(n) => { let r = skip_one(s.skip(chr(s, n)), ','); Some((s.subrange(0, chr(s, n)), before(r), after(r))) } } }
    else { Some((before(s), before(after(s)), after(after(s)))) }
}
pub struct MatchMaker {}
impl MatchMaker {
    #[verifier::external_body]
    pub fn make2(matcher: &str, pattern: &str) -> (r: Result<Matcher>) ensures r is Ok == mk(matcher@, pattern@) is Some, r matches Ok(x) ==> mk(matcher@, pattern@) == Some(x) { unimplemented!() }
#[verifier::spinoff_prover]
//@fn src/matcher.rs MatchMaker::make_line3 (r)
  requires utf8(pattern@).len() < 0x7fff_ffff, cols@.len() > 0 && cols@[0] == '[' ==> cols@.len() >= 2 && cols@.last() == ']',
  ensures r is Ok == made_ok(cols@, method@, pattern@), r matches Ok(x) ==> forall|n: Names, l: TextLine| #[trigger] x.named(n, l) == made(cols@, method@, pattern@, n, l),
//@sub /method == ("[a-z]+")/ => verif_s_eq(method, \1)
//@sub /\bcols\.is_empty\(\)/ => verif_s_empty(cols)
//@sub /\bcols\.first\(\)/ => verif_s_first(cols)
//@sub /&cols\[1\.\.cols\.len\(\) - 1\]/ => verif_slice(cols, 1, verif_blen(cols) - 1)
//@start
  proof {
    let s = cols@;
    if s.len() > 1 { assert(bpos(s, 1) == clen(s[0])) by { assert(bpos(s, 0) == 0); } lemma_chr(s, 1); let k = s.len() - 1; lemma_chr(s, k); lemma_chr(s, k + 1); assert(bpos(s, k + 1) == bpos(s, k) + clen(s[k])); lemma_bpos(s, 1, k); }
    reveal_strlit("expr"); reveal_strlit("comp"); reveal_strlit("count");
    assert("expr"@.len() == 4 && "comp"@.len() == 4 && "count"@.len() == 5 && "expr"@[0] == 'e' && "comp"@[0] == 'c');
  }
//@end
#[verifier::spinoff_prover]
//@fn src/matcher.rs MatchMaker::make_line (r)
  requires utf8(spec@).len() < 0x7fff_ffff,
  ensures
    r is Ok == (line_parts(spec@) is Some && ({ let (c, m, p) = line_parts(spec@).unwrap(); made_ok(c, m, p) })),
    r matches Ok(x) ==> ({ let (c, m, p) = line_parts(spec@).unwrap(); forall|n: Names, l: TextLine| #[trigger] x.named(n, l) == made(c, m, p, n, l) }),
//@sub /spec\.is_empty\(\)/ => verif_s_empty(spec)
//@sub /spec\.first\(\)/ => verif_s_first(spec)
//@sub /&spec\[0?\.\.len\]/ => verif_upto(spec, len)
//@sub /&spec\[len\.\.\]/ => verif_from(spec, len)
//@sub /rest\.strip_prefix\((','|'\.')\)\.unwrap_or\(rest\)/ => verif_strip_or(rest, \1)
//@sub /\b(rest|spec|b)\.split_once\((','|'\.')\)/ => verif_split_once(\1, \2)
//@start
  proof {
    let s = spec@; if s.len() > 0 && s[0] == '[' { lemma_bracket(s); }
    assert forall|x: Seq<char>, i: int| 0 <= i <= x.len() implies utf8(#[trigger] x.skip(i)).len() <= utf8(x).len() by { axiom_utf8_skip(x, i); }
    assert forall|x: Seq<char>| utf8(#[trigger] skip_one(x, ',')).len() <= utf8(x).len() by { if x.len() > 0 { axiom_utf8_skip(x, 1); } }
    assert forall|x: Seq<char>| #[trigger] index_of(x, ',') >= 0 implies index_of(x, ',') < x.len() && (x[0] == '[' ==> index_of(x, ',') > 0) by { lemma_index(x, ','); }
    reveal_strlit(""); assert(""@ =~= seq![]); axiom_utf8(seq![]); assert(index_of(seq![], ',') == -1);
  }
//@end
}
impl LineMatcherList {
//@fn src/matcher.rs LineMatcherList::new (r)
  ensures r.multi == Combiner::Or, r.matchers@.len() == 0,
//@end
//@fn src/matcher.rs LineMatcherList::new_with (r)
  ensures r.multi == multi, r.matchers@.len() == 0,
//@end
//@fn src/matcher.rs LineMatcherList::is_empty (r)
  ensures r == (self.matchers@.len() == 0),
//@end
//@fn src/matcher.rs LineMatcherList::push (r)
  requires utf8(item@).len() < 0x7fff_ffff,
  ensures r is Ok ==> ({ let (c, m, p) = line_parts(item@).unwrap(); let k = old(self).matchers@.len() as int; final(self).matchers@.len() == k + 1 && final(self).matchers@.take(k) == old(self).matchers@
    && forall|n: Names, l: TextLine| #[trigger] final(self).matchers@[k].named(n, l) == made(c, m, p, n, l) }), final(self).multi == old(self).multi,
    r is Err ==> final(self).matchers@ == old(self).matchers@,
//@sub /Ok\(\(\)\)/ => proof { assert(self.matchers@.take(old(self).matchers@.len() as int) =~= old(self).matchers@); } Ok(())
//@end
//@fn src/matcher.rs LineMatcherList::lookup (r)
  ensures r is Ok ==> final(self).matchers@.len() == old(self).matchers@.len() && final(self).multi == old(self).multi
    && (forall|i: int, l: TextLine| 0 <= i < old(self).matchers@.len() ==> (#[trigger] final(self).matchers@[i].acc(l)) == old(self).matchers@[i].named(views(fieldnames@), l))
    && (forall|i: int, n: Names, l: TextLine| 0 <= i < old(self).matchers@.len() ==> (#[trigger] final(self).matchers@[i].named(n, l)) == old(self).matchers@[i].named(n, l)),
//@loop 0 d
  invariant vi0 <= self.matchers@.len(), self.matchers@.len() == old(self).matchers@.len(), self.multi == old(self).multi,
    forall|i: int, l: TextLine| 0 <= i < vi0 ==> (#[trigger] self.matchers@[i].acc(l)) == old(self).matchers@[i].named(views(fieldnames@), l),
    forall|i: int, n: Names, l: TextLine| 0 <= i < vi0 ==> (#[trigger] self.matchers@[i].named(n, l)) == old(self).matchers@[i].named(n, l),
    forall|i: int| vi0 <= i < self.matchers@.len() ==> #[trigger] self.matchers@[i] == old(self).matchers@[i],
  decreases self.matchers@.len() - vi0
//@end
}
// ------------------------------------------------------------ cdx cgrep
pub trait Write {
    spec fn out(&self) -> Seq<u8>;
    fn write_all(&mut self, b: &[u8]) -> (r: Result<()>) ensures r is Ok ==> final(self).out() == old(self).out() + b@;
}
//@item src/bin/cdx/args.rs struct ArgValue
/// what the options ask for: the patterns in order, whether one of them is enough, whether to invert, and the location columns
pub ghost struct Grep { pub pats: Seq<Seq<char>>, pub or: bool, pub inv: bool, pub locs: Seq<Seq<char>>, pub show: bool }
pub open spec fn grep_args(a: Seq<ArgValue>, k: int) -> Grep decreases k {
    if k <= 0 { Grep { pats: seq![], or: false, inv: false, locs: seq![], show: false } } else {
        let g = grep_args(a, k - 1); let x = a[k - 1];
        if x.name@ == "pattern"@ { Grep { pats: g.pats.push(x.value@), ..g } }
        else if x.name@ == "or"@ { Grep { or: true, ..g } }
        else if x.name@ == "invert"@ { Grep { inv: true, ..g } }
        else if x.name@ == "location"@ { Grep { locs: g.locs.push(x.value@), ..g } }
        else { Grep { show: true, ..g } }
    }
}
pub open spec fn grep_arg(n: Seq<char>) -> bool { n == "pattern"@ || n == "or"@ || n == "invert"@ || n == "location"@ || n == "show-const"@ || n == "show-func"@ }
#[verifier::external_body]
pub fn verif_unreachable() requires false { unimplemented!() }
#[verifier::external_body]
pub fn verif_show_const() { unimplemented!() }
#[verifier::external_body]
pub fn verif_show_func() { unimplemented!() }
#[verifier::external_body]
pub struct TextFileMode { x: u8 }
#[verifier::external_body]
pub struct StringLine { x: u8 }
/// where a line is (C18)
#[verifier::external_body]
pub struct FileLocData { x: u8 }
/// the location columns: their names, and their text for a line (C18)
#[verifier::external_body]
pub struct FileLocList { x: u8 }
pub uninterp spec fn loc_names(a: Seq<Seq<char>>) -> Names;
pub uninterp spec fn loc_text(a: Seq<Seq<char>>, delim: u8, l: FileLocData) -> Seq<u8>;
impl FileLocList {
    pub uninterp spec fn asked(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.asked() == Seq::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, spec: &str) -> (r: Result<()>) ensures r is Ok ==> final(self).asked() == old(self).asked().push(spec@) { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&self, h: &mut ColumnHeader) -> (r: Result<()>) ensures r is Ok ==> final(h).given() == old(h).given() + loc_names(self.asked()) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_data<W: Write>(&mut self, w: &mut W, delim: u8, loc: &FileLocData) -> (r: Result<()>) ensures final(self).asked() == old(self).asked(), r is Ok ==> final(w).out() == old(w).out() + loc_text(old(self).asked(), delim, *loc) { unimplemented!() }
}
/// the header made of these names under the default duplicate rule (C20)
pub uninterp spec fn head_text(given: Names, m: TextFileMode) -> Seq<char>;
pub uninterp spec fn head_names(h: StringLine) -> Names;
#[verifier::external_body]
pub struct ColumnHeader { x: u8 }
impl ColumnHeader {
    pub uninterp spec fn given(&self) -> Names;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.given() == Seq::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_all(&mut self, h: &StringLine) -> (r: Result<()>) ensures r is Ok ==> final(self).given() == old(self).given() + head_names(*h) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_head(&self, m: &TextFileMode) -> (r: String) ensures r@ == head_text(self.given(), *m) { unimplemented!() }
}
/// a file: whether it has no line at all, its columns' names, its header, whether that is in the file, and its data lines
pub ghost struct GFile { pub empty: bool, pub names: Names, pub head: StringLine, pub has: bool, pub lines: Seq<TextLine>, pub locs: Seq<FileLocData> }
pub uninterp spec fn gfile_of(name: Seq<char>) -> GFile;
/// a line as it is in the file
pub uninterp spec fn raw(l: TextLine) -> Seq<u8>;
#[verifier::external_body]
pub struct Reader { x: u8 }
impl Reader {
    pub uninterp spec fn file(&self) -> GFile;
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    pub fn new_open(name: &str) -> (r: Result<Reader>) ensures r matches Ok(f) ==> f.file() == gfile_of(name@) && f.at() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == self.file().empty { unimplemented!() }
    #[verifier::external_body]
    pub fn names(&self) -> (r: Vec<&str>) ensures views(r@) == self.file().names { unimplemented!() }
    #[verifier::external_body]
    pub fn header(&self) -> (r: &StringLine) ensures *r == self.file().head { unimplemented!() }
    #[verifier::external_body]
    pub fn has_header(&self) -> (r: bool) ensures r == self.file().has { unimplemented!() }
    #[verifier::external_body]
    pub fn is_done(&self) -> (r: bool) ensures r == (self.at() >= self.file().lines.len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn curr_line(&self) -> (r: &TextLine) requires 0 <= self.at() < self.file().lines.len(), ensures *r == self.file().lines[self.at()] { unimplemented!() }
    #[verifier::external_body]
    pub fn loc(&self) -> (r: &FileLocData) requires 0 <= self.at() < self.file().lines.len(), ensures *r == self.file().locs[self.at()] { unimplemented!() }
    #[verifier::external_body]
    pub fn write_curr<W: Write>(&self, w: &mut W) -> (r: Result<()>) requires 0 <= self.at() < self.file().lines.len(), ensures r is Ok ==> final(w).out() == old(w).out() + raw(self.file().lines[self.at()]) { unimplemented!() }
    #[verifier::external_body]
    pub fn getline(&mut self) -> (r: Result<bool>) requires old(self).at() < old(self).file().lines.len(), ensures final(self).file() == old(self).file(), r matches Ok(b) ==> final(self).at() == old(self).at() + 1 && b == (final(self).at() == final(self).file().lines.len()) { unimplemented!() }
}
/// the header rule over several files (C09): whether this header is written, and what it goes on from
#[verifier::external_body]
pub struct HeaderChecker { x: u8 }
pub uninterp spec fn hc_writes(st: int, h: Seq<u8>) -> bool;
pub uninterp spec fn hc_after(st: int, h: Seq<u8>) -> int;
impl HeaderChecker {
    pub uninterp spec fn st(&self) -> int;
    #[verifier::external_body]
    pub fn check_header(&mut self, header: &[u8], fname: &str) -> (r: Result<bool>) ensures r matches Ok(b) ==> b == hc_writes(old(self).st(), header@) && final(self).st() == hc_after(old(self).st(), header@) { unimplemented!() }
}
#[verifier::external_body]
pub fn verif_sbytes(s: &String) -> (r: &[u8]) ensures r@ == enc(s@) { unimplemented!() }
#[verifier::external_body]
pub fn verif_no_string() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
pub open spec fn enc(s: Seq<char>) -> Seq<u8> { if s.len() == 0 { seq![] } else { utf8(s) } }
/// does the line match this Columns,Method,Pattern in a file with these columns?
pub open spec fn pat_acc(p: Seq<char>, n: Names, l: TextLine) -> bool { let (c, m, q) = line_parts(p).unwrap(); made(c, m, q, n, l) }
/// is the line one of those asked for?
pub open spec fn selected(g: Grep, n: Names, l: TextLine) -> bool { g.inv != (if g.or { exists|i: int| 0 <= i < g.pats.len() && pat_acc(#[trigger] g.pats[i], n, l) } else { forall|i: int| 0 <= i < g.pats.len() ==> pat_acc(#[trigger] g.pats[i], n, l) }) }
pub open spec fn grep_lines(g: Grep, f: GFile, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else { grep_lines(g, f, n - 1) + (if selected(g, f.names, f.lines[n - 1]) { loc_text(g.locs, 9u8, f.locs[n - 1]) + raw(f.lines[n - 1]) } else { seq![] }) } }
pub open spec fn grep_head(g: Grep, f: GFile, m: TextFileMode) -> Seq<u8> { if f.has { enc(head_text(loc_names(g.locs) + head_names(f.head), m)) } else { seq![] } }
pub open spec fn grep_file(g: Grep, st: int, f: GFile, m: TextFileMode) -> Seq<u8> { let h = grep_head(g, f, m); if f.empty { seq![] } else { (if hc_writes(st, h) { h } else { seq![] }) + grep_lines(g, f, f.lines.len() as int) } }
pub open spec fn grep_st(g: Grep, st: int, fs: Seq<String>, m: TextFileMode, k: int) -> int decreases k { if k <= 0 { st } else { let f = gfile_of(fs[k - 1]@); let s = grep_st(g, st, fs, m, k - 1); if f.empty { s } else { hc_after(s, grep_head(g, f, m)) } } }
/// what cgrep writes for the first k files
pub open spec fn grep_all(g: Grep, st: int, fs: Seq<String>, m: TextFileMode, k: int) -> Seq<u8> decreases k { if k <= 0 { seq![] } else { grep_all(g, st, fs, m, k - 1) + grep_file(g, grep_st(g, st, fs, m, k - 1), gfile_of(fs[k - 1]@), m) } }
/// the list holds these patterns
pub open spec fn keeps(m: Seq<Box<dyn LineMatch>>, p: Seq<Seq<char>>) -> bool { m.len() == p.len() && forall|i: int, n: Names, l: TextLine| 0 <= i < p.len() ==> #[trigger] m[i].named(n, l) == pat_acc(p[i], n, l) }
/// its columns are those of a file with these names
pub open spec fn bound(m: Seq<Box<dyn LineMatch>>, p: Seq<Seq<char>>, n: Names) -> bool { m.len() == p.len() && forall|i: int, l: TextLine| 0 <= i < p.len() ==> #[trigger] m[i].acc(l) == pat_acc(p[i], n, l) }
pub proof fn lemma_selected(m: Seq<Box<dyn LineMatch>>, p: Seq<Seq<char>>, n: Names, l: TextLine)
  requires bound(m, p, n),
  ensures l_all(m, l) == (forall|i: int| 0 <= i < p.len() ==> pat_acc(#[trigger] p[i], n, l)), l_any(m, l) == (exists|i: int| 0 <= i < p.len() && pat_acc(#[trigger] p[i], n, l)),
{
    if l_all(m, l) { assert forall|i: int| 0 <= i < p.len() implies pat_acc(#[trigger] p[i], n, l) by { assert(m[i].acc(l)); } }
    if (forall|i: int| 0 <= i < p.len() ==> pat_acc(#[trigger] p[i], n, l)) { assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).acc(l) by { assert(pat_acc(p[i], n, l)); } }
    if l_any(m, l) { let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).acc(l); assert(pat_acc(p[i], n, l)); }
    if (exists|i: int| 0 <= i < p.len() && pat_acc(#[trigger] p[i], n, l)) { let i = choose|i: int| 0 <= i < p.len() && pat_acc(#[trigger] p[i], n, l); assert(m[i].acc(l)); }
}
pub proof fn lemma_show(a: Seq<ArgValue>, k: int, n: int) requires 0 <= k <= n, grep_args(a, k).show, ensures grep_args(a, n).show, decreases n - k, { if k < n { lemma_show(a, k, n - 1); } }
/// cdx cgrep: reading the options, and then file after file the header the header rule asks for and exactly the lines selected, whole and in order
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@fn src/bin/cdx/cgrep_main.rs main (r)
  requires forall|i: int| 0 <= i < args@.len() ==> grep_arg((#[trigger] args@[i]).name@) && utf8(args@[i].value@).len() < 0x7fff_ffff,
  ensures r is Ok ==> ({ let g = grep_args(args@, args@.len() as int); if g.show { final(w).out() == old(w).out() } else { final(w).out() == old(w).out() + grep_all(g, old(checker).st(), files@, text_out, files@.len() as int) } }),
//@from /let mut list = /
//@sig fn cgrep<W: Write>(args: Vec<ArgValue>, files: Vec<String>, checker: &mut HeaderChecker, text_out: TextFileMode, w: &mut W) -> Result<()>
//@sub /let mut w = get_writer\("-"\)\?;/ => let ghost g = grep_args(args@, args@.len() as int); let ghost st0 = checker.st(); let ghost o0 = w.out(); proof { assert(o0 + grep_all(g, st0, files@, text_out, 0) =~= o0); }
//@sub /for x in args \{/ => for x in args.iter() {
//@sub /x\.name == ("[^"]*")/ => verif_s_eq(verif_as_str(&x.name), \1)
//@sub /&x\.value/ => verif_as_str(&x.value)
//@sub /expr::show_(const|func)\(\)/ => verif_show_\1()
//@sub /unreachable!\(\)/ => verif_unreachable()
//@sub /String::new\(\)/ => verif_no_string()
//@sub /Reader::new_open\(x, &settings\.text_in\)/ => Reader::new_open(verif_as_str(x))
//@sub /&settings\.text_out\(\)/ => &text_out
//@sub /settings\.checker/ => checker
//@sub /not_header\.as_bytes\(\), x\)/ => not_header.as_bytes(), verif_as_str(x))
//@sub /not_header\.as_bytes\(\)/ => verif_sbytes(&not_header)
//@sub /&mut w\.0/ => w
//@loop 0 d
  invariant vi0 <= args@.len(), ({ let g = grep_args(args@, vi0 as int); keeps(list.matchers@, g.pats) && (list.multi == Combiner::Or) == g.or && reverse == g.inv && loc.asked() == g.locs && !g.show }),
  decreases args@.len() - vi0,
//@loopstart 0
  let ghost m0 = list.matchers@; proof { if grep_args(args@, vi0 + 1).show { lemma_show(args@, vi0 + 1, args@.len() as int); } }
//@loopend 0
  proof { let g1 = grep_args(args@, vi0 - 1); let g2 = grep_args(args@, vi0 as int); if list.matchers@ != m0 { let k = m0.len() as int; assert forall|i: int, n: Names, l: TextLine| 0 <= i < g2.pats.len() implies #[trigger] list.matchers@[i].named(n, l) == pat_acc(g2.pats[i], n, l) by { if i < k { assert(list.matchers@.take(k)[i] == m0[i]); } } } }
//@loop 1 d
  invariant vi1 <= files@.len(), keeps(list.matchers@, g.pats), (list.multi == Combiner::Or) == g.or, reverse == g.inv, loc.asked() == g.locs, checker.st() == grep_st(g, st0, files@, text_out, vi1 as int), w.out() =~= o0 + grep_all(g, st0, files@, text_out, vi1 as int),
  decreases files@.len() - vi1,
//@loopstart 1
  let ghost k0 = vi1 as int; let ghost cf = gfile_of(files@[k0]@);
//@beforeloop 2
  let ghost o2 = w.out(); proof { assert(o2 + grep_lines(g, cf, 0) =~= o2); assert(bound(list.matchers@, g.pats, cf.names)); }
//@loop 2 l
  invariant_except_break 0 <= f.at() < cf.lines.len(),
  invariant keeps(list.matchers@, g.pats), bound(list.matchers@, g.pats, cf.names), (list.multi == Combiner::Or) == g.or, loc.asked() == g.locs, f.file() == cf, 0 <= f.at() <= cf.lines.len(), w.out() =~= o2 + grep_lines(g, cf, f.at()),
  ensures f.at() == cf.lines.len(),
  decreases cf.lines.len() - f.at(),
//@loopstart 2
  proof { lemma_selected(list.matchers@, g.pats, cf.names, cf.lines[f.at()]); }
//@end
}
fn main(){}
