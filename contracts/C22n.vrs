// C22: the options of cdx cat and cdx paste say what is written
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@include std.vrs
//@include str.vrs
pub type Text = Seq<char>;
/// equal but for the case of ASCII letters
pub open spec fn low(c: char) -> int { if 'A' <= c <= 'Z' { c as u32 + 32 } else { c as u32 as int } }
pub open spec fn nocase(a: Text, b: Text) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> low(#[trigger] a[i]) == low(b[i]) }
pub proof fn lemma_sym() ensures forall|a: Text, b: Text| #[trigger] nocase(a, b) == nocase(b, a),
{ assert forall|a: Text, b: Text| #[trigger] nocase(a, b) == nocase(b, a) by { if nocase(a, b) { assert forall|i: int| 0 <= i < b.len() implies low(#[trigger] b[i]) == low(a[i]) by { assert(low(a[i]) == low(b[i])); } } if nocase(b, a) { assert forall|i: int| 0 <= i < a.len() implies low(#[trigger] a[i]) == low(b[i]) by { assert(low(b[i]) == low(a[i])); } } } }
#[verifier::external_body]
pub fn verif_nocase(a: &str, b: &str) -> (r: bool) ensures r == nocase(a@, b@) { a.eq_ignore_ascii_case(b) }
/// ASCII letters in lower case
pub uninterp spec fn lower(s: Text) -> Text;
#[verifier::external_body]
pub fn verif_lower_is(s: &str, t: &str) -> (r: bool) ensures r == (lower(s@) == t@) { unimplemented!() }
/// the whole text as a signed number (C21)
pub uninterp spec fn whole(s: Text) -> Option<isize>;
#[verifier::external_body]
pub fn verif_isize_whole(s: &str) -> (r: Result<isize>) ensures r is Ok == whole(s@) is Some, r matches Ok(v) ==> whole(s@) == Some(v) { unimplemented!() }
/// the parts of a text, one after the other (str::split)
#[verifier::external_body]
pub struct Parts<'a> { x: &'a str }
impl<'a> Parts<'a> {
    pub uninterp spec fn rest(&self) -> Seq<Text>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
      ensures r is None == (old(self).rest().len() == 0), r matches Some(s) ==> s@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), r is None ==> final(self).rest() == old(self).rest(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn verif_parts<'a>(s: &'a str, c: char) -> (r: Parts<'a>) ensures r.rest() == spieces(s@, c) { unimplemented!() }
#[verifier::external_body]
pub fn verif_unreachable() requires false { unimplemented!() }
/// a list of matchers, by what was asked for (C16)
#[verifier::external_body]
pub struct MatcherList { x: u8 }
impl MatcherList {
    pub uninterp spec fn asked(&self) -> Seq<Text>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.asked() == Seq::<Text>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, s: &str) -> (r: Result<()>) ensures r is Ok ==> final(self).asked() == old(self).asked().push(s@) { unimplemented!() }
}
//@item src/bin/cdx/args.rs struct ArgValue
//@item src/bin/cdx/cat_main.rs enum PadMode
//@item src/bin/cdx/cat_main.rs struct LineNumber
//@item src/bin/cdx/paste_main.rs enum EndMode
//@gsub /\b(\w+)\.eq_ignore_ascii_case\(/ => verif_nocase(\1, 
//@gsub /("\w+"|\b\w+)\.equal_insens_quick\(/ => verif_nocase(\1, 
impl EndMode {
//@fn src/bin/cdx/paste_main.rs EndMode::new (r)
  ensures r matches Ok(m) ==> nocase(spec@, end_name(m)),
    r is Err ==> forall|m: EndMode| !nocase(spec@, #[trigger] end_name(m)),
//@end
}
pub open spec fn end_name(m: EndMode) -> Text { match m { EndMode::Exact => "exact"@, EndMode::Early => "early"@, EndMode::Late => "late"@ } }
/// how the lines are numbered: column name, first number, after the line instead of before it
pub ghost struct Num { pub on: bool, pub name: Text, pub start: int, pub end: bool }
/// Name,Start,Where: what is left out stays as it was
pub open spec fn num_set(n: Num, s: Text) -> Num {
    let p = spieces(s, ',');
    Num { on: true, name: p[0], start: if p.len() >= 2 { whole(p[1])->Some_0 as int } else { n.start }, end: if p.len() >= 3 { nocase("end"@, p[2]) } else { n.end } }
}
pub open spec fn num_ok(s: Text) -> bool {
    let p = spieces(s, ',');
    p.len() <= 3 && (p.len() >= 2 ==> whole(p[1]) is Some) && (p.len() >= 3 ==> nocase("begin"@, p[2]) || nocase("end"@, p[2]))
}
impl LineNumber {
    pub open spec fn st(&self) -> Num { Num { on: self.do_it, name: self.name@, start: self.start as int, end: self.end } }
    /// the derived default
    #[verifier::external_body]
    pub fn verif_default() -> (r: Self) ensures r.st() == num0() { unimplemented!() }
//@fn src/bin/cdx/cat_main.rs LineNumber::new (r)
  ensures r.st() == num0(),
//@sub /Self::default\(\)/ => Self::verif_default()
//@end
//@fn src/bin/cdx/cat_main.rs LineNumber::set (r)
  ensures r is Ok == num_ok(spec@), r is Ok ==> final(self).st() == num_set(old(self).st(), spec@),
//@start
  proof { lemma_spieces_len(spec@, ','); lemma_names(); lemma_sym(); }
//@sub /\bspec\.split\(','\)/ => verif_parts(spec, ',')
//@sub /(\w+\.unwrap\(\)|\w+)\.to_isize_whole\([^,]*,\s*"\w+"\)/ => verif_isize_whole(\1)
//@sub /\b(\w+(?:\.unwrap\(\))?)\.to_string\(\)/ => verif_to_string(\1)
//@end
}
pub open spec fn num0() -> Num { Num { on: false, name: seq![], start: 0, end: false } }
pub ghost struct Want { pub pad: PadMode, pub num: Num, pub skip: Seq<Text>, pub remove: Seq<Text> }
pub open spec fn pad_of(s: Text, p: PadMode) -> PadMode { if lower(s) == "yes"@ { PadMode::All } else if lower(s) == "no"@ { PadMode::None } else { PadMode::End } }
pub open spec fn want(a: Seq<ArgValue>, k: int) -> Want decreases k {
    if k <= 0 { Want { pad: PadMode::All, num: num0(), skip: seq![], remove: seq![] } } else {
        let w = want(a, k - 1); let x = a[k - 1];
        if x.name@ == "pad"@ { Want { pad: pad_of(x.value@, w.pad), ..w } }
        else if x.name@ == "number"@ { Want { num: num_set(w.num, x.value@), ..w } }
        else if x.name@ == "begin"@ { Want { num: Num { on: true, name: "number"@, start: 1, end: false }, ..w } }
        else if x.name@ == "end"@ { Want { num: Num { on: true, name: "number"@, start: 1, end: true }, ..w } }
        else if x.name@ == "skip"@ { Want { skip: w.skip.push(x.value@), ..w } }
        else { Want { remove: w.remove.push(x.value@), ..w } }
    }
}
pub open spec fn cat_arg(x: ArgValue) -> bool { let n = x.name@; (n == "pad"@ && (lower(x.value@) == "yes"@ || lower(x.value@) == "no"@ || lower(x.value@) == "end"@)) || n == "number"@ || n == "begin"@ || n == "end"@ || n == "skip"@ || n == "remove"@ }
/// the text 1 is the number one (C21)
#[verifier::external_body]
pub proof fn axiom_one() ensures whole("1"@) == Some(1isize) { }
pub proof fn lemma_comma(s: Text) ensures spieces(s.push(','), ',') == spieces(s, ',').push(seq![]), { assert(s.push(',').drop_last() =~= s); }
pub proof fn lemma_word(s: Text, w: Text)
  requires forall|i: int| 0 <= i < w.len() ==> w[i] != ',',
  ensures spieces(s + w, ',') == spieces(s, ',').drop_last().push(spieces(s, ',').last() + w),
  decreases w.len(),
{
    let p = spieces(s, ','); lemma_spieces_len(s, ',');
    if w.len() == 0 { assert(s + w =~= s); assert(p.last() + w =~= p.last()); assert(p =~= p.drop_last().push(p.last())); }
    else { lemma_word(s, w.drop_last()); assert((s + w).drop_last() =~= s + w.drop_last()); let q = p.drop_last().push(p.last() + w.drop_last()); assert(q.drop_last() =~= p.drop_last()); assert(q.last().push(w.last()) =~= p.last() + w); }
}
pub proof fn lemma_three(a: Text, b: Text, c: Text)
  requires forall|i: int| 0 <= i < a.len() ==> a[i] != ',', forall|i: int| 0 <= i < b.len() ==> b[i] != ',', forall|i: int| 0 <= i < c.len() ==> c[i] != ',',
  ensures spieces((a.push(',') + b).push(',') + c, ',') == seq![a, b, c],
{
    let e: Text = seq![];
    assert(spieces(e, ',') =~= seq![e]);
    lemma_word(e, a); assert(e + a =~= a); assert(spieces(a, ',') =~= seq![a]);
    lemma_comma(a); lemma_word(a.push(','), b); assert(e + b =~= b); assert(spieces(a.push(',') + b, ',') =~= seq![a, b]);
    lemma_comma(a.push(',') + b); lemma_word((a.push(',') + b).push(','), c); assert(e + c =~= c);
    assert(spieces((a.push(',') + b).push(',') + c, ',') =~= seq![a, b, c]);
}
pub proof fn lemma_short()
  ensures spieces("number,1,begin"@, ',') == seq!["number"@, "1"@, "begin"@], spieces("number,1,end"@, ',') == seq!["number"@, "1"@, "end"@],
{
    reveal_strlit("number,1,begin"); reveal_strlit("number,1,end"); reveal_strlit("number"); reveal_strlit("1"); reveal_strlit("begin"); reveal_strlit("end");
    lemma_three("number"@, "1"@, "begin"@); lemma_three("number"@, "1"@, "end"@);
    assert("number,1,begin"@ =~= ("number"@.push(',') + "1"@).push(',') + "begin"@);
    assert("number,1,end"@ =~= ("number"@.push(',') + "1"@).push(',') + "end"@);
}
/// the names of the options are all different
pub proof fn lemma_names()
  ensures "pad"@ != "number"@, "pad"@ != "begin"@, "pad"@ != "end"@, "pad"@ != "skip"@, "pad"@ != "remove"@, "number"@ != "begin"@, "number"@ != "end"@, "number"@ != "skip"@, "number"@ != "remove"@,
    "begin"@ != "end"@, "begin"@ != "skip"@, "begin"@ != "remove"@, "end"@ != "skip"@, "end"@ != "remove"@, "skip"@ != "remove"@, "yes"@ != "no"@, "yes"@ != "end"@, "no"@ != "end"@,
    "end"@ != "default"@, "end"@ != "dups"@, "end"@ != "rename"@, "end"@ != "rename-sloppy"@, "end"@ != "last"@, "default"@ != "dups"@, "default"@ != "rename"@, "default"@ != "rename-sloppy"@, "default"@ != "last"@,
    "dups"@ != "rename"@, "dups"@ != "rename-sloppy"@, "dups"@ != "last"@, "rename"@ != "rename-sloppy"@, "rename"@ != "last"@, "rename-sloppy"@ != "last"@, "begin"@.len() != "end"@.len(),
{
    reveal_strlit("pad"); reveal_strlit("number"); reveal_strlit("begin"); reveal_strlit("end"); reveal_strlit("skip"); reveal_strlit("remove"); reveal_strlit("yes"); reveal_strlit("no");
    reveal_strlit("default"); reveal_strlit("dups"); reveal_strlit("rename"); reveal_strlit("rename-sloppy"); reveal_strlit("last");
    assert("pad"@.len() == 3 && "number"@.len() == 6 && "begin"@.len() == 5 && "end"@.len() == 3 && "skip"@.len() == 4 && "remove"@.len() == 6 && "yes"@.len() == 3 && "no"@.len() == 2 && "default"@.len() == 7 && "dups"@.len() == 4 && "rename"@.len() == 6 && "rename-sloppy"@.len() == 13 && "last"@.len() == 4);
    assert("skip"@[0] == 's' && "default"@[0] == 'd' && "rename"@[0] == 'r' && "begin"@[0] == 'b');
    assert("pad"@[0] == 'p' && "end"@[0] == 'e' && "yes"@[0] == 'y' && "number"@[0] == 'n' && "remove"@[0] == 'r' && "dups"@[0] == 'd' && "last"@[0] == 'l');
}
/// reading the options of cdx cat
#[verifier::loop_isolation(false)] #[verifier::spinoff_prover]
//@fn src/bin/cdx/cat_main.rs main (r)
  requires forall|i: int| 0 <= i < args@.len() ==> cat_arg(#[trigger] args@[i]),
  ensures r matches Ok(v) ==> ({ let w = want(args@, args@.len() as int); v.0 == w.pad && v.1.st() == w.num && v.2.asked() == w.skip && v.3.asked() == w.remove }),
    r is Ok ==> forall|i: int| 0 <= i < args@.len() && args@[i].name@ == "number"@ ==> num_ok((#[trigger] args@[i]).value@),
//@from /let mut pad = PadMode::All;/
//@upto /let mut header = ColumnHeader::new\(\);/
//@sig fn cat_args(args: Vec<ArgValue>) -> Result<(PadMode, LineNumber, MatcherList, MatcherList)>
//@sub /for x in args \{/ => for x in args.iter() {
//@sub /x\.name == ("[^"]*")/ => verif_s_eq(verif_as_str(&x.name), \1)
//@sub /x\.value\.to_ascii_lowercase\(\) == ("\w+")/ => verif_lower_is(verif_as_str(&x.value), \1)
//@sub /(?<!verif_as_str\()&x\.value/ => verif_as_str(&x.value)
//@sub /unreachable!\(\)/ => verif_unreachable()
//@sub /Ok\(\(\)\)\s*\}\s*$/ => Ok((pad, num, skips, removes)) }
//@loop 0 d
  invariant vi0 <= args@.len(), ({ let w = want(args@, vi0 as int); pad == w.pad && num.st() == w.num && skips.asked() == w.skip && removes.asked() == w.remove }),
    forall|i: int| 0 <= i < vi0 && args@[i].name@ == "number"@ ==> num_ok((#[trigger] args@[i]).value@),
  decreases args@.len() - vi0,
//@loopstart 0
  proof { lemma_names(); axiom_one(); assert("begin"@.len() != "end"@.len()); lemma_short(); }
//@end
/// default values, by what was asked for
#[verifier::external_body]
pub struct ScopedValues { x: u8 }
impl ScopedValues {
    pub uninterp spec fn asked(&self) -> Seq<Text>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.asked() == Seq::<Text>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&mut self, s: &str, c: char) -> (r: Result<()>) ensures r is Ok && c == ',' ==> final(self).asked() == old(self).asked().push(s@) { unimplemented!() }
}
/// how repeated column names are handled (C20)
#[verifier::external_body]
pub struct DupColHandling { x: u8 }
impl DupColHandling {
    pub uninterp spec fn named(&self) -> Text;
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: Result<Self>) ensures r matches Ok(d) ==> d.named() == s@ { unimplemented!() }
}
pub ghost struct Heading { pub dups: Option<Text>, pub renames: Seq<Text>, pub sloppy: bool }
#[verifier::external_body]
pub struct ColumnHeader { x: u8 }
impl ColumnHeader {
    pub uninterp spec fn st(&self) -> Heading;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.st() == (Heading { dups: None, renames: seq![], sloppy: false }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_handling(&mut self, d: DupColHandling) ensures final(self).st() == (Heading { dups: Some(d.named()), ..old(self).st() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn rename(&mut self, s: &str) -> (r: Result<()>) ensures r is Ok ==> final(self).st() == (Heading { renames: old(self).st().renames.push(s@), ..old(self).st() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn rename_sloppy(&mut self) ensures final(self).st() == (Heading { sloppy: true, ..old(self).st() }) { unimplemented!() }
}
pub ghost struct PWant { pub end: Option<Text>, pub dflt: Seq<Text>, pub head: Heading, pub last: bool }
pub open spec fn pwant(a: Seq<ArgValue>, k: int) -> PWant decreases k {
    if k <= 0 { PWant { end: None, dflt: seq![], head: Heading { dups: None, renames: seq![], sloppy: false }, last: false } } else {
        let w = pwant(a, k - 1); let x = a[k - 1];
        if x.name@ == "end"@ { PWant { end: Some(x.value@), ..w } }
        else if x.name@ == "default"@ { PWant { dflt: w.dflt.push(x.value@), ..w } }
        else if x.name@ == "dups"@ { PWant { head: Heading { dups: Some(x.value@), ..w.head }, ..w } }
        else if x.name@ == "rename"@ { PWant { head: Heading { renames: w.head.renames.push(x.value@), ..w.head }, ..w } }
        else if x.name@ == "rename-sloppy"@ { PWant { head: Heading { sloppy: true, ..w.head }, ..w } }
        else { PWant { last: true, ..w } }
    }
}
pub open spec fn paste_arg(n: Text) -> bool { n == "end"@ || n == "default"@ || n == "dups"@ || n == "rename"@ || n == "rename-sloppy"@ || n == "last"@ }
/// the files end together unless another end is asked for, and the last such option counts
pub open spec fn end_is(m: EndMode, e: Option<Text>) -> bool { match e { None => m is Exact, Some(s) => nocase(s, end_name(m)) } }
/// reading the options of cdx paste
#[verifier::loop_isolation(false)] #[verifier::spinoff_prover]
//@fn src/bin/cdx/paste_main.rs main (r)
  requires forall|i: int| 0 <= i < args@.len() ==> paste_arg((#[trigger] args@[i]).name@),
  ensures r matches Ok(v) ==> ({ let w = pwant(args@, args@.len() as int); end_is(v.0, w.end) && v.1.asked() == w.dflt && v.2.st() == w.head && v.3 == w.last }),
//@from /let mut end_mode = EndMode::Exact;/
//@upto /let mut fds: Vec<Reader>/
//@sig fn paste_args(args: Vec<ArgValue>) -> Result<(EndMode, ScopedValues, ColumnHeader, bool)>
//@sub /for x in args \{/ => for x in args.iter() {
//@sub /x\.name == ("[^"]*")/ => verif_s_eq(verif_as_str(&x.name), \1)
//@sub /(?<!verif_as_str\()&x\.value/ => verif_as_str(&x.value)
//@sub /unreachable!\(\)/ => verif_unreachable()
//@sub /Ok\(\(\)\)\s*\}\s*$/ => Ok((end_mode, dflt, header, use_last)) }
//@loop 0 d
  invariant vi0 <= args@.len(), ({ let w = pwant(args@, vi0 as int); end_is(end_mode, w.end) && dflt.asked() == w.dflt && header.st() == w.head && use_last == w.last }),
  decreases args@.len() - vi0,
//@loopstart 0
  proof { lemma_names(); }
//@end
/// the whole text as a number (C21)
pub uninterp spec fn uwhole(s: Text) -> Option<usize>;
#[verifier::external_body]
pub fn verif_usize_whole(s: &str) -> (r: Result<usize>) ensures r is Ok == uwhole(s@) is Some, r matches Ok(v) ==> uwhole(s@) == Some(v) { unimplemented!() }
pub open spec fn twant(a: Seq<ArgValue>, k: int) -> (bool, usize) decreases k {
    if k <= 0 { (false, usize::MAX) } else { let w = twant(a, k - 1); let x = a[k - 1]; if x.name@ == "head"@ { (true, w.1) } else { (w.0, uwhole(x.value@)->Some_0) } }
}
/// reading the options of cdx transpose
#[verifier::loop_isolation(false)] #[verifier::spinoff_prover]
//@fn src/bin/cdx/transpose_main.rs main (r)
  requires forall|i: int| 0 <= i < args@.len() ==> (#[trigger] args@[i]).name@ == "head"@ || args@[i].name@ == "lines"@,
  ensures r matches Ok(v) ==> v == twant(args@, args@.len() as int) && forall|i: int| 0 <= i < args@.len() && args@[i].name@ == "lines"@ ==> uwhole((#[trigger] args@[i]).value@) is Some,
//@from /let mut head = false;/
//@upto /cdx::transpose::transpose\(/
//@sig fn transpose_args(args: Vec<ArgValue>) -> Result<(bool, usize)>
//@sub /for x in args \{/ => for x in args.iter() {
//@sub /x\.name == ("[^"]*")/ => verif_s_eq(verif_as_str(&x.name), \1)
//@sub /(?s)x\s*\.value\s*\.to_usize_whole\(.*?,\s*"[^"]*"\)/ => verif_usize_whole(verif_as_str(&x.value))
//@sub /unreachable!\(\)/ => verif_unreachable()
//@sub /Ok\(\(\)\)\s*\}\s*$/ => Ok((head, lines)) }
//@loop 0 d
  invariant vi0 <= args@.len(), (head, lines) == twant(args@, vi0 as int), forall|i: int| 0 <= i < vi0 && args@[i].name@ == "lines"@ ==> uwhole((#[trigger] args@[i]).value@) is Some,
  decreases args@.len() - vi0,
//@loopstart 0
  proof { reveal_strlit("head"); reveal_strlit("lines"); assert("head"@.len() != "lines"@.len()); }
//@end
}
fn main(){}
