// C11: the options of cdx join say what is joined and what is written
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@include std.vrs
//@include str.vrs
pub type Text = Seq<char>;
/// the whole text as a number (C21)
pub uninterp spec fn whole(s: Text) -> Option<usize>;
#[verifier::external_body]
pub fn verif_usize_whole(s: &str) -> (r: Result<usize>) ensures r is Ok == whole(s@) is Some, r matches Ok(v) ==> whole(s@) == Some(v) { unimplemented!() }
/// a set of columns, by the specifications given to it in order (C08)
#[verifier::external_body]
pub struct ColumnSet { x: u8 }
/// do these specifications add nothing?
pub uninterp spec fn blank(a: Seq<Text>) -> bool;
impl ColumnSet {
    pub uninterp spec fn asked(&self) -> Seq<Text>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.asked() == Seq::<Text>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_yes(&mut self, s: &str) -> (r: Result<()>) ensures r is Ok ==> final(self).asked() == old(self).asked().push(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == blank(self.asked()), self.asked().len() == 0 ==> r { unimplemented!() }
}
pub struct DupColHandling { x: u8 }
pub struct ScopedValue { x: u8 }
//@item src/join.rs enum JoinType
//@item src/join.rs struct NoMatch
//@item src/join.rs struct OutColSpec
//@item src/join.rs struct JoinConfig
impl NoMatch {
//@fn src/join.rs NoMatch::new (r)
  ensures r.file_num == file_num, r.file_name@ == file_name@,
//@sub /file_name\.to_string\(\)/ => verif_to_string(file_name)
//@end
}
impl OutColSpec {
//@fn src/join.rs OutColSpec::new (r) noconst
  ensures r.file == file, r.cols == cols,
//@end
}
/// the derived default: everything empty or zero
#[verifier::external_body]
pub fn verif_join_default() -> (r: JoinConfig) ensures r.keys@.len() == 0, r.col_specs@.len() == 0, r.unmatch_out@.len() == 0, r.infiles@.len() == 0, r.jtype is Quick { unimplemented!() }
impl JoinConfig {
//@fn src/join.rs JoinConfig::new (r)
  ensures r.keys@.len() == 0, r.col_specs@.len() == 0, r.unmatch_out@.len() == 0, r.infiles@.len() == 0, r.match_out@ == match_dflt(), r.out_delim == 9, r.jtype is Quick,
//@sub /"-"\.to_string\(\)/ => verif_to_string("-")
//@sub /Self::default\(\)/ => verif_join_default()
//@end
}
/// without --file the output is standard output
pub open spec fn match_dflt() -> Text { "-"@ }
//@item src/bin/cdx/args.rs struct ArgValue
/// the groups of columns of an output list so far: file number and specifications, and the group being read
pub ghost struct Outs { pub done: Seq<(int, Seq<Text>)>, pub file: Option<int>, pub set: Seq<Text> }
pub open spec fn close(o: Outs) -> Seq<(int, Seq<Text>)> { if blank(o.set) { o.done } else { o.done.push((o.file->Some_0, o.set)) } }
/// file.columns starts the columns of a file, and columns alone go on with them
pub open spec fn out_step(o: Outs, y: Text) -> Outs {
    let k = index_of(y, '.');
    if k >= 0 { Outs { done: close(o), file: Some(whole(y.subrange(0, k))->Some_0 - 1), set: (if blank(o.set) { o.set } else { seq![] }).push(y.skip(k + 1)) } }
    else { Outs { set: o.set.push(y), ..o } }
}
pub open spec fn out_parts(p: Seq<Text>, k: int, from: Seq<(int, Seq<Text>)>) -> Outs decreases k { if k <= 0 { Outs { done: from, file: None, set: seq![] } } else { out_step(out_parts(p, k - 1, from), p[k - 1]) } }
/// a part is well formed: the first names its file, and a file has a number from one
pub open spec fn part_ok(p: Seq<Text>, i: int) -> bool { let k = index_of(p[i], '.'); if k >= 0 { whole(p[i].subrange(0, k)) is Some && whole(p[i].subrange(0, k))->Some_0 > 0 } else { i > 0 } }
pub open spec fn outs_of(s: Text, from: Seq<(int, Seq<Text>)>) -> Seq<(int, Seq<Text>)> { let p = spieces(s, ','); close(out_parts(p, p.len() as int, from)) }
/// N,name: the file's number, and everything after the first comma is the name
pub open spec fn also_of(s: Text) -> (int, Text) { let k = index_of(s, ','); (whole(s.subrange(0, k))->Some_0 as int, s.skip(k + 1)) }
pub open spec fn also_ok(s: Text) -> bool { let k = index_of(s, ','); k >= 0 && whole(s.subrange(0, k)) is Some }
pub ghost struct Wanted { pub keys: Seq<Text>, pub outs: Seq<(int, Seq<Text>)>, pub main: Text, pub also: Seq<(int, Text)> }
pub open spec fn wanted(a: Seq<ArgValue>, k: int) -> Wanted decreases k {
    if k <= 0 { Wanted { keys: seq![], outs: seq![], main: match_dflt(), also: seq![] } } else {
        let w = wanted(a, k - 1); let x = a[k - 1];
        if x.name@ == "key"@ { Wanted { keys: w.keys.push(x.value@), ..w } }
        else if x.name@ == "output"@ { Wanted { outs: outs_of(x.value@, w.outs), ..w } }
        else if x.name@ == "file"@ { Wanted { main: x.value@, ..w } }
        else { Wanted { also: w.also.push(also_of(x.value@)), ..w } }
    }
}
pub open spec fn arg_ok(x: ArgValue) -> bool { (x.name@ == "output"@ ==> forall|i: int| 0 <= i < spieces(x.value@, ',').len() ==> #[trigger] part_ok(spieces(x.value@, ','), i)) && (x.name@ == "also"@ ==> also_ok(x.value@)) }
pub open spec fn join_arg(n: Text) -> bool { n == "key"@ || n == "output"@ || n == "file"@ || n == "also"@ }
pub open spec fn outs_are(c: Seq<OutColSpec>, o: Seq<(int, Seq<Text>)>) -> bool { c.len() == o.len() && forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).file == o[i].0 && c[i].cols.asked() == o[i].1 }
pub open spec fn also_are(c: Seq<NoMatch>, o: Seq<(int, Text)>) -> bool { c.len() == o.len() && forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).file_num == o[i].0 && c[i].file_name@ == o[i].1 }
pub open spec fn texts(k: Seq<String>) -> Seq<Text> { Seq::new(k.len(), |i: int| k[i]@) }
#[verifier::external_body]
pub fn verif_unreachable() requires false { unimplemented!() }
#[verifier::external_body]
pub fn verif_clone(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub proof fn lemma_first(p: Seq<Text>, k: int, from: Seq<(int, Seq<Text>)>)
  requires 0 <= k <= p.len(), forall|i: int| 0 <= i < k ==> #[trigger] part_ok(p, i),
  ensures out_parts(p, k, from).file is None == (k == 0),
  decreases k,
{ if k > 0 { lemma_first(p, k - 1, from); assert(part_ok(p, k - 1)); } }
/// reading the options of cdx join
#[verifier::loop_isolation(false)] #[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@fn src/bin/cdx/join_main.rs main (r)
  requires forall|i: int| 0 <= i < args@.len() ==> join_arg((#[trigger] args@[i]).name@),
  ensures r is Ok ==> ({ let w = wanted(args@, args@.len() as int); final(config).infiles@ == files@ && texts(final(config).keys@) == w.keys && outs_are(final(config).col_specs@, w.outs) && final(config).match_out@ == w.main && final(config).out_delim == 9 && final(config).jtype is Quick && also_are(final(config).unmatch_out@, w.also) }),
    r is Ok ==> forall|i: int| 0 <= i < args@.len() ==> arg_ok(#[trigger] args@[i]),
//@from /let mut config = JoinConfig::new\(\);/
//@upto /config\.join\(\)/
//@sig fn join_args(args: Vec<ArgValue>, files: Vec<String>, config: &mut JoinConfig) -> Result<()>
//@sub /let mut config = JoinConfig::new\(\);/ => *config = JoinConfig::new();
//@sub /for x in args \{/ => for x in args.iter() {
//@sub /for y in x\.value\.split\(','\) \{/ => let vpieces = verif_s_split(verif_as_str(&x.value), ','); for y in vpieces.iter() {
//@sub /x\.name == ("[^"]*")/ => verif_s_eq(verif_as_str(&x.name), \1)
//@sub /config\.keys\.push\(x\.value\)/ => config.keys.push(verif_clone(&x.value))
//@sub /config\.match_out = x\.value;/ => config.match_out = verif_clone(&x.value);
//@sub /\by\.split_once\('\.'\)/ => verif_split_once(*y, '.')
//@sub /x\.value\.split_once\(','\)/ => verif_split_once(verif_as_str(&x.value), ',')
//@sub /\b(num|a)\.to_usize_whole\([^,]*,\s*"file number"\)/ => verif_usize_whole(\1)
//@sub /set\.add_yes\(y\)/ => set.add_yes(*y)
//@sub /unreachable!\(\)/ => verif_unreachable()
//@loop 0 d
  invariant vi0 <= args@.len(), ({ let w = wanted(args@, vi0 as int); config.infiles@ == files@ && texts(config.keys@) =~= w.keys && outs_are(config.col_specs@, w.outs) && config.match_out@ == w.main && also_are(config.unmatch_out@, w.also) }), forall|i: int| 0 <= i < vi0 ==> arg_ok(#[trigger] args@[i]),
  decreases args@.len() - vi0,
//@loopstart 0
  let ghost w0 = wanted(args@, vi0 as int); let ghost c0 = *config; let ghost k0 = vi0 as int;
//@loopend 0
  proof { reveal_strlit("key"); reveal_strlit("output"); reveal_strlit("file"); reveal_strlit("also"); assert("file"@[0] != "also"@[0]); assert("output"@.len() == 6 && "also"@.len() == 4 && "file"@.len() == 4 && "key"@.len() == 3); assert(arg_ok(args@[k0])); assert(wanted(args@, vi0 as int).keys =~= texts(config.keys@)); }
//@loop 1 d
  invariant vi1 <= vpieces@.len(), ps =~= spieces(x.value@, ','), vpieces@.len() == ps.len(), forall|i: int| 0 <= i < vpieces@.len() ==> (#[trigger] vpieces@[i])@ == ps[i], forall|i: int| 0 <= i < vi1 ==> #[trigger] part_ok(ps, i),
    ({ let o = out_parts(ps, vi1 as int, w0.outs); outs_are(config.col_specs@, o.done) && set.asked() == o.set && (file is Some) == (o.file is Some) && (file matches Some(n) ==> o.file == Some(n as int)) && (file is None ==> o.set.len() == 0) }),
    config.infiles == c0.infiles, config.keys == c0.keys, config.match_out == c0.match_out, config.unmatch_out == c0.unmatch_out,
  decreases vpieces@.len() - vi1,
//@beforeloop 1
  let ghost ps = spieces(x.value@, ',');
//@afterloop 1
  proof { assert(vi1 == ps.len()); assert(ps == spieces(x.value@, ',')); reveal_strlit("output"); reveal_strlit("also"); assert("output"@.len() != "also"@.len()); assert forall|i: int| 0 <= i < spieces(x.value@, ',').len() implies #[trigger] part_ok(spieces(x.value@, ','), i) by { assert(part_ok(ps, i)); } assert(arg_ok(*x)); }
//@loopstart 1
  proof { lemma_first(ps, vi1 as int, w0.outs); }
//@end
}
fn main(){}
