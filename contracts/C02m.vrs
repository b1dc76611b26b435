use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
//@include std.vrs
//@include str.vrs
//@include bpos.vrs
/// how a key is put together from its specification: columns, words, pattern
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct JunkRest { x: u8 }
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/num.rs enum JunkType
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/num.rs enum JunkVal
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/num.rs struct Junk
/// Junk::default()
pub uninterp spec fn junk0() -> Junk;
#[verifier::external_body]
pub fn verif_junk() -> (r: Junk) ensures r == junk0() { unimplemented!() }
//@gsub /Junk::default\(\)/ => verif_junk()
#[verifier::external_body]
pub fn verif_no_string() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
//@gsub /String::(default|new)\(\)/ => verif_no_string()
#[verifier::external_body]
pub fn verif_sclone(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
//@gsub /\b(c|self)\.(pattern|ctype|name)\.clone\(\)/ => verif_sclone(&\1.\2)
//@gsub /\b(pattern|cols|x)\.to_string\(\)/ => verif_to_string(\1)
//@gsub /\b(spec|orig_spec|method|rest|sp)\.is_empty\(\)/ => verif_s_empty(\1)
//@gsub /\b(comp\.cols|self\.name)\.is_empty\(\)/ => verif_s_empty(verif_as_str(&\1))
//@gsub /\b(spec|method)\.split\('(.)'\)/ => verif_s_split(\1, '\2').iter()
//@gsub /\b(spec|b)\.split_once\('(.)'\)/ => verif_split_once(\1, '\2')
//@gsub /Self::init\(\)\?;/ => proof { }
pub open spec fn lowc(c: char) -> int { if 'A' <= c && c <= 'Z' { c as int + 32 } else { c as int } }
pub open spec fn nocase(a: Seq<char>, b: Seq<char>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> lowc(#[trigger] a[i]) == lowc(b[i]) }
#[verifier::external_body]
pub fn verif_nocase(a: &str, b: &str) -> (r: bool) ensures r == nocase(a@, b@) { unimplemented!() }
//@gsub /\b(\w+)\.eq_ignore_ascii_case\(/ => verif_nocase(\1, 
// ------------------------------------------------------------ one column
pub open spec fn find_name(n: Seq<Seq<char>>, s: Seq<char>) -> int decreases n.len() {
    if n.len() == 0 { -1 } else { let k = find_name(n.drop_last(), s); if k >= 0 { k } else if n.last() == s { n.len() - 1 } else { -1 } }
}
pub open spec fn views(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub struct ColumnSet { pub x: u8 }
impl ColumnSet {
    /// as proved in C08
    #[verifier::external_body]
    pub fn lookup_col(fieldnames: &[&str], colname: &str) -> (r: Result<usize>)
      ensures r is Ok == (find_name(views(fieldnames@), colname@) >= 0), r matches Ok(n) ==> n == find_name(views(fieldnames@), colname@),
    { unimplemented!() }
}
//@item src/column.rs struct NamedCol
/// a column as it is asked for, before it is looked for in a header
pub enum ColV { Name(Seq<char>), FromEnd(int), Num(int) }
impl View for NamedCol {
    type V = ColV;
    open spec fn view(&self) -> ColV { if self.name@.len() > 0 { ColV::Name(self.name@) } else if self.from_end > 0 { ColV::FromEnd(self.from_end as int) } else { ColV::Num(self.num as int) } }
}
/// which column is that in this header?
pub open spec fn column(c: ColV, names: Seq<Seq<char>>) -> Option<int> {
    match c {
        ColV::Name(s) => if find_name(names, s) >= 0 { Some(find_name(names, s)) } else { None },
        ColV::FromEnd(n) => if n <= names.len() { Some(names.len() - n) } else { None },
        ColV::Num(n) => Some(n),
    }
}
/// char::is_alphabetic, char::is_alphanumeric
pub uninterp spec fn alpha(c: char) -> bool;
pub uninterp spec fn alnum(c: char) -> bool;
#[verifier::external_body]
pub proof fn axiom_alpha(c: char) ensures alpha(c) ==> alnum(c), '0' <= c <= '9' ==> !alpha(c) && alnum(c) {}
#[verifier::external_body]
pub fn verif_alpha(c: char) -> (r: bool) ensures r == alpha(c) { c.is_alphabetic() }
#[verifier::external_body]
pub fn verif_alnum(c: char) -> (r: bool) ensures r == alnum(c) { c.is_alphanumeric() }
//@gsub /\bch\.is_alphabetic\(\)/ => verif_alpha(ch)
//@gsub /\bch\.is_alphanumeric\(\)/ => verif_alnum(ch)
//@gsub /\bch\.is_ascii_digit\(\)/ => verif_char_digit(ch)
#[verifier::external_body]
pub fn verif_skip_first(s: &str) -> (r: &str) requires s@.len() > 0, ensures r@ == s@.skip(1) { unimplemented!() }
//@gsub /\b(spec|sp)\.skip_first\(\)/ => verif_skip_first(\1)
//@gsub /\b(spec|sp)\.first\(\)/ => verif_s_first(\1)
/// how many characters of a column name are at the start
pub open spec fn name_len(s: Seq<char>, k: int) -> int decreases s.len() - k {
    if k < 0 || k >= s.len() { s.len() as int } else if alnum(s[k]) || s[k] == '_' { name_len(s, k + 1) } else { k }
}
pub proof fn lemma_name_len(s: Seq<char>, k: int) requires 0 <= k <= s.len(), ensures k <= name_len(s, k) <= s.len(), decreases s.len() - k { if k < s.len() && (alnum(s[k]) || s[k] == '_') { lemma_name_len(s, k + 1); } }
pub proof fn lemma_bpos_tail(s: Seq<char>, t: Seq<char>, k: int) requires 0 <= k <= s.len(), t == s.skip(k), ensures bpos(t, t.len() as int) == bpos(s, s.len() as int) - bpos(s, k) { lemma_bpos_tail2(s, t, k, t.len() as int); }
pub proof fn lemma_bpos_tail2(s: Seq<char>, t: Seq<char>, k: int, j: int) requires 0 <= k <= s.len(), t == s.skip(k), 0 <= j <= t.len(), ensures bpos(t, j) == bpos(s, k + j) - bpos(s, k), decreases j { if j > 0 { lemma_bpos_tail2(s, t, k, j - 1); } }
/// the number at the start of the text, and the rest (str::to_usize, C21)
pub uninterp spec fn usize_of(s: Seq<char>) -> (usize, Seq<char>);
#[verifier::external_body]
pub fn verif_to_usize(s: &str) -> (r: (usize, &str)) ensures (r.0, r.1@) == usize_of(s@), s@.len() > 0 && '1' <= s@[0] <= '9' ==> r.0 >= 1 { unimplemented!() }
//@gsub /\bspec\.to_usize\(\)/ => verif_to_usize(spec)
/// the column a specification names, and the text after it
pub open spec fn col_of(s: Seq<char>) -> Option<(ColV, Seq<char>)> {
    if s.len() == 0 { None }
    else if s[0] == '+' {
        let t = s.skip(1);
        if t.len() > 0 && '1' <= t[0] <= '9' { Some((ColV::FromEnd(usize_of(t).0 as int), usize_of(t).1)) } else { None }
    }
    else if '1' <= s[0] <= '9' { Some((ColV::Num(usize_of(s).0 - 1), usize_of(s).1)) }
    else if alpha(s[0]) { let k = name_len(s, 1); Some((ColV::Name(s.subrange(0, k)), s.skip(k))) }
    else { None }
}
//@fn src/column.rs get_col_name (r)
  ensures spec@.len() == 0 || !alpha(spec@[0]) ==> r == 0, spec@.len() > 0 && alpha(spec@[0]) ==> r == bpos(spec@, name_len(spec@, 1)),
//@sub /let mut ch = sp\.take_first\(\);/ => let mut ch = verif_s_first(sp); sp = verif_skip_first(sp);
//@sub /spec\.len\(\) - sp\.len\(\)/ => verif_blen(spec) - verif_blen(sp)
//@start
  let ghost mut k: int = 1;
//@loop 0 w
  invariant spec@.len() > 0, alpha(spec@[0]), 1 <= k <= spec@.len(), sp@ == spec@.skip(k), name_len(spec@, 1) == name_len(spec@, k),
  ensures spec@.len() > 0, alpha(spec@[0]), 1 <= k <= spec@.len(), sp@ == spec@.skip(k), name_len(spec@, 1) == k,
  decreases spec@.len() - k,
//@sub /sp = sp\.skip_first\(\);/ => sp = verif_skip_first(sp); proof { assert(spec@.skip(k).skip(1) =~= spec@.skip(k + 1)); k = k + 1; }
//@afterloop 0
  proof { lemma_bpos_tail(spec@, sp@, k); lemma_bpos(spec@, k, spec@.len() as int); lemma_bpos(spec@, 0, k); }
//@end
#[verifier::external_body]
pub fn verif_col() -> (r: NamedCol) ensures r.name@.len() == 0, r.num == 0, r.from_end == 0 { unimplemented!() }
#[verifier::external_body]
pub fn verif_clear(s: &mut String) ensures final(s)@ == Seq::<char>::empty() { s.clear() }
#[verifier::external_body]
pub fn verif_append(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
impl NamedCol {
//@fn src/column.rs NamedCol::parse (r)
  ensures r is Ok == col_of(orig_spec@) is Some,
    r matches Ok(t) ==> (final(self)@, t@) == col_of(orig_spec@)->Some_0,
//@sub /self\.name\.clear\(\);/ => verif_clear(&mut self.name);
//@sub /self\.name \+= &spec\[0?\.\.pos\];/ => verif_append(&mut self.name, verif_upto(spec, pos));
//@sub /Ok\(&spec\[pos\.\.\]\)/ => proof { let e = Seq::<char>::empty(); assert(e + spec@.subrange(0, name_len(spec@, 1)) =~= spec@.subrange(0, name_len(spec@, 1))); } Ok(verif_from(spec, pos))
//@after /let pos = get_col_name\(spec\);/
  proof { lemma_name_len(spec@, 1); lemma_chr(spec@, name_len(spec@, 1)); }
//@start
  proof { if orig_spec@.len() > 0 { axiom_alpha(orig_spec@[0]); axiom_alpha('+'); if orig_spec@.len() > 1 { axiom_alpha(orig_spec@[1]); } } }
//@end
//@fn src/column.rs NamedCol::new_from (r)
  ensures r is Ok == (col_of(spec@) is Some && col_of(spec@)->Some_0.1.len() == 0), r matches Ok(x) ==> x@ == col_of(spec@)->Some_0.0,
//@sub /Self::default\(\)/ => verif_col()
//@end
//@fn src/column.rs NamedCol::lookup (r)
  ensures r is Ok == column(old(self)@, views(fieldnames@)) is Some,
    r matches Ok(_) ==> final(self).num == column(old(self)@, views(fieldnames@))->Some_0,
    final(self).name == old(self).name, final(self).from_end == old(self).from_end,
//@end
}

// ------------------------------------------------------------ one key
/// a value comparator, made for a method
pub trait Compare {
    spec fn tag(&self) -> Seq<char>;
}
/// a line comparator
pub enum Kind { Whole(LineCompWhole), Cols(LineCompCol), Made(Seq<char>, Seq<char>) }
pub trait LineCompare {
    spec fn kind(&self) -> Kind;
//@fn src/comp.rs trait LineCompare::lookup (r)
  requires old(self).kind() matches Kind::Cols(c) ==> c.cols@.len() > 0, file_num < usize::MAX,
  ensures r is Ok ==> looked(old(self).kind(), final(self).kind(), views(fieldnames@), file_num as int),
    (old(self).kind() is Cols && file_num < old(self).kind()->Cols_0.cols@.len()) ==> r is Ok == column(old(self).kind()->Cols_0.cols@[file_num as int]@, views(fieldnames@)) is Some,
//@end
//@fn src/comp.rs trait LineCompare::used_cols
  requires self.kind() matches Kind::Cols(c) ==> file_num < c.cols@.len(),
  ensures final(v)@ == (match self.kind() { Kind::Cols(c) => old(v)@.push(c.cols@[file_num as int].num), Kind::Whole(_) => old(v)@, Kind::Made(t, p) => old(v)@ + made_cols(t, p) }),
//@end
//@fn src/comp.rs trait LineCompare::need_split (r)
  ensures self.kind() is Cols ==> r,
//@end
}
/// the columns a comparator of lines uses
pub uninterp spec fn made_cols(t: Seq<char>, p: Seq<char>) -> Seq<usize>;
/// the header of file f has been looked at: its column has been found, and so has every other column been kept
pub open spec fn looked(a: Kind, b: Kind, names: Seq<Seq<char>>, f: int) -> bool {
    match (a, b) {
        (Kind::Cols(c), Kind::Cols(d)) => {
            let n = c.cols@.len();
            &&& d.comp == c.comp
            &&& d.cols@.len() == if n > f { n as int } else { f + 1 }
            &&& forall|i: int| 0 <= i < d.cols@.len() && i != f ==> same_col(#[trigger] d.cols@[i], if i < n { c.cols@[i] } else { c.cols@[n - 1] })
            &&& { let o = if f < n { c.cols@[f] } else { c.cols@[n - 1] }; column(o@, names) == Some(d.cols@[f].num as int) && d.cols@[f].name@ == o.name@ && d.cols@[f].from_end == o.from_end }
        },
        (Kind::Whole(c), Kind::Whole(d)) => c == d,
        (Kind::Made(t, p), Kind::Made(u, q)) => t == u && p == q,
        _ => false,
    }
}
pub open spec fn same_col(a: NamedCol, b: NamedCol) -> bool { a.name@ == b.name@ && a.num == b.num && a.from_end == b.from_end }
#[verifier::external_body]
pub fn verif_col_clone(a: &NamedCol) -> (r: NamedCol) ensures same_col(r, *a) { unimplemented!() }
//@item src/comp.rs struct Comp
//@item src/comp.rs struct LineComp
//@item src/comp.rs struct LineCompWhole
//@item src/comp.rs struct LineCompCol
impl LineCompWhole {
//@fn src/comp.rs LineCompWhole::new (r) noconst
  ensures r.comp == comp,
//@end
}
/// the columns of a key: the first for the first file, and so on
pub open spec fn cols_are(v: Seq<NamedCol>, s: Seq<char>) -> bool {
    let p = spieces(s, '.');
    v.len() == p.len() && forall|i: int| 0 <= i < v.len() ==> col_of(#[trigger] p[i]) is Some && col_of(p[i])->Some_0 == (v[i]@, Seq::<char>::empty())
}
impl LineCompCol {
//@fn src/comp.rs LineCompCol::new (r)
  ensures r matches Ok(c) ==> c.comp == comp && cols_are(c.cols@, spec@),
//@sub /let mut cols = Vec::new\(\)/ => let mut cols: Vec<NamedCol> = Vec::new()
//@sub /for x in spec\.split\('\.'\)/ => let parts = verif_s_split(spec, '.'); for x in parts.iter()
//@loop 0 d
  invariant vi0 <= parts@.len(), cols@.len() == vi0, parts@.len() == spieces(spec@, '.').len(), forall|i: int| 0 <= i < parts@.len() ==> (#[trigger] parts@[i])@ == spieces(spec@, '.')[i],
    forall|i: int| 0 <= i < vi0 ==> col_of(#[trigger] parts@[i]@) is Some && col_of(parts@[i]@)->Some_0.1.len() == 0 && col_of(parts@[i]@)->Some_0.0 == cols@[i]@,
  decreases parts@.len() - vi0
//@afterloop 0
  proof { assert forall|i: int| 0 <= i < cols@.len() implies col_of(#[trigger] spieces(spec@, '.')[i]) is Some && col_of(spieces(spec@, '.')[i])->Some_0 == (cols@[i]@, Seq::<char>::empty()) by { let ghost t = parts@[i]@; assert(col_of(t)->Some_0.1 =~= Seq::<char>::empty()); } }
//@end
}
impl LineCompare for LineCompCol {
    open spec fn kind(&self) -> Kind { Kind::Cols(*self) }
//@fn src/comp.rs <LineCompCol as LineCompare>::lookup
//@sub /self\.cols\[([^\]]*)\]\.clone\(\)/ => verif_col_clone(&self.cols[\1])
//@start
  let ghost c0 = *self;
  let ghost n = self.cols@.len();
//@loop 0 w
  invariant n > 0, n == c0.cols@.len(), self.comp == c0.comp, self.cols@.len() >= n, self.cols@.len() <= (if n > file_num { n as int } else { file_num + 1 }), file_num < usize::MAX,
    forall|i: int| 0 <= i < self.cols@.len() ==> same_col(#[trigger] self.cols@[i], if i < n { c0.cols@[i] } else { c0.cols@[n - 1] }),
  decreases file_num + 1 - self.cols@.len(),
//@end
//@fn src/comp.rs <LineCompCol as LineCompare>::used_cols
//@end
}
impl LineCompare for LineCompWhole {
    open spec fn kind(&self) -> Kind { Kind::Whole(*self) }
//@fn src/comp.rs <LineCompWhole as LineCompare>::lookup
//@end
//@fn src/comp.rs <LineCompWhole as LineCompare>::used_cols
//@end
//@fn src/comp.rs <LineCompWhole as LineCompare>::need_split
//@end
}

// ------------------------------------------------------------ the makers
//@item src/comp.rs struct ComparePlain
impl Compare for ComparePlain { uninterp spec fn tag(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn verif_plain() -> (r: Box<dyn Compare>) { unimplemented!() }
//@gsub /Box::new\(ComparePlain::new\(\)\)/ => verif_plain()
impl Comp {
//@fn src/comp.rs <Comp as Default>::default (r)
  ensures !r.reverse, r.junk == junk0(), r.pattern@.len() == 0, r.ctype@.len() == 0,
//@end
//@fn src/comp.rs Comp::new (r)
  ensures !r.reverse, r.junk == junk0(), r.pattern@.len() == 0, r.ctype@.len() == 0,
//@end
/// the comparator inside a key never reverses: the key does
//@fn src/comp.rs Comp::with_line_comp (r)
  ensures !r.reverse, r.junk == c.junk, r.pattern@ == c.pattern@, r.ctype@ == c.ctype@,
//@end
}
impl LineComp {
//@fn src/comp.rs <LineComp as Default>::default (r)
  ensures !r.reverse, r.delim == 9u8, r.junk == junk0(), r.pattern@.len() == 0, r.ctype@.len() == 0, r.cols@.len() == 0,
//@end
//@fn src/comp.rs LineComp::new (r)
  ensures !r.reverse, r.delim == 9u8, r.junk == junk0(), r.pattern@.len() == 0, r.ctype@.len() == 0, r.cols@.len() == 0,
//@end
//@fn src/comp.rs LineComp::lookup (r)
  requires old(self).comp.kind() matches Kind::Cols(c) ==> c.cols@.len() > 0,
  ensures r is Ok ==> looked(old(self).comp.kind(), final(self).comp.kind(), views(fieldnames@), 0), same_key(*old(self), *final(self)),
//@end
//@fn src/comp.rs LineComp::lookup_n (r)
  requires old(self).comp.kind() matches Kind::Cols(c) ==> c.cols@.len() > 0, file_num < usize::MAX,
  ensures r is Ok ==> looked(old(self).comp.kind(), final(self).comp.kind(), views(fieldnames@), file_num as int), same_key(*old(self), *final(self)),
//@end
//@fn src/comp.rs LineComp::used_cols
  requires self.comp.kind() matches Kind::Cols(c) ==> file_num < c.cols@.len(),
  ensures final(v)@ == old(v)@ + uses(self.comp.kind(), file_num as int),
//@end
//@fn src/comp.rs LineComp::need_split (r)
  ensures self.comp.kind() is Cols ==> r,
//@end
}
pub open spec fn uses(k: Kind, f: int) -> Seq<usize> { match k { Kind::Cols(c) => seq![c.cols@[f].num], Kind::Whole(_) => seq![], Kind::Made(t, p) => made_cols(t, p) } }
pub open spec fn same_key(a: LineComp, b: LineComp) -> bool { a.reverse == b.reverse && a.delim == b.delim && a.junk == b.junk && a.pattern == b.pattern && a.cols == b.cols && a.ctype == b.ctype }
/// the registry: the names in it, in order
pub struct CompMakerItem { pub tag: &'static str }
pub struct LineCompMakerItem { pub tag: &'static str }
pub uninterp spec fn tags() -> Seq<Seq<char>>;
pub uninterp spec fn line_tags() -> Seq<Seq<char>>;
#[verifier::external_body]
pub fn verif_makers() -> (r: Vec<CompMakerItem>) ensures r@.len() == tags().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).tag@ == tags()[i] { unimplemented!() }
#[verifier::external_body]
pub fn verif_line_makers() -> (r: Vec<LineCompMakerItem>) ensures r@.len() == line_tags().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).tag@ == line_tags()[i] { unimplemented!() }
/// what is registered under a name makes the comparator of that name (C19)
#[verifier::external_body]
pub fn verif_make(x: &CompMakerItem, c: &Comp) -> (r: Result<Box<dyn Compare>>) ensures r matches Ok(b) ==> b.tag() == x.tag@ { unimplemented!() }
#[verifier::external_body]
pub fn verif_line_make(x: &LineCompMakerItem, c: &LineComp) -> (r: Result<Box<dyn LineCompare>>) ensures r matches Ok(b) ==> b.kind() == Kind::Made(x.tag@, c.pattern@) { unimplemented!() }
pub uninterp spec fn alias(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn verif_alias(s: &String) -> (r: &'static str) ensures r@ == alias(s@) { unimplemented!() }
//@gsub /Self::resolve_alias\(/ => verif_alias(
/// the first name in the registry that is this one, capitals or not
pub open spec fn registered(t: Seq<Seq<char>>, s: Seq<char>, k: int) -> bool { 0 <= k < t.len() && nocase(s, t[k]) && forall|i: int| 0 <= i < k ==> !nocase(s, #[trigger] t[i]) }
pub open spec fn missing(t: Seq<Seq<char>>, s: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> !nocase(s, #[trigger] t[i]) }
/// a value comparator of the name that was asked for
pub open spec fn made_by(c: Comp, s: Seq<char>) -> bool { exists|k: int| registered(tags(), s, k) && c.comp.tag() == #[trigger] tags()[k] }
pub open spec fn made_line(c: LineComp, s: Seq<char>) -> bool {
    if missing(line_tags(), s) {
        if c.cols@.len() == 0 { c.comp.kind() matches Kind::Whole(w) && !w.comp.reverse && w.comp.junk == c.junk && w.comp.pattern@ == c.pattern@ && made_by(w.comp, s) }
        else { c.comp.kind() matches Kind::Cols(w) && !w.comp.reverse && w.comp.junk == c.junk && w.comp.pattern@ == c.pattern@ && made_by(w.comp, s) && cols_are(w.cols@, c.cols@) }
    } else { exists|k: int| registered(line_tags(), s, k) && c.comp.kind() == Kind::Made(#[trigger] line_tags()[k], c.pattern@) }
}
/// what the words of a specification ask for
pub struct Asked { pub rev: bool, pub junk: Junk, pub method: Seq<char> }
pub open spec fn asked(p: Seq<Seq<char>>, k: int) -> Asked decreases k {
    if k <= 0 { Asked { rev: false, junk: junk0(), method: seq![] } }
    else {
        let a = asked(p, k - 1);
        let w = p[k - 1];
        if nocase(w, "rev"@) { Asked { rev: true, ..a } }
        else if nocase(w, "strict"@) { Asked { junk: Junk { junk_type: JunkType::None, ..a.junk }, ..a } }
        else if nocase(w, "trail"@) { Asked { junk: Junk { junk_type: JunkType::Trailing, ..a.junk }, ..a } }
        else if nocase(w, "low"@) { Asked { junk: Junk { junk_val: JunkVal::Min, ..a.junk }, ..a } }
        else { Asked { method: w, ..a } }
    }
}
pub open spec fn asks(s: Seq<char>) -> Asked { let p = spieces(s, '.'); if s.len() == 0 { asked(p, 0) } else { asked(p, p.len() as int) } }
pub proof fn lemma_words(w: Seq<char>)
  ensures !(nocase(w, "rev"@) && nocase(w, "strict"@)), !(nocase(w, "rev"@) && nocase(w, "trail"@)), !(nocase(w, "rev"@) && nocase(w, "low"@)),
    !(nocase(w, "strict"@) && nocase(w, "trail"@)), !(nocase(w, "strict"@) && nocase(w, "low"@)), !(nocase(w, "trail"@) && nocase(w, "low"@)),
{
    reveal_strlit("rev"); reveal_strlit("strict"); reveal_strlit("trail"); reveal_strlit("low");
    assert("rev"@.len() == 3 && "strict"@.len() == 6 && "trail"@.len() == 5 && "low"@.len() == 3);
    if nocase(w, "rev"@) && nocase(w, "low"@) { assert(lowc(w[0]) == lowc("rev"@[0])); assert(lowc(w[0]) == lowc("low"@[0])); }
}
/// the text before the first comma, and after it
pub open spec fn before(s: Seq<char>) -> Seq<char> { let k = index_of(s, ','); if k >= 0 { s.subrange(0, k) } else { s } }
pub open spec fn after(s: Seq<char>) -> Seq<char> { let k = index_of(s, ','); if k >= 0 { s.skip(k + 1) } else { seq![] } }
pub open spec fn key_is(c: LineComp, cols: Seq<char>, method: Seq<char>, pattern: Seq<char>) -> bool {
    let a = asks(method);
    c.reverse == a.rev && c.junk == a.junk && c.pattern@ == pattern && c.cols@ == cols && c.delim == 9u8 && made_line(c, alias(a.method))
}
pub open spec fn comp_is(c: Comp, method: Seq<char>, pattern: Seq<char>) -> bool {
    let a = asks(method);
    c.reverse == a.rev && c.junk == a.junk && c.pattern@ == pattern && made_by(c, alias(a.method))
}
pub struct CompMaker { pub x: u8 }
impl CompMaker {
//@fn src/comp.rs CompMaker::remake_comp (r)
  ensures r is Ok ==> made_by(*final(comp), alias(old(comp).ctype@)),
    missing(tags(), alias(old(comp).ctype@)) ==> r is Err,
    final(comp).reverse == old(comp).reverse, final(comp).junk == old(comp).junk, final(comp).pattern == old(comp).pattern, final(comp).ctype == old(comp).ctype,
//@sub /for x in &\*COMP_MAKER\.lock\(\)\.unwrap\(\)/ => let makers = verif_makers(); for x in makers.iter()
//@sub /\(x\.maker\)\(comp\)/ => verif_make(x, comp)
//@loop 0 d
  invariant vi0 <= makers@.len(), makers@.len() == tags().len(), forall|i: int| 0 <= i < makers@.len() ==> (#[trigger] makers@[i]).tag@ == tags()[i], *comp == *old(comp), ctype@ == alias(old(comp).ctype@),
    forall|i: int| 0 <= i < vi0 ==> !nocase(ctype@, #[trigger] tags()[i]),
  decreases makers@.len() - vi0
//@before /return Ok\(\(\)\);/
  proof { assert(registered(tags(), ctype@, vi0 - 1)); let ghost t = tags()[vi0 - 1]; }
//@end
//@fn src/comp.rs CompMaker::remake_line_comp (r)
  ensures r is Ok ==> made_line(*final(comp), alias(old(comp).ctype@)),
    missing(line_tags(), alias(old(comp).ctype@)) && missing(tags(), alias(old(comp).ctype@)) ==> r is Err,
    same_key(*old(comp), *final(comp)),
//@sub /for x in &\*LINE_MAKER\.lock\(\)\.unwrap\(\)/ => let lmakers = verif_line_makers(); for x in lmakers.iter()
//@sub /for x in &\*COMP_MAKER\.lock\(\)\.unwrap\(\)/ => let makers = verif_makers(); for x in makers.iter()
//@sub /\(x\.maker\)\(comp\)/ => verif_line_make(x, comp)
//@sub /\(x\.maker\)\(&new_comp\)/ => verif_make(x, &new_comp)
//@loop 0 d
  invariant vi0 <= lmakers@.len(), lmakers@.len() == line_tags().len(), forall|i: int| 0 <= i < lmakers@.len() ==> (#[trigger] lmakers@[i]).tag@ == line_tags()[i], *comp == *old(comp), ctype@ == alias(old(comp).ctype@),
    forall|i: int| 0 <= i < vi0 ==> !nocase(ctype@, #[trigger] line_tags()[i]),
  decreases lmakers@.len() - vi0
//@loop 1 d
  invariant vi1 <= makers@.len(), makers@.len() == tags().len(), forall|i: int| 0 <= i < makers@.len() ==> (#[trigger] makers@[i]).tag@ == tags()[i], *comp == *old(comp), ctype@ == alias(old(comp).ctype@), missing(line_tags(), ctype@),
    !new_comp.reverse, new_comp.junk == comp.junk, new_comp.pattern@ == comp.pattern@,
    forall|i: int| 0 <= i < vi1 ==> !nocase(ctype@, #[trigger] tags()[i]),
  decreases makers@.len() - vi1
//@after /comp\.comp = verif_line_make\(x, comp\)\?;/
  proof { assert(registered(line_tags(), ctype@, vi0 - 1)); let ghost t = line_tags()[vi0 - 1]; }
//@after /new_comp\.comp = verif_make\(x, &new_comp\)\?;/
  proof { assert(registered(tags(), ctype@, vi1 - 1)); let ghost t = tags()[vi1 - 1]; assert(made_by(new_comp, ctype@)); }
//@end
//@fn src/comp.rs CompMaker::make_comp_parts (r)
  ensures r matches Ok(c) ==> comp_is(c, method@, pattern@),
//@sub /for x in method\.split\('\.'\)/ => let words = verif_s_split(method, '.'); for x in words.iter()
//@loop 0 d
  invariant vi0 <= words@.len(), words@.len() == spieces(method@, '.').len(), forall|i: int| 0 <= i < words@.len() ==> (#[trigger] words@[i])@ == spieces(method@, '.')[i],
    comp.reverse == asked(spieces(method@, '.'), vi0 as int).rev, comp.junk == asked(spieces(method@, '.'), vi0 as int).junk, comp.ctype@ == asked(spieces(method@, '.'), vi0 as int).method, comp.pattern@ == pattern@,
  decreases words@.len() - vi0
//@loopstart 0
  proof { lemma_words(words@[vi0 as int]@); }
//@before /Self::remake_comp/
  proof { assert(comp.ctype@ =~= asks(method@).method); }
//@end
//@fn src/comp.rs CompMaker::make_line_comp_parts (r)
  ensures r matches Ok(c) ==> key_is(c, cols@, method@, pattern@),
//@sub /for x in method\.split\('\.'\)/ => let words = verif_s_split(method, '.'); for x in words.iter()
//@loop 0 d
  invariant vi0 <= words@.len(), words@.len() == spieces(method@, '.').len(), forall|i: int| 0 <= i < words@.len() ==> (#[trigger] words@[i])@ == spieces(method@, '.')[i],
    comp.reverse == asked(spieces(method@, '.'), vi0 as int).rev, comp.junk == asked(spieces(method@, '.'), vi0 as int).junk, comp.ctype@ == asked(spieces(method@, '.'), vi0 as int).method, comp.pattern@ == pattern@, comp.cols@ == cols@, comp.delim == 9u8,
  decreases words@.len() - vi0
//@loopstart 0
  proof { lemma_words(words@[vi0 as int]@); }
//@before /Self::remake_line_comp/
  proof { assert(comp.ctype@ =~= asks(method@).method); }
//@end
//@fn src/comp.rs CompMaker::make_comp (r)
  ensures r matches Ok(c) ==> comp_is(c, before(spec@), after(spec@)),
//@start
  proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
/// the columns, a comma, the words, a comma, the pattern
//@fn src/comp.rs CompMaker::make_line_comp (r)
  ensures r matches Ok(c) ==> key_is(c, before(spec@), before(after(spec@)), after(after(spec@))),
//@start
  proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); let e = Seq::<char>::empty(); assert(index_of(e, ',') == -1); }
//@end
//@fn src/comp.rs CompMaker::make_comp_box (r)
  ensures r matches Ok(c) ==> exists|k: int| registered(tags(), alias(asks(before(spec@)).method), k) && c.tag() == #[trigger] tags()[k],
//@end
//@fn src/comp.rs CompMaker::make_line_comp_box (r)
  ensures r matches Ok(b) ==> exists|c: LineComp| b == c.comp && #[trigger] key_is(c, before(spec@), before(after(spec@)), after(after(spec@))),
//@sub /Ok\(Self::make_line_comp\(spec\)\?\.comp\)/ => let vc = Self::make_line_comp(spec)?; let ghost vg = vc; proof { assert(key_is(vg, before(spec@), before(after(spec@)), after(after(spec@)))); } Ok(vc.comp)
//@end
}
// ------------------------------------------------------------ lists of keys
//@item src/comp.rs struct CompList
impl CompList {
//@fn src/comp.rs CompList::add (r)
  ensures r is Ok ==> final(self).c@.len() == old(self).c@.len() + 1 && final(self).c@.drop_last() == old(self).c@ && comp_is(final(self).c@.last(), before(x@), after(x@)),
    r is Err ==> final(self).c@ == old(self).c@,
//@after /self\.c\.push\(CompMaker::make_comp\(x\)\?\);/
  proof { assert(self.c@.drop_last() =~= old(self).c@); }
//@end
//@fn src/comp.rs CompList::push
  ensures final(self).c@ == old(self).c@.push(x),
//@end
//@fn src/comp.rs CompList::is_empty (r)
  ensures r == (self.c@.len() == 0),
//@end
}
//@item src/comp.rs struct LineCompList
pub open spec fn ready(c: Seq<LineComp>, f: int) -> bool { forall|i: int| 0 <= i < c.len() ==> ((#[trigger] c[i]).comp.kind() matches Kind::Cols(k) ==> k.cols@.len() > f) }
pub open spec fn uses_all(c: Seq<LineComp>, f: int) -> Seq<usize> decreases c.len() { if c.len() == 0 { seq![] } else { uses_all(c.drop_last(), f) + uses(c.last().comp.kind(), f) } }
impl LineCompList {
//@fn src/comp.rs LineCompList::add (r)
  ensures r is Ok ==> final(self).c@.len() == old(self).c@.len() + 1 && final(self).c@.drop_last() == old(self).c@ && key_is(final(self).c@.last(), before(x@), before(after(x@)), after(after(x@))),
    r is Err ==> final(self).c@ == old(self).c@,
//@after /self\.c\.push\(CompMaker::make_line_comp\(x\)\?\);/
  proof { assert(self.c@.drop_last() =~= old(self).c@); }
//@end
//@fn src/comp.rs LineCompList::push
  ensures final(self).c@ == old(self).c@.push(x),
//@end
//@fn src/comp.rs LineCompList::is_empty (r)
  ensures r == (self.c@.len() == 0),
//@end
//@fn src/comp.rs LineCompList::lookup_n (r)
  requires ready(old(self).c@, 0), file_num < usize::MAX,
  ensures r is Ok ==> final(self).c@.len() == old(self).c@.len() && forall|i: int| 0 <= i < final(self).c@.len() ==> looked(old(self).c@[i].comp.kind(), (#[trigger] final(self).c@[i]).comp.kind(), views(fieldnames@), file_num as int) && same_key(old(self).c@[i], final(self).c@[i]),
    r is Ok ==> ready(final(self).c@, file_num as int),
//@loop 0 d
  invariant vi0 <= self.c@.len(), self.c@.len() == old(self).c@.len(), ready(old(self).c@, 0), file_num < usize::MAX,
    forall|i: int| 0 <= i < vi0 ==> looked(old(self).c@[i].comp.kind(), (#[trigger] self.c@[i]).comp.kind(), views(fieldnames@), file_num as int) && same_key(old(self).c@[i], self.c@[i]),
    forall|i: int| vi0 <= i < self.c@.len() ==> #[trigger] self.c@[i] == old(self).c@[i],
  decreases self.c@.len() - vi0
//@end
//@fn src/comp.rs LineCompList::lookup (r)
  requires ready(old(self).c@, 0),
  ensures r is Ok ==> final(self).c@.len() == old(self).c@.len() && forall|i: int| 0 <= i < final(self).c@.len() ==> looked(old(self).c@[i].comp.kind(), (#[trigger] final(self).c@[i]).comp.kind(), views(fieldnames@), 0) && same_key(old(self).c@[i], final(self).c@[i]),
    r is Ok ==> ready(final(self).c@, 0),
//@end
//@fn src/comp.rs LineCompList::used_cols (r)
  requires ready(self.c@, file_num as int),
  ensures r@ == uses_all(self.c@, file_num as int),
//@loop 0 d
  invariant vi0 <= self.c@.len(), ready(self.c@, file_num as int), v@ == uses_all(self.c@.subrange(0, vi0 as int), file_num as int),
  decreases self.c@.len() - vi0
//@loopend 0
  proof { assert(self.c@.subrange(0, vi0 as int).drop_last() =~= self.c@.subrange(0, vi0 - 1)); }
//@afterloop 0
  proof { assert(self.c@.subrange(0, self.c@.len() as int) =~= self.c@); }
//@end
//@fn src/comp.rs LineCompList::need_split (r)
  ensures (exists|i: int| 0 <= i < self.c@.len() && (#[trigger] self.c@[i]).comp.kind() is Cols) ==> r,
//@loop 0 d
  invariant vi0 <= self.c@.len(), forall|i: int| 0 <= i < vi0 ==> !((#[trigger] self.c@[i]).comp.kind() is Cols),
  decreases self.c@.len() - vi0
//@end
}
}
fn main(){}
