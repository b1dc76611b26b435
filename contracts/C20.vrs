// C20: the names in an output header are unique and valid
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@include std.vrs
//@include str.vrs
//@gsub /\b(spec|sp)\.is_empty\(\)/ => verif_s_empty(\1)
//@gsub /(\w+)\.take_first\(\)/ => verif_take(&mut \1)
//@gsub /(\w+)\.skip_first\(\)/ => verif_skip(\1)
//@gsub /\bsp\.first\(\)/ => verif_s_first(sp)
//@gsub /\bch\.is_alphabetic\(\)/ => verif_alpha(ch)
//@gsub /\bch\.is_alphanumeric\(\)/ => verif_alnum(ch)
//@gsub /\b(spec|sp|name)\.len\(\)/ => verif_len(\1)
//@gsub /\b(name|a|b)\.to_string\(\)/ => verif_to_string(\1)
//@gsub /\b(\w+)\.to_ascii_lowercase\(\) == ("\w+")/ => verif_lower_is(\1, \2)
//@gsub /spec\.split_once\('\.'\)/ => verif_split_once(spec, '.')
/// bytes of a character in UTF-8
pub uninterp spec fn clen(c: char) -> nat;
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { clen(s[0]) + blen(s.skip(1)) } }
#[verifier::external_body]
pub proof fn axiom_clen(c: char) ensures 1 <= clen(c) <= 4 { }
pub uninterp spec fn alpha(c: char) -> bool;
pub uninterp spec fn alnum(c: char) -> bool;
#[verifier::external_body]
pub proof fn axiom_digit(c: char) requires '0' <= c <= '9', ensures alnum(c) { }
#[verifier::external_body]
pub fn verif_alpha(c: char) -> (r: bool) ensures r == alpha(c) { c.is_alphabetic() }
#[verifier::external_body]
pub fn verif_alnum(c: char) -> (r: bool) ensures r == alnum(c) { c.is_alphanumeric() }
#[verifier::external_body]
pub fn verif_take(s: &mut &str) -> (r: char) requires old(s)@.len() > 0, ensures r == old(s)@[0], final(s)@ == old(s)@.skip(1) { unimplemented!() }
#[verifier::external_body]
pub fn verif_skip(s: &str) -> (r: &str) requires s@.len() > 0, ensures r@ == s@.skip(1) { unimplemented!() }
#[verifier::external_body]
pub fn verif_len(s: &str) -> (r: usize) ensures r == blen(s@) { unimplemented!() }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn verif_lower_is(s: &str, t: &str) -> (r: bool) ensures r == (lower(s@) == t@) { unimplemented!() }
/// the decimal digits of a number
pub uninterp spec fn dec(n: int) -> Seq<char>;
#[verifier::external_body]
pub proof fn axiom_dec(n: int) requires n >= 0, ensures dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> '0' <= #[trigger] dec(n)[i] <= '9' { }
/// format!("{name}{x}")
#[verifier::external_body]
pub fn verif_numbered(name: &str, x: i32) -> (r: String) ensures r@ == name@ + dec(x as int) { unimplemented!() }
/// the next of 1, 2, 3, ... (more than two thousand million columns of one name would end the program)
#[verifier::external_body]
pub fn verif_count(x: &mut i32) -> (r: i32) ensures *final(x) == *old(x) + 1, r == *final(x) { *x += 1; *x }
/// a column name: letters, digits and underscores after a letter, or nothing at all
pub open spec fn valid(s: Seq<char>) -> bool { s.len() == 0 || (alpha(s[0]) && forall|i: int| 1 <= i < s.len() ==> alnum(#[trigger] s[i]) || s[i] == '_') }
pub proof fn lemma_blen(s: Seq<char>, k: int) requires 0 <= k <= s.len(), ensures blen(s.skip(k)) <= blen(s), blen(s.skip(k)) == blen(s) ==> k == 0, k == s.len() ==> blen(s.skip(k)) == 0, k < s.len() ==> blen(s.skip(k)) > 0 decreases s.len()
{
    if s.len() > 0 { axiom_clen(s[0]); }
    if k > 0 { lemma_blen(s.skip(1), k - 1); assert(s.skip(1).skip(k - 1) =~= s.skip(k)); } else { assert(s.skip(0) =~= s); }
}
//@fn src/column.rs get_col_name (r)
  ensures r <= blen(spec@), (r == blen(spec@)) == valid(spec@),
//@beforeloop 0
  let ghost mut k: int = 1; 
  proof { lemma_blen(spec@, 0); }
//@loop 0 w
  invariant 1 <= k <= spec@.len(), sp@ == spec@.skip(k), alpha(spec@[0]), forall|i: int| 1 <= i < k ==> alnum(#[trigger] spec@[i]) || spec@[i] == '_',
  ensures sp@.len() == 0 || !(alnum(spec@[k]) || spec@[k] == '_'),
  decreases sp@.len(),
//@loopstart 0
  proof { assert(sp@[0] == spec@[k]); assert(sp@.skip(1) =~= spec@.skip(k + 1)); }
//@loopend 0
  proof { k = k + 1; }
//@afterloop 0
  proof { lemma_blen(spec@, k); }
//@start
  proof { lemma_blen(spec@, 0); }
//@end
//@fn src/column.rs is_valid_column_name (r)
  ensures r == valid(name@),
//@end
//@fn src/column.rs validate_column_name (r)
  ensures r is Ok == valid(name@),
//@end
//@item src/column.rs enum DupColHandling
impl DupColHandling {
//@fn src/column.rs DupColHandling::new (r)
  ensures r matches Ok(d) ==> lower(spec@) == (match d { DupColHandling::Fail => "fail"@, DupColHandling::Allow => "allow"@, DupColHandling::Numeric => "numeric"@ }),
//@end
}
//@item src/column.rs struct NameMap
impl NameMap {
//@fn src/column.rs NameMap::new (r)
  ensures r matches Ok(m) ==> index_of(spec@, '.') >= 0 && m.from@ == spec@.subrange(0, index_of(spec@, '.')) && m.to@ == spec@.skip(index_of(spec@, '.') + 1) && valid(m.to@),
//@end
}
//@item src/column.rs struct ColumnHeader
pub open spec fn holds(c: Seq<String>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i])@ == n }
pub open spec fn unique(c: Seq<String>) -> bool { forall|i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[i])@ != (#[trigger] c[j])@ }
pub open spec fn all_valid(c: Seq<String>) -> bool { forall|i: int| 0 <= i < c.len() ==> valid((#[trigger] c[i])@) }
pub open spec fn renames_ok(m: Seq<NameMap>) -> bool { forall|i: int| 0 <= i < m.len() ==> valid((#[trigger] m[i]).to@) }
/// k is the first renaming of n
pub open spec fn rename_at(m: Seq<NameMap>, n: Seq<char>, k: int) -> bool { 0 <= k < m.len() && m[k].from@ == n && forall|i: int| 0 <= i < k ==> (#[trigger] m[i]).from@ != n }
pub open spec fn no_rename(m: Seq<NameMap>, n: Seq<char>) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).from@ != n }
/// what a column called n is called in the output
pub open spec fn named(h: ColumnHeader, n: Seq<char>, to: Seq<char>) -> bool {
    if !holds(h.cols@, n) { to == n } else if no_rename(h.rename@, n) { match h.dups { DupColHandling::Fail => false, DupColHandling::Allow => to == n, DupColHandling::Numeric => !holds(h.cols@, to) && exists|x: int| x > 0 && to == #[trigger] (n + dec(x)) } } else { exists|k: int| #[trigger] rename_at(h.rename@, n, k) && to == h.rename@[k].to@ && !holds(h.cols@, to) }
}
pub open spec fn pushed(h: ColumnHeader, n: Seq<char>, g: ColumnHeader) -> bool {
    &&& g.dups == h.dups && g.sloppy == h.sloppy
    &&& g.cols@.len() == h.cols@.len() + 1 && g.cols@.drop_last() == h.cols@ && named(h, n, g.cols@.last()@)
    &&& valid(g.cols@.last()@)
    &&& g.rename@ == h.rename@ || (holds(h.cols@, n) && exists|k: int| #[trigger] rename_at(h.rename@, n, k) && g.rename@ == h.rename@.remove(k))
}
/// so the names in a header stay unique and valid
pub proof fn lemma_unique(h: ColumnHeader, n: Seq<char>, g: ColumnHeader) requires pushed(h, n, g), renames_ok(h.rename@), ensures all_valid(h.cols@) ==> all_valid(g.cols@), unique(h.cols@) && !(h.dups is Allow) ==> unique(g.cols@), renames_ok(g.rename@)
{
    let c = g.cols@; let m = h.cols@.len() as int; let to = c.last()@;
    assert(forall|i: int| 0 <= i < m ==> c[i] == #[trigger] h.cols@[i]) by { assert forall|i: int| 0 <= i < m implies c[i] == #[trigger] h.cols@[i] by { assert(c.drop_last()[i] == c[i]); } }
    if all_valid(h.cols@) { assert forall|i: int| 0 <= i < c.len() implies valid((#[trigger] c[i])@) by { if i < m { assert(valid(h.cols@[i]@)); } } }
    if unique(h.cols@) && !(h.dups is Allow) {
        assert(!holds(h.cols@, to));
        assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i])@ != (#[trigger] c[j])@ by { assert(c[i] == h.cols@[i]); if j < m { assert(c[j] == h.cols@[j]); } }
    }
    if g.rename@ != h.rename@ { let k = choose|k: int| #[trigger] rename_at(h.rename@, n, k) && g.rename@ == h.rename@.remove(k); assert forall|i: int| 0 <= i < g.rename@.len() implies valid((#[trigger] g.rename@[i]).to@) by { assert(g.rename@[i] == h.rename@[if i < k { i } else { i + 1 }]); } }
}
/// all of the given names, one after the other
pub open spec fn steps(t: Seq<ColumnHeader>, n: Seq<Seq<char>>) -> bool { t.len() == n.len() + 1 && forall|i: int| 0 <= i < n.len() ==> pushed(#[trigger] t[i], n[i], t[i + 1]) }
pub open spec fn pushed_all(h: ColumnHeader, n: Seq<Seq<char>>, g: ColumnHeader) -> bool { exists|t: Seq<ColumnHeader>| #[trigger] steps(t, n) && t[0] == h && t.last() == g }
pub open spec fn header_ok(h: ColumnHeader) -> bool { renames_ok(h.rename@) && all_valid(h.cols@) && (!(h.dups is Allow) ==> unique(h.cols@)) }
#[verifier::external_body]
pub struct StringLine { x: u8 }
impl StringLine {
    pub uninterp spec fn names(&self) -> Seq<Seq<char>>;
    /// the columns, as iterating over the line gives them (C06)
    #[verifier::external_body]
    pub fn verif_cols(&self) -> (r: Vec<&str>) ensures r@.len() == self.names().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.names()[i] { unimplemented!() }
}
#[derive(PartialEq, Eq, Structural, Copy, Clone)]
//@item src/util.rs enum HeadMode
impl HeadMode {
//@fn src/util.rs HeadMode::has_cdx (r)
  ensures r == (self is Cdx || self is Maybe),
//@end
}
pub struct TextFileMode { pub head_mode: HeadMode, pub delim: u8 }
#[verifier::external_body]
pub fn verif_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body]
pub fn verif_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body]
pub fn verif_text() -> (r: String) ensures r@.len() == 0 { String::new() }
pub open spec fn joined(c: Seq<String>, d: char, n: int) -> Seq<char> decreases n { if n <= 0 { seq![] } else if n == 1 { c[0]@ } else { joined(c, d, n - 1).push(d) + c[n - 1]@ } }
impl ColumnHeader {
//@fn src/column.rs ColumnHeader::set_handling
  ensures final(self).dups == dups, final(self).cols == old(self).cols, final(self).rename == old(self).rename,
//@end
//@fn src/column.rs ColumnHeader::clear
  ensures final(self).cols@.len() == 0, final(self).dups == old(self).dups, final(self).rename == old(self).rename,
//@end
//@fn src/column.rs ColumnHeader::contains (r)
  ensures r == holds(self.cols@, name@),
//@sub /x == name/ => verif_s_eq(verif_as_str(x), name)
//@loop 0 d
  invariant vi0 <= self.cols@.len(), forall|i: int| 0 <= i < vi0 ==> (#[trigger] self.cols@[i])@ != name@,
  decreases self.cols@.len() - vi0,
//@end
//@fn src/column.rs ColumnHeader::rename_sloppy
  ensures final(self).sloppy, final(self).cols == old(self).cols, final(self).rename == old(self).rename, final(self).dups == old(self).dups,
//@end
//@fn src/column.rs ColumnHeader::rename (r)
  requires renames_ok(old(self).rename@), ensures renames_ok(final(self).rename@), final(self).cols == old(self).cols, final(self).dups == old(self).dups, final(self).sloppy == old(self).sloppy,
    r is Ok && spec@.len() > 0 ==> final(self).rename@.len() == old(self).rename@.len() + spieces(spec@, ',').len(),
//@sub /for x in spec\.split\(','\) \{/ => let va = verif_s_split(spec, ','); for y in va.iter() { let x: &str = *y;
//@loop 0 d
  invariant vi0 <= va@.len(), self.rename@.len() == old(self).rename@.len() + vi0, renames_ok(self.rename@), self.cols == old(self).cols, self.dups == old(self).dups, self.sloppy == old(self).sloppy,
  decreases va@.len() - vi0,
//@end
//@fn src/column.rs ColumnHeader::push_unchecked
  ensures final(self).dups == old(self).dups, final(self).rename == old(self).rename, final(self).sloppy == old(self).sloppy, final(self).cols@.len() == old(self).cols@.len() + 1, final(self).cols@.drop_last() =~= old(self).cols@, final(self).cols@.last()@ == name@,
//@end
//@fn src/column.rs ColumnHeader::check_rename (r)
  ensures r is Ok == (self.sloppy || self.rename@.len() == 0),
//@sub /(!self\.sloppy) & (!self)/ => \1 && \2
//@sub /self\.rename\[0\]\.to_string\(\)/ => verif_shown(&self.rename[0])
//@sub /s\.push\(','\)/ => verif_push(&mut s, ',')
//@sub /s\.push_str\(&x\.to_string\(\)\)/ => verif_push_str(&mut s, verif_as_str(&verif_shown(x)))
//@loop 0 d
  decreases self.rename@.len() - vi0,
//@end
#[verifier::exec_allows_no_decreases_clause]
//@fn src/column.rs ColumnHeader::push (r)
  requires renames_ok(old(self).rename@),
  ensures r is Ok ==> pushed(*old(self), name@, *final(self)), r is Err ==> *final(self) == *old(self), r is Ok ==> (header_ok(*old(self)) ==> header_ok(*final(self))), renames_ok(final(self).rename@),
//@sub /x\.from == name/ => verif_s_eq(verif_as_str(&x.from), name)
//@sub /self\.contains\(&self\.rename\[k\]\.to\)/ => self.contains(verif_as_str(&self.rename[k].to))
//@sub /validate_column_name\(&new_name\)/ => validate_column_name(verif_as_str(&new_name))
//@sub /self\.contains\(&new_name\)/ => self.contains(verif_as_str(&new_name))
//@sub /format!\("\{name\}\{x\}"\)/ => verif_numbered(name, x)
//@sub /for x in 1\.\. \{/ => let mut vx: i32 = 0; loop { let x = verif_count(&mut vx);
//@start
  let ghost h = *self;
//@loop 0 d
  invariant_except_break key is None,
  invariant vi0 <= self.rename@.len(), *self == h, key is None ==> (forall|i: int| 0 <= i < vi0 ==> (#[trigger] self.rename@[i]).from@ != name@),
  ensures key matches Some(k) ==> rename_at(self.rename@, name@, k as int), key is None ==> no_rename(self.rename@, name@),
  decreases self.rename@.len() - vi0,
//@loop 1 l
  invariant_except_break *self == h, vx >= 0,
  invariant h == *old(self), renames_ok(h.rename@), holds(h.cols@, name@), no_rename(h.rename@, name@), valid(name@), h.dups is Numeric,
  ensures pushed(h, name@, *self),
//@before /return Ok\(\(\)\);/
  proof { assert(self.cols@.drop_last() =~= h.cols@); assert(rename_at(h.rename@, name@, k as int)); assert(valid(h.rename@[k as int].to@)); assert(pushed(h, name@, *self)); lemma_unique(h, name@, *self); }
//@before /break;\s*\}\s*\}\s*\}\s*\}\s*\} else/
  proof { assert(self.cols@.drop_last() =~= h.cols@); axiom_dec(x as int); let to = self.cols@.last()@; assert(to == name@ + dec(x as int)); assert(valid(to)) by { if name@.len() > 0 { assert forall|i: int| 1 <= i < to.len() implies alnum(#[trigger] to[i]) || to[i] == '_' by { if i < name@.len() { assert(to[i] == name@[i]); } else { assert(to[i] == dec(x as int)[i - name@.len()]); axiom_digit(to[i]); } } } } }
//@before /Ok\(\(\)\)\s*\}\s*$/
  proof { assert(pushed(h, name@, *self)) by { assert(self.cols@.drop_last() =~= h.cols@); } if header_ok(h) { lemma_unique(h, name@, *self); } }
//@end
//@fn src/column.rs ColumnHeader::push_all (r)
  requires renames_ok(old(self).rename@),
  ensures r is Ok ==> pushed_all(*old(self), cols.names(), *final(self)), r is Ok ==> (header_ok(*old(self)) ==> header_ok(*final(self))), renames_ok(final(self).rename@),
//@sub /for x in cols \{/ => let va = cols.verif_cols(); for y in va.iter() { let x: &str = *y;
//@start
  let ghost h = *self; let ghost ns = cols.names();
  let ghost mut t: Seq<ColumnHeader> = seq![h];
//@loop 0 d
  invariant vi0 <= va@.len(), va@.len() == ns.len(), forall|i: int| 0 <= i < va@.len() ==> (#[trigger] va@[i])@ == ns[i], steps(t, ns.take(vi0 as int)), t[0] == h, t.last() == *self, renames_ok(self.rename@), header_ok(h) ==> header_ok(*self),
  decreases va@.len() - vi0,
//@loopend 0
  proof { let u = t.push(*self); let k = vi0 as int; assert(steps(u, ns.take(k))) by { assert forall|i: int| 0 <= i < k implies pushed(#[trigger] u[i], ns.take(k)[i], u[i + 1]) by { if i < k - 1 { assert(pushed(t[i], ns.take(k - 1)[i], t[i + 1])); } } } t = u; }
//@afterloop 0
  proof { assert(ns.take(ns.len() as int) =~= ns); }
//@end
//@fn src/column.rs ColumnHeader::add_head
  ensures final(res)@ == old(res)@ + joined(self.cols@, text.delim as char, self.cols@.len() as int),
//@sub /res\.push_str\(&self\.cols\[0\]\)/ => verif_push_str(res, verif_as_str(&self.cols[0]))
//@sub /res\.push_str\(x\)/ => verif_push_str(res, verif_as_str(x))
//@sub /res\.push\(text\.delim as char\)/ => verif_push(res, text.delim as char)
//@start
  let ghost r0 = res@; let ghost d = text.delim as char; proof { assert(r0 + joined(self.cols@, d, 0) =~= r0); }
//@loop 0 d
  invariant 1 <= vi0 <= self.cols@.len(), d == text.delim as char, res@ =~= r0 + joined(self.cols@, d, vi0 as int),
  decreases self.cols@.len() - vi0,
//@end
//@fn src/column.rs ColumnHeader::get_head (r)
  ensures r@ == (if text.head_mode is Cdx || text.head_mode is Maybe { " CDX"@.push(text.delim as char) } else { seq![] }) + joined(self.cols@, text.delim as char, self.cols@.len() as int).push('\n'),
//@sub /String::with_capacity\([^;]*\);/ => verif_text();
//@sub /res\.push_str\(" CDX"\)/ => verif_push_str(&mut res, " CDX")
//@sub /res\.push\(text\.delim as char\)/ => verif_push(&mut res, text.delim as char)
//@sub /res\.push\(('..')\)/ => verif_push(&mut res, \1)
//@before /res\s*\}\s*$/
  proof { assert(res@ =~= (if text.head_mode is Cdx || text.head_mode is Maybe { " CDX"@.push(text.delim as char) } else { seq![] }) + joined(self.cols@, text.delim as char, self.cols@.len() as int).push('\n')); }
//@end
//@fn src/column.rs ColumnHeader::get_head_short (r)
  ensures r@ == joined(self.cols@, text.delim as char, self.cols@.len() as int),
//@sub /String::with_capacity\([^;]*\);/ => verif_text();
//@before /res\s*\}\s*$/
  proof { assert(res@ =~= joined(self.cols@, text.delim as char, self.cols@.len() as int)); }
//@end
}
#[verifier::external_body]
pub fn verif_shown(m: &NameMap) -> (r: String) { unimplemented!() }
fn main() {}
}
