use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
//@include std.vrs
//@include cols.vrs
//@include io.vrs
#[derive(Copy, Clone)]
//@item src/util.rs struct FakeSlice
//@item src/util.rs struct TextLine
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/util.rs enum HeadMode
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/util.rs enum QuoteMode
//@item src/util.rs struct TextFileMode
impl FakeSlice {
    pub open spec fn ok(self, n: int) -> bool { self.begin <= self.end <= n }
    pub open spec fn of(self, s: Seq<u8>) -> Seq<u8> { s.subrange(self.begin as int, self.end as int) }
}
/// these slices of the text are these columns
pub open spec fn marks(parts: Seq<FakeSlice>, s: Seq<u8>, c: Seq<Seq<u8>>) -> bool {
    parts.len() == c.len() && forall|i: int| 0 <= i < parts.len() ==> (#[trigger] parts[i]).ok(s.len() as int) && parts[i].of(s) == c[i]
}
pub open spec fn add(c: Seq<Seq<u8>>, x: u8) -> Seq<Seq<u8>> { c.drop_last().push(c.last().push(x)) }
pub proof fn lemma_marks_push(parts: Seq<FakeSlice>, s: Seq<u8>, c: Seq<Seq<u8>>, x: u8)
  requires marks(parts, s, c),
  ensures marks(parts, s.push(x), c),
{ assert forall|i: int| 0 <= i < parts.len() implies (#[trigger] parts[i]).ok((s.len() + 1) as int) && parts[i].of(s.push(x)) == c[i] by { assert(parts[i].of(s.push(x)) =~= parts[i].of(s)); } }
/// where a scan has come to: the finished columns are marked, the last one runs from begin to the end of the decoded text
#[verifier::opaque]
pub open spec fn scan(parts: Seq<FakeSlice>, tmp: Seq<u8>, begin: u32, end: u32, c: Seq<Seq<u8>>) -> bool {
    begin <= end && end == tmp.len() && c.len() > 0 && marks(parts, tmp, c.drop_last()) && c.last() == tmp.subrange(begin as int, end as int)
}
pub proof fn lemma_scan_start() ensures scan(Seq::empty(), Seq::empty(), 0, 0, seq![seq![]]),
{ reveal(scan); assert(seq![Seq::<u8>::empty()].drop_last() =~= seq![]); assert(Seq::<u8>::empty().subrange(0, 0) =~= seq![]); }
pub proof fn lemma_scan_add(parts: Seq<FakeSlice>, tmp: Seq<u8>, begin: u32, end: u32, c: Seq<Seq<u8>>, x: u8)
  requires scan(parts, tmp, begin, end, c), end < u32::MAX,
  ensures scan(parts, tmp.push(x), begin, (end + 1) as u32, add(c, x)),
{ reveal(scan); lemma_marks_push(parts, tmp, c.drop_last(), x); assert(add(c, x).drop_last() =~= c.drop_last()); assert(tmp.push(x).subrange(begin as int, end + 1) =~= tmp.subrange(begin as int, end as int).push(x)); }
pub proof fn lemma_scan_next(parts: Seq<FakeSlice>, tmp: Seq<u8>, begin: u32, end: u32, c: Seq<Seq<u8>>, x: u8)
  requires scan(parts, tmp, begin, end, c), end < u32::MAX,
  ensures scan(parts.push(FakeSlice { begin, end }), tmp.push(x), (end + 1) as u32, (end + 1) as u32, c.push(seq![])),
{
    reveal(scan); lemma_marks_push(parts, tmp, c.drop_last(), x);
    assert(c.push(seq![]).drop_last() =~= c);
    let q = parts.push(FakeSlice { begin, end });
    assert(tmp.push(x).subrange(begin as int, end as int) =~= tmp.subrange(begin as int, end as int));
    assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).ok((tmp.len() + 1) as int) && q[i].of(tmp.push(x)) == c[i] by { if i < parts.len() { assert(q[i] == parts[i]); assert(c.drop_last()[i] == c[i]); } }
    assert(tmp.push(x).subrange(end + 1, end + 1) =~= seq![]);
}
pub proof fn lemma_scan_end(parts: Seq<FakeSlice>, tmp: Seq<u8>, begin: u32, end: u32, c: Seq<Seq<u8>>)
  requires scan(parts, tmp, begin, end, c),
  ensures marks(parts.push(FakeSlice { begin, end }), tmp, c), marks(parts.push(FakeSlice { begin, end }), tmp.push(10u8), c),
{
    reveal(scan);
    let q = parts.push(FakeSlice { begin, end });
    assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).ok(tmp.len() as int) && q[i].of(tmp) == c[i] by { if i < parts.len() { assert(q[i] == parts[i]); assert(c.drop_last()[i] == c[i]); } }
    lemma_marks_push(q, tmp, c, 10u8);
}
// ---- the backslash style ----
pub open spec fn unslash_spec(c: u8) -> u8 { if c == 110u8 { 10u8 } else if c == 114u8 { 13u8 } else if c == 116u8 { 9u8 } else { c } }
pub open spec fn enslash_spec(c: u8) -> u8 { if c == 10u8 { 110u8 } else if c == 13u8 { 114u8 } else if c == 9u8 { 116u8 } else { c } }
//@fn src/util.rs unslash (r) noconst
  ensures r == unslash_spec(ch),
//@end
//@fn src/util.rs enslash (r) noconst
  ensures r == enslash_spec(ch),
//@end
pub ghost struct Sl { pub cols: Seq<Seq<u8>>, pub slash: bool }
/// what backslash text stands for, read from the left
pub open spec fn unsl(s: Seq<u8>, d: u8) -> Sl decreases s.len() {
    if s.len() == 0 { Sl { cols: seq![seq![]], slash: false } } else { slstep(unsl(s.drop_last(), d), s.last(), d) }
}
pub open spec fn slstep(p: Sl, c: u8, d: u8) -> Sl {
    if p.slash { Sl { cols: add(p.cols, unslash_spec(c)), slash: false } }
    else if c == 92u8 { Sl { cols: p.cols, slash: true } }
    else if c == d { Sl { cols: p.cols.push(seq![]), slash: false } }
    else { Sl { cols: add(p.cols, c), slash: false } }
}
pub open spec fn chomp(l: Seq<u8>) -> Seq<u8> { if l.len() > 0 && l.last() == 10u8 { l.drop_last() } else { l } }
//@fn src/util.rs split_backslash
  requires line@.len() < u32::MAX,
  ensures line@.len() > 0 ==> marks(final(parts)@, final(tmp)@, unsl(chomp(line@), delim).cols), line@.len() == 0 ==> final(parts)@.len() == 0 && final(tmp)@.len() == 0,
    line@.len() > 0 && line@.last() == 10u8 ==> final(tmp)@.len() > 0 && final(tmp)@.last() == 10u8,
//@sub /&line\[0?\.\.line\.len\(\) - 1\]/ => vstd::slice::slice_subrange(line, 0, line.len() - 1)
//@sub /for xch in line \{/ => for xch in line.iter() {
//@beforeloop 0
  proof { lemma_scan_start(); assert(line@.subrange(0, 0) =~= seq![]); assert(line@ =~= chomp(l0)); }
//@start
  let ghost l0 = line@;
//@loop 0 d
  invariant vi0 <= line@.len(), line@ == chomp(l0), l0.len() < u32::MAX, line@.len() <= l0.len(), end <= vi0, scan(parts@, tmp@, begin, end, unsl(line@.subrange(0, vi0 as int), delim).cols), last_was_slash == unsl(line@.subrange(0, vi0 as int), delim).slash, has_nl == (l0.last() == 10u8), l0.len() > 0,
  decreases line@.len() - vi0,
//@loopstart 0
  proof {
    assert(line@.subrange(0, vi0 + 1).drop_last() =~= line@.subrange(0, vi0 as int));
    let c = unsl(line@.subrange(0, vi0 as int), delim).cols;
    let x = line@[vi0 as int];
    lemma_scan_add(parts@, tmp@, begin, end, c, x); lemma_scan_add(parts@, tmp@, begin, end, c, unslash_spec(x)); lemma_scan_next(parts@, tmp@, begin, end, c, x);
  }
//@before /parts\.push\(FakeSlice \{ begin, end \}\);\s+if has_nl/
  proof { assert(line@.subrange(0, line@.len() as int) =~= line@); lemma_scan_end(parts@, tmp@, begin, end, unsl(line@, delim).cols); }
//@end
/// one byte of a value, written
pub open spec fn sl1(c: u8, d: u8, e: u8) -> Seq<u8> { if c == d || c == e || c == 92u8 { seq![92u8, enslash_spec(c)] } else { seq![c] } }
pub open spec fn sl(v: Seq<u8>, d: u8, e: u8) -> Seq<u8> decreases v.len() { if v.len() == 0 { seq![] } else { sl(v.drop_last(), d, e) + sl1(v.last(), d, e) } }
#[verifier::loop_isolation(false)]
//@fn src/util.rs write_backslash (r)
  ensures r is Ok ==> final(w).out() == old(w).out() + sl(buf@, tab, eol),
//@sub /for ch in buf \{/ => for ch in buf.iter() {
//@start
  let ghost o0 = w.out(); proof { assert(buf@.subrange(0, 0) =~= seq![]); assert(o0 + sl(seq![], tab, eol) =~= o0); }
//@loop 0 d
  invariant vi0 <= buf@.len(), w.out() == o0 + sl(buf@.subrange(0, vi0 as int), tab, eol),
  decreases buf@.len() - vi0,
//@loopstart 0
  let ghost o1 = w.out();
//@loopend 0
  proof {
    assert(buf@.subrange(0, vi0 as int).drop_last() =~= buf@.subrange(0, vi0 - 1)); let c = buf@[vi0 - 1];
    assert(w.out() =~= o1 + sl1(c, tab, eol));
    assert(w.out() =~= o0 + sl(buf@.subrange(0, vi0 as int), tab, eol));
  }
//@afterloop 0
  proof { assert(buf@.subrange(0, buf@.len() as int) =~= buf@); }
//@end
/// a delimiter this style can be used with: an escaped n, r or t means something else
pub open spec fn sl_delim(d: u8) -> bool { d != 110u8 && d != 114u8 && d != 116u8 && d != 92u8 && d != 10u8 }
pub proof fn lemma_sl1(x: Seq<u8>, c: u8, d: u8)
  requires sl_delim(d), !unsl(x, d).slash,
  ensures unsl(x + sl1(c, d, 10u8), d) == (Sl { cols: add(unsl(x, d).cols, c), slash: false }),
{
    let y = x + sl1(c, d, 10u8);
    if c == d || c == 10u8 || c == 92u8 {
        let z = x.push(92u8);
        assert(z.drop_last() =~= x); assert(y.drop_last() =~= z);
        assert(unsl(z, d) == (Sl { cols: unsl(x, d).cols, slash: true }));
        assert(unslash_spec(enslash_spec(c)) == c);
    } else { assert(y.drop_last() =~= x); }
}
pub proof fn lemma_cat_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures a + (b + c) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }
pub proof fn lemma_sl(x: Seq<u8>, v: Seq<u8>, d: u8)
  requires sl_delim(d), !unsl(x, d).slash, unsl(x, d).cols.len() > 0, 
  ensures unsl(x + sl(v, d, 10u8), d) == (Sl { cols: unsl(x, d).cols.drop_last().push(unsl(x, d).cols.last() + v), slash: false }),
  decreases v.len(),
{
    let p = unsl(x, d).cols;
    if v.len() == 0 { assert(x + sl(v, d, 10u8) =~= x); assert(p.drop_last().push(p.last() + v) =~= p) by { assert(p.last() + v =~= p.last()); } }
    else {
        lemma_sl(x, v.drop_last(), d);
        let y = x + sl(v.drop_last(), d, 10u8);
        lemma_sl1(y, v.last(), d);
        lemma_cat_assoc(x, sl(v.drop_last(), d, 10u8), sl1(v.last(), d, 10u8));
        let q = p.drop_last().push(p.last() + v.drop_last());
        assert(q.drop_last() =~= p.drop_last());
        assert(q.last().push(v.last()) =~= p.last() + v);
    }
}
/// the columns written one after the other
pub open spec fn sl_all(c: Seq<Seq<u8>>, d: u8) -> Seq<u8> decreases c.len() { if c.len() == 0 { seq![] } else if c.len() == 1 { sl(c[0], d, 10u8) } else { sl_all(c.drop_last(), d).push(d) + sl(c.last(), d, 10u8) } }
/// written and read back: the same columns
pub proof fn theorem_backslash(c: Seq<Seq<u8>>, d: u8)
  requires c.len() > 0, sl_delim(d),
  ensures unsl(sl_all(c, d), d) == (Sl { cols: c, slash: false }),
  decreases c.len(),
{
    if c.len() == 1 {
        let e = Seq::<u8>::empty(); lemma_sl(e, c[0], d);
        assert(e + sl(c[0], d, 10u8) =~= sl_all(c, d));
        assert(unsl(e, d).cols.drop_last().push(unsl(e, d).cols.last() + c[0]) =~= c) by { assert(unsl(e, d).cols.last() + c[0] =~= c[0]); }
    } else {
        theorem_backslash(c.drop_last(), d);
        let x = sl_all(c.drop_last(), d); let y = x.push(d);
        assert(y.drop_last() =~= x);
        assert(unsl(y, d) == slstep(unsl(x, d), d, d));
        lemma_sl(y, c.last(), d);
        let p = c.drop_last().push(seq![]);
        assert(p.drop_last().push(p.last() + c.last()) =~= c) by { assert(p.last() + c.last() =~= c.last()); assert(p.drop_last() =~= c.drop_last()); }
    }
}
/// what is written is one line
pub proof fn theorem_backslash_line(v: Seq<u8>, d: u8)
  requires sl_delim(d),
  ensures forall|i: int| 0 <= i < sl(v, d, 10u8).len() ==> sl(v, d, 10u8)[i] != 10u8,
  decreases v.len(),
{ if v.len() > 0 { let a = sl(v.drop_last(), d, 10u8); theorem_backslash_line(v.drop_last(), d);
    assert forall|i: int| 0 <= i < sl(v, d, 10u8).len() implies sl(v, d, 10u8)[i] != 10u8 by { if i < a.len() { assert(sl(v, d, 10u8)[i] == a[i]); } else { assert(sl(v, d, 10u8)[i] == sl1(v.last(), d, 10u8)[i - a.len()]); } } } }
/// text without a backslash is not changed
pub proof fn theorem_no_backslash(s: Seq<u8>, d: u8)
  requires forall|i: int| 0 <= i < s.len() ==> s[i] != 92u8,
  ensures unsl(s, d) == (Sl { cols: pieces(s, d), slash: false }),
  decreases s.len(),
{ if s.len() > 0 { theorem_no_backslash(s.drop_last(), d); } }
// ---- the quoted style ----
pub ghost struct Qu { pub cols: Seq<Seq<u8>>, pub pend: bool, pub inq: bool }
pub open spec fn qput(p: Qu, c: u8, d: u8) -> Qu { if c == d && !p.inq { Qu { cols: p.cols.push(seq![]), ..p } } else { Qu { cols: add(p.cols, c), ..p } } }
/// a quote on its own opens or closes a quoted stretch, two are one literal quote
pub open spec fn qstep(p: Qu, c: u8, d: u8) -> Qu {
    if p.pend { if c == 34u8 { Qu { cols: add(p.cols, c), pend: false, inq: p.inq } } else { qput(Qu { cols: p.cols, pend: false, inq: !p.inq }, c, d) } }
    else if c == 34u8 { Qu { pend: true, ..p } }
    else { qput(p, c, d) }
}
pub open spec fn unq(s: Seq<u8>, d: u8) -> Qu decreases s.len() {
    if s.len() == 0 { Qu { cols: seq![seq![]], pend: false, inq: false } } else { qstep(unq(s.drop_last(), d), s.last(), d) }
}
//@fn src/util.rs split_quotes
  requires line@.len() < u32::MAX,
  ensures line@.len() > 0 ==> marks(final(parts)@, final(tmp)@, unq(chomp(line@), delim).cols), line@.len() == 0 ==> final(parts)@.len() == 0 && final(tmp)@.len() == 0,
    line@.len() > 0 && line@.last() == 10u8 ==> final(tmp)@.len() > 0 && final(tmp)@.last() == 10u8,
//@sub /&line\[0?\.\.line\.len\(\) - 1\]/ => vstd::slice::slice_subrange(line, 0, line.len() - 1)
//@sub /for ch in line \{/ => for ch in line.iter() {
//@beforeloop 0
  proof { lemma_scan_start(); assert(line@.subrange(0, 0) =~= seq![]); assert(line@ =~= chomp(l0)); }
//@start
  let ghost l0 = line@;
//@loop 0 d
  invariant vi0 <= line@.len(), line@ == chomp(l0), l0.len() < u32::MAX, line@.len() <= l0.len(), end <= vi0, scan(parts@, tmp@, begin, end, unq(line@.subrange(0, vi0 as int), delim).cols), last_was_quote == unq(line@.subrange(0, vi0 as int), delim).pend, in_quote == unq(line@.subrange(0, vi0 as int), delim).inq, has_nl == (l0.last() == 10u8), l0.len() > 0,
  decreases line@.len() - vi0,
//@loopstart 0
  proof {
    assert(line@.subrange(0, vi0 + 1).drop_last() =~= line@.subrange(0, vi0 as int));
    let c = unq(line@.subrange(0, vi0 as int), delim).cols;
    let x = line@[vi0 as int];
    lemma_scan_add(parts@, tmp@, begin, end, c, x); lemma_scan_next(parts@, tmp@, begin, end, c, x);
  }
//@before /parts\.push\(FakeSlice \{ begin, end \}\);\s+if has_nl/
  proof { assert(line@.subrange(0, line@.len() as int) =~= line@); lemma_scan_end(parts@, tmp@, begin, end, unq(line@, delim).cols); }
//@end
pub open spec fn q1(c: u8) -> Seq<u8> { if c == 34u8 { seq![34u8, 34u8] } else { seq![c] } }
/// every quote doubled
pub open spec fn dbl(v: Seq<u8>) -> Seq<u8> decreases v.len() { if v.len() == 0 { seq![] } else { dbl(v.drop_last()) + q1(v.last()) } }
pub open spec fn has2(v: Seq<u8>, d: u8, e: u8) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i] == d || v[i] == e) }
pub open spec fn qu(v: Seq<u8>, d: u8, e: u8) -> Seq<u8> { if has2(v, d, e) { seq![34u8] + dbl(v) + seq![34u8] } else { dbl(v) } }
#[verifier::loop_isolation(false)]
//@fn src/util.rs write_quotes (r)
  ensures r is Ok ==> final(w).out() == old(w).out() + qu(buf@, tab, eol),
//@sub /for ch in buf \{/ => for ch in buf.iter() {
//@start
  let ghost o0 = w.out();
//@loop 0 d
  invariant vi0 <= buf@.len(), w.out() == o0, need_quote == has2(buf@.subrange(0, vi0 as int), tab, eol),
  decreases buf@.len() - vi0,
//@loopend 0
  proof { let a = buf@.subrange(0, vi0 - 1); let b = buf@.subrange(0, vi0 as int); 
    if has2(b, tab, eol) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i] == tab || b[i] == eol); if i < vi0 - 1 { assert(a[i] == b[i]); } else { } }
    if has2(a, tab, eol) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i] == tab || a[i] == eol); assert(b[i] == a[i]); }
    assert(b[vi0 - 1] == buf@[vi0 - 1]);
  }
//@afterloop 0
  proof { assert(buf@.subrange(0, buf@.len() as int) =~= buf@); assert(need_quote == has2(buf@, tab, eol)); }
//@beforeloop 1
  let ghost o1 = w.out(); proof { assert(buf@.subrange(0, 0) =~= seq![]); assert(o1 + dbl(seq![]) =~= o1); assert(o1 =~= o0 + (if need_quote { seq![34u8] } else { seq![] })); }
//@loop 1 d
  invariant vi1 <= buf@.len(), w.out() == o1 + dbl(buf@.subrange(0, vi1 as int)),
  decreases buf@.len() - vi1,
//@loopstart 1
  let ghost o2 = w.out();
//@loopend 1
  proof {
    assert(buf@.subrange(0, vi1 as int).drop_last() =~= buf@.subrange(0, vi1 - 1)); let c = buf@[vi1 - 1];
    assert(w.out() =~= o2 + q1(c));
    assert(w.out() =~= o1 + dbl(buf@.subrange(0, vi1 as int)));
  }
//@afterloop 1
  proof { assert(buf@.subrange(0, buf@.len() as int) =~= buf@); assert(w.out() == o1 + dbl(buf@)); }
//@before /Ok\(\(\)\)\s*\}?$/
  proof { assert(w.out() =~= o0 + qu(buf@, tab, eol)); }
//@end
/// decoding the doubled text of a value: outside quotes (k 0), just after the opening quote and nothing but quotes (k 1), inside (k 2)
pub open spec fn qst(p: Qu, k: int) -> bool { if k == 0 { !p.pend && !p.inq } else if k == 1 { p.pend && !p.inq } else { !p.pend && p.inq } }
pub open spec fn other(v: Seq<u8>) -> bool { exists|i: int| 0 <= i < v.len() && #[trigger] v[i] != 34u8 }
pub proof fn lemma_dbl(x: Seq<u8>, v: Seq<u8>, d: u8, k: int)
  requires d != 34u8, 0 <= k <= 2, qst(unq(x, d), k), unq(x, d).cols.len() > 0, k == 0 ==> !has2(v, d, 10u8),
  ensures ({ let y = unq(x + dbl(v), d); y.cols == unq(x, d).cols.drop_last().push(unq(x, d).cols.last() + v) && qst(y, if k == 1 && other(v) { 2 } else { k }) }),
  decreases v.len(),
{
    let p = unq(x, d).cols;
    if v.len() == 0 { assert(x + dbl(v) =~= x); assert(p.last() + v =~= p.last()); assert(p.drop_last().push(p.last() + v) =~= p); }
    else {
        let u = v.drop_last(); let c = v.last();
        assert(forall|i: int| 0 <= i < u.len() ==> u[i] == v[i]);
        if k == 0 { if has2(u, d, 10u8) { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i] == d || u[i] == 10u8); assert(v[i] == u[i]); } assert(v[v.len() - 1] == c); assert(c != d); }
        lemma_dbl(x, u, d, k);
        let y = x + dbl(u);
        lemma_cat_assoc(x, dbl(u), q1(c));
        let q = p.drop_last().push(p.last() + u);
        assert(q.drop_last() =~= p.drop_last());
        assert(q.last().push(c) =~= p.last() + v);
        if other(u) { let i = choose|i: int| 0 <= i < u.len() && #[trigger] u[i] != 34u8; assert(v[i] == u[i]); assert(other(v)); }
        if c == 34u8 {
            let z = y.push(34u8);
            let w = z.push(34u8);
            assert(z.drop_last() =~= y); assert(x + dbl(v) =~= w); assert(w.drop_last() =~= z);
            assert(unq(z, d) == qstep(unq(y, d), 34u8, d)); assert(unq(w, d) == qstep(unq(z, d), 34u8, d));
            if other(v) { let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i] != 34u8; assert(u[i] == v[i]); assert(other(u)); }
        } else {
            assert(v[v.len() - 1] != 34u8);
            assert(other(v));
            let w = y.push(c); assert(x + dbl(v) =~= w); assert(w.drop_last() =~= y); assert(unq(w, d) == qstep(unq(y, d), c, d));
        }
    }
}
/// one value, read back: the column it was, and the scan is where a delimiter or the end of the line ends the column
pub open spec fn qdone(p: Qu) -> bool { (!p.pend && !p.inq) || (p.pend && p.inq) }
pub proof fn lemma_qu(x: Seq<u8>, v: Seq<u8>, d: u8)
  requires d != 34u8, qst(unq(x, d), 0), unq(x, d).cols.len() > 0,
  ensures ({ let y = unq(x + qu(v, d, 10u8), d); y.cols == unq(x, d).cols.drop_last().push(unq(x, d).cols.last() + v) && qdone(y) }),
{
    if has2(v, d, 10u8) {
        let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i] == d || v[i] == 10u8); assert(v[i] != 34u8); assert(other(v));
        let a = x.push(34u8);
        assert(a.drop_last() =~= x);
        lemma_dbl(a, v, d, 1);
        let b = a + dbl(v);
        assert(x + qu(v, d, 10u8) =~= b.push(34u8)); assert(b.push(34u8).drop_last() =~= b);
    } else { lemma_dbl(x, v, d, 0); }
}
pub open spec fn qu_all(c: Seq<Seq<u8>>, d: u8) -> Seq<u8> decreases c.len() { if c.len() == 0 { seq![] } else if c.len() == 1 { qu(c[0], d, 10u8) } else { qu_all(c.drop_last(), d).push(d) + qu(c.last(), d, 10u8) } }
/// written and read back: the same columns
pub proof fn theorem_quotes(c: Seq<Seq<u8>>, d: u8)
  requires c.len() > 0, d != 34u8,
  ensures unq(qu_all(c, d), d).cols == c, qdone(unq(qu_all(c, d), d)),
  decreases c.len(),
{
    if c.len() == 1 {
        let e = Seq::<u8>::empty(); lemma_qu(e, c[0], d);
        assert(e + qu(c[0], d, 10u8) =~= qu_all(c, d));
        assert(unq(e, d).cols.drop_last().push(unq(e, d).cols.last() + c[0]) =~= c) by { assert(unq(e, d).cols.last() + c[0] =~= c[0]); }
    } else {
        theorem_quotes(c.drop_last(), d);
        let x = qu_all(c.drop_last(), d); let y = x.push(d);
        assert(y.drop_last() =~= x);
        assert(unq(y, d) == qstep(unq(x, d), d, d));
        lemma_qu(y, c.last(), d);
        let p = c.drop_last().push(seq![]);
        assert(p.drop_last().push(p.last() + c.last()) =~= c) by { assert(p.last() + c.last() =~= c.last()); assert(p.drop_last() =~= c.drop_last()); }
    }
}
/// text without a quote is not changed
pub proof fn theorem_no_quotes(s: Seq<u8>, d: u8)
  requires forall|i: int| 0 <= i < s.len() ==> s[i] != 34u8,
  ensures unq(s, d) == (Qu { cols: pieces(s, d), pend: false, inq: false }),
  decreases s.len(),
{ if s.len() > 0 { theorem_no_quotes(s.drop_last(), d); } }
// ---- one record of a quoted file: up to the first line break after an even number of quotes ----
//@include recs.vrs
pub proof fn lemma_occurs_cat(a: Seq<u8>, b: Seq<u8>, c: u8)
  ensures occurs(a + b, c) == occurs(a, c) + occurs(b, c),
  decreases b.len(),
{ if b.len() == 0 { assert(a + b =~= a); } else { lemma_occurs_cat(a, b.drop_last(), c); assert((a + b).drop_last() =~= a + b.drop_last()); } }
pub proof fn lemma_quote_count(v: Seq<u8>) ensures even(dbl(v)), decreases v.len(),
{ if v.len() > 0 { lemma_quote_count(v.drop_last()); lemma_occurs_cat(dbl(v.drop_last()), q1(v.last()), 34u8); let s = seq![34u8, 34u8]; assert(s.drop_last() =~= seq![34u8]); assert(seq![34u8].drop_last() =~= seq![]); assert(seq![v.last()].drop_last() =~= seq![]); reveal_with_fuel(occurs, 3); } }
/// no record ends inside a written value
pub open spec fn shut(s: Seq<u8>) -> bool { even(s) && forall|k: int| 0 < k <= s.len() && #[trigger] s[k - 1] == 10u8 ==> !even(s.subrange(0, k)) }
pub proof fn lemma_one(c: u8) ensures occurs(seq![c], 34u8) == (if c == 34u8 { 1nat } else { 0nat }) { assert(seq![c].drop_last() =~= seq![]); reveal_with_fuel(occurs, 2); }
/// in a doubled value, every byte but a quote stands after an even number of quotes
pub proof fn lemma_dbl_even(v: Seq<u8>)
  ensures forall|k: int| 0 < k <= dbl(v).len() && #[trigger] dbl(v)[k - 1] != 34u8 ==> even(dbl(v).subrange(0, k)),
  decreases v.len(),
{
    if v.len() > 0 {
        let u = v.drop_last(); let a = dbl(u); let b = dbl(v); lemma_dbl_even(u); lemma_quote_count(u); lemma_quote_count(v);
        assert forall|k: int| 0 < k <= b.len() && #[trigger] b[k - 1] != 34u8 implies even(b.subrange(0, k)) by {
            if k <= a.len() { assert(a[k - 1] == b[k - 1]); assert(b.subrange(0, k) =~= a.subrange(0, k)); }
            else { assert(b[k - 1] == q1(v.last())[k - 1 - a.len()]); assert(k == b.len()); assert(b.subrange(0, k) =~= b); }
        }
    }
}
pub proof fn lemma_dbl_in(v: Seq<u8>)
  ensures forall|k: int| 0 <= k < dbl(v).len() ==> #[trigger] dbl(v)[k] == 34u8 || v.contains(dbl(v)[k]),
  decreases v.len(),
{
    if v.len() > 0 {
        let u = v.drop_last(); let a = dbl(u); let b = dbl(v); lemma_dbl_in(u);
        assert forall|k: int| 0 <= k < b.len() implies #[trigger] b[k] == 34u8 || v.contains(b[k]) by {
            if k < a.len() { assert(a[k] == b[k]); if a[k] != 34u8 { let j = choose|j: int| 0 <= j < u.len() && u[j] == a[k]; assert(v[j] == b[k]); } }
            else { assert(b[k] == q1(v.last())[k - a.len()]); assert(v[v.len() - 1] == v.last()); }
        }
    }
}
pub proof fn lemma_shut(v: Seq<u8>, d: u8)
  requires d != 34u8,
  ensures shut(qu(v, d, 10u8)),
{
    let t = dbl(v); let s = qu(v, d, 10u8);
    lemma_dbl_even(v); lemma_quote_count(v); lemma_dbl_in(v);
    if has2(v, d, 10u8) {
        let q = seq![34u8];
        lemma_one(34u8); lemma_occurs_cat(q, t, 34u8); lemma_occurs_cat(q + t, q, 34u8);
        assert forall|k: int| 0 < k <= s.len() && #[trigger] s[k - 1] == 10u8 implies !even(s.subrange(0, k)) by {
            assert(1 < k < s.len()); assert(t[k - 2] == s[k - 1]);
            let j = k - 1; assert(t[j - 1] != 34u8); assert(even(t.subrange(0, j)));
            assert(s.subrange(0, k) =~= q + t.subrange(0, j)); lemma_occurs_cat(q, t.subrange(0, j), 34u8);
        }
    } else {
        assert forall|k: int| 0 < k <= s.len() && #[trigger] s[k - 1] == 10u8 implies !even(s.subrange(0, k)) by { let j = k - 1; assert(t[j] == 10u8); assert(v.contains(10u8)); let i = choose|i: int| 0 <= i < v.len() && v[i] == 10u8; assert(v[i] == 10u8); assert(has2(v, d, 10u8)); }
    }
}
pub proof fn lemma_shut_cat(a: Seq<u8>, b: Seq<u8>, d: u8)
  requires shut(a), shut(b), d != 34u8, d != 10u8,
  ensures shut(a.push(d) + b),
{
    let s = a.push(d) + b;
    lemma_one(d); lemma_occurs_cat(a, seq![d], 34u8); assert(a + seq![d] =~= a.push(d)); lemma_occurs_cat(a.push(d), b, 34u8);
    assert forall|k: int| 0 < k <= s.len() && #[trigger] s[k - 1] == 10u8 implies !even(s.subrange(0, k)) by {
        if k <= a.len() { assert(a[k - 1] == s[k - 1]); assert(s.subrange(0, k) =~= a.subrange(0, k)); }
        else { assert(k != a.len() + 1); let j = k - a.len() - 1; assert(b[j - 1] == s[k - 1]); assert(s.subrange(0, k) =~= a.push(d) + b.subrange(0, j)); lemma_occurs_cat(a.push(d), b.subrange(0, j), 34u8); }
    }
}
pub proof fn lemma_shut_all(c: Seq<Seq<u8>>, d: u8)
  requires c.len() > 0, d != 34u8, d != 10u8,
  ensures shut(qu_all(c, d)),
  decreases c.len(),
{ if c.len() == 1 { lemma_shut(c[0], d); } else { lemma_shut_all(c.drop_last(), d); lemma_shut(c.last(), d); lemma_shut_cat(qu_all(c.drop_last(), d), qu(c.last(), d, 10u8), d); } }
/// a written row is read as one record, whatever follows it in the file
pub proof fn theorem_one_record(c: Seq<Seq<u8>>, d: u8, more: Seq<u8>)
  requires c.len() > 0, d != 34u8, d != 10u8,
  ensures is_rec(qu_all(c, d).push(10u8) + more, qu_all(c, d).len() as int + 1, 10u8),
{
    let s = qu_all(c, d); let t = s.push(10u8) + more; let n = s.len() as int + 1;
    lemma_shut_all(c, d);
    lemma_one(10u8); lemma_occurs_cat(s, seq![10u8], 34u8); assert(s + seq![10u8] =~= s.push(10u8)); assert(t.subrange(0, n) =~= s.push(10u8));
    assert(rec_end(t, n, 10u8));
    assert forall|k: int| 0 < k < n implies !#[trigger] rec_end(t, k, 10u8) by { assert(s[k - 1] == t[k - 1]); assert(t.subrange(0, k) =~= s.subrange(0, k)); }
}
pub open spec fn plain(v: Seq<u8>, d: u8, e: u8, r: u8) -> Seq<u8> { v.map_values(|c: u8| if c == d || c == e { r } else { c }) }
#[verifier::loop_isolation(false)]
//@fn src/util.rs write_plain (r)
  ensures r is Ok ==> final(w).out() == old(w).out() + plain(buf@, tab, eol, repl),
//@sub /for ch in buf \{/ => for ch in buf.iter() {
//@start
  let ghost o0 = w.out(); let ghost want = plain(buf@, tab, eol, repl); proof { assert(o0 + want.subrange(0, 0) =~= o0); }
//@loop 0 d
  invariant vi0 <= buf@.len(), w.out() == o0 + want.subrange(0, vi0 as int),
  decreases buf@.len() - vi0,
//@loopstart 0
  let ghost o1 = w.out();
//@loopend 0
  proof { assert(want[vi0 - 1] == (if buf@[vi0 - 1] == tab || buf@[vi0 - 1] == eol { repl } else { buf@[vi0 - 1] })); assert(w.out() =~= o1.push(want[vi0 - 1])); assert(w.out() =~= o0 + want.subrange(0, vi0 as int)); }
//@afterloop 0
  proof { assert(want.subrange(0, buf@.len() as int) =~= want); }
//@end
/// split_plain, proved in C06
#[verifier::external_body]
pub fn split_plain(parts: &mut Vec<FakeSlice>, line: &[u8], delim: u8)
  ensures line@.len() > 0 ==> marks(final(parts)@, line@, columns(line@, delim)), line@.len() == 0 ==> final(parts)@.len() == 0,
{ unimplemented!() }
/// the columns a line stands for in each style
pub open spec fn meaning(m: TextFileMode, l: Seq<u8>) -> Seq<Seq<u8>> { match m.col_mode { QuoteMode::Plain => columns(l, m.delim), QuoteMode::Backslash => unsl(chomp(l), m.delim).cols, QuoteMode::Quote => unq(chomp(l), m.delim).cols } }
impl TextFileMode {
//@fn src/util.rs TextFileMode::write (r)
  ensures r is Ok ==> final(w).out() == old(w).out() + (match self.col_mode { QuoteMode::Plain => plain(buf@, self.delim, self.line_break, self.repl), QuoteMode::Backslash => sl(buf@, self.delim, self.line_break), QuoteMode::Quote => qu(buf@, self.delim, self.line_break) }),
//@end
/// a line that was just read (nothing decoded yet) is split into the columns it stands for, and the text as it was is kept
//@fn src/util.rs TextFileMode::split
  requires old(line).line@.len() < u32::MAX, self.delim != 10u8,
  ensures old(line).line@.len() > 0 ==> marks(final(line).parts@, final(line).line@, meaning(*self, old(line).line@)), old(line).line@.len() == 0 ==> final(line).parts@.len() == 0,
    self.col_mode == QuoteMode::Plain ==> final(line).line@ == old(line).line@ && final(line).orig@ == old(line).orig@, self.col_mode != QuoteMode::Plain ==> final(line).orig@ == old(line).line@,
//@sub /line\.orig\.extend_from_slice\(&line\.line\);/ => line.orig.extend_from_slice(&line.line); proof { assert(line.orig@ =~= old(line).line@); }
//@end
}
//@fn src/util.rs unescape_vec (r)
  ensures r@ == unesc(data@),
//@sub /Vec::with_capacity\(data\.len\(\)\)/ => Vec::new()
//@sub /for x in data \{/ => for x in data.iter() {
//@sub /x == &(\d+u8)/ => *x == \1
//@sub /match x \{/ => match *x {
//@sub /ch => \*ch/ => ch => ch
//@start
  proof { assert(data@.subrange(0, 0) =~= seq![]); }
//@loop 0 d
  invariant vi0 <= data@.len(), ret@ == unes(data@.subrange(0, vi0 as int)).0, last_was_slash == unes(data@.subrange(0, vi0 as int)).1,
  decreases data@.len() - vi0,
//@loopstart 0
  proof { assert(data@.subrange(0, vi0 + 1).drop_last() =~= data@.subrange(0, vi0 as int)); }
//@afterloop 0
  proof { assert(data@.subrange(0, data@.len() as int) =~= data@); }
//@end
pub open spec fn unes(s: Seq<u8>) -> (Seq<u8>, bool) decreases s.len() {
    if s.len() == 0 { (seq![], false) } else {
        let (r, b) = unes(s.drop_last()); let c = s.last();
        if b { (r.push(if c == 110u8 { 10u8 } else if c == 116u8 { 9u8 } else if c == 115u8 { 32u8 } else { c }), false) } else if c == 92u8 { (r, true) } else { (r.push(c), false) }
    }
}
/// the data of a file name "<<<text": a backslash that escapes nothing is itself
pub open spec fn unesc(s: Seq<u8>) -> Seq<u8> { if unes(s).1 { unes(s).0.push(92u8) } else { unes(s).0 } }
pub proof fn theorem_unescape_plain(s: Seq<u8>)
  requires forall|i: int| 0 <= i < s.len() ==> s[i] != 92u8,
  ensures unesc(s) == s, unes(s) == (s, false),
  decreases s.len(),
{ if s.len() > 0 { theorem_unescape_plain(s.drop_last()); assert(s.drop_last().push(s.last()) =~= s); } }
}
fn main(){}
