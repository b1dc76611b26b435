// One output line: its columns, each written by its own ColumnFun (src/column.rs).
pub struct WMode { pub delim: u8 }
pub trait ColumnFun {
    /// no columns to write
    spec fn none(&self) -> bool;
    /// what it writes for a line
    spec fn shown(&self, line: Seq<u8>, d: u8) -> Seq<u8>;
    fn write(&mut self, w: &mut dyn Write, line: &TextLine, text: &WMode) -> (r: Result<()>)
      ensures r is Ok ==> final(w).out() == old(w).out() + old(self).shown(tl_line(*line), text.delim), final(self).none() == old(self).none();
    fn is_empty(&self) -> (r: bool) ensures r == self.none();
}
pub struct Writer { pub v: Vec<Box<dyn ColumnFun>>, pub text: WMode }
/// the columns of the first n parts, with the delimiter between parts that have any
pub open spec fn parts(v: Seq<Box<dyn ColumnFun>>, l: Seq<u8>, d: u8, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else if v[n - 1].none() { parts(v, l, d, n - 1) } else if some(v, n - 1) { parts(v, l, d, n - 1).push(d) + v[n - 1].shown(l, d) } else { v[n - 1].shown(l, d) } }
pub open spec fn some(v: Seq<Box<dyn ColumnFun>>, n: int) -> bool { exists|i: int| 0 <= i < n && !(#[trigger] v[i]).none() }
pub proof fn lemma_some(v: Seq<Box<dyn ColumnFun>>, n: int) requires 0 <= n < v.len(), ensures some(v, n + 1) == (some(v, n) || !v[n].none()) { if some(v, n) { let i = choose|i: int| 0 <= i < n && !(#[trigger] v[i]).none(); assert(!v[i].none()); } }
pub proof fn lemma_no_parts(v: Seq<Box<dyn ColumnFun>>, l: Seq<u8>, d: u8, n: int) requires 0 <= n <= v.len(), !some(v, n), ensures parts(v, l, d, n) == Seq::<u8>::empty() decreases n { if n > 0 { assert(v[n - 1].none()); lemma_some(v, n - 1); lemma_no_parts(v, l, d, n - 1); } }
