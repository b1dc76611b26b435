// the columns of a line, stated on sequences
/// the text between consecutive delimiters
pub open spec fn pieces(s: Seq<u8>, d: u8) -> Seq<Seq<u8>> decreases s.len() {
    if s.len() == 0 { seq![seq![]] } else {
        let p = pieces(s.drop_last(), d);
        if s.last() == d { p.push(seq![]) } else { p.drop_last().push(p.last().push(s.last())) }
    }
}
pub open spec fn occurs(s: Seq<u8>, d: u8) -> nat decreases s.len() { if s.len() == 0 { 0 } else { occurs(s.drop_last(), d) + (if s.last() == d { 1nat } else { 0 }) } }
/// the pieces with the delimiter between them
pub open spec fn joined(p: Seq<Seq<u8>>, d: u8) -> Seq<u8> decreases p.len() { if p.len() == 0 { seq![] } else if p.len() == 1 { p[0] } else { joined(p.drop_last(), d).push(d) + p.last() } }
/// the columns of a line: its newline is not part of the last one
pub open spec fn columns(l: Seq<u8>, d: u8) -> Seq<Seq<u8>> { pieces(if l.len() > 0 && l.last() == 10u8 { l.drop_last() } else { l }, d) }
pub proof fn lemma_pieces_len(s: Seq<u8>, d: u8)
  ensures pieces(s, d).len() == occurs(s, d) + 1,
  decreases s.len(),
{ if s.len() > 0 { lemma_pieces_len(s.drop_last(), d); } }
/// nothing is lost: joining gives the text back
pub proof fn theorem_join(s: Seq<u8>, d: u8)
  ensures joined(pieces(s, d), d) == s,
  decreases s.len(),
{
    lemma_pieces_len(s, d);
    if s.len() > 0 {
        let p = pieces(s.drop_last(), d);
        theorem_join(s.drop_last(), d);
        lemma_pieces_len(s.drop_last(), d);
        if s.last() == d {
            let q = p.push(seq![]);
            assert(q.drop_last() =~= p);
            assert(joined(q, d) =~= joined(p, d).push(d));
        } else {
            let q = p.drop_last().push(p.last().push(s.last()));
            if p.len() == 1 { assert(q[0] =~= p[0].push(s.last())); assert(joined(q, d) =~= p[0].push(s.last())); }
            else { assert(q.drop_last() =~= p.drop_last()); assert(joined(q, d) =~= joined(p, d).push(s.last())); }
        }
        assert(s =~= s.drop_last().push(s.last()));
    }
}
/// no column contains the delimiter
pub proof fn theorem_clean(s: Seq<u8>, d: u8)
  ensures forall|i: int, j: int| 0 <= i < pieces(s, d).len() && 0 <= j < pieces(s, d)[i].len() ==> #[trigger] pieces(s, d)[i][j] != d,
  decreases s.len(),
{ lemma_pieces_len(s, d); if s.len() > 0 { theorem_clean(s.drop_last(), d); lemma_pieces_len(s.drop_last(), d); } }
