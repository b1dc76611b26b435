// An open file, its lines and the key comparison, seen through their contracts (proved in C18, C02 and C19).
pub enum O { L, E, G }
/// a line in memory: its text (with its newline), and whether it is split into columns
#[verifier::external_body]
pub struct TextLine { x: u8 }
pub uninterp spec fn tl_line(t: TextLine) -> Seq<u8>;
pub uninterp spec fn tl_split(t: TextLine) -> bool;
impl TextLine {
    /// column n (C06)
    #[verifier::external_body]
    pub fn get(&self, n: usize) -> (r: &[u8]) requires tl_split(*self), ensures r@ == colv(tl_line(*self), n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn line(&self) -> (r: &[u8]) ensures r@ == tl_line(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn assign(&mut self, o: &TextLine) ensures tl_line(*final(self)) == tl_line(*o), tl_split(*final(self)) == tl_split(*o) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: TextLine) ensures tl_line(r) == tl_line(*self), tl_split(r) == tl_split(*self) { unimplemented!() }
}
/// column n of a line; empty, when there are not so many
pub uninterp spec fn colv(l: Seq<u8>, n: int) -> Seq<u8>;
/// the order a key list gives two lines
pub uninterp spec fn ord(o: int, a: Seq<u8>, b: Seq<u8>) -> Ordering;
pub open spec fn eqv(o: int, a: Seq<u8>, b: Seq<u8>) -> bool { ord(o, a, b) == Ordering::Equal }
/// looks at columns
pub uninterp spec fn needs(o: int) -> bool;
#[verifier::external_body]
pub proof fn axiom_ord_flip(o: int, a: Seq<u8>, b: Seq<u8>) ensures ord(o, a, b) == flip(ord(o, b, a)) { }
#[verifier::external_body]
pub proof fn axiom_ord_trans(o: int, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires ord(o, a, b) != Ordering::Greater, ord(o, b, c) != Ordering::Greater, ensures ord(o, a, c) != Ordering::Greater { }
#[verifier::external_body]
pub struct LineCompList { x: u8 }
pub uninterp spec fn order(c: LineCompList) -> int;
impl LineCompList {
    #[verifier::external_body]
    pub fn comp_cols(&mut self, a: &TextLine, b: &TextLine) -> (r: Ordering) requires needs(order(*old(self))) ==> tl_split(*a) && tl_split(*b), ensures order(*final(self)) == order(*old(self)), r == ord(order(*old(self)), tl_line(*a), tl_line(*b)) { unimplemented!() }
    #[verifier::external_body]
    pub fn equal_cols(&mut self, a: &TextLine, b: &TextLine) -> (r: bool) requires needs(order(*old(self))) ==> tl_split(*a) && tl_split(*b), ensures order(*final(self)) == order(*old(self)), r == eqv(order(*old(self)), tl_line(*a), tl_line(*b)) { unimplemented!() }
    #[verifier::external_body]
    pub fn need_split(&self) -> (r: bool) ensures r == needs(order(*self)) { unimplemented!() }
}
#[verifier::external_body]
pub struct LineComp { x: u8 }
pub uninterp spec fn order1(c: LineComp) -> int;
impl LineComp {
    #[verifier::external_body]
    pub fn comp_cols(&mut self, a: &TextLine, b: &TextLine) -> (r: Ordering) requires needs(order1(*old(self))) ==> tl_split(*a) && tl_split(*b), ensures order1(*final(self)) == order1(*old(self)), r == ord(order1(*old(self)), tl_line(*a), tl_line(*b)) { unimplemented!() }
    #[verifier::external_body]
    pub fn need_split(&self) -> (r: bool) ensures r == needs(order1(*self)) { unimplemented!() }
}
#[verifier::external_body]
pub struct Reader { x: u8 }
impl Reader {
    /// the data lines of the file
    pub uninterp spec fn lines(&self) -> Seq<Seq<u8>>;
    /// how many of them are before the current one
    pub uninterp spec fn pos(&self) -> int;
    /// lines are split as they are read
    pub uninterp spec fn splits(&self) -> bool;
    pub uninterp spec fn delimiter(&self) -> u8;
    pub open spec fn ok(&self) -> bool { 0 <= self.pos() <= self.lines().len() < usize::MAX }
    #[verifier::external_body]
    pub fn is_done(&self) -> (r: bool) ensures r == (self.pos() >= self.lines().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn delim(&self) -> (r: u8) ensures r == self.delimiter() { unimplemented!() }
    #[verifier::external_body]
    pub fn curr_line(&self) -> (r: &TextLine) ensures self.pos() < self.lines().len() ==> tl_line(*r) == self.lines()[self.pos()] && (self.splits() ==> tl_split(*r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn curr(&self) -> (r: &TextLine) ensures self.pos() < self.lines().len() ==> tl_line(*r) == self.lines()[self.pos()] && (self.splits() ==> tl_split(*r)) { unimplemented!() }
    /// one line of look-back is always there
    #[verifier::external_body]
    pub fn prev_line(&self, n: usize) -> (r: &TextLine) requires n <= 1, n <= self.pos(), ensures self.pos() - n < self.lines().len() ==> tl_line(*r) == self.lines()[self.pos() - n] && (self.splits() ==> tl_split(*r)) { unimplemented!() }
    /// the current line without its newline
    #[verifier::external_body]
    pub fn curr_nl(&self) -> (r: &[u8]) ensures self.pos() < self.lines().len() ==> r@ == nonl(self.lines()[self.pos()]) { unimplemented!() }
    #[verifier::external_body]
    pub fn prev_nl(&self, n: usize) -> (r: &[u8]) requires n <= 1, ensures r@ == (if 0 <= self.pos() - n < self.lines().len() { nonl(self.lines()[self.pos() - n]) } else { seq![] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn getline(&mut self) -> (r: Result<bool>) requires old(self).pos() < old(self).lines().len(), ensures final(self).same(old(self)), r matches Ok(b) ==> final(self).pos() == old(self).pos() + 1 && b == (final(self).pos() == final(self).lines().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn do_split(&mut self, b: bool) requires old(self).splits(), ensures final(self).splits() == b, final(self).lines() == old(self).lines(), final(self).pos() == old(self).pos(), final(self).delimiter() == old(self).delimiter() { unimplemented!() }
    #[verifier::external_body]
    pub fn write<W: Write>(&self, w: &mut W) -> (r: Result<()>) requires self.pos() < self.lines().len(), ensures r is Ok ==> final(w).out() == old(w).out() + self.lines()[self.pos()] { unimplemented!() }
    #[verifier::external_body]
    pub fn write_curr<W: Write>(&self, w: &mut W) -> (r: Result<()>) requires self.pos() < self.lines().len(), ensures r is Ok ==> final(w).out() == old(w).out() + self.lines()[self.pos()] { unimplemented!() }
    pub open spec fn same(&self, o: &Reader) -> bool { self.lines() == o.lines() && self.splits() == o.splits() && self.delimiter() == o.delimiter() }
}
pub open spec fn nonl(l: Seq<u8>) -> Seq<u8> { if l.len() > 0 && l.last() == 10u8 { l.drop_last() } else { l } }
