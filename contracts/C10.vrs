use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
//@include std.vrs
//@include bytes.vrs
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/text.rs enum Case
/// equality of characters
pub trait VEq: Sized { fn veq(self, o: Self) -> (r: bool) ensures r == (self == o); }
impl VEq for u8 { fn veq(self, o: u8) -> (r: bool) { self == o } }
//@gsub /(\w+)\.first\(\) == self\.ascii\(([^()]*)\)/ => \1.first().veq(self.ascii(\2))
//@gsub /(\w+)\.first\(\) != self\.ascii\(([^()]*)\)/ => !\1.first().veq(self.ascii(\2))

/// the standard meaning of a wildcard pattern
pub open spec fn gm<C>(w: Seq<C>, t: Seq<C>, star: C, ceq: spec_fn(C, C) -> bool) -> bool
    decreases w.len() + t.len()
{
    if w.len() == 0 { t.len() == 0 }
    else if w[0] == star {
        gm(w.drop_first(), t, star, ceq) || (t.len() > 0 && gm(w, t.drop_first(), star, ceq))
    } else {
        t.len() > 0 && ceq(w[0], t[0]) && gm(w.drop_first(), t.drop_first(), star, ceq)
    }
}
/// p has no star and matches x character by character
pub open spec fn lit<C>(p: Seq<C>, x: Seq<C>, star: C, ceq: spec_fn(C, C) -> bool) -> bool {
    p.len() <= x.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] != star && ceq(p[i], x[i])
}
pub open spec fn nostar<C>(p: Seq<C>, star: C) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] != star }
/// what a star pattern matches, it matches with more text in front
proof fn lemma_star_ext<C>(w: Seq<C>, t: Seq<C>, n: int, star: C, ceq: spec_fn(C, C) -> bool)
  requires w.len() > 0, w[0] == star, 0 <= n <= t.len(), gm(w, t.skip(n), star, ceq)
  ensures gm(w, t, star, ceq)
  decreases n
{
    if n > 0 {
        assert(t.skip(n) =~= t.drop_first().skip(n - 1));
        lemma_star_ext(w, t.drop_first(), n - 1, star, ceq);
    } else { assert(t.skip(0) =~= t); }
}
/// the literal beginning of a pattern takes as many characters
proof fn lemma_lit_prefix<C>(w: Seq<C>, k: int, t: Seq<C>, star: C, ceq: spec_fn(C, C) -> bool)
  requires 0 <= k <= w.len(), nostar(w.take(k), star), gm(w, t, star, ceq)
  ensures k <= t.len(), gm(w.skip(k), t.skip(k), star, ceq)
  decreases k
{
    if k > 0 {
        assert(w.take(k)[0] == w[0]);
        assert forall|i: int| 0 <= i < k - 1 implies #[trigger] w.drop_first().take(k - 1)[i] != star by { assert(w.take(k)[i + 1] != star); }
        lemma_lit_prefix(w.drop_first(), k - 1, t.drop_first(), star, ceq);
        assert(w.drop_first().skip(k - 1) =~= w.skip(k));
        assert(t.drop_first().skip(k - 1) =~= t.skip(k));
    } else { assert(w.skip(0) =~= w); assert(t.skip(0) =~= t); }
}
/// star m matches x: m matches some suffix of x
proof fn lemma_star_some<C>(m: Seq<C>, x: Seq<C>, star: C, ceq: spec_fn(C, C) -> bool) -> (n: int)
  requires gm(seq![star] + m, x, star, ceq)
  ensures 0 <= n <= x.len(), gm(m, x.skip(n), star, ceq)
  decreases x.len()
{
    assert((seq![star] + m).drop_first() =~= m);
    if gm(m, x, star, ceq) { assert(x.skip(0) =~= x); 0 }
    else {
        let n = lemma_star_some(m, x.drop_first(), star, ceq);
        assert(x.drop_first().skip(n) =~= x.skip(n + 1));
        n + 1
    }
}
/// the attempt in progress: a is the text it started on
pub open spec fn att<C>(t: Seq<C>, buff: Seq<C>, mp: Seq<C>, wild: Seq<C>) -> Seq<C> { t.skip(t.len() - (buff.len() + (mp.len() - wild.len()))) }
pub open spec fn inv<C>(t: Seq<C>, g: bool, wild: Seq<C>, buff: Seq<C>, mp: Seq<C>, cp: Seq<C>, star: C, ceq: spec_fn(C, C) -> bool) -> bool {
    let k = mp.len() - wild.len();
    let a = att(t, buff, mp, wild);
    &&& buff.len() <= t.len() && buff =~= t.skip(t.len() - buff.len())
    &&& mp.len() == 0 ==> (buff.len() > 0 ==> wild.len() > 0 && wild[0] == star) && g == gm(wild, buff, star, ceq)
    &&& mp.len() > 0 ==> {
        &&& 0 <= k && buff.len() + k <= t.len()
        &&& wild =~= mp.skip(k)
        &&& nostar(mp.take(k), star)
        &&& cp =~= (if a.len() > 0 { a.drop_first() } else { a })
        &&& g == (gm(wild, buff, star, ceq) || gm(seq![star] + mp, cp, star, ceq))
    }
}
/// at a star, or at the end of the text, earlier attempts need no second thought
proof fn lemma_greedy<C>(t: Seq<C>, g: bool, wild: Seq<C>, buff: Seq<C>, mp: Seq<C>, cp: Seq<C>, star: C, ceq: spec_fn(C, C) -> bool)
  requires inv(t, g, wild, buff, mp, cp, star, ceq), mp.len() > 0, buff.len() == 0 || (wild.len() > 0 && wild[0] == star),
  ensures g == gm(wild, buff, star, ceq)
{
    let k = mp.len() - wild.len();
    if gm(seq![star] + mp, cp, star, ceq) {
        let n = lemma_star_some(mp, cp, star, ceq);
        lemma_lit_prefix(mp, k, cp.skip(n), star, ceq);
        let rest = cp.skip(n).skip(k);
        assert(gm(wild, rest, star, ceq));
        assert(rest.len() <= buff.len());
        assert(rest =~= buff.skip(buff.len() - rest.len()));
        if buff.len() > 0 { lemma_star_ext(wild, buff, buff.len() - rest.len(), star, ceq); }
        else { assert(rest =~= buff); }
    }
}
pub trait Text {
    type Char: Copy + VEq;
    /// the characters
    spec fn chs(&self) -> Seq<Self::Char>;
    spec fn chr(c: u8) -> Self::Char;
    spec fn ceq(a: Self::Char, b: Self::Char, ic: Case) -> bool;
//@fn src/text.rs trait Text::is_empty (r)
  ensures r == (self.chs().len() == 0),
//@end
//@fn src/text.rs trait Text::empty (r)
  ensures r.chs().len() == 0,
//@end
//@fn src/text.rs trait Text::first (r)
  requires self.chs().len() > 0,
  ensures r == self.chs()[0],
//@end
//@fn src/text.rs trait Text::skip_first (r)
  requires self.chs().len() > 0,
  ensures r.chs() == self.chs().drop_first(),
//@end
//@fn src/text.rs trait Text::ascii (r)
  ensures r == Self::chr(ch),
//@end
//@fn src/text.rs trait Text::chars_equal (r)
  ensures r == Self::ceq(c1, c2, ic),
//@end
#[verifier::loop_isolation(false)]
//@fn src/text.rs trait Text::glob (r)
  ensures r == gm(in_wild.chs(), self.chs(), Self::chr(42), |a: Self::Char, b: Self::Char| Self::ceq(a, b, ic)),
//@start
  let ghost star = Self::chr(42);
  let ghost t = self.chs();
  let ghost f = |a: Self::Char, b: Self::Char| Self::ceq(a, b, ic);
  let ghost g = gm(in_wild.chs(), self.chs(), star, f);
//@loop 0 w
  invariant g == gm(wild.chs(), buff.chs(), star, f), buff.chs().len() <= t.len(), buff.chs() =~= t.skip(t.len() - buff.chs().len()),
  decreases buff.chs().len()
//@loop 1 w
  invariant inv(t, g, wild.chs(), buff.chs(), mp.chs(), cp.chs(), star, f),
  decreases (if mp.chs().len() > 0 { mp.chs().len() } else { wild.chs().len() + 1 }), (if mp.chs().len() > 0 { cp.chs().len() } else { 0 }), buff.chs().len()
//@loopstart 1
  let ghost (w1, b1, m1, c1) = (wild.chs(), buff.chs(), mp.chs(), cp.chs());
  proof {
    if w1.len() > 0 && w1[0] == star {
      if m1.len() > 0 { lemma_greedy(t, g, w1, b1, m1, c1, star, f); }
      assert(g == gm(w1, b1, star, f));
      assert(seq![star] + w1.drop_first() =~= w1);
      if w1.len() == 1 { assert(b1.skip(b1.len() as int).len() == 0); assert(gm(w1.drop_first(), b1.skip(b1.len() as int), star, f)); assert(gm(w1, b1.skip(b1.len() as int), star, f)); lemma_star_ext(w1, b1, b1.len() as int, star, f); }
      assert(b1.drop_first() =~= t.skip(t.len() - b1.len()).drop_first());
    } else {
      assert((seq![star] + m1).drop_first() =~= m1);
      assert(w1.len() > 0 ==> m1.take(m1.len() - w1.len() + 1) =~= m1.take(m1.len() - w1.len()).push(w1[0]));
    }
  }
//@loopend 1
  proof {
    let (w2, b2, m2, c2) = (wild.chs(), buff.chs(), mp.chs(), cp.chs());
    if w1.len() > 0 && w1[0] == star {
      assert(m2 == w1.drop_first()); assert(w2 =~= m2.skip(0)); assert(att(t, b2, m2, w2) =~= b1);
    } else if w2.len() + 1 == w1.len() && b2.len() + 1 == b1.len() && w2 =~= w1.drop_first() && b2 =~= b1.drop_first() && c1 == c2 {
      assert(att(t, b2, m2, w2) =~= att(t, b1, m1, w1));
    } else {
      assert(att(t, b2, m2, w2) =~= c1);
    }
  }
//@afterloop 1
  proof { if mp.chs().len() > 0 { lemma_greedy(t, g, wild.chs(), buff.chs(), mp.chs(), cp.chs(), star, f); } }
//@loop 2 w
  invariant g == gm(wild.chs(), buff.chs(), star, f), buff.chs().len() == 0,
  decreases wild.chs().len()
//@end
}
impl Text for [u8] {
    type Char = u8;
    open spec fn chs(&self) -> Seq<u8> { self@ }
    open spec fn chr(c: u8) -> u8 { c }
    open spec fn ceq(a: u8, b: u8, ic: Case) -> bool { a == b || a == 63u8 || (ic == Case::Insens && lower(a) == lower(b)) }
//@fn src/text.rs <[u8] as Text>::is_empty
//@sigsub /&Self/ => &[u8]
//@sub /self\.is_empty\(\)/ => <[u8]>::is_empty(self)
//@end
//@fn src/text.rs <[u8] as Text>::empty
//@end
//@fn src/text.rs <[u8] as Text>::first
//@end
//@fn src/text.rs <[u8] as Text>::skip_first
//@end
//@fn src/text.rs <[u8] as Text>::ascii
//@end
//@fn src/text.rs <[u8] as Text>::chars_equal
//@end
}
}
fn main(){}
