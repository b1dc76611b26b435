//! wildcard matching has its standard meaning
use crate::common::*;
use cdx::matcher::MatchMaker;
use cdx::prelude::*;

/// dynamic programming over all (pattern prefix, text prefix)
fn oracle<C: PartialEq + Copy>(w: &[C], t: &[C], star: C, eq: &dyn Fn(C, C) -> bool) -> bool {
    let mut row = vec![false; t.len() + 1];
    row[0] = true;
    for &p in w {
        let mut next = vec![false; t.len() + 1];
        for j in 0..=t.len() {
            next[j] = if p == star {
                row[j] || (j > 0 && next[j - 1])
            } else {
                j > 0 && row[j - 1] && eq(p, t[j - 1])
            };
        }
        row = next;
    }
    row[t.len()]
}
fn want_b(w: &[u8], t: &[u8], ic: bool) -> bool {
    oracle(w, t, b'*', &|p, c| p == c || p == b'?' || (ic && p.to_ascii_lowercase() == c.to_ascii_lowercase()))
}
fn want_c(w: &str, t: &str, ic: bool) -> bool {
    let (a, b): (Vec<char>, Vec<char>) = (w.chars().collect(), t.chars().collect());
    oracle(&a, &b, '*', &|p, c| p == c || p == '?' || (ic && p.to_lowercase().to_string() == c.to_lowercase().to_string()))
}
fn bytes(ctx: &mut Ctx, g: &str, w: &[u8], t: &[u8]) {
    ctx.case(g, &[w, t], || {
        for (ic, c) in [(false, Case::Sens), (true, Case::Insens)] {
            let want = want_b(w, t, ic);
            if t.glob(w, c) != want {
                return Err(format!("byte match ({c:?}) of pattern {} and text {} gave {}", esc(w), esc(t), !want));
            }
        }
        Ok(())
    });
}
fn chars(ctx: &mut Ctx, g: &str, w: &str, t: &str) {
    ctx.case(g, &[w.as_bytes(), t.as_bytes()], || {
        for (ic, c) in [(false, Case::Sens), (true, Case::Insens)] {
            let want = want_c(w, t, ic);
            if t.glob(w, c) != want {
                return Err(format!("character match ({c:?}) of pattern {w:?} and text {t:?} gave {}", !want));
            }
        }
        Ok(())
    });
}
fn spec(ctx: &mut Ctx, w: &str, t: &str) {
    ctx.case("matcher specs", &[w.as_bytes(), t.as_bytes()], || {
        for (m, ic, utf) in [("glob", false, false), ("glob.case", true, false), ("utf8.glob", false, true), ("case.utf8.glob", true, true)] {
            let x = MatchMaker::make2(m, w).map_err(|e| e.to_string())?;
            let want = if utf { want_c(w, t, ic) } else { want_b(w.as_bytes(), t.as_bytes(), ic) };
            if x.do_match_safe(t.as_bytes()) != want {
                return Err(format!("{m} gave {}", !want));
            }
            if x.smatch(t) != want_c(w, t, ic) || x.umatch(t.as_bytes()) != want_b(w.as_bytes(), t.as_bytes(), ic) {
                return Err(format!("{m}: smatch or umatch differs"));
            }
        }
        Ok(())
    });
}
pub fn run(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed);
    let (pl, tl) = if ctx.thorough { (6, 7) } else { (5, 5) };
    let pats = all_strings(b"ab*?", pl);
    let texts = all_strings(b"ab", tl);
    for w in &pats {
        for t in &texts {
            bytes(ctx, "every short pattern and text", w, t);
        }
    }
    for w in &all_strings(b"aA*?", 4) {
        for t in &all_strings(b"aAb*?", 3) {
            bytes(ctx, "case, and stars and question marks in the text", w, t);
        }
    }
    let pats = all_strings(b"eE*?s", 3);
    let texts = all_strings(b"eEsi", 3);
    let uni = |x: &[u8]| -> String {
        x.iter().map(|c| match c { b'e' => 'é', b'E' => 'É', b's' => 'ß', b'i' => 'İ', c => *c as char }).collect()
    };
    for w in &pats {
        for t in &texts {
            chars(ctx, "character patterns", &uni(w), &uni(t));
            bytes(ctx, "multi-byte text as bytes", uni(w).as_bytes(), uni(t).as_bytes());
        }
    }
    for w in &all_strings(b"a*?b", 4) {
        for t in &all_strings(b"ab", 4) {
            chars(ctx, "character patterns", std::str::from_utf8(w).unwrap(), std::str::from_utf8(t).unwrap());
        }
    }
    for x in 0..=255u8 {
        for y in 0..=255u8 {
            bytes(ctx, "every byte pair", &[x], &[y]);
            bytes(ctx, "every byte pair", &[b'*', x, b'*', b'q'], &[b'p', y, b'q']);
        }
    }
    for _ in 0..ctx.n(60_000, 1_500_000) {
        let t = rng.bytes(b"aabAB", 24);
        // a pattern made from the text, then perhaps spoiled
        let mut w = Vec::new();
        let mut i = 0;
        while i < t.len() {
            match rng.below(8) {
                0 => w.push(b'?'),
                1 => {
                    w.push(b'*');
                    i += rng.below(4);
                    continue;
                }
                _ => w.push(t[i]),
            }
            i += 1;
        }
        if rng.below(3) == 0 && !w.is_empty() {
            let i = rng.below(w.len());
            match rng.below(3) {
                0 => w[i] = *rng.pick(b"ab*?"),
                1 => w.insert(i, *rng.pick(b"ab*?")),
                _ => {
                    w.remove(i);
                }
            }
        }
        bytes(ctx, "random patterns", &w, &t);
        if rng.below(4) == 0 {
            chars(ctx, "random character patterns", std::str::from_utf8(&w).unwrap(), std::str::from_utf8(&t).unwrap());
        }
    }
    for _ in 0..ctx.n(5000, 50_000) {
        let w = uni(&rng.bytes(b"aA*?eE", 6));
        let t = uni(&rng.bytes(b"aAbeE", 6));
        spec(ctx, &w, &t);
    }
    let mut cases = Vec::new();
    for _ in 0..ctx.n(100, 1000) {
        let w = rng.bytes(b"ab*?", 5);
        let n = rng.range(1, 8);
        let ls: Vec<Vec<u8>> = (0..n).map(|_| { let mut x = rng.bytes(b"abA", 5); if x.is_empty() { x.push(b'b'); } x }).collect();
        let ic = rng.flip();
        let (mut f, mut want) = (Vec::new(), Vec::new());
        for l in &ls {
            f.extend_from_slice(l);
            f.extend_from_slice(b"\tx\n");
            if want_b(&w, l, ic) {
                want.extend_from_slice(l);
                want.extend_from_slice(b"\tx\n");
            }
        }
        cases.push(ToolCase {
            group: "cdx cgrep -p 1,glob".into(),
            files: vec![("f".into(), f)],
            args: strs(&["cgrep", "-p", &format!("1,glob{},{}", if ic { ".case" } else { "" }, String::from_utf8(w).unwrap()), "f"]),
            stdin: vec![],
            judge: expect(want),
        });
    }
    run_tools(ctx, cases);
}
