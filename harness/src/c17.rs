//! value matchers accept exactly the values their method describes
use crate::common::*;
use cdx::matcher::*;

fn low(s: &str) -> String {
    s.chars().flat_map(char::to_lowercase).collect()
}
fn has(h: &[u8], n: &[u8]) -> bool {
    n.is_empty() || h.windows(n.len()).any(|w| w == n)
}
fn btrim(mut s: &[u8]) -> &[u8] {
    while let [f, r @ ..] = s {
        if *f > b' ' {
            break;
        }
        s = r;
    }
    while let [r @ .., l] = s {
        if *l > b' ' {
            break;
        }
        s = r;
    }
    s
}
#[derive(Clone, Copy, Default)]
struct Mods {
    utf8: bool,
    case: bool,
    not: bool,
    trim: bool,
    null: bool,
}
impl Mods {
    fn of(n: usize) -> Self {
        Mods { utf8: n & 1 > 0, case: n & 2 > 0, not: n & 4 > 0, trim: n & 8 > 0, null: n & 16 > 0 }
    }
    fn words(&self) -> Vec<&'static str> {
        let mut v = Vec::new();
        for (b, w) in [(self.utf8, "utf8"), (self.case, "case"), (self.not, "not"), (self.trim, "trim"), (self.null, "null")] {
            if b {
                v.push(w)
            }
        }
        v
    }
}
/// the meaning of the method, with trimming and letter case already taken care of
fn base(method: &str, pat: &[u8], lines: &[Vec<u8>], val: &[u8], chars: usize) -> bool {
    match method {
        "exact" => val == pat,
        "prefix" => val.starts_with(pat),
        "suffix" => val.ends_with(pat),
        "infix" | "substr" | "substring" => has(val, pat),
        "length" => {
            let p = std::str::from_utf8(pat).unwrap();
            let (a, b) = match p.split_once(',') {
                Some((a, b)) => (a.parse::<usize>().unwrap(), b.parse::<usize>().unwrap()),
                None => (p.parse::<usize>().unwrap(), usize::MAX),
            };
            a <= chars && chars <= b
        }
        "file-exact" | "fileexact" => lines.iter().any(|l| !l.is_empty() && l == val),
        "empty" => val.is_empty(),
        "yes" => true,
        _ => panic!("{method}"),
    }
}
fn accepts(method: &str, m: Mods, pat: &str, lines: &[Vec<u8>], val: &[u8]) -> bool {
    let mut v: Vec<u8> = val.to_vec();
    if m.trim {
        v = if m.utf8 { std::str::from_utf8(&v).unwrap().trim().as_bytes().to_vec() } else { btrim(&v).to_vec() };
    }
    if m.null && v.is_empty() {
        return !m.not;
    }
    let chars = if m.utf8 { std::str::from_utf8(&v).unwrap().chars().count() } else { v.len() };
    let f = |s: &[u8]| -> Vec<u8> {
        if !m.case {
            s.to_vec()
        } else if m.utf8 {
            low(std::str::from_utf8(s).unwrap()).into_bytes()
        } else {
            s.to_ascii_lowercase()
        }
    };
    let ls: Vec<Vec<u8>> = lines.iter().map(|x| f(x)).collect();
    m.not ^ base(method, &f(pat.as_bytes()), &ls, &f(&v), chars)
}
fn one(ctx: &mut Ctx, group: &str, method: &str, m: Mods, pat: &str, shown: &str, lines: &[Vec<u8>], vals: &[Vec<u8>], order: usize) {
    let mut w = m.words();
    // the words may come in any order, in any case
    let k = order % (w.len() + 1);
    w.insert(k, method);
    let spec = w.iter().map(|x| if order % 3 == 2 && *x != method { x.to_uppercase() } else { x.to_string() }).collect::<Vec<_>>().join(".");
    ctx.case(group, &[spec.as_bytes(), shown.as_bytes()], || {
        let a = MatchMaker::make2(&spec, pat).map_err(|e| format!("{e}"))?;
        let b = MatchMaker::make(&format!("{spec},{pat}")).map_err(|e| format!("{e}"))?;
        for v in vals {
            if m.utf8 && std::str::from_utf8(v).is_err() {
                continue;
            }
            let want = accepts(method, m, pat, lines, v);
            for x in [&a, &b] {
                let got = x.do_match(v).map_err(|e| format!("{e}"))?;
                if got != want || x.do_match_safe(v) != want {
                    return Err(format!("value {} {}", esc(v), if want { "was not accepted" } else { "was accepted" }));
                }
            }
        }
        Ok(())
    });
}
fn texts(max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = out.clone();
    for _ in 0..max {
        let mut next = Vec::new();
        for s in &last {
            for c in ['a', 'A', 'b', ' '] {
                next.push(format!("{s}{c}"));
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
const ODD: &[&str] = &["é", "É", "ΟΔΟΣ", "οδος", "οδοσ", "ΔΟΣ", "Σ", "σ", "ς", "\u{212a}", "k", "kxx", "İ", "i\u{307}", "i", "ß", "ẞ", "ss", "\u{a0}x", "x\u{2003}", "aÉ", "Éa", "日本", "本", "[", "{", "@", "`", "Z", "z", "\u{7f}", "Ã", "ã", "\tq ", "Ab\u{e9}"];
fn small(ctx: &mut Ctx) {
    let pats = texts(2);
    let mut vals: Vec<Vec<u8>> = texts(4).into_iter().map(String::into_bytes).collect();
    vals.extend(ODD.iter().map(|s| s.as_bytes().to_vec()));
    vals.extend([b"\xff".to_vec(), b"a\xc3".to_vec(), b"\xc3\xa9".to_vec(), b"\xe9a".to_vec(), b"\xc9a".to_vec()]);
    let mut n = 0;
    for method in ["exact", "prefix", "suffix", "infix", "substr", "substring"] {
        for mods in 0..32 {
            for p in &pats {
                n += 1;
                one(ctx, "all small patterns and values", method, Mods::of(mods), p, p, &[], &vals, n);
            }
        }
    }
    // letter case that changes lengths, or that depends on what is around it
    let mut odd: Vec<Vec<u8>> = Vec::new();
    for a in ODD {
        odd.push(a.as_bytes().to_vec());
        for b in ODD {
            odd.push(format!("{a}{b}").into_bytes());
        }
    }
    for method in ["exact", "prefix", "suffix", "infix"] {
        for mods in [0, 1, 2, 3, 7, 11] {
            for p in ODD {
                n += 1;
                one(ctx, "letter case beyond ASCII", method, Mods::of(mods), p, p, &[], &odd, n);
            }
        }
    }
    for mods in 0..32 {
        for p in ["0", "1", "2", "3", "0,0", "0,2", "1,1", "1,3", "2,5", "3,3", "3,1", "1,0"] {
            n += 1;
            one(ctx, "lengths", "length", Mods::of(mods), p, p, &[], &vals, n);
        }
        one(ctx, "lengths", "empty", Mods::of(mods), "", "", &[], &vals, n);
        one(ctx, "lengths", "yes", Mods::of(mods), "", "", &[], &vals, n);
    }
}
fn lengths(ctx: &mut Ctx) {
    // bytes and characters are not the same
    let vals: Vec<Vec<u8>> = ["", "é", "éé", "ééé", "aé", "日本", "日本語", "𝄞", "𝄞𝄞", "e\u{301}"].iter().map(|s| s.as_bytes().to_vec()).collect();
    for mods in 0..8 {
        for a in 0..9 {
            for b in a..9 {
                let p = format!("{a},{b}");
                one(ctx, "lengths", "length", Mods::of(mods), &p, &p, &[], &vals, a + b);
            }
        }
    }
}
fn long(ctx: &mut Ctx, rng: &mut Rng) {
    for _ in 0..ctx.n(600, 6000) {
        let plen = *rng.pick(&[1usize, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 60, 64, 65, 70, 128, 129, 200, 257, 300]);
        let alpha: &[u8] = if rng.flip() { b"ab" } else { b"abcDEF.-xyzQ" };
        let p: Vec<u8> = (0..plen).map(|_| *rng.pick(alpha)).collect();
        let mut vals = Vec::new();
        for _ in 0..12 {
            let mut v = rng.bytes(alpha, 90);
            let mut q = p.clone();
            if rng.flip() {
                let k = rng.below(q.len());
                if rng.flip() {
                    q[k] ^= 0x20
                } else {
                    q[k] = *rng.pick(alpha)
                }
            }
            match rng.below(5) {
                0 => v.splice(0..0, q),
                1 => {
                    let n = v.len();
                    v.splice(n..n, q)
                }
                2 => {
                    let n = rng.below(v.len() + 1);
                    v.splice(n..n, q)
                }
                3 => {
                    let n = v.len();
                    v.splice(0..n, q)
                }
                _ => {
                    let n = v.len();
                    q.truncate(q.len() - 1);
                    v.splice(n..n, q)
                }
            };
            vals.push(v);
        }
        let ps = String::from_utf8(p).unwrap();
        let method = *rng.pick(&["exact", "prefix", "suffix", "infix"]);
        let m = Mods::of(rng.below(8));
        one(ctx, "long random patterns and values", method, m, &ps, &ps, &[], &vals, rng.below(6));
    }
}
fn files(ctx: &mut Ctx, rng: &mut Rng) {
    let pool: Vec<&str> = vec!["a", "A", "ab", "aB", "b ", " b", "", "é", "É", "\u{212a}", "k", "ΟΔΟΣ", "x\ty", "long line with words", "a\r", "#c", "aa"];
    for i in 0..ctx.n(150, 1500) {
        let n = rng.below(7);
        let ls: Vec<Vec<u8>> = (0..n).map(|_| rng.pick(&pool).as_bytes().to_vec()).collect();
        let mut text = join(&ls.iter().map(|x| &x[..]).collect::<Vec<_>>(), b'\n');
        if n > 0 && (rng.flip() || ls[n - 1].is_empty()) {
            text.push(b'\n');
        }
        let name = ctx.dir.join(format!("f{i}"));
        std::fs::write(&name, &text).unwrap();
        let vals: Vec<Vec<u8>> = pool.iter().map(|x| x.as_bytes().to_vec()).collect();
        let shown = format!("file with {}", esc(&text));
        let method = *rng.pick(&["file-exact", "fileexact"]);
        one(ctx, "lines of a file", method, Mods::of(rng.below(32)), name.to_str().unwrap(), &shown, &ls, &vals, i);
        std::fs::remove_file(&name).unwrap();
    }
}
fn multi(ctx: &mut Ctx, rng: &mut Rng) {
    let vals: Vec<Vec<u8>> = texts(4).into_iter().map(String::into_bytes).collect();
    for i in 0..ctx.n(400, 4000) {
        let n = rng.range(1, 4);
        let pats: Vec<String> = (0..n).map(|_| String::from_utf8(rng.bytes(b"aAb ", 2)).unwrap()).collect();
        let and = rng.flip();
        let m = Mods::of(rng.below(32));
        let d = *rng.pick(&[":", ",", "/", "é"]);
        let pat: String = pats.iter().map(|p| format!("{d}{p}")).collect();
        let method = *rng.pick(&["exact", "prefix", "suffix", "infix"]);
        let mut w = m.words();
        w.insert(i % (w.len() + 1), method);
        w.push(if and { "and" } else { "or" });
        let spec = w.join(".");
        ctx.case("several patterns", &[spec.as_bytes(), pat.as_bytes()], || {
            let a = MatchMaker::make2(&spec, &pat).map_err(|e| format!("{e}"))?;
            let m1 = Mods { not: false, ..m };
            for v in &vals {
                let x = if m.trim { btrim(v) } else { v };
                let mut yes = pats.iter().map(|p| accepts(method, m1, p, &[], x));
                let plain = m.null && x.is_empty() || if and { yes.all(|b| b) } else { yes.any(|b| b) };
                if a.do_match(v).map_err(|e| format!("{e}"))? != (plain ^ m.not) {
                    return Err(format!("value {} {}", esc(v), if plain ^ m.not { "was not accepted" } else { "was accepted" }));
                }
            }
            Ok(())
        });
    }
}
fn tools(ctx: &mut Ctx, rng: &mut Rng) {
    let pool = ["a", "A", "ab", "aB", "Ab", "é", "É", "", " a", "ba", "k", "\u{212a}"];
    let mut cases = Vec::new();
    for i in 0..ctx.n(24, 160) {
        let n = rng.range(2, 12);
        let lines: Vec<Vec<u8>> = (0..n).map(|_| format!("{}\t{}", rng.pick(&pool), rng.pick(&pool)).into_bytes()).collect();
        let method = *rng.pick(&["exact", "prefix", "suffix", "infix"]);
        let m = Mods::of(rng.below(32));
        let pat = *rng.pick(&pool);
        let mut w = m.words();
        w.insert(i % (w.len() + 1), method);
        let spec = format!("2,{},{pat}", w.join("."));
        let mut text = Vec::new();
        let mut want = Vec::new();
        for l in &lines {
            text.extend(l);
            text.push(b'\n');
            if accepts(method, m, pat, &[], col(l, 1)) {
                want.extend(l);
                want.push(b'\n');
            }
        }
        cases.push(ToolCase { group: "cdx cgrep".into(), args: strs(&["cgrep", "-p", &spec, "in"]), stdin: Vec::new(), files: vec![("in".into(), text)], judge: expect(want) });
    }
    run_tools(ctx, cases);
}
pub fn run(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 0x17);
    small(ctx);
    lengths(ctx);
    long(ctx, &mut rng);
    files(ctx, &mut rng);
    multi(ctx, &mut rng);
    tools(ctx, &mut rng);
}
