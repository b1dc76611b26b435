//! matchers combine by boolean logic, and early answers are final
use crate::common::*;
use cdx::matcher::*;
use cdx::util::Tri;

#[derive(Clone, Copy, Debug)]
enum T {
    C(usize),
    F(f64),
}
/// closest count to the fraction of tot; None on a tie
fn thresh(t: T, tot: usize) -> Option<usize> {
    match t {
        T::C(c) => Some(c),
        T::F(f) => {
            let x = f * tot as f64;
            let r = (x + 0.5).floor();
            if ((x + 0.5) - (x + 0.5).round()).abs() < 1e-6 && (x - x.round()).abs() > 1e-6 {
                None
            } else {
                Some(r as usize)
            }
        }
    }
}
/// (spec, oracle on yes, no)
fn dets(th: &[T]) -> Vec<(String, Box<dyn Fn(usize, usize) -> Option<bool>>)> {
    let mut v: Vec<(String, Box<dyn Fn(usize, usize) -> Option<bool>>)> = vec![
        ("all".into(), Box::new(|_y, n| Some(n == 0))),
        ("some".into(), Box::new(|y, _n| Some(y > 0))),
        ("none".into(), Box::new(|y, _n| Some(y == 0))),
        ("notall".into(), Box::new(|_y, n| Some(n > 0))),
        ("mixed".into(), Box::new(|y, n| Some(y > 0 && n > 0))),
        ("uniform".into(), Box::new(|y, n| Some(y == 0 || n == 0))),
    ];
    for &t in th {
        let s = match t {
            T::C(c) => format!("{c}"),
            T::F(f) => format!("{f:.4}"),
        };
        v.push((format!("atmost,{s}"), Box::new(move |y, n| thresh(t, y + n).map(|x| y <= x))));
        v.push((format!("atleast,{s}"), Box::new(move |y, n| thresh(t, y + n).map(|x| y >= x))));
        v.push((format!("exactly,{s}"), Box::new(move |y, n| thresh(t, y + n).map(|x| y == x))));
        v.push((format!("atmostno,{s}"), Box::new(move |y, n| thresh(t, y + n).map(|x| n <= x))));
        v.push((format!("atleastno,{s}"), Box::new(move |y, n| thresh(t, y + n).map(|x| n >= x))));
        v.push((format!("exactlyno,{s}"), Box::new(move |y, n| thresh(t, y + n).map(|x| n == x))));
    }
    v
}
fn thresholds() -> Vec<T> {
    let mut v: Vec<T> = (0..5).map(T::C).collect();
    v.extend([0.25, 0.3333, 0.5, 0.6, 0.75, 0.9, 1.0, 0.1].map(T::F));
    v
}
fn determiners(ctx: &mut Ctx) {
    let max = ctx.n(9, 13);
    for (spec, want) in dets(&thresholds()) {
        ctx.case("determiners, every yes/no sequence", &[spec.as_bytes()], || {
            let d = Determiner::new(&spec).map_err(|e| e.to_string())?;
            for len in 1..=max {
                for bits in 0..(1u32 << len) {
                    let (mut y, mut n) = (0, 0);
                    let mut early = None;
                    for k in 0..len {
                        if bits >> k & 1 == 1 {
                            y += 1
                        } else {
                            n += 1
                        }
                        let m = d.match_mid(y, n);
                        if m != Tri::Maybe && early.is_none() {
                            early = Some((m == Tri::Yes, y, n));
                        }
                    }
                    let Some(w) = want(y, n) else { continue };
                    if d.match_final(y, n) != w {
                        return Err(format!("{y} yes and {n} no gave {}", !w));
                    }
                    if let Some((e, a, b)) = early {
                        if e != w {
                            return Err(format!("after {a} yes and {b} no it answered {e}, but {y} yes and {n} no means {w}"));
                        }
                    }
                }
            }
            Ok(())
        });
    }
}
/// one column set matcher on every line of ncol cells over the alphabet
fn colsets(ctx: &mut Ctx) {
    let alpha: [&[u8]; 3] = [b"a", b"b", b""];
    for ncol in 1..=ctx.n(4, 6) {
        let ds = dets(&[T::C(0), T::C(1), T::C(2), T::F(0.5), T::F(0.3333), T::F(1.0)]);
        for (spec, want) in &ds {
            for neg in [false, true] {
                let line_spec = format!("[{spec},1-{ncol}],{}exact,a", if neg { "not." } else { "" });
                ctx.case("column groups", &[line_spec.as_bytes()], || {
                    let mut list = LineMatcherList::new_with(Combiner::And);
                    list.push(&line_spec).map_err(|e| e.to_string())?;
                    let names: Vec<String> = (1..=ncol).map(|i| format!("c{i}")).collect();
                    let nr: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
                    list.lookup(&nr).map_err(|e| e.to_string())?;
                    for k in 0..3usize.pow(ncol as u32) {
                        let mut k2 = k;
                        let mut cells = vec![];
                        for _ in 0..ncol {
                            cells.push(alpha[k2 % 3]);
                            k2 /= 3;
                        }
                        let y = cells.iter().filter(|x| **x == b"a").count();
                        let Some(w) = want(y, ncol - y) else { continue };
                        let w = w ^ neg;
                        let l = join(&cells, b'\t');
                        if list.ok(&mkline(&l)) != w {
                            return Err(format!("line {} gave {}", esc(&l), !w));
                        }
                    }
                    Ok(())
                });
            }
        }
    }
}
fn comps(ctx: &mut Ctx) {
    let vals: [&[u8]; 4] = [b"1", b"2", b"10", b"9"];
    let num = |x: &[u8]| std::str::from_utf8(x).unwrap().parse::<i64>().unwrap();
    let ops: [(&str, fn(i64, i64) -> bool); 12] = [
        ("<", |a, b| a < b), ("<=", |a, b| a <= b), (">", |a, b| a > b), (">=", |a, b| a >= b), ("==", |a, b| a == b), ("!=", |a, b| a != b),
        ("LT.", |a, b| a < b), ("LE.", |a, b| a <= b), ("GT.", |a, b| a > b), ("GE.", |a, b| a >= b), ("EQ.", |a, b| a == b), ("NE.", |a, b| a != b),
    ];
    for (op, f) in ops {
        for (d, want) in dets(&[T::C(1), T::C(2)]) {
            let spec = format!("x,comp,{op}[{d},p-r],num");
            ctx.case("comparison with a column group", &[spec.as_bytes()], || {
                let mut m = MatchMaker::make_line(&spec).map_err(|e| e.to_string())?;
                m.lookup(&["x", "p", "q", "r"]).map_err(|e| e.to_string())?;
                for k in 0..256usize {
                    let c = [vals[k & 3], vals[k >> 2 & 3], vals[k >> 4 & 3], vals[k >> 6 & 3]];
                    let y = c[1..].iter().filter(|v| f(num(c[0]), num(v))).count();
                    let w = want(y, 3 - y).unwrap();
                    let l = join(&c, b'\t');
                    if m.ok(&mkline(&l)) != w {
                        return Err(format!("line {} gave {}", esc(&l), !w));
                    }
                }
                Ok(())
            });
        }
    }
}
/// the ways of naming the columns a comparison is with
fn comp_columns(ctx: &mut Ctx) {
    let vals: [&[u8]; 4] = [b"1", b"2", b"10", b"9"];
    let num = |x: &[u8]| std::str::from_utf8(x).unwrap().parse::<i64>().unwrap();
    let ops: [(&str, fn(i64, i64) -> bool); 8] = [
        ("<", |a, b| a < b), ("<=", |a, b| a <= b), (">", |a, b| a > b), ("!=", |a, b| a != b),
        ("LT.", |a, b| a < b), ("ge.", |a, b| a >= b), ("EQ.", |a, b| a == b), ("Ne.", |a, b| a != b),
    ];
    let some: fn(usize, usize) -> bool = |y, _| y > 0;
    let all: fn(usize, usize) -> bool = |_, n| n == 0;
    let mixed: fn(usize, usize) -> bool = |y, n| y > 0 && n > 0;
    let groups: [(&str, &[usize], fn(usize, usize) -> bool); 9] = [
        ("p", &[1], some), ("2", &[1], some), ("été", &[2], some), ("[été]", &[2], some), ("p-été", &[1, 2], some),
        ("[p,r]", &[1, 3], some), ("[ALL,p-r]", &[1, 2, 3], all), ("[All,été,r]", &[2, 3], all), ("[Mixed,2-4]", &[1, 2, 3], mixed),
    ];
    for (op, f) in ops {
        for (g, cs, want) in groups {
            let spec = format!("x,comp,{op}{g},num");
            ctx.case("the columns of a comparison", &[spec.as_bytes()], || {
                let mut m = MatchMaker::make_line(&spec).map_err(|e| e.to_string())?;
                m.lookup(&["x", "p", "été", "r"]).map_err(|e| e.to_string())?;
                for k in 0..256usize {
                    let c = [vals[k & 3], vals[k >> 2 & 3], vals[k >> 4 & 3], vals[k >> 6 & 3]];
                    let y = cs.iter().filter(|v| f(num(c[0]), num(c[**v]))).count();
                    let w = want(y, cs.len() - y);
                    let l = join(&c, b'\t');
                    if m.ok(&mkline(&l)) != w {
                        return Err(format!("line {} gave {}", esc(&l), !w));
                    }
                }
                Ok(())
            });
        }
    }
}
/// the plain meaning of a method; ic = ignore case
fn plain(method: &str, pat: &str, t: &[u8], ic: bool) -> bool {
    let (p, t) = if ic { (pat.to_ascii_lowercase(), t.to_ascii_lowercase()) } else { (pat.to_string(), t.to_vec()) };
    let p = p.as_bytes();
    match method {
        "exact" => p == t,
        "prefix" => t.starts_with(p),
        "suffix" => t.ends_with(p),
        "infix" | "substr" => p.is_empty() || t.windows(p.len()).any(|w| w == p),
        "empty" => t.is_empty(),
        "yes" => true,
        "length" => {
            let v: Vec<usize> = pat.split(',').map(|x| x.parse().unwrap()).collect();
            t.len() >= v[0] && (v.len() < 2 || t.len() <= v[1])
        }
        "blank" => t.iter().all(|c| *c <= b' '),
        _ => unreachable!(),
    }
}
fn trim(t: &[u8]) -> &[u8] {
    let mut t = t;
    while !t.is_empty() && t[0] <= b' ' {
        t = &t[1..];
    }
    while !t.is_empty() && t[t.len() - 1] <= b' ' {
        t = &t[..t.len() - 1];
    }
    t
}
fn with_mods(mods: u32, method: &str, pats: &[&str], t: &[u8]) -> bool {
    let (neg, tr, null, ic) = (mods & 1 > 0, mods & 2 > 0, mods & 4 > 0, mods & 8 > 0);
    let t = if tr { trim(t) } else { t };
    let one = |p: &str| plain(method, p, t, ic) || (null && t.is_empty());
    let r = match mods >> 5 & 3 {
        0 => one(pats[0]),
        1 => pats.iter().all(|p| one(p)),
        _ => pats.iter().any(|p| one(p)),
    };
    neg ^ r
}
fn mod_spec(rng: &mut Rng, mods: u32, method: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for (i, s) in ["not", "trim", "null", "case", "utf8"].iter().enumerate() {
        if mods >> i & 1 == 1 {
            v.push(s);
        }
    }
    match mods >> 5 & 3 {
        0 => (),
        1 => v.push("and"),
        _ => v.push("or"),
    }
    v.push(method);
    for i in (1..v.len()).rev() {
        let j = rng.below(i + 1);
        v.swap(i, j);
    }
    v.join(".")
}
fn mods(ctx: &mut Ctx, rng: &mut Rng) {
    let texts = all_strings(b"aB ", ctx.n(4, 5));
    for method in ["exact", "prefix", "suffix", "infix", "substr", "empty", "yes", "length", "blank"] {
        for m in 0..96u32 {
            let spec = mod_spec(rng, m, method);
            let pats: Vec<String> = (0..3)
                .map(|_| if method == "length" { if rng.flip() { format!("{}", rng.below(4)) } else { format!("{},{}", rng.below(3), rng.range(1, 4)) } } else { String::from_utf8(rng.bytes(b"aAB ", 3)).unwrap() })
                .collect();
            let pats = &pats[..rng.range(1, 3)];
            let pr: Vec<&str> = pats.iter().map(|x| x.as_str()).collect();
            let pat = if m >> 5 & 3 == 0 { pats[0].clone() } else { format!(";{}", pats.join(";")) };
            ctx.case("modifiers", &[spec.as_bytes(), pat.as_bytes()], || {
                let x = MatchMaker::make2(&spec, &pat).map_err(|e| e.to_string())?;
                let mut line = MatchMaker::make_line(&format!(",{spec},{pat}")).map_err(|e| e.to_string())?;
                let mut colm = MatchMaker::make_line(&format!("2,{spec},{pat}")).map_err(|e| e.to_string())?;
                colm.lookup(&["q", "r", "s"]).map_err(|e| e.to_string())?;
                for t in &texts {
                    let w = with_mods(m, method, &pr, t);
                    if x.umatch(t) != w || x.smatch(std::str::from_utf8(t).unwrap()) != w {
                        return Err(format!("text {} gave {}", esc(t), !w));
                    }
                    if x.do_match(t).ok() != Some(w) || x.do_match_safe(t) != w {
                        return Err(format!("do_match of {} differs from {w}", esc(t)));
                    }
                    if line.ok(&mkline(t)) != w {
                        return Err(format!("whole line {} gave {}", esc(t), !w));
                    }
                    if colm.ok(&mkline(&join(&[b"a", t, b"B"], b'\t'))) != w {
                        return Err(format!("column {} gave {}", esc(t), !w));
                    }
                }
                Ok(())
            });
        }
    }
}
fn lists(ctx: &mut Ctx, rng: &mut Rng) {
    let vals: [&[u8]; 4] = [b"a", b"b", b"ab", b""];
    for _ in 0..ctx.n(1500, 15000) {
        let n = rng.range(0, 4);
        let mut specs = vec![];
        let mut meaning: Vec<(usize, &str, &str, bool)> = vec![];
        for _ in 0..n {
            let c = rng.below(3);
            let method = *rng.pick(&["exact", "prefix", "suffix", "infix"]);
            let pat = *rng.pick(&["a", "b", "ab"]);
            let neg = rng.flip();
            specs.push(format!("{},{}{method},{pat}", c + 1, if neg { "not." } else { "" }));
            meaning.push((c, method, pat, neg));
        }
        let inp: Vec<&[u8]> = specs.iter().map(|x| x.as_bytes()).collect();
        ctx.case("lists of line matchers", &inp, || {
            for and in [true, false] {
                let multi = if and { Combiner::And } else { Combiner::Or };
                let mut list = LineMatcherList::new_with(multi);
                for s in &specs {
                    list.push(s).map_err(|e| e.to_string())?;
                }
                list.lookup(&["x", "y", "z"]).map_err(|e| e.to_string())?;
                for k in 0..64usize {
                    let c = [vals[k & 3], vals[k >> 2 & 3], vals[k >> 4]];
                    let hit = |m: &(usize, &str, &str, bool)| plain(m.1, m.2, c[m.0], false) ^ m.3;
                    let w = if and { meaning.iter().all(hit) } else { meaning.iter().any(hit) };
                    let l = join(&c, b'\t');
                    if list.ok(&mkline(&l)) != w || list.ok_tagged(&mkline(&l), multi) != w {
                        return Err(format!("{multi:?}: line {} gave {}", esc(&l), !w));
                    }
                    if k % 13 == 0 && (list.ok_verbose(&mkline(&l), 1, "f") != w || list.ok_verbose_tagged(&mkline(&l), multi, 1, "f") != w) {
                        return Err(format!("{multi:?} ok_verbose: line {} gave {}", esc(&l), !w));
                    }
                    if LineMatch::ok(&mut list, &mkline(&l)) != w || (k % 13 == 0 && LineMatch::ok_verbose(&mut list, &mkline(&l), 1, "f") != w) {
                        return Err(format!("{multi:?} as a LineMatch: line {} gave {}", esc(&l), !w));
                    }
                }
                let mut ml = MatcherList::new_with(multi);
                for m in &meaning {
                    ml.push(&format!("{}{},{}", if m.3 { "not." } else { "" }, m.1, m.2)).map_err(|e| e.to_string())?;
                }
                for t in all_strings(b"ab", 3) {
                    let hit = |m: &(usize, &str, &str, bool)| plain(m.1, m.2, &t, false) ^ m.3;
                    let w = if and { meaning.iter().all(hit) } else { meaning.iter().any(hit) };
                    if ml.umatch(&t) != w || ml.smatch(std::str::from_utf8(&t).unwrap()) != w {
                        return Err(format!("{multi:?} of values: {} gave {}", esc(&t), !w));
                    }
                }
            }
            Ok(())
        });
    }
}
/// whole-line matchers: a number expression, and a column count
fn whole(ctx: &mut Ctx) {
    let vals: [&[u8]; 5] = [b"0", b"1", b"2", b"-1", b"10"];
    let num = |x: &[u8]| std::str::from_utf8(x).unwrap().parse::<i64>().unwrap();
    let exprs: [(&str, fn(i64, i64) -> bool); 9] = [
        ("x", |x, _| x != 0),
        ("x+y", |x, y| x + y != 0),
        ("x-y", |x, y| x != y),
        ("x*y", |x, y| x * y != 0),
        ("x<y", |x, y| x < y),
        ("x>=y", |x, y| x >= y),
        ("x==y", |x, y| x == y),
        ("x!=y", |x, y| x != y),
        ("2*x-y", |x, y| 2 * x != y),
    ];
    for (e, f) in exprs {
        ctx.case("expression matchers", &[e.as_bytes()], || {
            let mut m = MatchMaker::make_line(&format!(",expr,{e}")).map_err(|e| e.to_string())?;
            m.lookup(&["q", "x", "y"]).map_err(|e| e.to_string())?;
            for a in vals {
                for b in vals {
                    let w = f(num(a), num(b));
                    let l = mkline(&join(&[b"7", a, b], b'\t'));
                    if m.ok(&l) != w {
                        return Err(format!("x = {}, y = {} gave {}", esc(a), esc(b), !w));
                    }
                    if m.ok_verbose(&l, 1, "f") != w {
                        return Err(format!("ok_verbose: x = {}, y = {} gave {}", esc(a), esc(b), !w));
                    }
                }
            }
            Ok(())
        });
    }
    for n in 1..6usize {
        ctx.case("column count matchers", &[format!("{n}").as_bytes()], || {
            let mut m = MatchMaker::make_line(&format!(",count,{n}")).map_err(|e| e.to_string())?;
            m.lookup(&["q", "x", "y"]).map_err(|e| e.to_string())?;
            for k in 1..8usize {
                for t in [&b"a"[..], b"", b"ab"] {
                    let l = mkline(&join(&vec![t; k], b'\t'));
                    if m.ok(&l) != (k == n) || m.ok_verbose(&l, 1, "f") != (k == n) {
                        return Err(format!("a line of {k} columns gave {}", k != n));
                    }
                }
            }
            Ok(())
        });
    }
}
/// the target is one of the lines of a file
fn file_exact(ctx: &mut Ctx, rng: &mut Rng) {
    let texts = all_strings("aB ".as_bytes(), 3);
    for k in 0..ctx.n(60, 600) {
        let nl = rng.flip();
        let lines: Vec<Vec<u8>> = (0..rng.range(1, 6)).map(|_| rng.bytes(b"aAbB ", 3)).filter(|x| !x.is_empty()).collect();
        if lines.is_empty() {
            continue;
        }
        let mut file = lines.join(&b'\n');
        if nl {
            file.push(b'\n');
        }
        let path = ctx.dir.join(format!("fx{k}"));
        std::fs::write(&path, &file).unwrap();
        let m = rng.below(32) as u32;
        let spec = mod_spec(rng, m, *["file-exact", "fileexact"].get(k % 2).unwrap());
        let (neg, tr, null, ic) = (m & 1 > 0, m & 2 > 0, m & 4 > 0, m & 8 > 0);
        ctx.case("lines of a file", &[spec.as_bytes(), &file], || {
            let x = MatchMaker::make2(&spec, path.to_str().unwrap()).map_err(|e| e.to_string())?;
            for t0 in &texts {
                let t = if tr { trim(t0) } else { t0 };
                let hit = lines.iter().any(|l| if ic { l.eq_ignore_ascii_case(t) } else { l == t });
                let w = (hit || (null && t.is_empty())) ^ neg;
                if x.umatch(t0) != w || x.smatch(std::str::from_utf8(t0).unwrap()) != w {
                    return Err(format!("text {} gave {}", esc(t0), !w));
                }
            }
            Ok(())
        });
        let _ = std::fs::remove_file(&path);
    }
}
fn tools(ctx: &mut Ctx, rng: &mut Rng) {
    let mut cases = vec![];
    for _ in 0..ctx.n(120, 800) {
        let n = rng.range(1, 3);
        let (or, inv) = (rng.flip(), rng.flip());
        let mut args = strs(&["cgrep"]);
        if or {
            args.push("--or".into());
        }
        if inv {
            args.push("-v".into());
        }
        let mut ms: Vec<Box<dyn Fn(&[&[u8]]) -> bool>> = vec![];
        for _ in 0..n {
            let neg = rng.flip();
            let nt = if neg { "not." } else { "" };
            let pat = *rng.pick(&["a", "b", "ab"]);
            match rng.below(3) {
                0 => {
                    let c = rng.below(3);
                    args.extend(strs(&["-p", &format!("{},{nt}prefix,{pat}", ["x", "y", "z"][c])]));
                    ms.push(Box::new(move |l| l[c].starts_with(pat.as_bytes()) ^ neg));
                }
                1 => {
                    let mut ds = dets(&[T::C(0), T::C(1), T::C(2), T::C(3)]);
                    let (d, f) = ds.swap_remove(rng.below(ds.len()));
                    args.extend(strs(&["-p", &format!("[{d},x-z],{nt}infix,{pat}")]));
                    ms.push(Box::new(move |l| {
                        let y = l.iter().filter(|x| plain("infix", pat, x, false)).count();
                        f(y, 3 - y).unwrap() ^ neg
                    }));
                }
                _ => {
                    args.extend(strs(&["-p", &format!(",{nt}or.infix,;{pat};aa")]));
                    ms.push(Box::new(move |l| {
                        let j = join(l, b'\t');
                        (plain("infix", pat, &j, false) || plain("infix", "aa", &j, false)) ^ neg
                    }));
                }
            }
        }
        let mut file = b" CDX\tx\ty\tz\n".to_vec();
        let mut want = file.clone();
        for _ in 0..rng.range(1, 12) {
            let c: Vec<Vec<u8>> = (0..3).map(|_| rng.bytes(b"abc", 3)).collect();
            let r: Vec<&[u8]> = c.iter().map(|x| &x[..]).collect();
            let mut l = join(&r, b'\t');
            l.push(b'\n');
            file.extend(&l);
            if (if or { ms.iter().any(|m| m(&r)) } else { ms.iter().all(|m| m(&r)) }) ^ inv {
                want.extend(&l);
            }
        }
        args.push("in".into());
        cases.push(ToolCase { group: "cdx cgrep".into(), files: vec![("in".into(), file)], args, stdin: vec![], judge: expect(want) });
    }
    run_tools(ctx, cases);
}
pub fn run(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed);
    determiners(ctx);
    colsets(ctx);
    comps(ctx);
    comp_columns(ctx);
    mods(ctx, &mut rng);
    lists(ctx, &mut rng);
    whole(ctx);
    file_exact(ctx, &mut rng);
    tools(ctx, &mut rng);
}
