//! aggregates summarise exactly the values of their group
use crate::common::*;
use cdx::agg::AggMaker;
use cdx::num::NumFormat;
use std::cmp::Ordering;

type V = Vec<Vec<u8>>;
#[derive(Clone, Debug)]
enum Want {
    Text(Vec<u8>),
    Number(f64),
    /// the documentation does not say
    Any,
}
type Stat = Box<dyn Fn(&[Vec<u8>]) -> Want + Send + Sync>;
fn num(b: &[u8]) -> f64 {
    String::from_utf8_lossy(b).parse().unwrap_or(0.0)
}
fn words8(d: &[u8], f: fn(u8) -> bool) -> usize {
    d.split(|c| !f(*c)).filter(|p| !p.is_empty()).count()
}
fn wordsc(d: &[u8], f: fn(char) -> bool) -> usize {
    String::from_utf8_lossy(d).split(|c: char| !f(c)).filter(|p| !p.is_empty()).count()
}
type Counter = fn(&[u8]) -> usize;
fn counters() -> Vec<(&'static str, Counter)> {
    vec![
        ("chars", |d| d.len()),
        ("utf8.chars", |d| String::from_utf8_lossy(d).chars().count()),
        ("swords", |d| words8(d, |c| c > b' ')),
        ("utf8.swords", |d| wordsc(d, |c| !c.is_whitespace())),
        ("awords", |d| words8(d, |c| c.is_ascii_alphanumeric())),
        ("utf8.awords", |d| wordsc(d, char::is_alphanumeric)),
    ]
}
type Cmp = fn(&[u8], &[u8]) -> Ordering;
fn comps() -> Vec<(&'static str, Cmp)> {
    vec![
        ("", |a, b| a.cmp(b)),
        ("plain", |a, b| a.cmp(b)),
        ("lower", |a, b| a.to_ascii_lowercase().cmp(&b.to_ascii_lowercase())),
        ("length", |a, b| a.len().cmp(&b.len())),
        ("rev", |a, b| b.cmp(a)),
        ("rev.num", |a, b| num(b).partial_cmp(&num(a)).unwrap()),
        ("num", |a, b| num(a).partial_cmp(&num(b)).unwrap()),
    ]
}
fn min_by(v: &[Vec<u8>], c: Cmp, keep: Ordering) -> Vec<u8> {
    let mut b: Option<&Vec<u8>> = None;
    for x in v {
        if b.map_or(true, |b| c(b, x) == keep) {
            b = Some(x);
        }
    }
    b.cloned().unwrap_or_default()
}
fn prefix(v: &[Vec<u8>]) -> Vec<u8> {
    let Some(f) = v.first() else { return vec![] };
    let n = (0..=f.len()).rev().find(|n| v.iter().all(|x| x.starts_with(&f[..*n]))).unwrap();
    f[..n].to_vec()
}
fn suffix(v: &[Vec<u8>]) -> Vec<u8> {
    let Some(f) = v.first() else { return vec![] };
    let n = (0..=f.len()).find(|n| v.iter().all(|x| x.ends_with(&f[*n..]))).unwrap();
    f[n..].to_vec()
}
#[derive(Clone, Copy)]
struct Merge {
    d: u8,
    o: u8,
    sort: bool,
    uniq: bool,
    count: bool,
    min: usize,
    max: usize,
    parts: usize,
    comp: usize,
}
impl Merge {
    fn spec(&self, r: &mut Rng) -> String {
        let mut p = vec![];
        if self.d != b',' || self.o != b',' || r.flip() {
            p.push(format!("D{}{}", self.d as char, self.o as char));
        }
        for (b, n) in [(self.sort, "sort"), (self.uniq, "uniq"), (self.count, "count")] {
            if b {
                p.push(n.to_string());
            }
        }
        for (b, n) in [(self.min > 0, format!("min_len:{}", self.min)), (self.max < 99, format!("max_len:{}", self.max)), (self.parts < 99, format!("max_parts:{}", self.parts))] {
            if b {
                p.push(n);
            }
        }
        for i in (1..p.len()).rev() {
            let j = r.below(i + 1);
            p.swap(i, j);
        }
        if self.comp > 0 {
            p.push(format!("comp:{}", comps()[self.comp].0));
        }
        if p.is_empty() {
            "merge".into()
        } else {
            format!("merge,{}", p.join("."))
        }
    }
    fn want(&self, v: &[Vec<u8>]) -> Want {
        let cmp = comps()[self.comp].1;
        let mut p: V = v.iter().filter(|x| !x.is_empty()).flat_map(|x| x.split(|c| *c == self.d).map(<[u8]>::to_vec)).collect();
        if self.sort {
            p.sort_by(|a, b| cmp(a, b));
        }
        if self.uniq {
            p.dedup_by(|a, b| cmp(a, b) == Ordering::Equal);
        }
        if self.count {
            return Want::Number(p.len() as f64);
        }
        let p: Vec<&[u8]> = p.iter().filter(|x| x.len() >= self.min && x.len() <= self.max).take(self.parts).map(|x| &x[..]).collect();
        Want::Text(join(&p, self.o))
    }
}
fn merge(r: &mut Rng) -> (String, Stat) {
    let count = r.below(4) == 0;
    let m = Merge {
        d: *r.pick(b",,;:"),
        o: *r.pick(b",,;|."),
        sort: r.flip(),
        uniq: r.flip(),
        count,
        min: if r.below(4) == 0 { r.range(1, 3) } else { 0 },
        max: if r.below(4) == 0 { r.range(0, 3) } else { 99 },
        parts: if r.below(3) == 0 { r.below(4) } else { 99 },
        comp: r.below(comps().len()),
    };
    (m.spec(r), Box::new(move |v| m.want(v)))
}
/// all the others
fn stats() -> Vec<(String, Stat)> {
    let mut s: Vec<(String, Stat)> = vec![
        ("count".into(), Box::new(|v| Want::Number(v.len() as f64))),
        ("count,7".into(), Box::new(|v| Want::Number(v.len() as f64 + 7.0))),
        ("count,-2".into(), Box::new(|v| Want::Number(v.len() as f64 - 2.0))),
        ("sum".into(), Box::new(|v| Want::Number(v.iter().map(|x| num(x)).sum()))),
        ("prefix".into(), Box::new(|v| Want::Text(prefix(v)))),
        ("suffix".into(), Box::new(|v| Want::Text(suffix(v)))),
    ];
    for n in ["mean", "avg"] {
        s.push((n.into(), Box::new(|v| Want::Number(if v.is_empty() { 0.0 } else { v.iter().map(|x| num(x)).sum::<f64>() / v.len() as f64 }))));
    }
    for (n, c) in comps() {
        let pat = if n.is_empty() { String::new() } else { format!(",{n}") };
        for name in ["min", "minimum"] {
            s.push((format!("{name}{pat}"), Box::new(move |v| Want::Text(min_by(v, c, Ordering::Greater)))));
        }
        for name in ["max", "maximum"] {
            s.push((format!("{name}{pat}"), Box::new(move |v| Want::Text(min_by(v, c, Ordering::Less)))));
        }
    }
    for (n, c) in counters() {
        s.push((format!("asum,{n}"), Box::new(move |v| Want::Number(v.iter().map(|x| c(x)).sum::<usize>() as f64))));
        s.push((format!("amin,{n}"), Box::new(move |v| v.iter().map(|x| c(x)).min().map_or(Want::Any, |n| Want::Number(n as f64)))));
        s.push((format!("amax,{n}"), Box::new(move |v| Want::Number(v.iter().map(|x| c(x)).max().unwrap_or(0) as f64))));
        for name in ["amean", "aavg"] {
            s.push((format!("{name},{n}"), Box::new(move |v| Want::Number(if v.is_empty() { 0.0 } else { v.iter().map(|x| c(x)).sum::<usize>() as f64 / v.len() as f64 }))));
        }
    }
    s
}
fn same(got: &[u8], want: &Want) -> R {
    match want {
        Want::Any => Ok(()),
        Want::Text(t) => {
            if got == &t[..] {
                Ok(())
            } else {
                Err(format!("got {} expected {}", esc(got), esc(t)))
            }
        }
        Want::Number(n) => {
            let x: f64 = String::from_utf8_lossy(got).parse().map_err(|_| format!("got {} expected {n}", esc(got)))?;
            if (x - n).abs() <= 1e-9 * n.abs().max(1.0) {
                Ok(())
            } else {
                Err(format!("got {x} expected {n}"))
            }
        }
    }
}
#[derive(Clone, Debug)]
enum Op {
    Add(Vec<u8>),
    Result,
    Reset,
}
fn history(spec: &str, ops: &[Op], stat: &Stat) -> R {
    let agg = AggMaker::make(spec).map_err(|e| format!("{spec} : {e}"))?;
    let mut v: V = vec![];
    for (i, o) in ops.iter().enumerate() {
        match o {
            Op::Add(x) => {
                agg.borrow_mut().add(x);
                v.push(x.clone());
            }
            Op::Reset => {
                agg.borrow_mut().reset();
                v.clear();
            }
            Op::Result => {
                let mut out = b"before".to_vec();
                agg.borrow_mut().result(&mut out, NumFormat::default()).map_err(|e| e.to_string())?;
                if !out.starts_with(b"before") {
                    return Err("the output was rewritten".into());
                }
                let want = stat(&v);
                same(&out[6..], &want).map_err(|e| format!("step {i} of {spec}: {e}"))?;
                if let Want::Number(n) = want {
                    let x = agg.borrow().value();
                    if !spec.starts_with("merge") && (x - n).abs() > 1e-9 * n.abs().max(1.0) {
                        return Err(format!("step {i} of {spec}: value {x} expected {n}"));
                    }
                }
            }
        }
    }
    Ok(())
}
fn show(ops: &[Op]) -> Vec<u8> {
    let mut s = vec![];
    for o in ops {
        match o {
            Op::Add(x) => {
                s.extend_from_slice(b"+");
                s.extend_from_slice(x);
            }
            Op::Result => s.extend_from_slice(b"?"),
            Op::Reset => s.extend_from_slice(b"!"),
        }
        s.push(b' ');
    }
    s
}
fn value(r: &mut Rng, spec: &str) -> Vec<u8> {
    if spec.starts_with("sum") || spec.starts_with("mean") || spec.starts_with("avg") || spec.contains("num") {
        let n = r.below(400) as i64 - 150;
        return if r.flip() { n.to_string().into_bytes() } else { (n as f64 / 4.0).to_string().into_bytes() };
    }
    if spec.contains("chars") || spec.contains("words") {
        return r.pick(&[&b""[..], b"a", b"two words", b" a  b ", b"a-b.c", "\u{e9}t\u{e9} \u{2003}x".as_bytes(), b"\xff\xfe x", b"\x01 \x02", b"a\tb", "na\u{ef}ve".as_bytes(), b"_", b"A1 b2", b"one two three four five six seven"]).to_vec();
    }
    if spec.starts_with("merge") {
        return r.bytes(b"aab,,;:B", 5);
    }
    if spec.starts_with("prefix") || spec.starts_with("suffix") {
        let mut v = r.pick(&[&b"abcabc"[..], b"abc", b"abcd", b"", b"xabc"]).to_vec();
        if r.flip() {
            v.extend_from_slice(&r.bytes(b"abc", 2));
        }
        return v;
    }
    r.bytes(b"aAbBc", 3)
}
fn ops(r: &mut Rng, spec: &str) -> Vec<Op> {
    let n = r.range(1, 12);
    let mut v: Vec<Op> = (0..n)
        .map(|_| match r.below(8) {
            0 => Op::Reset,
            1 => Op::Result,
            _ => Op::Add(value(r, spec)),
        })
        .collect();
    v.push(Op::Result);
    v.push(Op::Result);
    v
}
pub fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.seed ^ 0xC23);
    let all = stats();
    // prefix and suffix of every two and three short values
    let short = all_strings(b"ab", 2);
    for (spec, stat) in all.iter().filter(|s| s.0 == "prefix" || s.0 == "suffix" || s.0 == "min" || s.0 == "max,lower") {
        for a in &short {
            for b in &short {
                for c in &short {
                    let o = vec![Op::Add(a.clone()), Op::Add(b.clone()), Op::Result, Op::Add(c.clone()), Op::Result];
                    ctx.case(&format!("agg {spec}"), &[&show(&o)], || history(spec, &o, stat));
                }
            }
        }
    }
    for _ in 0..ctx.n(150, 1500) {
        for (spec, stat) in &all {
            let o = ops(&mut r, spec);
            ctx.case(&format!("agg {}", spec.split(',').next().unwrap()), &[spec.as_bytes(), &show(&o)], || history(spec, &o, stat));
        }
        for _ in 0..20 {
            let (spec, stat) = merge(&mut r);
            let o = ops(&mut r, &spec);
            ctx.case("agg merge", &[spec.as_bytes(), &show(&o)], || history(&spec, &o, &stat));
        }
    }
    // through uniq: groups of lines with equal first column
    let mut cases = vec![];
    for _ in 0..ctx.n(800, 8000) {
        let mut chosen: Vec<(String, Stat)> = vec![];
        let mut kind = 0;
        let k = r.range(1, 3);
        for i in 0..k {
            let (s, t) = if r.below(3) == 0 { merge(&mut r) } else { stats().swap_remove(r.below(all.len())) };
            if i == 0 {
                kind = if s.contains("num") || s.starts_with("sum") || s.starts_with("mean") || s.starts_with("avg") { 1 } else { 2 };
            }
            let k = if s.contains("num") || s.starts_with("sum") || s.starts_with("mean") || s.starts_with("avg") { 1 } else { 2 };
            if k == kind {
                chosen.push((s, t));
            }
        }
        let head = r.flip();
        let groups = r.range(1, 4);
        let mut file = if head { b" CDX\tk\tv\n".to_vec() } else { vec![] };
        let mut want: Vec<(Vec<u8>, Vec<Want>)> = vec![];
        for g in 0..groups {
            let vals: V = (0..r.range(1, 5)).map(|_| loop {
                let v = value(&mut r, if kind == 1 { "sum" } else { &chosen[0].0 });
                if !v.contains(&b'\t') {
                    break v;
                }
            }).collect();
            let key = format!("g{g}");
            for v in &vals {
                file.extend_from_slice(&join(&[key.as_bytes(), v], b'\t'));
                file.push(b'\n');
            }
            want.push((join(&[key.as_bytes(), &vals[0]], b'\t'), chosen.iter().map(|c| (c.1)(&vals)).collect()));
        }
        let mut args = strs(&["uniq", "-k", "1"]);
        for (i, c) in chosen.iter().enumerate() {
            args.extend(strs(&["--agg-post", &format!("n{i},2,{}", c.0)]));
        }
        args.push("f".into());
        cases.push(ToolCase {
            group: "uniq --agg-post".into(),
            files: vec![("f".into(), file)],
            args,
            stdin: vec![],
            judge: Box::new(move |o| {
                if o.code != 0 {
                    return Err(format!("exit {} : {}", o.code, esc(&o.err)));
                }
                let mut l = out_lines(&o.out)?;
                if head {
                    if l.is_empty() || !l[0].starts_with(b" CDX\tk\tv") {
                        return Err(format!("header : {}", esc(&o.out)));
                    }
                    l.remove(0);
                }
                if l.len() != want.len() {
                    return Err(format!("{} lines expected {}", l.len(), want.len()));
                }
                for (x, y) in l.iter().zip(&want) {
                    let c = cols(x);
                    if c.len() != 2 + y.1.len() || join(&c[..2], b'\t') != y.0 {
                        return Err(format!("line {}", esc(x)));
                    }
                    for (g, w) in c[2..].iter().zip(&y.1) {
                        same(g, w)?;
                    }
                }
                Ok(())
            }),
        });
    }
    // expressions and the three places
    for _ in 0..ctx.n(200, 2000) {
        let (mut file, mut want) = (b" CDX\tk\tv\n".to_vec(), b" CDX\tn\tk\tv\tx\ty\n".to_vec());
        for g in 0..r.range(1, 4) {
            let vals: Vec<i64> = (0..r.range(1, 5)).map(|_| r.below(9) as i64 + 1).collect();
            for v in &vals {
                file.extend_from_slice(format!("g{g}\t{v}\n").as_bytes());
            }
            let (mut s, mut m) = (1, 2);
            for v in &vals {
                s = s * 2 - v;
                m = v - m;
            }
            let num = |n: i64| {
                let mut o = vec![];
                NumFormat::default().print(n as f64, &mut o).unwrap();
                String::from_utf8(o).unwrap()
            };
            want.extend_from_slice(format!("{}\tg{g}\t{}\t{}\t{}\n", vals.len(), vals.iter().max().unwrap(), num(s), num(m)).as_bytes());
        }
        cases.push(ToolCase {
            group: "uniq expr and places".into(),
            files: vec![("f".into(), file)],
            args: strs(&["uniq", "-k", "1", "--agg-post", "x,expr,s,1,s*2-v", "--agg-post", "y,expr,m,2,v-m", "--agg-pre", "n,v,count", "-a", "v,max,num", "f"]),
            stdin: vec![],
            judge: expect(want),
        });
    }
    // through wc: every file on its own, and the totals
    for _ in 0..ctx.n(300, 3000) {
        let cs = counters();
        let columns = r.below(3) == 0;
        let n = r.range(2, 4);
        let head = columns || r.flip();
        let chosen: Vec<usize> = (0..r.range(1, 3)).map(|_| r.below(cs.len())).collect();
        let mut files = vec![];
        let mut data: Vec<V> = vec![];
        for i in 0..n {
            let m = if columns { r.below(4) } else { r.range(1, 4) };
            let lines: V = (0..m).map(|_| join(&[*r.pick(&[&b"x"[..], b"two words", "\u{e9}".as_bytes(), b"a-b"]), *r.pick(&[&b""[..], b"yy", b"1 2 3"])], b'\t')).collect();
            let mut f = if head { b" CDX\ta\tb\n".to_vec() } else { vec![] };
            for l in &lines {
                f.extend_from_slice(l);
                f.push(b'\n');
            }
            files.push((format!("f{i}"), f));
            data.push(lines);
        }
        let mut args = strs(&["wc", "-h", "no", "-t", "yes"]);
        for c in &chosen {
            args.extend(strs(&["-a", &format!("x,asum,{}", cs[*c].0)]));
        }
        if columns {
            args.push("-C".into());
        }
        args.extend(files.iter().map(|f| f.0.clone()));
        let mut rows: Vec<(String, Vec<f64>)> = vec![];
        if columns {
            for j in 0..2 {
                rows.push((["a", "b"][j].into(), chosen.iter().map(|c| data.iter().flatten().map(|l| (cs[*c].1)(col(l, j))).sum::<usize>() as f64).collect()));
            }
        } else {
            for (i, d) in data.iter().enumerate() {
                let full = |l: &Vec<u8>| {
                    let mut l = l.clone();
                    l.push(b'\n');
                    l
                };
                rows.push((format!("f{i}"), chosen.iter().map(|c| d.iter().map(|l| (cs[*c].1)(&full(l))).sum::<usize>() as f64).collect()));
            }
        }
        rows.push(("totals".into(), (0..chosen.len()).map(|k| rows.iter().map(|x| x.1[k]).sum()).collect()));
        cases.push(ToolCase {
            group: if columns { "wc --columns".into() } else { "wc".into() },
            files,
            args,
            stdin: vec![],
            judge: Box::new(move |o| {
                if o.code != 0 {
                    return Err(format!("exit {} : {}", o.code, esc(&o.err)));
                }
                let l = out_lines(&o.out)?;
                if l.len() != rows.len() {
                    return Err(format!("{} expected {} lines", esc(&o.out), rows.len()));
                }
                for (x, y) in l.iter().zip(&rows) {
                    let c = cols(x);
                    if c.len() != y.1.len() + 1 || c[0] != y.0.as_bytes() {
                        return Err(format!("line {} for {}", esc(x), y.0));
                    }
                    for (g, w) in c[1..].iter().zip(&y.1) {
                        same(g, &Want::Number(*w))?;
                    }
                }
                Ok(())
            }),
        });
    }
    run_tools(ctx, cases);
}
