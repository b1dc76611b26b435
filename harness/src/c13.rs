//! comparison operators and checks mean what they say
use crate::common::*;
use cdx::matcher::MatchMaker;
use cdx::prelude::*;
use cdx::util::{CheckBuff, CheckLine, CompareOp};
use std::cmp::Ordering;
use std::cmp::Ordering::*;

type F = fn(Ordering) -> bool;
const OPS: [(&str, &str, F); 6] = [
    ("<", "LT", |o| o == Less),
    ("<=", "LE", |o| o != Greater),
    (">", "GT", |o| o == Greater),
    (">=", "GE", |o| o != Less),
    ("==", "EQ", |o| o == Equal),
    ("!=", "NE", |o| o != Equal),
];
fn flip(o: Ordering) -> Ordering {
    match o {
        Less => Greater,
        Greater => Less,
        Equal => Equal,
    }
}
fn ops(ctx: &mut Ctx) {
    for (sym, name, f) in OPS {
        for s in [sym.to_string(), name.to_string(), name.to_lowercase()] {
            ctx.case("operators", &[s.as_bytes()], || {
                let op: CompareOp = s.parse().map_err(|_| "does not parse".to_string())?;
                for o in [Less, Equal, Greater] {
                    if op.ord_ok(o) != f(o) {
                        return Err(format!("{s} of {o:?} gave {}", !f(o)));
                    }
                    if op.invert().ord_ok(flip(o)) != f(o) {
                        return Err(format!("{s} with its operands swapped, of {:?}, gave {}", flip(o), !f(o)));
                    }
                }
                Ok(())
            });
        }
    }
}
/// comparators with an independent meaning
fn ord(c: &str, a: &[u8], b: &[u8]) -> Ordering {
    let (c, rev) = match c.strip_suffix(".rev") {
        Some(x) => (x, true),
        None => (c, false),
    };
    let o = match c {
        "" | "plain" => a.cmp(b),
        "lower" => a.to_ascii_lowercase().cmp(&b.to_ascii_lowercase()),
        "len" => a.len().cmp(&b.len()),
        "num" => {
            let p = |x: &[u8]| std::str::from_utf8(x).unwrap().parse::<i64>().unwrap();
            p(a).cmp(&p(b))
        }
        _ => unreachable!(),
    };
    if rev {
        flip(o)
    } else {
        o
    }
}
const COMPS: [&str; 8] = ["plain", "lower", "len", "num", "plain.rev", "num.rev", "len.rev", "lower.rev"];
fn vals(c: &str) -> Vec<Vec<u8>> {
    let v: Vec<&str> = if c.starts_with("num") {
        vec!["0", "1", "2", "10", "-3", "5", "9"]
    } else {
        vec!["a", "b", "A", "ab", "aB", "B", "bc", "1", "abc"]
    };
    v.iter().map(|x| x.as_bytes().to_vec()).collect()
}
struct Range {
    spec: String,
    one: (usize, Vec<u8>),
    two: Option<(usize, Vec<u8>)>,
}
impl Range {
    fn want(&self, c: &str, x: &[u8]) -> bool {
        OPS[self.one.0].2(ord(c, x, &self.one.1)) && self.two.as_ref().is_none_or(|t| OPS[t.0].2(ord(c, x, &t.1)))
    }
}
fn ranges(v: &[Vec<u8>]) -> Vec<Range> {
    let mut r = vec![];
    let s = |x: &[u8]| String::from_utf8(x.to_vec()).unwrap();
    for i in 0..6 {
        for a in v {
            r.push(Range { spec: format!("{}{}", OPS[i].0, s(a)), one: (i, a.clone()), two: None });
            r.push(Range { spec: format!("{},{}", OPS[i].1, s(a)), one: (i, a.clone()), two: None });
            for j in 0..6 {
                for b in v {
                    r.push(Range { spec: format!("{}{}{}{}", OPS[i].0, s(a), OPS[j].0, s(b)), one: (i, a.clone()), two: Some((j, b.clone())) });
                    if (i + j) % 3 == 0 {
                        r.push(Range { spec: format!("{},{},{},{}", OPS[i].1, s(a), OPS[j].1, s(b)), one: (i, a.clone()), two: Some((j, b.clone())) });
                    }
                }
            }
        }
    }
    r
}
fn checks(ctx: &mut Ctx) {
    for c in COMPS {
        let v = vals(c);
        for r in ranges(&v) {
            ctx.case("ranges", &[c.as_bytes(), r.spec.as_bytes()], || {
                let buff = CheckBuff::new(&format!("{c},{}", r.spec)).map_err(|e| e.to_string())?;
                let m = MatchMaker::make2("range", &format!("{c},{}", r.spec)).map_err(|e| e.to_string())?;
                let nm = MatchMaker::make2("not.range", &format!("{c},{}", r.spec)).map_err(|e| e.to_string())?;
                let line = CheckLine::new(&r.spec).map_err(|e| e.to_string())?;
                let mut one = LineCompList::new();
                one.add(&format!("2,{c}")).map_err(|e| e.to_string())?;
                one.lookup(&["p", "q"]).map_err(|e| e.to_string())?;
                let mut whole = LineCompList::new();
                whole.add(&format!(",{c}")).map_err(|e| e.to_string())?;
                whole.lookup(&["p", "q"]).map_err(|e| e.to_string())?;
                for x in &v {
                    let w = r.want(c, x);
                    if buff.buff_ok(x) != w {
                        return Err(format!("range matcher of {} gave {}", esc(x), !w));
                    }
                    if m.umatch(x) != w || nm.umatch(x) == w {
                        return Err(format!("range matcher (or its negation) of {} is not {w}", esc(x)));
                    }
                    let l = mkline(&join(&[b"zz", x], b'\t'));
                    if line.line_ok(&l, &mut one).map_err(|e| e.to_string())? != w {
                        return Err(format!("CheckLine::line_ok of column {} gave {}", esc(x), !w));
                    }
                    if line.line_ok(&mkline(x), &mut whole).map_err(|e| e.to_string())? != w {
                        return Err(format!("CheckLine::line_ok of line {} gave {}", esc(x), !w));
                    }
                }
                Ok(())
            });
        }
    }
}
struct Cond {
    args: Vec<String>,
    ok: Box<dyn Fn(&[Vec<u8>]) -> bool>,
}
fn tools(ctx: &mut Ctx, rng: &mut Rng) {
    let mut cases = vec![];
    for _ in 0..ctx.n(700, 6000) {
        let num = rng.flip();
        let cmp = if num { *rng.pick(&["num", "num.rev"]) } else { *rng.pick(&["plain", "lower", "plain.rev"]) };
        let alpha: &[u8] = if num { b"0123" } else { b"aAbB" };
        let mut sets: Vec<Vec<Vec<u8>>> = vec![];
        for _ in 0..if rng.below(3) == 0 { 2 } else { 1 } {
        let n = rng.range(1, 6);
        let mut lines: Vec<Vec<u8>> = vec![];
        for _ in 0..n {
            let mut c = rng.bytes(alpha, 2);
            if c.is_empty() {
                c.push(alpha[0]);
            }
            let d = rng.bytes(b"xy", 2);
            lines.push(join(&[&c, &d], b'\t'));
        }
        if rng.below(4) > 0 {
            lines.sort_by(|a, b| ord(cmp, col(a, 0), col(b, 0)));
            if rng.flip() {
                lines.dedup_by(|a, b| ord(cmp, col(a, 0), col(b, 0)) == Equal);
            }
        }
        let ragged = rng.below(8) == 0;
        if ragged {
            let i = rng.below(lines.len());
            lines[i].extend(b"\tmore");
        }
        sets.push(lines);
        }
        let mut conds: Vec<Cond> = vec![];
        conds.push(Cond { args: strs(&["-k", &format!("c,{cmp}")]), ok: Box::new(|l| l.iter().all(|x| cols(x).len() == 2)) });
        for _ in 0..rng.below(3) {
            match rng.below(4) {
                0 => {
                    let uniq = rng.flip();
                    conds.push(Cond {
                        args: strs(&[if uniq { "-u" } else { "-s" }]),
                        ok: Box::new(move |l| {
                            l.windows(2).all(|w| match ord(cmp, col(&w[0], 0), col(&w[1], 0)) {
                                Less => true,
                                Equal => !uniq,
                                Greater => false,
                            })
                        }),
                    });
                }
                1 | 2 => {
                    let last = rng.flip();
                    let v = vals(if num { "num" } else { "plain" });
                    let mk = |rng: &mut Rng| (rng.below(6), v[rng.below(v.len())].clone());
                    let one = mk(rng);
                    let two = if rng.flip() { Some(mk(rng)) } else { None };
                    let s = |x: &[u8]| String::from_utf8(x.to_vec()).unwrap();
                    let sym = rng.flip();
                    let spec = match (&two, sym) {
                        (None, true) => format!("{}{}", OPS[one.0].0, s(&one.1)),
                        (None, false) => format!("{},{}", OPS[one.0].1, s(&one.1)),
                        (Some(t), true) => format!("{}{}{}{}", OPS[one.0].0, s(&one.1), OPS[t.0].0, s(&t.1)),
                        (Some(t), false) => format!("{},{},{},{}", OPS[one.0].1, s(&one.1), OPS[t.0].1, s(&t.1)),
                    };
                    let r = Range { spec, one, two };
                    let a = strs(&[if last { "-l" } else { "-f" }, &r.spec]);
                    if conds.iter().any(|c| c.args[0] == a[0]) {
                        continue;
                    }
                    conds.push(Cond { args: a, ok: Box::new(move |l| r.want(cmp, col(if last { &l[l.len() - 1] } else { &l[0] }, 0))) });
                }
                _ => {
                    let neg = rng.below(3) > 0;
                    let pat = *rng.pick(&["x", "y", "yy", "xy"]);
                    conds.push(Cond {
                        args: strs(&["-p", &format!("d,{}infix,{pat}", if neg { "not." } else { "" })]),
                        ok: Box::new(move |l| l.iter().all(|x| String::from_utf8_lossy(col(x, 1)).contains(pat) ^ neg)),
                    });
                }
            }
        }
        if rng.below(4) == 0 {
            conds.push(Cond { args: strs(&["-r", "2"]), ok: Box::new(|_| true) });
        }
        let want = sets.iter().all(|l| conds.iter().all(|c| (c.ok)(l)));
        let mut args = strs(&["verify"]);
        for c in &conds {
            args.extend(c.args.clone());
        }
        // the key may be the second column
        let mut files = vec![];
        for (k, lines) in sets.iter().enumerate() {
            let swap = rng.flip() && lines.iter().all(|x| cols(x).len() == 2);
            let mut file = if swap { b" CDX\td\tc\n".to_vec() } else { b" CDX\tc\td\n".to_vec() };
            for (i, l) in lines.iter().enumerate() {
                if swap {
                    file.extend(join(&[col(l, 1), col(l, 0)], b'\t'));
                } else {
                    file.extend(l);
                }
                if i + 1 < lines.len() || rng.flip() {
                    file.push(b'\n');
                }
            }
            args.push(format!("in{k}"));
            files.push((format!("in{k}"), file));
        }
        cases.push(ToolCase {
            group: "cdx verify".into(),
            files,
            args,
            stdin: vec![],
            judge: Box::new(move |o| {
                if (o.code == 0) != want {
                    return Err(format!("exit {}, but the conditions {}hold; {}", o.code, if want { "" } else { "do not " }, String::from_utf8_lossy(&o.err)));
                }
                Ok(())
            }),
        });
    }
    run_tools(ctx, cases);
}
pub fn run(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed);
    ops(ctx);
    checks(ctx);
    tools(ctx, &mut rng);
}
