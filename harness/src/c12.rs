//! uniq: one line per run of equal lines, with the true count
use crate::common::*;
use std::cmp::Ordering;

type Cmp = fn(&[u8], &[u8]) -> Ordering;
fn num(b: &[u8]) -> i64 {
    String::from_utf8_lossy(b).parse().unwrap()
}
/// lines have the form text TAB integer TAB text
fn keys() -> Vec<(Vec<&'static str>, Cmp)> {
    vec![
        (vec![], |a, b| a.cmp(b)),
        (vec![",lower"], |a, b| a.to_ascii_lowercase().cmp(&b.to_ascii_lowercase())),
        (vec!["a"], |a, b| col(a, 0).cmp(col(b, 0))),
        (vec!["1,lower"], |a, b| col(a, 0).to_ascii_lowercase().cmp(&col(b, 0).to_ascii_lowercase())),
        (vec!["2,num"], |a, b| num(col(a, 1)).cmp(&num(col(b, 1)))),
        (vec!["3", "1"], |a, b| col(a, 2).cmp(col(b, 2)).then(col(a, 0).cmp(col(b, 0)))),
        (vec!["c,len"], |a, b| col(a, 2).len().cmp(&col(b, 2).len())),
        (vec!["b,rev"], |a, b| col(b, 1).cmp(col(a, 1))),
    ]
}
fn whichs() -> Vec<(&'static str, Option<Cmp>)> {
    vec![
        ("", None),
        ("first", None),
        ("Last", None),
        ("min,2,num", Some(|a, b| num(col(a, 1)).cmp(&num(col(b, 1))))),
        ("Max,b,num", Some(|a, b| num(col(b, 1)).cmp(&num(col(a, 1))))),
        ("min,c", Some(|a, b| col(a, 2).cmp(col(b, 2)))),
        ("max,3", Some(|a, b| col(b, 2).cmp(col(a, 2)))),
        ("max,1,len", Some(|a, b| col(b, 0).len().cmp(&col(a, 0).len()))),
        ("max", Some(|a, b| b.cmp(a))),
    ]
}
const COUNTS: [(&str, &str, u8); 7] = [("", "", 0), ("n", "n", 1), ("n,begin", "n", 1), ("n,end", "n", 2), (",", "count", 1), (",last", "count", 2), ("", "", 0)];

fn gen_lines(r: &mut Rng, max: usize) -> Vec<Vec<u8>> {
    let n = r.below(max + 1);
    let mut v: Vec<Vec<u8>> = Vec::new();
    while v.len() < n {
        let l = match r.below(4) {
            0 if !v.is_empty() => v[v.len() - 1].clone(),
            1 if !v.is_empty() => {
                let p = v[v.len() - 1].clone();
                match r.below(3) {
                    0 => p.to_ascii_uppercase(),
                    1 => join(&[col(&p, 0), (r.below(5) as i64 - 2).to_string().as_bytes(), col(&p, 2)], b'\t'),
                    _ => join(&[col(&p, 0), col(&p, 1), &r.bytes(b"xy", 2)], b'\t'),
                }
            }
            _ => join(&[&r.bytes(b"aAb", 2), (r.below(5) as i64 - 2).to_string().as_bytes(), &r.bytes(b"xy", 2)], b'\t'),
        };
        v.push(l);
    }
    v
}
fn one(head: bool, lines: &[Vec<u8>], nl: bool, k: usize, wh: usize, cn: usize) -> ToolCase {
    let (spec, cmp) = keys().swap_remove(k);
    let (wspec, wcmp) = whichs().swap_remove(wh);
    let (cspec, cname, pos) = COUNTS[cn];
    let mut a = strs(&["uniq"]);
    let mut head = head;
    for s in &spec {
        a.push("-k".to_string());
        a.push((*s).to_string());
        head |= s.as_bytes().first().is_some_and(|x| x.is_ascii_alphabetic());
    }
    if !wspec.is_empty() {
        a.push("-w".to_string());
        a.push(wspec.to_string());
        head |= wspec.contains(",b") || wspec.contains(",c");
    }
    if pos > 0 {
        a.push("-c".to_string());
        a.push(cspec.to_string());
    }
    a.push("f".to_string());
    let mut f = Vec::new();
    let mut want_head = Vec::new();
    if head {
        f.extend_from_slice(b" CDX\ta\tb\tc\n");
        want_head.extend_from_slice(match pos {
            0 => " CDX\ta\tb\tc\n".to_string(),
            1 => format!(" CDX\t{cname}\ta\tb\tc\n"),
            _ => format!(" CDX\ta\tb\tc\t{cname}\n"),
        }.as_bytes());
    }
    for l in lines {
        f.extend_from_slice(l);
        f.push(b'\n');
    }
    if !nl && !lines.is_empty() {
        f.pop();
    }
    let mut runs: Vec<Vec<Vec<u8>>> = Vec::new();
    for l in lines {
        match runs.last_mut() {
            Some(x) if cmp(&x[x.len() - 1], l) == Ordering::Equal => x.push(l.clone()),
            _ => runs.push(vec![l.clone()]),
        }
    }
    let last = wspec.eq_ignore_ascii_case("last");
    let group = format!("uniq {} {}", if pos > 0 { "counted" } else { "plain" }, if wspec.is_empty() { "default" } else { wspec });
    ToolCase {
        group,
        files: vec![("f".to_string(), f)],
        args: a,
        stdin: vec![],
        judge: Box::new(move |o| {
            if o.code != 0 {
                return Err(format!("exit {} : {}", o.code, String::from_utf8_lossy(&o.err)));
            }
            let Some(rest) = o.out.strip_prefix(&want_head[..]) else {
                return Err(format!("header of {} is not {}", esc(&o.out), esc(&want_head)));
            };
            if !rest.is_empty() && rest.last() != Some(&b'\n') {
                return Err(format!("{} ends without a newline", esc(rest)));
            }
            let got: Vec<&[u8]> = if rest.is_empty() { vec![] } else { rest[..rest.len() - 1].split(|x| *x == b'\n').collect() };
            if got.len() != runs.len() {
                return Err(format!("{} runs, but {} lines: {}", runs.len(), got.len(), esc(rest)));
            }
            for (g, run) in got.iter().zip(runs.iter()) {
                let n = run.len().to_string();
                let ok: Vec<&Vec<u8>> = match wcmp {
                    Some(c) => run.iter().filter(|x| run.iter().all(|y| c(x, y) != Ordering::Greater)).collect(),
                    None if last => vec![&run[run.len() - 1]],
                    None => vec![&run[0]],
                };
                if !ok.iter().any(|x| match pos {
                    0 => *g == &x[..],
                    1 => *g == join(&[n.as_bytes(), x], b'\t'),
                    _ => *g == join(&[x, n.as_bytes()], b'\t'),
                }) {
                    return Err(format!("{} for a run of {} lines, expected {}", esc(g), n, esc(ok[0])));
                }
            }
            Ok(())
        }),
    }
}
/// the same fields; numbers may be written differently (0 and 0e0)
/// each row is one of the rows allowed for it
fn numeric(want: Vec<Vec<Vec<u8>>>) -> Box<dyn Fn(&Out) -> R + Send + Sync> {
    Box::new(move |o| {
        if o.code != 0 {
            return Err(format!("exit {} : {}", o.code, String::from_utf8_lossy(&o.err)));
        }
        let f = |l: &[u8]| -> Vec<Vec<u8>> { l.split(|c| *c == b'\t').map(|y| y.to_vec()).collect() };
        let same = |x: &Vec<u8>, y: &Vec<u8>| x == y || matches!((String::from_utf8_lossy(x).parse::<f64>(), String::from_utf8_lossy(y).parse::<f64>()), (Ok(p), Ok(q)) if p == q);
        let row = |p: &[u8], q: &[u8]| { let (p, q) = (f(p), f(q)); p.len() == q.len() && p.iter().zip(q.iter()).all(|(x, y)| same(x, y)) };
        let got: Vec<&[u8]> = o.out.split(|c| *c == b'\n').collect();
        // the text ends in a newline, so the last piece is empty
        let ok = got.len() == want.len() + 1 && got[want.len()].is_empty() && want.iter().zip(got.iter()).all(|(w, g)| w.iter().any(|x| row(g, x)));
        if !ok {
            let w: Vec<String> = want.iter().map(|x| x.iter().map(|y| esc(y)).collect::<Vec<_>>().join(" or ")).collect();
            return Err(format!("got {} expected rows {}", esc(&o.out), w.join("; ")));
        }
        Ok(())
    })
}
pub fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.seed ^ 0xC12);
    let mut cases = Vec::new();
    let (nk, nw, nc) = (keys().len(), whichs().len(), COUNTS.len());
    // every combination of options on one telling file
    let tell: Vec<Vec<u8>> = [&b"a\t1\tx"[..], b"A\t-2\ty", b"a\t1\tyy", b"a\t1\tyy", b"b\t2\t", b"b\t0\t"].iter().map(|x| x.to_vec()).collect();
    for k in 0..nk {
        for w in 0..nw {
            for c in 0..nc - 1 {
                for m in [0, 1, 4, 5, 6] {
                    if m != 6 && r.below(3) != 0 && !ctx.thorough {
                        continue;
                    }
                    cases.push(one(m & 1 == 0, &tell[..m], r.flip(), k, w, c));
                }
            }
        }
    }
    for _ in 0..ctx.n(500, 8000) {
        let l = gen_lines(&mut r, 9);
        cases.push(one(r.flip(), &l, r.flip(), r.below(nk), r.below(nw), r.below(nc)));
    }
    // with aggregators, each group is summarised on its own
    for _ in 0..ctx.n(250, 4000) {
        let l = gen_lines(&mut r, 8);
        let k = r.below(nk);
        let (spec, cmp) = keys().swap_remove(k);
        let mut a = strs(&["uniq"]);
        for s in &spec {
            a.push("-k".to_string());
            a.push((*s).to_string());
        }
        let pos = r.below(3);
        let wh = r.below(3);
        if wh == 1 {
            a.extend(strs(&["-w", "last"]));
        }
        if wh == 2 {
            a.extend(strs(&["-w", "max,b,num"]));
        }
        if pos > 0 {
            a.extend(strs(&["-c", if pos == 1 { "n" } else { "n,end" }]));
        }
        a.extend(strs(&["--agg-post", "m,c,merge,D;;", "--agg-pre", "s,b,sum", "--agg", "c,count", "f"]));
        let mut f = b" CDX\ta\tb\tc\n".to_vec();
        for x in &l {
            f.extend_from_slice(x);
            f.push(b'\n');
        }
        let mut want = match pos {
            0 => vec![vec![b" CDX\ts\ta\tb\tc\tm".to_vec()]],
            1 => vec![vec![b" CDX\tn\ts\ta\tb\tc\tm".to_vec()]],
            _ => vec![vec![b" CDX\ts\ta\tb\tc\tm\tn".to_vec()]],
        };
        let mut i = 0;
        while i < l.len() {
            let mut j = i + 1;
            while j < l.len() && cmp(&l[j - 1], &l[j]) == Ordering::Equal {
                j += 1;
            }
            let run = &l[i..j];
            let picks: Vec<&Vec<u8>> = match wh {
                0 => vec![&run[0]],
                1 => vec![&run[run.len() - 1]],
                _ => {
                    let m = run.iter().map(|x| num(col(x, 1))).max().unwrap();
                    run.iter().filter(|x| num(col(x, 1)) == m).collect()
                }
            };
            let n = run.len().to_string();
            let s = run.iter().map(|x| num(col(x, 1))).sum::<i64>().to_string();
            let parts: Vec<&[u8]> = run.iter().map(|x| col(x, 2)).filter(|x| !x.is_empty()).collect();
            let m = join(&parts, b';');
            let mut rows = Vec::new();
            for pick in picks {
                let mut o: Vec<&[u8]> = Vec::new();
                if pos == 1 {
                    o.push(n.as_bytes());
                }
                o.extend_from_slice(&[s.as_bytes(), col(pick, 0), col(pick, 1), n.as_bytes(), &m]);
                if pos == 2 {
                    o.push(n.as_bytes());
                }
                rows.push(join(&o, b'\t'));
            }
            want.push(rows);
            i = j;
        }
        cases.push(ToolCase { group: "uniq --agg".to_string(), files: vec![("f".to_string(), f)], args: a, stdin: vec![], judge: numeric(want) });
    }
    run_tools(ctx, cases);
}
