//! join: one line per pair of lines with equal keys; lines without a partner go where asked
use crate::common::*;
use std::cmp::Ordering;

type Cmp = fn(&[u8], &[u8]) -> Ordering;
fn num(b: &[u8]) -> i64 {
    String::from_utf8_lossy(b).parse().unwrap_or(0)
}
/// key options (file 1 has columns k n x, file 2 has columns k n y), which columns they use, and the order
fn keys() -> Vec<(Vec<&'static str>, Vec<usize>, Cmp)> {
    vec![
        (vec![], vec![0], |a, b| col(a, 0).cmp(col(b, 0))),
        (vec!["k"], vec![0], |a, b| col(a, 0).cmp(col(b, 0))),
        (vec!["1,lower"], vec![0], |a, b| col(a, 0).to_ascii_lowercase().cmp(&col(b, 0).to_ascii_lowercase())),
        (vec!["n,num"], vec![1], |a, b| num(col(a, 1)).cmp(&num(col(b, 1)))),
        (vec!["2,rev.num"], vec![1], |a, b| num(col(b, 1)).cmp(&num(col(a, 1)))),
        (vec!["1", "2,num"], vec![0, 1], |a, b| col(a, 0).cmp(col(b, 0)).then(num(col(a, 1)).cmp(&num(col(b, 1))))),
        (vec!["2", "1,rev"], vec![1, 0], |a, b| col(a, 1).cmp(col(b, 1)).then(col(b, 0).cmp(col(a, 0)))),
        (vec![",expr,n*2-1"], vec![], |a, b| num(col(a, 1)).cmp(&num(col(b, 1)))),
        (vec!["1,len"], vec![0], |a, b| col(a, 0).len().cmp(&col(b, 0).len())),
        (vec!["1,len", "2,num", "1"], vec![0, 1], |a, b| col(a, 0).len().cmp(&col(b, 0).len()).then(num(col(a, 1)).cmp(&num(col(b, 1)))).then(col(a, 0).cmp(col(b, 0)))),
        (vec!["1,len", "3,len", "2,rev.num", "1,rev"], vec![0, 1, 2], |a, b| {
            col(a, 0).len().cmp(&col(b, 0).len()).then(col(a, 2).len().cmp(&col(b, 2).len())).then(num(col(b, 1)).cmp(&num(col(a, 1)))).then(col(b, 0).cmp(col(a, 0)))
        }),
    ]
}
const OUTS: [(&str, &[(usize, usize)]); 6] = [
    ("", &[]),
    ("1.1,2.3", &[(0, 0), (1, 2)]),
    ("2.3,1.3", &[(1, 2), (0, 2)]),
    ("1.2-3,2.3,1.1", &[(0, 1), (0, 2), (1, 2), (0, 0)]),
    ("2.1-2", &[(1, 0), (1, 1)]),
    ("1.1,1.~1-2,2.3", &[(0, 0), (0, 2), (1, 2)]),
];
fn line(r: &mut Rng, alpha: &[u8], range: usize) -> Vec<u8> {
    let n = (r.below(range) as i64 - 2).to_string();
    join(&[&r.bytes(alpha, 2), n.as_bytes(), &r.bytes(b"xyz ", 2)], b'\t')
}
fn file(head: Option<&[u8]>, lines: &[Vec<u8>], nl: bool) -> Vec<u8> {
    let mut f = Vec::new();
    if let Some(h) = head {
        f.extend_from_slice(h);
    }
    for l in lines {
        f.extend_from_slice(l);
        f.push(b'\n');
    }
    if !nl && !lines.is_empty() {
        f.pop();
    }
    f
}
const HEADS: [&[u8]; 2] = [b" CDX\tk\tn\tx\n", b" CDX\tk\tn\ty\n"];
const NAMES: [[&str; 3]; 2] = [["k", "n", "x"], ["k", "n", "y"]];
/// a file name may contain a comma
const NOS: [&str; 2] = ["no0", "no,1"];
struct Opt {
    k: usize,
    o: usize,
    also: [bool; 2],
    to_file: bool,
    heads: [bool; 2],
    nls: [bool; 2],
}
fn named(s: &str) -> bool {
    s.as_bytes()[0].is_ascii_alphabetic() || s.contains("expr")
}
fn one(a: &[Vec<u8>], b: &[Vec<u8>], p: &Opt) -> ToolCase {
    let (spec, used, cmp) = keys().swap_remove(p.k);
    let mut args = strs(&["join"]);
    let mut heads = p.heads;
    for s in &spec {
        args.push("-k".into());
        args.push((*s).into());
        if named(s) {
            heads = [true, true];
        }
    }
    let mut outs: Vec<(usize, usize)> = OUTS[p.o].1.to_vec();
    if outs.is_empty() {
        outs = (0..3).map(|x| (0, x)).chain((0..3).filter(|x| !used.contains(x)).map(|x| (1, x))).collect();
    } else {
        args.push("-o".into());
        args.push(OUTS[p.o].0.into());
    }
    // a name must not be repeated in the output
    let names: Vec<&str> = outs.iter().map(|x| if heads[x.0] { NAMES[x.0][x.1] } else { ["c1", "c2", "c3"][x.1] }).collect();
    if (1..names.len()).any(|i| names[..i].contains(&names[i])) {
        heads = [false, heads[1]];
        if spec.iter().any(|s| named(s)) {
            return one(a, b, &Opt { o: 1, also: p.also, heads: [true, true], ..*p });
        }
    }
    for i in 0..2 {
        if p.also[i] {
            args.push("-a".into());
            args.push(format!("{},{}", i + 1, NOS[i]));
        }
    }
    if p.to_file {
        args.push("-f".into());
        args.push("yes".into());
    }
    args.extend(strs(&["f", "g"]));
    let mut want = Vec::new();
    if heads[0] {
        want.extend_from_slice(b" CDX");
        for n in &names {
            want.push(b'\t');
            want.extend_from_slice(n.as_bytes());
        }
        want.push(b'\n');
    }
    for x in a {
        for y in b {
            if cmp(x, y) == Ordering::Equal {
                let v: Vec<&[u8]> = outs.iter().map(|c| col(if c.0 == 0 { x } else { y }, c.1)).collect();
                want.extend_from_slice(&join(&v, b'\t'));
                want.push(b'\n');
            }
        }
    }
    let lone = |x: &[Vec<u8>], y: &[Vec<u8>], h: Option<&[u8]>| {
        let v: Vec<Vec<u8>> = x.iter().filter(|l| !y.iter().any(|m| cmp(l, m) == Ordering::Equal)).cloned().collect();
        file(h, &v, true)
    };
    let no = [lone(a, b, heads[0].then_some(HEADS[0])), lone(b, a, heads[1].then_some(HEADS[1]))];
    let (also, to_file) = (p.also, p.to_file);
    ToolCase {
        group: format!("join {}{}{}", if p.o == 0 { "default" } else { "chosen" }, if also[0] || also[1] { " also" } else { "" }, if to_file { " file" } else { "" }),
        files: vec![("f".into(), file(heads[0].then_some(HEADS[0]), a, p.nls[0])), ("g".into(), file(heads[1].then_some(HEADS[1]), b, p.nls[1]))],
        args,
        stdin: vec![],
        judge: Box::new(move |o| {
            if o.code != 0 {
                return Err(format!("exit {} : {}", o.code, String::from_utf8_lossy(&o.err)));
            }
            let read = |n: &str| std::fs::read(o.dir.join(n)).map_err(|e| format!("output {n}: {e}"));
            let got = if to_file {
                if !o.out.is_empty() {
                    return Err(format!("{} on stdout", esc(&o.out)));
                }
                read("yes")?
            } else {
                o.out.clone()
            };
            if got != want {
                return Err(format!("matches {} expected {}", esc(&got), esc(&want)));
            }
            for i in 0..2 {
                let name = NOS[i];
                if also[i] {
                    let got = read(name)?;
                    if got != no[i] {
                        return Err(format!("without partner from file {}: {} expected {}", i + 1, esc(&got), esc(&no[i])));
                    }
                } else if o.dir.join(name).exists() {
                    return Err(format!("{name} written unasked"));
                }
            }
            Ok(())
        }),
    }
}
pub fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.seed ^ 0xC11);
    let mut cases = Vec::new();
    let nk = keys().len();
    let opt = |r: &mut Rng| Opt {
        k: r.below(nk),
        o: r.below(OUTS.len()),
        also: [r.below(3) > 0, r.below(3) > 0],
        to_file: r.below(4) == 0,
        heads: [r.flip(), r.flip()],
        nls: [r.flip(), r.flip()],
    };
    // every pattern of multiplicities over three keys
    for code in 0..3usize.pow(3) * 2usize.pow(3) {
        let (mut x, mut a, mut b) = (code, vec![], vec![]);
        for k in [&b"a"[..], b"b", b"c"] {
            for m in 0..x % 3 {
                a.push(join(&[k, b"1", format!("x{m}").as_bytes()], b'\t'));
            }
            x /= 3;
            if x % 2 == 1 {
                b.push(join(&[k, b"1", b"y"], b'\t'));
            }
            x /= 2;
        }
        if a.is_empty() || b.is_empty() {
            continue; // an empty file without header has no columns: those are below
        }
        let h = r.flip();
        cases.push(one(&a, &b, &Opt { k: 0, o: 1, also: [true, true], to_file: false, heads: [h, h], nls: [r.flip(), r.flip()] }));
    }
    for _ in 0..ctx.n(3000, 30000) {
        let mut p = opt(&mut r);
        let cmp = keys().swap_remove(p.k).2;
        let alpha: &[u8] = *r.pick(&[&b"ab"[..], b"aAbB", b"abcdefgh"]);
        let range = *r.pick(&[3, 6, 13]);
        let max = *r.pick(&[3usize, 6, 12]);
        let mut a: Vec<Vec<u8>> = (0..r.below(max + 1)).map(|_| line(&mut r, alpha, range)).collect();
        let mut b: Vec<Vec<u8>> = (0..r.below(max + 1)).map(|_| line(&mut r, alpha, range)).collect();
        if r.flip() {
            // keys in common
            let take = r.below(a.len() + 1);
            for l in a.iter().take(take) {
                b.push(join(&[col(l, 0), col(l, 1), b"q"], b'\t'));
            }
        }
        a.sort_by(|x, y| cmp(x, y));
        b.sort_by(|x, y| cmp(x, y));
        b.dedup_by(|x, y| cmp(x, y) == Ordering::Equal);
        if a.is_empty() {
            p.heads[0] = true;
        }
        if b.is_empty() {
            p.heads[1] = true;
        }
        if (a.is_empty() || b.is_empty()) && p.o != 2 {
            p.o = 1; // so that the names do not clash
        }
        cases.push(one(&a, &b, &p));
    }
    // more than two files, or fewer: an error and no output
    for n in [1, 3, 4] {
        let mut args = strs(&["join"]);
        args.extend((0..n).map(|_| "f".to_string()));
        cases.push(ToolCase {
            group: "join of other numbers of files".into(),
            files: vec![("f".into(), b"a\tb\n".to_vec())],
            args,
            stdin: vec![],
            judge: Box::new(|o| if o.code == 0 || !o.out.is_empty() { Err(format!("exit {} with {}", o.code, esc(&o.out))) } else { Ok(()) }),
        });
    }
    run_tools(ctx, cases);
}
