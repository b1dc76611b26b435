//! binary search: exactly the matching lines
use crate::common::*;
use cdx::binsearch::*;
use cdx::comp::{CompMaker, LineCompList};
use std::cmp::Ordering;

fn lines(d: &[u8]) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let mut s = 0;
    for i in 0..d.len() {
        if d[i] == b'\n' {
            v.push((s, i + 1));
            s = i + 1;
        }
    }
    if s < d.len() {
        v.push((s, d.len()));
    }
    v
}
fn text<'a>(d: &'a [u8], l: (usize, usize)) -> &'a [u8] {
    let x = &d[l.0..l.1];
    x.strip_suffix(b"\n").unwrap_or(x)
}
fn first<'a>(x: &'a [u8]) -> &'a [u8] {
    x.split(|c| *c == b'\t').next().unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Plain,
    Rev,
    Lower,
    Num,
    Len,
}
impl Kind {
    fn spec(self) -> &'static str {
        match self {
            Kind::Plain => "1",
            Kind::Rev => "1,rev",
            Kind::Lower => "1,lower",
            Kind::Num => "1,num",
            Kind::Len => "1,len",
        }
    }
    fn cmp(self, a: &[u8], b: &[u8]) -> Ordering {
        match self {
            Kind::Plain => a.cmp(b),
            Kind::Rev => b.cmp(a),
            Kind::Lower => a.to_ascii_lowercase().cmp(&b.to_ascii_lowercase()),
            Kind::Num => num(a).cmp(&num(b)),
            Kind::Len => a.len().cmp(&b.len()),
        }
    }
}
fn num(a: &[u8]) -> i64 {
    std::str::from_utf8(a).unwrap().parse::<i64>().unwrap_or(0)
}

fn comp_for(k: Kind, pat: &[u8]) -> LineCompList {
    let mut c = LineCompList::new();
    c.push(CompMaker::make_line_comp(k.spec()).unwrap());
    c.lookup(&["a", "b"]).unwrap();
    c.set(pat, b',').unwrap();
    c
}

fn check_one(ctx: &mut Ctx, group: &str, k: Kind, pat: &[u8], d: &[u8]) {
    ctx.case(group, &[k.spec().as_bytes(), pat, d], || {
        let ls = lines(d);
        let ords: Vec<Ordering> = ls.iter().map(|l| k.cmp(pat, first(text(d, *l)))).collect();
        let lo = ords.iter().position(|o| *o != Ordering::Greater).unwrap_or(ls.len());
        let hi = ords.iter().position(|o| *o == Ordering::Less).unwrap_or(ls.len());
        let pos = |i: usize| if i < ls.len() { ls[i].0 } else { d.len() };
        let mut c = comp_for(k, pat);
        let r = equal_range_n(d, &mut c);
        if r != (pos(lo), pos(hi)) {
            return Err(format!("equal_range_n gave {:?}, matching lines are {:?}", r, (pos(lo), pos(hi))));
        }
        let r = lower_bound_n(d, &mut c);
        let want = if lo < hi { ls[lo] } else { (pos(lo), pos(lo)) };
        if r != want {
            return Err(format!("lower_bound_n gave {:?}, expected {:?}", r, want));
        }
        let r = upper_bound_n(d, &mut c);
        if r != pos(hi) {
            return Err(format!("upper_bound_n gave {:?}, expected {:?}", r, pos(hi)));
        }
        if lower_bound(d, &mut c) != &d[want.0..want.1] || equal_range(d, &mut c) != &d[pos(lo)..pos(hi)] {
            return Err("slice form differs from position form".to_string());
        }
        Ok(())
    });
}

fn join(v: &[Vec<u8>], last_nl: bool) -> Vec<u8> {
    let mut d = Vec::new();
    for (i, x) in v.iter().enumerate() {
        d.extend_from_slice(x);
        if last_nl || i + 1 < v.len() {
            d.push(b'\n');
        }
    }
    d
}

pub fn run(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed);
    // helpers on every short buffer
    for d in all_strings(b"a\n", ctx.n(7, 10)) {
        ctx.case("find_* on every short buffer", &[&d], || {
            let ls = lines(&d);
            for p in 0..d.len() {
                let l = ls.iter().find(|l| l.0 <= p && p < l.1).unwrap();
                if find_end(&d, p) != l.1 {
                    return Err(format!("find_end({p}) = {} want {}", find_end(&d, p), l.1));
                }
                if find_start(&d, p) != l.0 {
                    return Err(format!("find_start({p}) = {} want {}", find_start(&d, p), l.0));
                }
            }
            for (i, l) in ls.iter().enumerate() {
                let want = if i == 0 { 0 } else { ls[i - 1].0 };
                if find_prev(&d, l.0) != want {
                    return Err(format!("find_prev({}) = {} want {want}", l.0, find_prev(&d, l.0)));
                }
            }
            if !ls.is_empty() && find_prev(&d, d.len()) != ls[ls.len() - 1].0 {
                return Err("find_prev(len)".to_string());
            }
            if find_end(&d, d.len()) != d.len() {
                return Err("find_end(len)".to_string());
            }
            Ok(())
        });
    }
    // every sorted multiset of up to n short lines
    let words: Vec<Vec<u8>> = ["", "a", "aa", "b", "bbb\tx", "c", "B"].iter().map(|x| x.as_bytes().to_vec()).collect();
    let numw: Vec<Vec<u8>> = ["-12", "-3", "0", "", "7", "10", "100\ty"].iter().map(|x| x.as_bytes().to_vec()).collect();
    let maxn = ctx.n(5, 7);
    for k in [Kind::Plain, Kind::Rev, Kind::Lower, Kind::Len, Kind::Num] {
        let w0 = if k == Kind::Num { &numw } else { &words };
        let mut w: Vec<Vec<u8>> = w0.clone();
        w.sort_by(|a, b| k.cmp(first(a), first(b)));
        // non-decreasing index sequences
        let mut stack: Vec<Vec<usize>> = vec![vec![]];
        while let Some(ix) = stack.pop() {
            let ls: Vec<Vec<u8>> = ix.iter().map(|i| w[*i].clone()).collect();
            for nl in [true, false] {
                if !nl && ls.last().map_or(true, |x| x.is_empty()) {
                    continue;
                }
                let d = join(&ls, nl);
                for p in w.iter() {
                    check_one(ctx, "every sorted small file", k, first(p), &d);
                }
                let extra: &[&[u8]] = if k == Kind::Num { &[b"-5", b"5", b"1000", b"-100"] } else { &[b"A", b"ab", b"zzzz"] };
                for p in extra {
                    check_one(ctx, "every sorted small file", k, p, &d);
                }
            }
            if ix.len() < maxn {
                let lo = ix.last().copied().unwrap_or(0);
                for i in lo..w.len() {
                    let mut y = ix.clone();
                    y.push(i);
                    stack.push(y);
                }
            }
            if ctx.full() {
                return;
            }
        }
    }
    // longer random files
    for _ in 0..ctx.n(1500, 30000) {
        let k = *rng.pick(&[Kind::Plain, Kind::Rev, Kind::Lower, Kind::Len, Kind::Num]);
        let n = rng.range(1, 60);
        let mut ls: Vec<Vec<u8>> = (0..n)
            .map(|_| {
                if k == Kind::Num {
                    format!("{}", rng.range(0, 40) as i64 - 20).into_bytes()
                } else {
                    rng.bytes(b"abC", 4)
                }
            })
            .collect();
        ls.sort_by(|a, b| k.cmp(a, b));
        let d = join(&ls, rng.flip() || ls.last().unwrap().is_empty());
        let p = if rng.flip() { rng.pick(&ls).clone() } else if k == Kind::Num { format!("{}", rng.range(0, 44) as i64 - 22).into_bytes() } else { rng.bytes(b"abC", 4) };
        check_one(ctx, "random sorted file", k, &p, &d);
    }
    // the whole tool: header, context, filename column
    let mut cases = Vec::new();
    for _ in 0..ctx.n(400, 4000) {
        let k = *rng.pick(&[Kind::Plain, Kind::Rev, Kind::Num]);
        let n = rng.range(1, 8);
        // some files are mostly empty lines, so that context runs over them
        let sparse = rng.below(4) == 0;
        let mut ls: Vec<Vec<u8>> = (0..n)
            .map(|_| {
                if k == Kind::Num {
                    format!("{}\tx{}", rng.range(0, 12) as i64 - 6, rng.pick(&["", "\r", " ", "\x1f"])).into_bytes()
                } else if rng.below(if sparse { 2 } else { 5 }) == 0 {
                    vec![]
                } else {
                    let mut x = rng.bytes(b"ab", 3);
                    x.extend_from_slice(*rng.pick(&[&b"q"[..], b"q", b"q\r", b"q ", b"q\x01", b"q\tz\r", b"q\t", b"q\xc3\xa9"]));
                    x
                }
            })
            .collect();
        ls.sort_by(|a, b| k.cmp(first(a), first(b)));
        let header = rng.flip();
        // an empty last line is only a line if its newline is there
        let nl = rng.flip() || ls.last().unwrap().is_empty();
        let body = join(&ls, nl);
        let named = rng.below(4) == 0;
        let mut file = Vec::new();
        if header {
            file.extend_from_slice(b" CDX\tk\tv\n");
        }
        file.extend_from_slice(&body);
        let p = if rng.below(3) > 0 { first(rng.pick(&ls)).to_vec() } else if k == Kind::Num { b"99".to_vec() } else { b"abx".to_vec() };
        if p.first() == Some(&b'-') && false {
            continue;
        }
        let ords: Vec<Ordering> = ls.iter().map(|l| k.cmp(&p, first(l))).collect();
        let lo = ords.iter().position(|o| *o != Ordering::Greater).unwrap_or(n);
        let hi = ords.iter().position(|o| *o == Ordering::Less).unwrap_or(n);
        let mut args: Vec<String> = vec!["binsearch".into(), "-k".into(), k.spec().into()];
        let (mut b, mut a) = (0, 0);
        if rng.flip() {
            let (bm, bn, am, an) = (rng.below(3), rng.below(3), rng.below(3), rng.below(3));
            let m = lo < hi;
            b = if m { bm } else { bn };
            a = if m { am } else { an };
            args.push("-C".into());
            args.push(format!("{bm}.{bn},{am}.{an}"));
        } else if rng.flip() {
            let (x, y) = (rng.below(4), rng.below(4));
            let m = lo < hi;
            args.push("-C".into());
            match rng.below(4) {
                0 => {
                    (b, a) = (x, x);
                    args.push(format!("{x}"));
                }
                1 => {
                    (b, a) = (x, y);
                    args.push(format!("{x},{y}"));
                }
                2 => {
                    (b, a) = if m { (x, x) } else { (y, y) };
                    args.push(format!("{x}.{y}"));
                }
                _ => {
                    (b, a) = if m { (x, y) } else { (x, x) };
                    args.push(format!("{x},{y}.{x}"));
                }
            }
        }
        if named {
            args.extend(strs(&["-H", "fn:1"]));
        }
        args.push("--".into());
        args.push(String::from_utf8(p.clone()).unwrap());
        args.push("f".into());
        let mut want = Vec::new();
        if header {
            want.extend_from_slice(if named { b" CDX\tfn\tk\tv\n" } else { b" CDX\tk\tv\n" });
        }
        for x in &ls[lo.saturating_sub(b)..(hi + a).min(n)] {
            if named {
                want.extend_from_slice(b"f\t");
            }
            want.extend_from_slice(x);
            want.push(b'\n');
        }
        cases.push(ToolCase { group: "cdx binsearch".into(), files: vec![("f".into(), file)], args, stdin: vec![], judge: expect(want) });
    }
    // the key in any column, by number or name, with and without a header
    for _ in 0..ctx.n(150, 1500) {
        let k = *rng.pick(&[Kind::Plain, Kind::Rev, Kind::Num]);
        let nc = rng.range(2, 4);
        let kc = rng.below(nc);
        let n = rng.range(1, 7);
        let mut ls: Vec<Vec<Vec<u8>>> = (0..n)
            .map(|_| (0..nc).map(|_| if k == Kind::Num { format!("{}", rng.range(0, 9)).into_bytes() } else { rng.bytes(b"ab", 2) }).collect())
            .collect();
        ls.sort_by(|a, b| k.cmp(&a[kc], &b[kc]));
        let p = if rng.below(4) > 0 { rng.pick(&ls)[kc].clone() } else if k == Kind::Num { b"99".to_vec() } else { b"abx".to_vec() };
        let header = rng.flip();
        let name = match (rng.flip(), header) {
            (true, _) => format!("{}", kc + 1),
            (false, true) => ["k", "vv", "w", "x"][kc].to_string(),
            (false, false) => format!("c{}", kc + 1),
        };
        let mut head = vec![];
        if header {
            head.extend_from_slice(b" CDX");
            for x in &["k", "vv", "w", "x"][..nc] {
                head.push(b'\t');
                head.extend(x.bytes());
            }
            head.push(b'\n');
        }
        let (mut file, mut want) = (head.clone(), head);
        for l in &ls {
            let mut t = l.join(&b'\t');
            t.push(b'\n');
            file.extend_from_slice(&t);
            if k.cmp(&l[kc], &p) == Ordering::Equal {
                want.extend_from_slice(&t);
            }
        }
        let args = strs(&["binsearch", "-k", &k.spec().replacen('1', &name, 1), "--", std::str::from_utf8(&p).unwrap(), "f"]);
        if p.is_empty() {
            continue;
        }
        cases.push(ToolCase { group: "cdx binsearch, any key column".into(), files: vec![("f".into(), file)], args, stdin: vec![], judge: expect(want) });
    }
    // several files, several keys, and the file name as a column
    for _ in 0..ctx.n(150, 1500) {
        let header = rng.flip();
        let head: &[u8] = if header { b" CDX\tk\tn\n" } else { b"" };
        let nf = rng.range(1, 3);
        let two = rng.flip();
        let parts = if rng.flip() { Some(rng.range(1, 3)) } else { None };
        let delim = *rng.pick(&[',', ';', '/']);
        let (pk, pn) = (*rng.pick(&["a", "b", "ab"]), rng.range(0, 12) as i64);
        let names = ["d/e/f1", "d/f2", "f3"];
        let mut files = vec![];
        let mut want = vec![];
        for (i, name) in names[..nf].iter().enumerate() {
            let mut ls: Vec<(&str, i64)> = (0..rng.range(0, 9)).map(|_| (*rng.pick(&["a", "b", "ab", "c"]), rng.range(0, 12) as i64)).collect();
            if two {
                ls.sort();
            } else {
                ls.sort_by_key(|x| x.1);
            }
            let mut file = head.to_vec();
            let body = ls.iter().map(|l| format!("{}\t{}", l.0, l.1)).collect::<Vec<_>>().join("\n");
            file.extend(body.bytes());
            if !ls.is_empty() && rng.flip() {
                file.push(b'\n');
            }
            if i == 0 && header {
                want.extend_from_slice(if parts.is_some() { b" CDX\tfn\tk\tn\n" } else { head });
            }
            let shown = parts.map(|p| {
                let v: Vec<&str> = name.split('/').collect();
                v[v.len().saturating_sub(p)..].join("/")
            });
            for l in ls.iter().filter(|l| l.1 == pn && (!two || l.0 == pk)) {
                if let Some(s) = &shown {
                    want.extend(format!("{s}\t").bytes());
                }
                want.extend(format!("{}\t{}\n", l.0, l.1).bytes());
            }
            files.push((name.to_string(), file));
        }
        let mut args = strs(&["binsearch"]);
        if let Some(p) = parts {
            args.extend(strs(&["-H", &format!("fn:{p}")]));
        }
        let pat = if two {
            args.extend(strs(&["-k", "1", "-k", "2,num"]));
            if delim != ',' || rng.flip() {
                args.extend(strs(&["-s", &delim.to_string()]));
            }
            format!("{pk}{delim}{pn}")
        } else {
            args.extend(strs(&["-k", "2,num"]));
            format!("{pn}")
        };
        args.extend(strs(&["--", &pat]));
        args.extend(strs(&names[..nf]));
        cases.push(ToolCase { group: "cdx binsearch, several files and keys".into(), files, args, stdin: vec![], judge: expect(want) });
    }
    run_tools(ctx, cases);
}
