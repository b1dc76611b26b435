//! sort: an ordered permutation of the input, however the work is split
use crate::common::*;
use cdx::comp::LineCompList;
use cdx::sort::{SortConfig, Sorter};
use std::cmp::Ordering;
use std::io::Read;

type Cmp = fn(&[u8], &[u8]) -> Ordering;
fn nonl(l: &[u8]) -> &[u8] {
    l.strip_suffix(b"\n").unwrap_or(l)
}
fn num(b: &[u8]) -> i64 {
    String::from_utf8_lossy(b).parse().unwrap()
}
fn lower(b: &[u8]) -> Vec<u8> {
    b.to_ascii_lowercase()
}
/// key specifications with their meaning; the lines all have the form text TAB integer TAB text
fn keys() -> Vec<(Vec<&'static str>, Cmp)> {
    vec![
        (vec![], |a, b| nonl(a).cmp(nonl(b))),
        (vec!["a"], |a, b| col(nonl(a), 0).cmp(col(nonl(b), 0))),
        (vec!["3"], |a, b| col(nonl(a), 2).cmp(col(nonl(b), 2))),
        (vec!["c"], |a, b| col(nonl(a), 2).cmp(col(nonl(b), 2))),
        (vec!["2,num"], |a, b| num(col(nonl(a), 1)).cmp(&num(col(nonl(b), 1)))),
        (vec!["b,rev.num"], |a, b| num(col(nonl(b), 1)).cmp(&num(col(nonl(a), 1)))),
        (vec!["1,rev"], |a, b| col(nonl(b), 0).cmp(col(nonl(a), 0))),
        (vec!["1,lower", "2,rev.num"], |a, b| lower(col(nonl(a), 0)).cmp(&lower(col(nonl(b), 0))).then(num(col(nonl(b), 1)).cmp(&num(col(nonl(a), 1))))),
        (vec!["c,len", "a"], |a, b| col(nonl(a), 2).len().cmp(&col(nonl(b), 2).len()).then(col(nonl(a), 0).cmp(col(nonl(b), 0)))),
        (vec!["2,float"], |a, b| num(col(nonl(a), 1)).cmp(&num(col(nonl(b), 1)))),
    ]
}
fn gen_line(r: &mut Rng) -> Vec<u8> {
    let mut l = match r.below(8) {
        0 => b" CDX".to_vec(),
        1 => vec![b'x'; r.range(1, 60)],
        2 => b"".to_vec(),
        _ => r.bytes(b"aAbBc", 3),
    };
    if r.below(12) == 0 {
        l.extend(vec![b'q'; r.range(1, 90)]);
    }
    l.push(b'\t');
    l.extend((r.below(12) as i64 - 5).to_string().as_bytes());
    l.push(b'\t');
    l.extend(match r.below(4) {
        0 => b"prefixprefix".iter().copied().chain(r.bytes(b"ab", 2)).collect(),
        _ => r.bytes(b"ab\0z", 3),
    });
    l.push(b'\n');
    l
}
fn gen_lines(r: &mut Rng, max: usize) -> Vec<Vec<u8>> {
    (0..r.below(max + 1)).map(|_| gen_line(r)).collect()
}
/// got is an ordered permutation of the lines, or one line of each class of equal ones
fn judge(got: &[Vec<u8>], lines: &[Vec<u8>], cmp: Cmp, unique: bool) -> R {
    for w in got.windows(2) {
        let o = cmp(&w[0], &w[1]);
        if o == Ordering::Greater {
            return Err(format!("{} before {}", esc(&w[0]), esc(&w[1])));
        }
        if unique && o == Ordering::Equal {
            return Err(format!("{} and {} are equal", esc(&w[0]), esc(&w[1])));
        }
    }
    let mut a: Vec<Vec<u8>> = got.to_vec();
    let mut b: Vec<Vec<u8>> = lines.iter().map(|x| nonl(x).to_vec()).collect();
    a.sort();
    b.sort();
    if unique {
        for x in &a {
            if b.binary_search(x).is_err() {
                return Err(format!("{} is no line of the input", esc(x)));
            }
        }
        for x in &b {
            if !got.iter().any(|y| cmp(x, y) == Ordering::Equal) {
                return Err(format!("no line for the key of {}", esc(x)));
            }
        }
    } else if a != b {
        for x in &a {
            if b.iter().filter(|y| *y == x).count() != a.iter().filter(|y| *y == x).count() {
                return Err(format!("{} comes {} times, not {}", esc(x), a.iter().filter(|y| *y == x).count(), b.iter().filter(|y| *y == x).count()));
            }
        }
        return Err(format!("{} lines of {}: lost some", a.len(), b.len()));
    }
    Ok(())
}
struct Chunky<'a> {
    data: &'a [u8],
    at: usize,
    r: Rng,
    max: usize,
}
impl Read for Chunky<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() || self.at == self.data.len() {
            return Ok(0);
        }
        let n = (1 + self.r.below(self.max)).min(buf.len()).min(self.data.len() - self.at);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
fn comp(spec: &[&str]) -> LineCompList {
    let mut c = LineCompList::new();
    for s in spec {
        c.add(s).unwrap();
    }
    if spec.is_empty() {
        c.add("").unwrap();
    }
    c
}
const HEAD: &[u8] = b" CDX\ta\tb\tc\n";

pub fn run(ctx: &mut Ctx) {
    let keys = keys();
    let mut r = Rng::new(ctx.seed);
    // the sorter itself, with all kinds of buffers and chunks
    for round in 0..ctx.n(1500, 12000) {
        let (spec, cmp) = &keys[round % keys.len()];
        let unique = r.flip();
        let alloc = *r.pick(&[0usize, 2, 10, 60, 61, 100, 200, 333, 500, 1000, 2000, 4000, 9000, 100_000]);
        let parts: Vec<Vec<Vec<u8>>> = (0..r.range(1, 3)).map(|_| { let m = *r.pick(&[3, 10, 40]); gen_lines(&mut r, m) }).collect();
        let how: Vec<usize> = parts.iter().map(|_| r.below(3)).collect();
        let cut: Vec<bool> = parts.iter().map(|_| r.below(3) == 0).collect();
        let chunk = *r.pick(&[1usize, 3, 50, 100_000]);
        let seed = r.next();
        let all: Vec<Vec<u8>> = parts.iter().flatten().cloned().collect();
        let mut input: Vec<Vec<u8>> = vec![format!("key {spec:?} unique {unique} alloc {alloc} how {how:?} chunk {chunk}").into_bytes()];
        let mut datas = vec![];
        for (i, p) in parts.iter().enumerate() {
            let mut d: Vec<u8> = p.concat();
            if cut[i] {
                d.pop();
            }
            input.push(d.clone());
            datas.push(d);
        }
        let refs: Vec<&[u8]> = input.iter().map(|x| x.as_slice()).collect();
        let dir = ctx.dir.clone();
        ctx.case("sorter", &refs, || {
            let mut c = comp(spec);
            c.lookup(&["a", "b", "c"]).map_err(|e| e.to_string())?;
            let mut s = Sorter::new(c, alloc, unique);
            let mut out: Vec<u8> = vec![];
            let mut head = false;
            for (i, d) in datas.iter().enumerate() {
                match how[i] {
                    0 => s.add(Chunky { data: d, at: 0, r: Rng::new(seed), max: chunk }).map_err(|e| e.to_string())?,
                    1 => {
                        for l in d.split_inclusive(|c| *c == b'\n') {
                            s.add_data(l).map_err(|e| e.to_string())?;
                        }
                    }
                    _ => {
                        let f = dir.join(format!("c01_{i}"));
                        let mut t = HEAD.to_vec();
                        t.extend(d);
                        std::fs::write(&f, t).map_err(|e| e.to_string())?;
                        s.add_file(f.to_str().unwrap(), &mut out).map_err(|e| e.to_string())?;
                        head = true;
                    }
                }
            }
            s.finalize(&mut out).map_err(|e| e.to_string())?;
            let body: &[u8] = if head { out.strip_prefix(HEAD).ok_or("no header")? } else { &out };
            if !body.is_empty() && !body.ends_with(b"\n") {
                return Err("last line is not ended".to_string());
            }
            judge(&out_lines(body)?, &all, *cmp, unique)
        });
    }
    // the tool and the library's merge
    let mut cases = vec![];
    for round in 0..ctx.n(700, 6000) {
        let (spec, cmp) = &keys[r.below(keys.len())];
        let cmp = *cmp;
        let unique = r.flip();
        let merge = r.flip();
        let with_head = spec.iter().any(|s| s.starts_with(|c: char| c.is_alphabetic())) || r.flip();
        let mut files = vec![];
        let mut all = vec![];
        let mut first = vec![];
        for i in 0..r.range(1, 5) {
            let mut ls = { let m = *r.pick(&[0usize, 2, 5, 20]); gen_lines(&mut r, m) };
            if merge {
                ls.sort_by(|a, b| cmp(a, b));
            }
            if !with_head && !ls.is_empty() && ls[0].starts_with(b" CDX") {
                ls.clear();
            }
            let mut f = vec![];
            if with_head && (!ls.is_empty() || r.flip()) {
                f.extend(HEAD);
            }
            f.extend(ls.concat());
            if i == 0 {
                first = ls.clone();
            }
            all.extend(ls);
            if r.below(3) == 0 && f.ends_with(b"\n") && f != HEAD {
                f.pop();
            }
            files.push((format!("f{i}"), f));
        }
        let want_head = files.iter().any(|f| f.1.starts_with(HEAD));
        if merge && round % 2 == 0 {
            // the library, both algorithms
            let alt = r.flip();
            let mut input: Vec<&[u8]> = files.iter().map(|x| x.1.as_slice()).collect();
            let d = format!("merge {spec:?} unique {unique} alt {alt}");
            input.insert(0, d.as_bytes());
            let dir = ctx.dir.clone();
            ctx.case("merge", &input, || {
                let mut names = vec![];
                for f in &files {
                    let p = dir.join(&f.0);
                    std::fs::write(&p, &f.1).map_err(|e| e.to_string())?;
                    names.push(p.to_str().unwrap().to_string());
                }
                let mut c = SortConfig::default();
                c.alt_merge = alt;
                let mut out: Vec<u8> = vec![];
                c.merge(&names, &mut comp(spec), &mut out, unique).map_err(|e| e.to_string())?;
                let body: &[u8] = if want_head { out.strip_prefix(HEAD).ok_or("no header")? } else { &out };
                let mut body = body.to_vec();
                if names.len() == 1 && !body.is_empty() && !body.ends_with(b"\n") {
                    body.push(b'\n');
                }
                judge(&out_lines(&body)?, &all, cmp, unique)
            });
            continue;
        }
        let mut args = strs(&["sort"]);
        for s in spec {
            args.extend(strs(&["-k", s]));
        }
        if unique {
            args.push("-u".into());
        }
        if merge {
            args.push("-m".into());
            if r.flip() {
                args.push("-A".into());
            }
        } else if r.below(4) == 0 {
            args.push("-a".into());
        }
        args.extend(files.iter().map(|f| f.0.clone()));
        let again = r.below(6) == 0;
        if again {
            // a file named twice is read twice
            args.push(files[0].0.clone());
            all.extend(first);
        }
        let one = files.len() == 1 && !again;
        cases.push(ToolCase {
            group: if merge { "cdx sort -m" } else { "cdx sort" }.to_string(),
            files: files.clone(),
            args,
            stdin: vec![],
            judge: Box::new(move |o: &Out| {
                if o.code != 0 {
                    return Err(format!("exit {}", o.code));
                }
                let body: &[u8] = if want_head { o.out.strip_prefix(HEAD).ok_or("no header")? } else { &o.out };
                let mut body = body.to_vec();
                if one && !body.is_empty() && !body.ends_with(b"\n") {
                    body.push(b'\n');
                }
                judge(&out_lines(&body)?, &all, cmp, unique)
            }),
        });
        // check
        let mut ls = { let m = *r.pick(&[1usize, 2, 3, 6]); gen_lines(&mut r, m) };
        if r.flip() {
            ls.sort_by(|a, b| cmp(a, b));
        }
        if !with_head && !ls.is_empty() && ls[0].starts_with(b" CDX") {
            ls.clear();
        }
        let mut f = if with_head { HEAD.to_vec() } else { vec![] };
        f.extend(ls.concat());
        if r.flip() && f.ends_with(b"\n") && f != HEAD {
            f.pop();
        }
        let ok = ls.windows(2).all(|w| match cmp(&w[0], &w[1]) { Ordering::Less => true, Ordering::Equal => !unique, Ordering::Greater => false });
        let good = vec![gen_line(&mut r)];
        let mut g = if with_head { HEAD.to_vec() } else { vec![] };
        if !(!with_head && good[0].starts_with(b" CDX")) {
            g.extend(good.concat());
        }
        let mut args = strs(&["sort"]);
        for s in spec {
            args.extend(strs(&["-k", s]));
        }
        if unique {
            args.push("-u".into());
        }
        args.extend(match r.below(3) { 0 => strs(&["-C", "1"]), 1 => strs(&["-C", "9"]), _ => strs(&["-c"]) });
        let first = r.flip();
        args.extend(if first { strs(&["f", "g"]) } else { strs(&["g", "f"]) });
        cases.push(ToolCase {
            group: "cdx sort --check".to_string(),
            files: vec![("f".into(), f), ("g".into(), g)],
            args,
            stdin: vec![],
            judge: Box::new(move |o: &Out| {
                if ok != (o.code == 0) {
                    return Err(format!("exit {} where the order is {}", o.code, if ok { "right" } else { "wrong" }));
                }
                Ok(())
            }),
        });
    }
    run_tools(ctx, cases);
    if ctx.thorough {
        // enough data to fill the tool's own buffer is out of reach here: a large in-memory sort
        let mut lines = vec![];
        for _ in 0..60_000 {
            lines.push(gen_line(&mut r));
        }
        for alloc in [1usize << 16, 1 << 18, 1 << 20, 1 << 28] {
            ctx.case("large", &[format!("60000 lines, alloc {alloc}").as_bytes()], || {
                let mut c = comp(&["2,num", "a"]);
                c.lookup(&["a", "b", "c"]).map_err(|e| e.to_string())?;
                let mut s = Sorter::new(c, alloc, false);
                s.add(&lines.concat()[..]).map_err(|e| e.to_string())?;
                let mut out: Vec<u8> = vec![];
                s.finalize(&mut out).map_err(|e| e.to_string())?;
                let got = out_lines(&out)?;
                let key = |l: &Vec<u8>| (num(col(nonl(l), 1)), col(nonl(l), 0).to_vec());
                if got.windows(2).any(|w| key(&w[0]) > key(&w[1])) {
                    return Err("out of order".to_string());
                }
                let mut a = got;
                let mut b: Vec<Vec<u8>> = lines.iter().map(|x| nonl(x).to_vec()).collect();
                a.sort();
                b.sort();
                if a != b { Err("not the lines of the input".to_string()) } else { Ok(()) }
            });
        }
    }
}
