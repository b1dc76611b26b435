//! sampling: exactly min(n, m) lines of the file, ranges exactly
use crate::common::*;
use cdx::sampler::Smooth;

fn line(i: usize) -> Vec<u8> {
    format!("{i}\n").into_bytes()
}
/// v is a list of n different lines out of line(0)..line(m), in order
fn check(v: &[u8], n: usize, m: usize) -> R {
    let got = out_lines(v)?;
    if got.len() != n.min(m) {
        return Err(format!("{} lines of {m}, wanted {n}", got.len()));
    }
    let mut last: Option<usize> = None;
    if n > 0 && m > 0 && got[0] != b"0" {
        return Err("the first line is not among them".to_string());
    }
    if n > 1 && m > 0 && got[n.min(m) - 1] != (m - 1).to_string().into_bytes() {
        return Err("the last line is not among them".to_string());
    }
    for g in got {
        let x: usize = String::from_utf8_lossy(&g).trim_end().parse().map_err(|_| format!("not a line of the file: {}", esc(&g)))?;
        if x >= m {
            return Err(format!("not a line of the file: {x}"));
        }
        if let Some(l) = last {
            if x <= l {
                return Err(format!("line {x} after line {l}"));
            }
        }
        last = Some(x);
    }
    Ok(())
}
fn file(m: usize, nl: bool) -> Vec<u8> {
    let mut f = b" CDX\tn\n".to_vec();
    for i in 0..m {
        f.extend(line(i));
    }
    if !nl && m > 0 {
        f.pop();
    }
    f
}

pub fn run(ctx: &mut Ctx) {
    let (nn, mm) = (ctx.n(24, 60), ctx.n(150, 700));
    for n in 0..nn {
        for m in 0..mm {
            ctx.case("smooth", &[n.to_string().as_bytes(), m.to_string().as_bytes()], || {
                let mut s = Smooth::new(n);
                for i in 0..m {
                    s.add(&line(i));
                }
                let mut out = vec![];
                s.finalize(&mut out).map_err(|e| e.to_string())?;
                check(&out, n, m)
            });
        }
    }
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(200, 3000) {
        let n = r.below(3000);
        let m = r.below(20000);
        ctx.case("smooth big", &[n.to_string().as_bytes(), m.to_string().as_bytes()], || {
            let mut s = Smooth::new(n);
            for i in 0..m {
                s.add(&line(i));
            }
            let mut out = vec![];
            s.finalize(&mut out).map_err(|e| e.to_string())?;
            check(&out, n, m)
        });
    }
    let mut cases = vec![];
    // a list of files: (lines, final newline, header only / empty)
    for round in 0..ctx.n(60, 600) {
        let mut sizes: Vec<usize> = (0..r.range(1, 3)).map(|_| *r.pick(&[0usize, 0, 1, 2, 3, 5, 8, 13, 30])).collect();
        if round % 4 == 0 {
            sizes.insert(0, 0);
        }
        let mut files = vec![];
        for (i, m) in sizes.iter().enumerate() {
            files.push((format!("f{i}"), file(*m, r.flip())));
        }
        let names: Vec<String> = files.iter().map(|x| x.0.clone()).collect();
        // how many
        let n = *r.pick(&[0usize, 1, 2, 3, 4, 7, 12, 100, 1 << 60]);
        let mut args = strs(&["sample", "--sample", &n.to_string()]);
        args.extend(names.clone());
        let sz = sizes.clone();
        cases.push(ToolCase {
            group: "sample".to_string(),
            files: files.clone(),
            args,
            stdin: vec![],
            judge: Box::new(move |o: &Out| {
                if o.code != 0 {
                    return Err(format!("exit {}", o.code));
                }
                let body = o.out.strip_prefix(b" CDX\tn\n").ok_or("no header")?;
                let got = out_lines(body)?;
                let mut at = 0;
                for m in &sz {
                    let k = n.min(*m);
                    if at + k > got.len() {
                        return Err(format!("{} lines for files of {sz:?}, {n} from each", got.len()));
                    }
                    let part: Vec<u8> = got[at..at + k].iter().flat_map(|x| { let mut x = x.clone(); if x.last() != Some(&b'\n') { x.push(b'\n'); } x }).collect();
                    check(&part, n, *m)?;
                    at += k;
                }
                if at != got.len() {
                    return Err(format!("{} lines for files of {sz:?}, {n} from each", got.len()));
                }
                Ok(())
            }),
        });
        // which
        let mut rs: Vec<(usize, usize)> = vec![];
        for _ in 0..r.range(1, 3) {
            let a = r.below(15);
            rs.push((a, if r.flip() { a } else { r.below(18) }));
        }
        let spec: Vec<String> = rs.iter().map(|(a, b)| if a == b { a.to_string() } else { format!("{a}-{b}") }).collect();
        let mut args = strs(&["sample", "--range", &spec.join(",")]);
        args.extend(names.clone());
        let mut want = b" CDX\tn\n".to_vec();
        for m in &sizes {
            for i in 0..*m {
                if rs.iter().any(|(a, b)| *a <= i + 1 && i + 1 <= *b) {
                    want.extend(line(i));
                }
            }
        }
        cases.push(ToolCase { group: "range".to_string(), files: files.clone(), args, stdin: vec![], judge: expect(want) });
        let by = *r.pick(&[1usize, 2, 3, 7, usize::MAX]);
        let from = r.range(1, 9);
        let to = if r.flip() { None } else { Some(r.range(1, 20)) };
        let spec = match to {
            None => format!("{by},{from}"),
            Some(t) => format!("{by},{from},{t}"),
        };
        let mut args = strs(&["sample", "--for", &spec]);
        args.extend(names.clone());
        let mut want = b" CDX\tn\n".to_vec();
        for m in &sizes {
            for i in 0..*m {
                let l = i + 1;
                if l >= from && (l - from) % by == 0 && to.map_or(true, |t| l <= t) {
                    want.extend(line(i));
                }
            }
        }
        cases.push(ToolCase { group: "for".to_string(), files, args, stdin: vec![], judge: expect(want) });
    }
    run_tools(ctx, cases);
}
