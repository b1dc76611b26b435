//! splitting a line into columns loses nothing
use crate::common::*;
use cdx::column::get_col;
use cdx::prelude::*;
use cdx::util::{make_header, split_plain, FakeSlice, StringLine};

fn pieces(line: &[u8], d: u8) -> Vec<Vec<u8>> {
    let l = if line.last() == Some(&b'\n') { &line[..line.len() - 1] } else { line };
    let mut out = vec![vec![]];
    for &c in l {
        if c == d {
            out.push(vec![]);
        } else {
            out.last_mut().unwrap().push(c);
        }
    }
    out
}
fn one(line: &[u8], d: u8) -> R {
    let want = pieces(line, d);
    let mut mode = TextFileMode::default();
    mode.delim = d;
    if !line.is_empty() {
        for how in 0..2 {
            let mut t = TextLine::new();
            t.raw().extend_from_slice(line);
            if how == 0 {
                t.split(&mode);
            } else {
                mode.split(&mut t);
            }
            let what = ["TextLine::split", "TextFileMode::split"][how];
            let got: Vec<Vec<u8>> = t.iter().map(|x| x.to_vec()).collect();
            if got != want {
                return Err(format!("{what} gave {} columns, not {}: {}", got.len(), want.len(), got.iter().map(|x| esc(x)).collect::<Vec<_>>().join(" ")));
            }
            if t.len() != want.len() || t.vec().iter().map(|x| x.to_vec()).collect::<Vec<_>>() != want {
                return Err(format!("{what}: len or vec differ"));
            }
            if (&t).into_iter().map(|x| x.to_vec()).collect::<Vec<_>>() != want {
                return Err(format!("{what}: into_iter differs"));
            }
            for i in 0..want.len() {
                if t.get(i) != &want[i][..] || &t[i] != &want[i][..] {
                    return Err(format!("{what}: get({i}) is {}", esc(t.get(i))));
                }
            }
            for i in want.len()..want.len() + 3 {
                if !t.get(i).is_empty() || !t[i].is_empty() {
                    return Err(format!("{what}: get({i}) past the end is {}", esc(t.get(i))));
                }
            }
            if t.line() != line || t.strlen() != line.len() {
                return Err(format!("{what}: the line itself is {}", esc(t.line())));
            }
            if line.last() == Some(&b'\n') && t.line_nl() != &line[..line.len() - 1] {
                return Err(format!("{what}: line_nl is {}", esc(t.line_nl())));
            }
        }
        let mut parts: Vec<FakeSlice> = vec![];
        split_plain(&mut parts, line, d);
        for (i, p) in parts.iter().enumerate() {
            if p.get(line) != &want[i][..] || p.get_safe(line) != &want[i][..] || p.len() != want[i].len() || p.is_empty() != want[i].is_empty() {
                return Err(format!("part {i} is {}", esc(p.get(line))));
            }
        }
        if let Ok(s) = std::str::from_utf8(line) {
            if d < 128 {
                let mut t = StringLine::new();
                t.line = s.to_string();
                t.split(d);
                let got: Vec<Vec<u8>> = t.iter().map(|x| x.as_bytes().to_vec()).collect();
                if got != want || t.len() != want.len() || t.vec().len() != want.len() {
                    return Err(format!("StringLine::split gave {got:?}"));
                }
                for i in 0..want.len() + 3 {
                    let w: &[u8] = want.get(i).map(|x| &x[..]).unwrap_or(b"");
                    if t.get(i).as_bytes() != w || t[i].as_bytes() != w {
                        return Err(format!("StringLine::get({i}) is {:?}", t.get(i)));
                    }
                }
            }
        }
    }
    for i in 0..want.len() + 3 {
        let w: &[u8] = want.get(i).map(|x| &x[..]).unwrap_or(b"");
        if get_col(line, i, d) != w {
            return Err(format!("get_col {i} is {}", esc(get_col(line, i, d))));
        }
    }
    Ok(())
}
pub fn run(ctx: &mut Ctx) {
    for (d, al) in [(b'\t', &b"\ta\n "[..]), (b',', &b",\tb\\"[..]), (b' ', &b" \"\r\xc3"[..])] {
        for s in all_strings(al, ctx.n(6, 8)) {
            // newline only at the end
            if s.len() > 1 && s[..s.len() - 1].contains(&b'\n') {
                continue;
            }
            ctx.case("every line", &[&s, &[d]], || one(&s, d));
            let mut n = s.clone();
            if n.last() != Some(&b'\n') {
                n.push(b'\n');
                ctx.case("every line", &[&n, &[d]], || one(&n, d));
            }
        }
    }
    let mut r = Rng::new(ctx.seed ^ 0x06);
    for _ in 0..ctx.n(20000, 200000) {
        let mut d = r.below(256) as u8;
        if d == b'\n' {
            d = b'\t';
        }
        let mut s: Vec<u8> = (0..r.below(60)).map(|_| r.below(256) as u8).map(|c| if c == b'\n' { b'x' } else { c }).collect();
        for _ in 0..r.below(8) {
            let at = r.below(s.len() + 1);
            s.insert(at, d);
        }
        if r.flip() {
            s.push(b'\n');
        }
        ctx.case("random lines", &[&s, &[d]], || one(&s, d));
    }
    // many columns
    for n in [255usize, 256, 1000, 70000] {
        let line = mk(&vec![b"x".to_vec(); n], b'\t');
        ctx.case("many columns", &[format!("{n}").as_bytes()], || one2(&line, n));
    }
    // a TextLine used again
    for (a, b) in [("a\tb\tc\n", "x\n"), ("x\n", "a\tb\tc\n"), ("a\t\n", "\n")] {
        ctx.case("reused line", &[a.as_bytes(), b.as_bytes()], || {
            let m = TextFileMode::default();
            let mut t = TextLine::new();
            t.raw().extend_from_slice(a.as_bytes());
            t.split(&m);
            let keep = t.clone();
            t.clear();
            if t.len() != 0 || t.strlen() != 0 || !t.line().is_empty() {
                return Err("not empty after clear".into());
            }
            t.raw().extend_from_slice(b.as_bytes());
            t.split(&m);
            if t.vec().iter().map(|x| x.to_vec()).collect::<Vec<_>>() != pieces(b.as_bytes(), b'\t') {
                return Err("second split".into());
            }
            t.assign(&keep);
            if t.line() != a.as_bytes() || t.vec().iter().map(|x| x.to_vec()).collect::<Vec<_>>() != pieces(a.as_bytes(), b'\t') {
                return Err("assign".into());
            }
            Ok(())
        });
    }
    for (l, want) in [(&b" CDX\ta\tb\n"[..], vec!["a", "b"]), (b"x\ty\tz\n", vec!["c1", "c2", "c3"]), (b"\n", vec!["c1"]), (b"\t\n", vec!["c1", "c2"])] {
        ctx.case("made up header", &[l], || {
            let h = make_header(l);
            if h.vec() == want {
                Ok(())
            } else {
                Err(format!("{:?}", h.vec()))
            }
        });
    }
    let mut cases = vec![];
    for _ in 0..ctx.n(60, 400) {
        let d = *r.pick(&[b'\t', b',', b' ', b':']);
        let rows = 1 + r.below(5);
        let nc = 1 + r.below(4);
        let mut f = vec![];
        let mut want: Vec<Vec<u8>> = vec![];
        for _ in 0..rows {
            let cs: Vec<Vec<u8>> = (0..nc).map(|_| { let n = r.below(3); (0..n).map(|_| *r.pick(b"abc")).collect() }).collect();
            f.extend(mk(&cs, d));
            want.push(mk(&cs, d));
        }
        if r.flip() && want.last().unwrap().len() > 1 {
            f.pop();
        }
        let mode = format!("n{}", match d { b'\t' => 't', b' ' => 's', c => c as char });
        let want: Vec<u8> = want.concat();
        cases.push(ToolCase {
            group: "cdx cut of all columns".into(),
            files: vec![("in".into(), f)],
            args: strs(&["cut", "--text-in", &mode, "-f", "1-", "in"]),
            stdin: vec![],
            judge: expect(want),
        });
    }
    run_tools(ctx, cases);
}
fn one2(line: &[u8], n: usize) -> R {
    let mut t = TextLine::new();
    t.raw().extend_from_slice(line);
    t.split(&TextFileMode::default());
    if t.len() != n {
        return Err(format!("{} columns", t.len()));
    }
    if t.iter().any(|x| x != b"x") || get_col(line, n - 1, b'\t') != b"x" || !get_col(line, n, b'\t').is_empty() {
        return Err("a column differs".into());
    }
    Ok(())
}
fn mk(cs: &[Vec<u8>], d: u8) -> Vec<u8> {
    let mut v = cs.join(&[d][..]);
    v.push(b'\n');
    v
}
