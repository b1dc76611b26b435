//! escaped text reads back as what was written
use crate::common::*;
use cdx::prelude::*;
use cdx::util::{enslash, unslash, QuoteMode};

fn mode(q: QuoteMode, d: u8) -> TextFileMode {
    let mut m = TextFileMode::default();
    m.col_mode = q;
    m.delim = d;
    m
}
fn write(m: &TextFileMode, cols: &[Vec<u8>]) -> Vec<u8> {
    let mut v = vec![];
    for (i, c) in cols.iter().enumerate() {
        if i > 0 {
            v.push(m.delim);
        }
        m.write(&mut v, c).unwrap();
    }
    v.push(b'\n');
    v
}
/// write rows, read them back from text delivered in pieces of n bytes
fn trip(q: QuoteMode, d: u8, rows: &[Vec<Vec<u8>>], n: usize, final_nl: bool) -> R {
    let m = mode(q, d);
    let mut text = vec![];
    for r in rows {
        text.extend(write(&m, r));
    }
    if !final_nl {
        text.pop();
    }
    let mut f = std::io::BufReader::with_capacity(n, &text[..]);
    for (i, r) in rows.iter().enumerate() {
        let mut t = TextLine::new();
        if m.read_line(&mut f, t.raw()).map_err(|_| "read failed".to_string())? {
            return Err(format!("row {i} is missing from {}", esc(&text)));
        }
        let raw = t.line().to_vec();
        m.split(&mut t);
        let got: Vec<Vec<u8>> = t.iter().map(|x| x.to_vec()).collect();
        if &got != r {
            return Err(format!("row {i} written as {} reads back as {}", esc(&raw), got.iter().map(|x| esc(x)).collect::<Vec<_>>().join(" ")));
        }
        if t.line() != &raw[..] {
            return Err(format!("the original text {} became {}", esc(&raw), esc(t.line())));
        }
        let mut u = TextLine::new();
        u.assign(&t);
        if u.line() != t.line() || u.vec() != t.vec() {
            return Err("assign loses text".into());
        }
        let nl = t.line_nl().to_vec();
        if nl != r.join(&[d][..]) {
            return Err(format!("decoded line is {}", esc(&nl)));
        }
    }
    let mut t = TextLine::new();
    if !m.read_line(&mut f, t.raw()).map_err(|_| "read failed".to_string())? {
        return Err(format!("extra line {}", esc(t.line())));
    }
    Ok(())
}
const MODES: [QuoteMode; 2] = [QuoteMode::Quote, QuoteMode::Backslash];
pub fn run(ctx: &mut Ctx) {
    for c in 0..=255u8 {
        ctx.case("slash tables", &[&[c]], || {
            if unslash(enslash(c)) != c && !b"nrt".contains(&c) {
                return Err(format!("{c} becomes {}", unslash(enslash(c))));
            }
            Ok(())
        });
        for q in MODES {
            for d in [b'\t', b',', b';', b' '] {
                ctx.case("every byte", &[&[c, d]], || trip(q, d, &[vec![vec![c], vec![c, c], vec![b'x', c]]], 7, true));
            }
        }
    }
    for q in MODES {
        let al: &[u8] = if q == QuoteMode::Quote { b"\t\n\"ab" } else { b"\t\n\\nt" };
        for s in all_strings(al, ctx.n(6, 8)) {
            ctx.case("every value", &[&s], || trip(q, b'\t', &[vec![s.clone()], vec![b"x".to_vec(), s.clone()], vec![s.clone(), b"y".to_vec()]], 5, true));
        }
        let short = all_strings(if q == QuoteMode::Quote { b"\"\na," } else { b"\\\nr," }, ctx.n(2, 3));
        for a in &short {
            for b in &short {
                ctx.case("pairs of values", &[a, b], || trip(q, b',', &[vec![a.clone(), b.clone()], vec![b.clone()]], 3, !(a.len() & 1 == 1 && !b.is_empty())));
            }
        }
    }
    let mut r = Rng::new(ctx.seed ^ 0x07);
    for _ in 0..ctx.n(8000, 100000) {
        let q = *r.pick(&MODES);
        let d = *r.pick(b"\t,; |\r");
        let rows: Vec<Vec<Vec<u8>>> = (0..r.range(1, 4))
            .map(|_| {
                (0..r.range(1, 4))
                    .map(|_| (0..r.below(8)).map(|_| if r.flip() { *r.pick(&[d, b'\n', b'\r', b'"', b'\\', b'n']) } else { r.below(256) as u8 }).collect())
                    .collect()
            })
            .collect();
        let n = r.range(1, 9);
        let shown: Vec<Vec<u8>> = rows.iter().map(|x| x.join(&b"|"[..])).collect();
        let refs: Vec<&[u8]> = shown.iter().map(|x| &x[..]).collect();
        // without its newline an empty last line is not a line
        let last_ok = rows.last().unwrap().len() > 1 || !rows.last().unwrap()[0].is_empty();
        let nl = !last_ok || r.flip();
        ctx.case("random tables", &refs, || trip(q, d, &rows, n, nl));
    }
    // text without escapes is unchanged, unescaping does not run off the end
    for s in all_strings(b"a\\\"\t", ctx.n(6, 7)) {
        for q in MODES {
            ctx.case("any text", &[&s], || {
                let m = mode(q, b'\t');
                let mut t = TextLine::new();
                t.raw().extend_from_slice(&s);
                t.raw().push(b'\n');
                m.split(&mut t);
                let special = if q == QuoteMode::Quote { b'"' } else { b'\\' };
                if !s.contains(&special) {
                    let want: Vec<&[u8]> = s.split(|c| *c == b'\t').collect();
                    if t.vec() != want {
                        return Err(format!("plain text became {:?}", t.vec()));
                    }
                }
                Ok(())
            });
        }
    }
    let mut cases = vec![];
    for _ in 0..ctx.n(60, 400) {
        let (q, ch) = *r.pick(&[(QuoteMode::Quote, 'q'), (QuoteMode::Backslash, 'b')]);
        let d = *r.pick(b"\t,;");
        let dc = if d == b'\t' { 't' } else { d as char };
        let m = mode(q, d);
        let nc = r.range(1, 3);
        let mut input = vec![];
        let mut want = vec![];
        let al = [d, b'\n', b'"', b'\\', b'a', b'b'];
        for _ in 0..r.range(1, 4) {
            let row: Vec<Vec<u8>> = (0..nc).map(|_| r.bytes(&al, 3)).collect();
            input.extend(write(&m, &row));
            let rev: Vec<Vec<u8>> = row.iter().rev().cloned().collect();
            want.extend(write(&m, &rev));
        }
        let fm = format!("n{dc}{ch}");
        let spec = (1..=nc).rev().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        cases.push(ToolCase {
            group: "cdx cut in the same style".into(),
            files: vec![("in".into(), input)],
            args: strs(&["cut", "--text-in", &fm, "--text-out", &fm, "-f", &spec, "in"]),
            stdin: vec![],
            judge: expect(want),
        });
        // from one style to the other
        let (q2, ch2) = if q == QuoteMode::Quote { (QuoteMode::Backslash, 'b') } else { (QuoteMode::Quote, 'q') };
        let m2 = mode(q2, b':');
        let mut input = vec![];
        let mut want = vec![];
        for _ in 0..r.range(1, 4) {
            let row: Vec<Vec<u8>> = (0..nc).map(|_| r.bytes(&[d, b'\n', b'"', b'\\', b':', b'b'], 3)).collect();
            input.extend(write(&m, &row));
            want.extend(write(&m2, &row));
        }
        cases.push(ToolCase {
            group: "cdx cut from one style to another".into(),
            files: vec![("in".into(), input)],
            args: strs(&["cut", "--text-in", &fm, "--text-out", &format!("n:{ch2}"), "-f", "1-", "in"]),
            stdin: vec![],
            judge: expect(want),
        });
    }
    run_tools(ctx, cases);
}
