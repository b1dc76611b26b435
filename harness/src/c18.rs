//! the reader delivers every line once with truthful positions
use crate::common::*;
use cdx::prelude::*;
use cdx::util::{get_reader, FileLocList, HeadMode, QuoteMode};
use std::io::Write as _;

/// records of a text: each with its newline (added at the end if missing), its byte offset
fn records(text: &[u8], quoted: bool) -> Vec<(Vec<u8>, usize)> {
    let mut out = vec![];
    let mut start = 0;
    let mut within = false;
    for (i, &c) in text.iter().enumerate() {
        within ^= quoted && c == b'"';
        if c == b'\n' && !within {
            out.push((text[start..=i].to_vec(), start));
            start = i + 1;
        }
    }
    if start < text.len() {
        let mut l = text[start..].to_vec();
        if l.last() != Some(&b'\n') {
            l.push(b'\n');
        }
        out.push((l, start));
    }
    out
}
fn decoded(l: &[u8], q: QuoteMode) -> Vec<Vec<u8>> {
    let l = &l[..l.len() - 1];
    let mut out = vec![vec![]];
    let (mut slash, mut inq, mut i) = (false, false, 0);
    while i < l.len() {
        let c = l[i];
        let last = out.last_mut().unwrap();
        if q == QuoteMode::Backslash && slash {
            last.push(match c {
                b'n' => b'\n',
                b't' => b'\t',
                b'r' => b'\r',
                c => c,
            });
            slash = false;
        } else if q == QuoteMode::Backslash && c == b'\\' {
            slash = true;
        } else if q == QuoteMode::Quote && c == b'"' {
            if l.get(i + 1) == Some(&b'"') {
                last.push(b'"');
                i += 1;
            } else {
                inq = !inq;
            }
        } else if c == b'\t' && !inq {
            out.push(vec![]);
        } else {
            last.push(c);
        }
        i += 1;
    }
    out
}
struct Setup {
    q: QuoteMode,
    head: HeadMode,
    look: usize,
    split: bool,
    strict: bool, // the decoding of quoted text is only compared when it was properly quoted
}
/// check everything the open reader shows
fn check(r: &mut Reader, text: &[u8], name: &str, s: &Setup) -> R {
    let recs = records(text, s.q == QuoteMode::Quote);
    let head = match s.head {
        HeadMode::Yes | HeadMode::Cdx => !recs.is_empty(),
        HeadMode::No => false,
        _ => text.starts_with(b" CDX"),
    };
    let used = head && s.head != HeadMode::Skip;
    let data = &recs[head as usize..];
    if recs.is_empty() || (head && !used && data.is_empty()) {
        return if r.is_empty() && r.is_done() { Ok(()) } else { Err("an empty file was not reported as empty".into()) };
    }
    if r.is_empty() {
        return Err("reported as empty".into());
    }
    if r.has_header() != used {
        return Err(format!("has_header is {}", r.has_header()));
    }
    if used {
        if r.header().line.as_bytes() != &recs[0].0[..] || r.header_line().as_bytes() != &recs[0].0[..] {
            return Err(format!("the header is {}", esc(r.header().line.as_bytes())));
        }
        let mut w = vec![];
        r.write_header(&mut w).map_err(|e| e.to_string())?;
        if w != recs[0].0 {
            return Err("write_header".into());
        }
    }
    if r.is_done() != data.is_empty() {
        return Err(format!("is_done is {} with {} lines of data", r.is_done(), data.len()));
    }
    if data.is_empty() {
        return Ok(());
    }
    if !used {
        let want: Vec<String> = (1..=if s.strict { decoded(&data[0].0, s.q).len() } else { r.names().len() }).map(|i| format!("c{i}")).collect();
        if r.names() != want {
            return Err(format!("column names are {:?}", r.names()));
        }
    }
    for (i, (line, off)) in data.iter().enumerate() {
        if r.curr().line() != &line[..] || r.curr_line().line() != &line[..] || r.curr_nl() != &line[..line.len() - 1] {
            return Err(format!("line {i} is {} not {}", esc(r.curr().line()), esc(line)));
        }
        let mut w = vec![];
        r.write(&mut w).map_err(|e| e.to_string())?;
        r.write_curr(&mut w).map_err(|e| e.to_string())?;
        if w != [&line[..], &line[..]].concat() {
            return Err(format!("line {i} is written as {}", esc(&w)));
        }
        if r.line_number() != i + 1 {
            return Err(format!("line {} has number {}", i + 1, r.line_number()));
        }
        let mut l = FileLocList::new();
        l.push("bytes,line,name").map_err(|e| e.to_string())?;
        let mut w = vec![];
        l.write_data(&mut w, b'|', r.loc()).map_err(|e| e.to_string())?;
        let want = format!("{off}|{}|{name}|", i + 1);
        if w != want.as_bytes() {
            return Err(format!("position of line {} is {} not {want}", i + 1, esc(&w)));
        }
        if (s.split || i == 0) && s.strict {
            let got: Vec<Vec<u8>> = r.curr().iter().map(|x| x.to_vec()).collect();
            if got != decoded(line, s.q) {
                return Err(format!("line {} has columns {:?}", i + 1, got.iter().map(|x| esc(x)).collect::<Vec<_>>()));
            }
        }
        for k in 0..=s.look {
            let want: &[u8] = if k <= i { &data[i - k].0 } else { b"" };
            if r.prev_line(k).line() != want || r.prev_nl(k) != &want[..want.len().saturating_sub(1)] {
                return Err(format!("looking back {k} from line {} shows {} not {}", i + 1, esc(r.prev_line(k).line()), esc(want)));
            }
            let mut w = vec![];
            r.write_prev(&mut w, k).map_err(|e| e.to_string())?;
            if w != want {
                return Err(format!("looking back {k} from line {} writes {}", i + 1, esc(&w)));
            }
        }
        let done = r.getline().map_err(|e| e.to_string())?;
        if done != (i + 1 == data.len()) || done != r.is_done() {
            return Err(format!("getline returned {done} after line {} of {}", i + 1, data.len()));
        }
    }
    for k in 1..=s.look {
        let want: &[u8] = if k <= data.len() { &data[data.len() - k].0 } else { b"" };
        if r.prev_line(k).line() != want {
            return Err(format!("at the end, looking back {k} shows {}", esc(r.prev_line(k).line())));
        }
    }
    Ok(())
}
fn one(dir: &std::path::Path, texts: &[&[u8]], s: &Setup) -> R {
    let mut mode = TextFileMode::default();
    mode.col_mode = s.q;
    mode.head_mode = s.head;
    let mut r = Reader::new_with(s.look, &mode);
    r.do_split(s.split);
    for (i, t) in texts.iter().enumerate() {
        let p = dir.join(format!("f{i}"));
        std::fs::write(&p, t).unwrap();
        let name = p.to_str().unwrap();
        if std::str::from_utf8(t).is_err() {
            continue;
        }
        r.open(name).map_err(|e| format!("open failed: {e}"))?;
        check(&mut r, t, name, s).map_err(|e| format!("file {i}: {e}"))?;
        let mut r2 = Reader::new_open_with(name, s.look, &mode).map_err(|e| format!("open failed: {e}"))?;
        r2.do_split(s.split);
        check(&mut r2, t, name, s).map_err(|e| format!("file {i}, new_open: {e}"))?;
        // the file without any interpretation
        let mut all = vec![];
        use std::io::Read;
        get_reader(name).map_err(|e| e.to_string())?.read_to_end(&mut all).map_err(|e| e.to_string())?;
        if all != *t {
            return Err(format!("get_reader delivers {}", esc(&all)));
        }
    }
    Ok(())
}
pub fn run(ctx: &mut Ctx) {
    let tmp = tempfile::tempdir().unwrap();
    let d = tmp.path();
    let heads = [HeadMode::Maybe, HeadMode::Yes, HeadMode::No, HeadMode::Skip];
    for t in all_strings(b"a\t\n", ctx.n(5, 7)) {
        for head in heads {
            for h in [&b""[..], b" CDX\ta\n"] {
                let x = [h, &t[..]].concat();
                for look in 0..3 {
                    ctx.case("small files", &[&x, &[look as u8 + b'0', head as u8 + b'0']], || one(d, &[&x], &Setup { q: QuoteMode::Plain, head, look, split: true, strict: true }));
                }
            }
        }
    }
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(3000, 60000) {
        let q = *r.pick(&[QuoteMode::Plain, QuoteMode::Backslash, QuoteMode::Quote]);
        let mut m = TextFileMode::default();
        m.col_mode = q;
        let s = Setup { q, head: *r.pick(&heads), look: r.below(5), split: r.below(4) > 0, strict: true };
        let mut texts = vec![];
        for _ in 0..r.range(1, 3) {
            let mut t = vec![];
            if r.flip() {
                t.extend(b" CDX\tone\ttwo\n");
            }
            for _ in 0..r.below(9) {
                for c in 0..r.range(1, 3) {
                    if c > 0 {
                        t.push(b'\t');
                    }
                    let n = if r.below(30) == 0 { 300 } else { 5 };
                    let v = r.bytes(b"ab\t\n\"\\ x", n);
                    m.write(&mut t, &v).unwrap();
                }
                t.push(b'\n');
            }
            if r.flip() {
                t.pop();
            }
            texts.push(t);
        }
        let ts: Vec<&[u8]> = texts.iter().map(|x| &x[..]).collect();
        ctx.case("random files", &ts, || one(d, &ts, &s));
    }
    // many lines, looking far back
    for _ in 0..ctx.n(150, 3000) {
        let s = Setup { q: QuoteMode::Plain, head: *r.pick(&heads), look: r.below(8), split: r.flip(), strict: true };
        let mut texts = vec![];
        for _ in 0..r.range(1, 2) {
            let mut t = vec![];
            if r.flip() {
                t.extend(b" CDX\tone\ttwo\n");
            }
            for i in 0..r.range(1, 90) {
                t.extend(format!("{i}").bytes());
                t.extend(r.bytes(b"ab\t", 3));
                t.push(b'\n');
            }
            if r.flip() {
                t.pop();
            }
            texts.push(t);
        }
        let ts: Vec<&[u8]> = texts.iter().map(|x| &x[..]).collect();
        ctx.case("many lines", &ts, || one(d, &ts, &s));
    }
    // larger than any buffer
    for n in [8191usize, 8192, 8193, 20000] {
        let mut t = b" CDX\ta\n".to_vec();
        t.extend(vec![b'x'; n - 8]);
        t.extend(b"\ny\n\n");
        t.extend(vec![b'z'; n]);
        ctx.case("long lines", &[format!("{n}").as_bytes()], || one(d, &[&t], &Setup { q: QuoteMode::Plain, head: HeadMode::Maybe, look: 2, split: true, strict: true }));
    }
    // delivered in pieces, through a pipe
    let t: &[u8] = b" CDX\ta\tb\n1\t2\n\n3";
    let mut gz = vec![];
    {
        let mut e = flate2::write::GzEncoder::new(&mut gz, flate2::Compression::default());
        e.write_all(t).unwrap();
        e.finish().unwrap();
    }
    for (src, pack) in [(t, false), (&gz[..], true)] {
        for cut in 1..8 {
            ctx.case("pieces", &[src, format!("{cut}").as_bytes()], || {
                let p = d.join(format!("pipe{cut}{pack}"));
                let st = std::process::Command::new("mkfifo").arg(&p).status();
                if st.map(|x| !x.success()).unwrap_or(true) {
                    return Ok(()); // no pipes here
                }
                let (p2, src2) = (p.clone(), src.to_vec());
                let h = std::thread::spawn(move || {
                    let mut f = std::fs::OpenOptions::new().write(true).open(&p2).unwrap();
                    for x in [&src2[..cut], &src2[cut..]] {
                        let _ = f.write_all(x);
                        std::thread::sleep(std::time::Duration::from_millis(30));
                    }
                });
                let name = p.to_str().unwrap().to_string();
                let res = Reader::new_open(&name, &TextFileMode::default())
                    .map_err(|e| e.to_string())
                    .and_then(|mut r| check(&mut r, t, &name, &Setup { q: QuoteMode::Plain, head: HeadMode::Maybe, look: 1, split: true, strict: true }));
                h.join().unwrap();
                res
            });
        }
    }
}
