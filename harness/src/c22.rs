//! cat, paste and transpose rearrange whole lines and columns only
use crate::common::*;

#[derive(Clone)]
struct F {
    head: Option<Vec<Vec<u8>>>,
    lines: Vec<Vec<u8>>,
    nl: bool,
}
impl F {
    fn head(&self) -> Vec<u8> {
        let mut v = Vec::new();
        if let Some(h) = &self.head {
            v.extend_from_slice(b" CDX\t");
            let r: Vec<&[u8]> = h.iter().map(|x| &x[..]).collect();
            v.extend_from_slice(&join(&r, b'\t'));
            v.push(b'\n');
        }
        v
    }
    fn data(&self) -> Vec<u8> {
        let mut v = Vec::new();
        for l in &self.lines {
            v.extend_from_slice(l);
            v.push(b'\n');
        }
        if !self.nl && !v.is_empty() {
            v.pop();
        }
        v
    }
    fn all(&self) -> Vec<u8> {
        let mut v = self.head();
        v.extend_from_slice(&self.data());
        v
    }
    /// columns: those of the header, or of the first line
    fn width(&self) -> usize {
        match &self.head {
            Some(h) => h.len(),
            None => self.lines.first().map_or(0, |l| cols(l).len()),
        }
    }
}
fn names(prefix: &str, n: usize) -> Vec<Vec<u8>> {
    (0..n).map(|i| format!("{prefix}{i}").into_bytes()).collect()
}
fn judge_fail(part: &'static str) -> Box<dyn Fn(&Out) -> R + Send + Sync> {
    Box::new(move |o| {
        if o.code == 0 {
            return Err(format!("accepted : {}", esc(&o.out)));
        }
        if o.err.windows(part.len()).any(|w| w == part.as_bytes()) {
            Ok(())
        } else {
            Err(format!("exit {} : {}", o.code, esc(&o.err)))
        }
    })
}
fn file_args(files: &[F], args: &mut Vec<String>) -> Vec<(String, Vec<u8>)> {
    files
        .iter()
        .enumerate()
        .map(|(i, f)| {
            // a file may be named more than once
            let first = files.iter().position(|g| g.all() == f.all()).unwrap();
            args.push(format!("f{first}"));
            (format!("f{i}"), f.all())
        })
        .collect()
}
// ---- cat
fn cat_fast(files: &[F], pad: &str) -> ToolCase {
    let mut args = strs(&["cat"]);
    if !pad.is_empty() {
        args.extend(strs(&["-p", pad]));
    }
    let fs = file_args(files, &mut args);
    let mut want: Vec<u8> = Vec::new();
    let mut seen = false;
    for f in files {
        if f.all().is_empty() {
            continue;
        }
        if !seen {
            want.extend_from_slice(&f.head());
        }
        seen = true;
        want.extend_from_slice(&f.data());
        if matches!(pad, "" | "yes") && want.last().map_or(false, |x| *x != b'\n') {
            want.push(b'\n');
        }
    }
    if pad == "end" && want.last().map_or(false, |x| *x != b'\n') {
        want.push(b'\n');
    }
    ToolCase { group: format!("cat pad {pad}"), files: fs, args, stdin: vec![], judge: expect(want) }
}
struct Num {
    start: i64,
    end: bool,
}
fn cat_slow(files: &[F], num: Option<Num>, remove: Option<&str>, skip: Option<&str>) -> ToolCase {
    let mut args = strs(&["cat"]);
    if let Some(n) = &num {
        args.extend(strs(&["-n", &format!("num,{},{}", n.start, if n.end { "end" } else { "begin" })]));
    }
    for (o, v) in [("-r", remove), ("-s", skip)] {
        if let Some(v) = v {
            args.extend(strs(&[o, &format!("prefix,{v}")]));
        }
    }
    let fs = file_args(files, &mut args);
    let mut want: Vec<u8> = Vec::new();
    let mut seen = false;
    let mut next = num.as_ref().map_or(0, |n| n.start);
    for f in files {
        if f.all().is_empty() {
            continue;
        }
        if !seen {
            if let Some(h) = &f.head {
                let mut h = h.clone();
                if let Some(n) = &num {
                    h.insert(if n.end { h.len() } else { 0 }, b"num".to_vec());
                }
                want.extend_from_slice(&F { head: Some(h), lines: vec![], nl: true }.head());
            }
        }
        seen = true;
        for l in &f.lines {
            if remove.map_or(false, |p| l.starts_with(p.as_bytes())) {
                continue;
            }
            let mut line = l.clone();
            if let Some(n) = &num {
                let mut v = Vec::new();
                if !skip.map_or(false, |p| l.starts_with(p.as_bytes())) {
                    v = next.to_string().into_bytes();
                    next += 1;
                }
                line = if n.end { join(&[l, &v], b'\t') } else { join(&[&v, l], b'\t') };
            }
            want.extend_from_slice(&line);
            want.push(b'\n');
        }
    }
    ToolCase { group: "cat number remove skip".into(), files: fs, args, stdin: vec![], judge: expect(want) }
}
// ---- paste
#[derive(Clone, Copy, PartialEq)]
enum End {
    Exact,
    Early,
    Late,
}
fn paste(files: &[F], end: End, last: bool, fill: &[(String, String)], dflt: Option<&str>) -> ToolCase {
    let mut args = strs(&["paste"]);
    if end != End::Exact {
        args.extend(strs(&["-e", if end == End::Early { "early" } else { "late" }]));
    }
    if last {
        args.push("-l".into());
    }
    if let Some(d) = dflt {
        args.extend(strs(&["-d", d]));
    }
    for (c, v) in fill {
        args.extend(strs(&["-d", &format!("{v},{c}")]));
    }
    let fs = file_args(files, &mut args);
    let group = format!("paste {}{}", ["exact", "early", "late"][end as usize], if last { " last" } else { "" });
    let all_heads = files.iter().all(|f| f.head.is_some());
    let mut titles: Vec<Vec<u8>> = vec![];
    let mut start = vec![];
    for f in files {
        start.push(titles.len());
        titles.extend(f.head.clone().unwrap_or_else(|| (1..=f.width()).map(|i| format!("c{i}").into_bytes()).collect()));
    }
    let lens: Vec<usize> = files.iter().map(|f| f.lines.len()).collect();
    let rows = match end {
        End::Early => *lens.iter().min().unwrap(),
        _ => *lens.iter().max().unwrap(),
    };
    if end == End::Exact && lens.iter().any(|n| *n != lens[0]) {
        return ToolCase { group, files: fs, args, stdin: vec![], judge: judge_fail("different lengths") };
    }
    let mut want = Vec::new();
    if all_heads {
        want.extend_from_slice(&F { head: Some(titles.clone()), lines: vec![], nl: true }.head());
    }
    let mut values = vec![dflt.unwrap_or("").as_bytes().to_vec(); titles.len()];
    for (c, v) in fill {
        if let Some(i) = titles.iter().position(|t| t == c.as_bytes()) {
            values[i] = v.as_bytes().to_vec();
        }
    }
    for k in 0..rows {
        let mut cells: Vec<Vec<u8>> = vec![];
        for (i, f) in files.iter().enumerate() {
            if k < f.lines.len() {
                cells.push(f.lines[k].clone());
            } else if last && !f.lines.is_empty() {
                cells.push(f.lines[f.lines.len() - 1].clone());
            } else {
                let v: Vec<&[u8]> = values[start[i]..start[i] + f.width()].iter().map(|x| &x[..]).collect();
                cells.push(join(&v, b'\t'));
            }
        }
        let v: Vec<&[u8]> = cells.iter().map(|x| &x[..]).collect();
        want.extend_from_slice(&join(&v, b'\t'));
        want.push(b'\n');
    }
    ToolCase { group, files: fs, args, stdin: vec![], judge: expect(want) }
}
// ---- transpose
fn transposed(f: &F, head: bool, max: usize) -> Vec<u8> {
    let mut want = Vec::new();
    if f.all().is_empty() {
        return want;
    }
    if head {
        want.extend_from_slice(b" CDX\t");
    }
    for j in 0..f.width() {
        let mut v: Vec<&[u8]> = vec![];
        if let Some(h) = &f.head {
            v.push(&h[j]);
        }
        for l in f.lines.iter().take(max) {
            v.push(cols(l).get(j).copied().unwrap_or(b""));
        }
        want.extend_from_slice(&join(&v, b'\t'));
        want.push(b'\n');
    }
    want
}
fn transpose(f: &F, head: bool, max: Option<usize>) -> ToolCase {
    let mut args = strs(&["transpose"]);
    if head {
        args.push("-h".into());
    }
    if let Some(n) = max {
        args.extend(strs(&["-n", &n.to_string()]));
    }
    args.push("f".into());
    ToolCase { group: "transpose".into(), files: vec![("f".into(), f.all())], args, stdin: vec![], judge: expect(transposed(f, head, max.unwrap_or(usize::MAX))) }
}
fn line(r: &mut Rng, width: usize) -> Vec<u8> {
    let v: Vec<Vec<u8>> = (0..width).map(|_| r.bytes(b"abc d,\"\\'", 3)).collect();
    let v: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
    let mut l = join(&v, b'\t');
    if l.is_empty() {
        l.push(b'x');
    }
    if l[0] == b' ' {
        l[0] = b'_';
    }
    l
}
fn file(r: &mut Rng, width: usize, max: usize, head: bool, prefix: &str) -> F {
    F { head: head.then(|| names(prefix, width)), lines: (0..r.below(max + 1)).map(|_| line(r, width)).collect(), nl: r.flip() }
}
pub fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.seed ^ 0xC22);
    let mut cases = Vec::new();
    let pads = ["", "yes", "no", "end"];
    for _ in 0..ctx.n(700, 7000) {
        let n = r.range(1, 4);
        let w = r.range(1, 3);
        let head = r.flip();
        let mut files: Vec<F> = (0..n).map(|_| file(&mut r, w, 4, head, "a")).collect();
        if r.below(5) == 0 {
            files.push(files[0].clone());
        }
        cases.push(cat_fast(&files, r.pick(&pads)));
    }
    // around the size of the buffer, with the newline or a long first line at its edge
    for size in [16 * 1024, 32 * 1024, 8 * 1024, 64 * 1024] {
        for off in [-2i64, -1, 0, 1, 2] {
            let len = (size as i64 + off) as usize;
            for (first, nl) in [(1usize, true), (1, false), (len - 5, true), (len, false), (100, false), (7, true)] {
                let mut lines = vec![vec![b'h'; first.min(len)]];
                let rest = len - first.min(len);
                if rest > 2 {
                    let mut l = vec![b'z'; rest];
                    l[rest / 2] = b'\t';
                    lines.push(l);
                }
                let a = F { head: None, lines, nl };
                let head = r.flip();
                let b = F { head: None, lines: vec![b"second".to_vec()], nl: r.flip() };
                let h = |f: &F| F { head: head.then(|| names("a", 2)), ..f.clone() };
                cases.push(cat_fast(&[h(&a), h(&b)], r.pick(&pads)));
                cases.push(cat_fast(&[h(&b), h(&a), h(&b)], r.pick(&pads)));
            }
        }
    }
    for _ in 0..ctx.n(700, 7000) {
        let n = r.range(1, 4);
        let w = r.range(1, 3);
        let head = r.flip();
        let mut files: Vec<F> = (0..n).map(|_| file(&mut r, w, 5, head, "a")).collect();
        if r.below(5) == 0 {
            files.push(files[0].clone());
        }
        let num = if r.below(4) > 0 { Some(Num { start: *r.pick(&[0, 1, 7, -3, 99]), end: r.flip() }) } else { None };
        let remove = if num.is_none() || r.flip() { Some(*r.pick(&["a", "b", "zz"])) } else { None };
        let skip = if r.flip() { Some(*r.pick(&["a", "c", "ab"])) } else { None };
        cases.push(cat_slow(&files, num, remove, skip));
    }
    for _ in 0..ctx.n(1500, 15000) {
        let n = r.range(1, 4);
        let max = *r.pick(&[1usize, 3, 5]);
        let heads = *r.pick(&[2, 2, 0, 1]);
        let mut files: Vec<F> = vec![];
        for i in 0..n {
            let w = r.range(1, 3);
            let head = heads == 2 || (heads == 1 && r.flip());
            let mut f = file(&mut r, w, max, head, ["a", "b", "d", "e"][i]);
            if !head && f.lines.is_empty() {
                f.lines.push(line(&mut r, w)); // an empty file without header has no columns
            }
            files.push(f);
        }
        let end = *r.pick(&[End::Exact, End::Early, End::Late, End::Late]);
        if end == End::Exact && r.below(4) > 0 {
            let k = files.iter().map(|f| f.lines.len()).min().unwrap().max(usize::from(heads < 2));
            for f in &mut files {
                f.lines.truncate(k);
            }
        }
        let mut fill = vec![];
        if heads == 2 {
            for _ in 0..r.below(4) {
                let f = r.below(n);
                let h = files[f].head.as_ref().unwrap();
                let c = String::from_utf8_lossy(&h[r.below(h.len())]).to_string();
                // the last one given for a column counts
                fill.push((c, (*r.pick(&["v", "77", "w w"])).to_string()));
            }
        }
        let last = r.below(3) == 0;
        cases.push(paste(&files, end, last, &fill, None));
    }
    for _ in 0..ctx.n(700, 7000) {
        let w = r.range(1, 5);
        let head = r.flip();
        let max = *r.pick(&[1usize, 3, 6]);
        let mut f = file(&mut r, w, max, head, "a");
        if r.below(4) == 0 && f.lines.len() > 1 {
            // lines of other lengths
            for i in 1..f.lines.len() {
                let w = r.range(1, 6);
                f.lines[i] = line(&mut r, w);
            }
        }
        let max = if r.flip() { Some(r.below(8)) } else { None };
        cases.push(transpose(&f, r.flip(), max));
        // twice is the table itself
        if f.lines.iter().all(|l| cols(l).len() == f.width()) && !f.lines.is_empty() {
            let t = transposed(&f, false, usize::MAX);
            let lines: Vec<Vec<u8>> = t.split(|c| *c == b'\n').filter(|l| !l.is_empty()).map(<[u8]>::to_vec).collect();
            if f.head.is_none() && lines.len() == f.width() && lines.iter().all(|l| l[0] != b' ') {
                let back = F { head: None, nl: true, ..f.clone() }.all();
                cases.push(ToolCase { group: "transpose twice".into(), files: vec![("f".into(), t)], args: strs(&["transpose", "f"]), stdin: vec![], judge: expect(back) });
            }
        }
    }
    run_tools(ctx, cases);
}
