//! header policy: one header, never as data, conflicts are errors
use crate::common::*;
use cdx::util::{HeaderChecker, HeaderMode};

const HA: &[u8] = b" CDX\ta\tb\n";
const HB: &[u8] = b" CDX\tb\ta\n";

/// what check is to answer for the first lines of the files so far: None is an error
fn oracle(mode: HeaderMode, lines: &[&[u8]]) -> Vec<Option<bool>> {
    let mut res = vec![];
    let mut first: Option<Vec<u8>> = None;
    for l in lines {
        if l.is_empty() {
            res.push(Some(false));
            continue;
        }
        let looks = mode != HeaderMode::Ignore && l.starts_with(b" CDX");
        let lenient = mode == HeaderMode::Strip || mode == HeaderMode::None;
        let bad = looks && (!l.ends_with(b"\n") || (!lenient && *l != HA && *l != HB));
        let cdx = looks;
        if bad {
            // the policy of what follows a rejected file is not looked at
            res.push(None);
            return res;
        }
        let ans = match (&first, mode) {
            (None, HeaderMode::None) => if cdx { None } else { Some(true) },
            (None, HeaderMode::Require) => if cdx { Some(true) } else { None },
            (None, HeaderMode::Strip) => Some(!cdx),
            (None, _) => Some(true),
            (Some(h), HeaderMode::Match) => {
                if cdx {
                    if h == l { Some(false) } else { None }
                } else if h.is_empty() {
                    Some(true)
                } else {
                    None
                }
            }
            (Some(h), HeaderMode::Require) => if cdx && h == l { Some(false) } else { None },
            (Some(_), HeaderMode::Strip) => Some(!cdx),
            (Some(_), HeaderMode::Ignore) => Some(true),
            (Some(_), HeaderMode::None) => if cdx { None } else { Some(true) },
            (Some(_), HeaderMode::Trust) => Some(!cdx),
        };
        if ans.is_none() {
            res.push(None);
            return res;
        }
        if first.is_none() {
            first = Some(if cdx { l.to_vec() } else { vec![] });
        }
        res.push(ans);
    }
    res
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Empty,
    Plain,
    Head(usize, bool), // which header, any data?
}

pub fn run(ctx: &mut Ctx) {
    let modes = [HeaderMode::Match, HeaderMode::Require, HeaderMode::Strip, HeaderMode::None, HeaderMode::Trust, HeaderMode::Ignore];
    let lines: Vec<&[u8]> = vec![HA, HB, b"1\t2\n", b"x", b"", b"\n", b" CDX\ta\tb", b" CD\tx\n", b" CDX\n", b" CDX\ta\t\n", b" CDX\ta\t9b\n", b" CDXXaXb\n", b"x CDX\ta\tb\n", b" CDX"];
    let depth = ctx.n(3, 4);
    let mut seqs: Vec<Vec<&[u8]>> = vec![vec![]];
    let mut all: Vec<Vec<&[u8]>> = vec![];
    for _ in 0..depth {
        let mut next = vec![];
        for s in &seqs {
            for l in &lines {
                let mut t = s.clone();
                t.push(*l);
                next.push(t);
            }
        }
        all.extend(next.clone());
        seqs = next;
    }
    for mode in modes {
        for s in &all {
            let name = format!("{mode:?}");
            let mut input: Vec<&[u8]> = vec![name.as_bytes()];
            input.extend(s.iter());
            ctx.case("policy", &input, || {
                let mut c = HeaderChecker::from_mode(mode);
                let want = oracle(mode, s);
                for (i, w) in want.iter().enumerate() {
                    let got = c.check(s[i], "f").ok();
                    if got != *w {
                        return Err(format!("file {}: got {got:?} want {w:?} (None is an error)", i + 1));
                    }
                }
                Ok(())
            });
        }
    }

    // the tools
    let kinds = [K::Empty, K::Plain, K::Head(0, true), K::Head(1, true), K::Head(0, false), K::Head(1, false)];
    let mut seqs: Vec<Vec<K>> = vec![];
    for a in kinds {
        seqs.push(vec![a]);
        for b in kinds {
            seqs.push(vec![a, b]);
            for c in kinds {
                seqs.push(vec![a, b, c]);
            }
        }
    }
    let mut r = Rng::new(ctx.seed);
    let tools: Vec<(&str, Vec<&str>)> = vec![
        ("cat", vec!["cat"]),
        ("cat -r", vec!["cat", "-r", "exact,zzz"]),
        ("cut", vec!["cut", "-f", "1,2"]),
        ("cgrep", vec!["cgrep", "-p", "1,prefix,k"]),
        ("binsearch", vec!["binsearch", "k"]),
        ("sample", vec!["sample", "--sample", "100"]),
        ("sort", vec!["sort"]),
        ("sort -u", vec!["sort", "-u"]),
        ("merge", vec!["sort", "-m"]),
        ("merge -A", vec!["sort", "-m", "-A"]),
        ("merge -u", vec!["sort", "-m", "-u"]),
    ];
    let mut cases = vec![];
    for ks in &seqs {
        for (tn, args) in &tools {
            if ks.len() == 3 && r.below(ctx.n(4, 1)) != 0 {
                continue;
            }
            // style 0: CDX headers; 1: --text-in y; 2: --text-in s; 3: --text-in n
            for style in 0..4 {
                let fixed = tn.starts_with("sort") || tn.starts_with("merge") || tn.starts_with("bin");
                if style > 0 && (fixed || (ks.len() == 3 && ctx.n(1, 0) == 1 && r.below(4) != 0)) {
                    continue;
                }
                let heads: [&[u8]; 2] = if style == 1 { [b"a\tb\n", b"b\ta\n"] } else { [HA, HB] };
                if style == 1 && ks.contains(&K::Plain) {
                    continue;
                }
                let mut files = vec![];
                let mut data: Vec<Vec<u8>> = vec![];
                let mut first: Option<Option<usize>> = None;
                let mut conflict = false;
                for (i, k) in ks.iter().enumerate() {
                    let mut f = vec![];
                    let (head, any) = match k {
                        K::Empty => (None, false),
                        K::Plain => (None, true),
                        K::Head(h, any) => (Some(*h), *any),
                    };
                    if let Some(h) = head {
                        f.extend(heads[h]);
                        if style == 3 && *tn != "cgrep" {
                            data.push(heads[h].to_vec());
                        }
                    }
                    if any {
                        for j in 0..2 {
                            let l = if *tn == "binsearch" { format!("k\t{i}{j}\n") } else { format!("k{i}{j}\tv\n") };
                            data.push(l.clone().into_bytes());
                            f.extend(l.as_bytes());
                        }
                        if r.flip() {
                            f.pop();
                        }
                    }
                    if *k != K::Empty {
                        match first {
                            None => first = Some(head),
                            Some(x) => conflict |= x != head,
                        }
                    }
                    files.push((format!("f{i}"), f));
                }
                if style >= 2 {
                    conflict = false;
                    first = None;
                }
                if style == 3 && (*tn == "cgrep" || *tn == "cut") {
                    continue;
                }
                let mut a = strs(args);
                match style {
                    1 => a.extend(strs(&["--text-in", "y"])),
                    2 => a.extend(strs(&["--text-in", "s"])),
                    3 => a.extend(strs(&["--text-in", "n"])),
                    _ => {}
                }
                a.extend(files.iter().map(|x| x.0.clone()));
                let mut want: Vec<u8> = vec![];
                if let Some(Some(h)) = first {
                    want.extend(heads[h]);
                }
                for d in &data {
                    want.extend(d);
                }
                let one = files.len() == 1;
                cases.push(ToolCase {
                    group: format!("{tn} style {style}"),
                    files,
                    args: a,
                    stdin: vec![],
                    judge: Box::new(move |o: &Out| {
                        if conflict {
                            if o.code == 0 {
                                return Err("files with different headers were combined".to_string());
                            }
                            return Ok(());
                        }
                        if o.code != 0 {
                            return Err(format!("exit {}", o.code));
                        }
                        let mut got = o.out.clone();
                        if one && !got.is_empty() && !got.ends_with(b"\n") {
                            got.push(b'\n');
                        }
                        if got != want {
                            return Err(format!("got {} want {}", esc(&o.out), esc(&want)));
                        }
                        Ok(())
                    }),
                });
            }
        }
    }
    // look-alikes in the data
    for (tn, args) in &tools {
        if *tn == "binsearch" {
            continue;
        }
        let f0 = b" CDX\ta\tb\nk0\t CDX\nk1\tx\n".to_vec();
        let f1 = b" CDX\ta\tb\nk2\t CDX\tc\nk3 CDX\tx\n".to_vec();
        let want = b" CDX\ta\tb\nk0\t CDX\nk1\tx\nk2\t CDX\tc\nk3 CDX\tx\n".to_vec();
        let want = if *tn == "cut" { b" CDX\ta\tb\nk0\t CDX\nk1\tx\nk2\t CDX\nk3 CDX\tx\n".to_vec() } else { want };
        let mut a = strs(args);
        a.extend(strs(&["f0", "f1"]));
        cases.push(ToolCase { group: format!("look-alikes {tn}"), files: vec![("f0".into(), f0), ("f1".into(), f1)], args: a, stdin: vec![], judge: expect(want) });
    }
    run_tools(ctx, cases);
}
