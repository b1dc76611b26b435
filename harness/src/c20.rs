//! output headers: unique and valid column names
use crate::common::*;
use cdx::column::{ColumnHeader, DupColHandling};
use cdx::util::TextFileMode;

const NAMES: [&str; 16] = ["a", "a1", "a2", "a3", "b", "b1", "a11", "", "A", "a_", "é", "1a", "_a", "a b", "a.b", "a\tb"];

fn valid(s: &str) -> bool {
    let mut c = s.chars();
    match c.next() {
        None => true,
        Some(x) => x.is_alphabetic() && c.all(|y| y.is_alphanumeric() || y == '_'),
    }
}
/// what the header must be: None is an error; Some(None) means a free choice of name followed by digits
fn step(cols: &[String], ren: &mut Vec<(String, String)>, pol: &str, n: &str) -> Option<Option<String>> {
    if !valid(n) {
        return None;
    }
    if !cols.iter().any(|x| x == n) {
        return Some(Some(n.to_string()));
    }
    if let Some(k) = ren.iter().position(|x| x.0 == n) {
        if cols.contains(&ren[k].1) {
            return None;
        }
        return Some(Some(ren.remove(k).1));
    }
    match pol {
        "fail" => None,
        "allow" => Some(Some(n.to_string())),
        _ if n.is_empty() => None,
        _ => Some(None),
    }
}
fn names_of(h: &ColumnHeader) -> Vec<String> {
    h.fieldnames().iter().map(|x| (*x).to_string()).collect()
}
fn lib(pol: &str, ren: &[(usize, usize)], seq: &[&str]) -> R {
    let mut h = ColumnHeader::new();
    if !(pol == "fail" && seq.len() % 2 == 0) {
        h.set_handling(DupColHandling::new(pol).map_err(|e| e.to_string())?);
    }
    let mut rn: Vec<(String, String)> = ren.iter().map(|x| (NAMES[x.0].to_string(), NAMES[x.1].to_string())).collect();
    let spec: Vec<String> = rn.iter().map(|x| format!("{}.{}", x.0, x.1)).collect();
    h.rename(&spec.join(",")).map_err(|e| e.to_string())?;
    for n in seq {
        let before = names_of(&h);
        let want = step(&before, &mut rn, pol, n);
        let ok = h.push(n).is_ok();
        let after = names_of(&h);
        if ok != want.is_some() {
            return Err(format!("{before:?} and then {n:?}: {}", if ok { format!("gave {after:?}, expected an error") } else { "an error".to_string() }));
        }
        let Some(want) = want else {
            if after != before {
                return Err(format!("a refused name changed {before:?} to {after:?}"));
            }
            continue;
        };
        if after.len() != before.len() + 1 || after[..before.len()] != before[..] {
            return Err(format!("{before:?} and then {n:?} gave {after:?}"));
        }
        let last = &after[before.len()];
        let good = match want {
            Some(w) => *last == w,
            None => last.strip_prefix(n).is_some_and(|x| !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit())),
        };
        if !good || !valid(last) || (pol != "allow" && before.contains(last)) {
            return Err(format!("{before:?} and then {n:?} gave {after:?}"));
        }
    }
    if h.check_rename().is_ok() != rn.is_empty() {
        return Err(format!("renames left {rn:?} but check_rename says {:?}", h.check_rename().is_ok()));
    }
    for (d, hm) in [(b'\t', "a"), (b',', "b")] {
        let t = TextFileMode { delim: d, ..Default::default() };
        let j = names_of(&h).join(&(d as char).to_string());
        if h.get_head(&t) != format!(" CDX{}{}\n", d as char, j) || h.get_head_short(&t) != j {
            return Err(format!("{hm}: header text {:?} for {:?}", h.get_head(&t), names_of(&h)));
        }
    }
    Ok(())
}
/// the header line of a tool: None is an error
fn head(want: Option<Vec<String>>, numeric: Vec<bool>) -> Box<dyn Fn(&Out) -> R + Send + Sync> {
    Box::new(move |o| {
        let Some(want) = &want else {
            return if o.code == 0 { Err(format!("{} instead of an error", esc(&o.out))) } else { Ok(()) };
        };
        if o.code != 0 {
            return Err(format!("exit {} : {}; expected {want:?}", o.code, String::from_utf8_lossy(&o.err)));
        }
        let first = o.out.split(|c| *c == b'\n').next().unwrap_or(b"");
        let s = String::from_utf8_lossy(first).to_string();
        let got: Vec<&str> = s.split('\t').collect();
        if got[0] != " CDX" || got.len() != want.len() + 1 {
            return Err(format!("header {s:?} expected {want:?}"));
        }
        for i in 0..want.len() {
            let g = got[i + 1];
            let good = if numeric[i] { g.strip_prefix(&want[i][..]).is_some_and(|x| !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit())) && !got[1..].iter().enumerate().any(|(j, x)| j < i && *x == g) } else { g == want[i] };
            if !good {
                return Err(format!("header {s:?} expected {want:?}"));
            }
        }
        Ok(())
    })
}
/// names as a tool must write them under a policy; names given out as numbered are followed only loosely, so stop there
fn plan(pol: &str, ren: &mut Vec<(String, String)>, sloppy: bool, seq: &[String]) -> Option<(Option<Vec<String>>, Vec<bool>)> {
    let mut cols: Vec<String> = vec![];
    let mut numeric = vec![];
    for n in seq {
        match step(&cols, ren, pol, n) {
            None => return Some((None, vec![])),
            Some(Some(x)) => {
                cols.push(x);
                numeric.push(false);
            }
            Some(None) => {
                // the numbered name: the lowest free number, as documented
                let k = (1..).find(|k| !cols.contains(&format!("{n}{k}"))).unwrap();
                cols.push(format!("{n}{k}"));
                numeric.push(false);
            }
        }
    }
    if !sloppy && !ren.is_empty() {
        return Some((None, vec![]));
    }
    Some((Some(cols), numeric))
}
pub fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.seed ^ 0xC20);
    let pols = ["fail", "allow", "numeric"];
    // every sequence of up to four of a few names
    let few = ["a", "a1", "a2", "", "1a"];
    for pol in pols {
        for len in 0..=ctx.n(4, 6) as u32 {
            for code in 0..few.len().pow(len) {
                let mut x = code;
                let seq: Vec<&str> = (0..len).map(|_| { let n = few[x % few.len()]; x /= few.len(); n }).collect();
                let d = seq.join("|");
                ctx.case("header, few names", &[pol.as_bytes(), d.as_bytes()], || lib(pol, &[], &seq));
            }
        }
    }
    for _ in 0..ctx.n(20000, 300000) {
        let pol = *r.pick(&pols);
        let ren: Vec<(usize, usize)> = (0..r.below(4)).map(|_| (r.below(6), r.below(7))).collect();
        let seq: Vec<&str> = (0..r.below(9)).map(|_| if r.below(8) == 0 { *r.pick(&NAMES) } else { NAMES[r.below(7)] }).collect();
        let d = format!("{ren:?} {}", seq.join("|"));
        ctx.case("header, with renames", &[pol.as_bytes(), d.as_bytes()], || lib(pol, &ren, &seq));
    }
    let mut h = ColumnHeader::new();
    h.set_handling(DupColHandling::Numeric);
    ctx.case("header, many of one name", &[], || {
        for i in 0..10020 {
            h.push_unchecked(&format!("x{i}"));
        }
        h.push("x").map_err(|e| e.to_string())?;
        h.push("x").map_err(|e| e.to_string())?;
        if h.fieldnames().len() == 10022 && h.fieldnames()[10021] == "x10020" { Ok(()) } else { Err(format!("after x, x0 .. x10019 x is {:?}", h.fieldnames().last())) }
    });
    // the tools
    let mut cases = Vec::new();
    let plain = ["a", "a1", "b", "b2", "c", "a2"];
    for _ in 0..ctx.n(800, 8000) {
        let nf = 1 + r.below(3);
        let files: Vec<Vec<String>> = (0..nf).map(|_| {
            let mut v: Vec<String> = plain.iter().map(|x| (*x).to_string()).collect();
            for i in 0..v.len() {
                let j = r.below(v.len());
                v.swap(i, j);
            }
            v.truncate(1 + r.below(3));
            v
        }).collect();
        let text = |v: &Vec<String>| format!(" CDX\t{}\n{}\n", v.join("\t"), v.iter().map(|_| "1").collect::<Vec<_>>().join("\t")).into_bytes();
        let pol = *r.pick(&["fail", "Numeric", "allow"]);
        let lowpol = pol.to_ascii_lowercase();
        match r.below(4) {
            0 => {
                let mut args = strs(&["paste", "-D", pol]);
                let mut ren: Vec<(String, String)> = (0..r.below(3)).map(|_| (plain[r.below(4)].to_string(), format!("z{}", r.below(2)))).collect();
                let sloppy = r.flip();
                if !ren.is_empty() {
                    args.push("-r".into());
                    args.push(ren.iter().map(|x| format!("{}.{}", x.0, x.1)).collect::<Vec<_>>().join(","));
                }
                if sloppy {
                    args.push("-R".into());
                }
                args.extend((0..nf).map(|i| format!("f{i}")));
                let all: Vec<String> = files.iter().flatten().cloned().collect();
                if let Some((w, n)) = plan(&lowpol, &mut ren, sloppy, &all) {
                    cases.push(ToolCase { group: "paste".into(), files: files.iter().enumerate().map(|(i, v)| (format!("f{i}"), text(v))).collect(), args, stdin: vec![], judge: head(w, n) });
                }
            }
            1 => {
                let f = &files[0];
                let pick: Vec<usize> = (0..1 + r.below(4)).map(|_| r.below(f.len())).collect();
                let mut args = strs(&["cut", "-D", pol]);
                for p in &pick {
                    args.push("-f".into());
                    args.push(if r.flip() { format!("{}", p + 1) } else { f[*p].clone() });
                }
                args.push("f0".into());
                let all: Vec<String> = pick.iter().map(|i| f[*i].clone()).collect();
                if let Some((w, n)) = plan(&lowpol, &mut vec![], true, &all) {
                    cases.push(ToolCase { group: "cut".into(), files: vec![("f0".into(), text(f))], args, stdin: vec![], judge: head(w, n) });
                }
            }
            2 => {
                let f = &files[0];
                let name = *r.pick(&plain);
                let end = r.flip();
                let args = strs(&["uniq", "-c", &format!("{name},{}", if end { "end" } else { "begin" }), "f0"]);
                let mut all = f.clone();
                if end {
                    all.push(name.to_string());
                } else {
                    all.insert(0, name.to_string());
                }
                if let Some((w, n)) = plan("fail", &mut vec![], true, &all) {
                    cases.push(ToolCase { group: "uniq".into(), files: vec![("f0".into(), text(f))], args, stdin: vec![], judge: head(w, n) });
                }
            }
            _ => {
                if nf < 2 {
                    continue;
                }
                let mut all = files[0].clone();
                all.extend(files[1][1..].iter().cloned());
                if let Some((w, n)) = plan("fail", &mut vec![], true, &all) {
                    cases.push(ToolCase { group: "join".into(), files: files.iter().take(2).enumerate().map(|(i, v)| (format!("f{i}"), text(v))).collect(), args: strs(&["join", "-k", "1", "f0", "f1"]), stdin: vec![], judge: head(w, n) });
                }
            }
        }
    }
    run_tools(ctx, cases);
}
