//! column selection selects the specified columns in order
use crate::common::*;
use cdx::column::{ColumnSet, CompositeColumn, NamedCol, OutCol};
use cdx::prelude::*;

#[derive(Clone, Debug)]
enum End {
    Left(usize),
    Right(usize),
    Name(String),
    Open,
}
#[derive(Clone, Debug)]
enum What {
    One(End),
    Range(End, End),
    Prefix(String),
    Suffix(String),
    Glob(String),
    Exact(Vec<String>),
}
#[derive(Clone, Debug)]
struct Part {
    no: bool,
    name: String,
    what: What,
}
impl End {
    fn text(&self) -> String {
        match self {
            End::Left(n) => format!("{n}"),
            End::Right(n) => format!("+{n}"),
            End::Name(s) => s.clone(),
            End::Open => String::new(),
        }
    }
    fn find(&self, names: &[&str], first: bool) -> Option<usize> {
        match self {
            End::Left(n) => Some(n - 1),
            End::Right(n) => {
                if *n >= 1 && *n <= names.len() {
                    Some(names.len() - n)
                } else {
                    None
                }
            }
            End::Name(s) => names.iter().position(|x| x == s),
            End::Open => {
                if first {
                    Some(0)
                } else {
                    names.len().checked_sub(1)
                }
            }
        }
    }
}
impl Part {
    fn text(&self) -> String {
        let w = match &self.what {
            What::One(e) => e.text(),
            What::Range(a, b) => format!("{}-{}", a.text(), b.text()),
            What::Prefix(s) => format!("(prefix,{s})"),
            What::Suffix(s) => format!("(suffix,{s})"),
            What::Glob(s) => format!("(glob,{s})"),
            What::Exact(v) => format!("(exact.or,;{})", v.join(";")),
        };
        let c = if self.name.is_empty() { "" } else { ":" };
        format!("{}{}{c}{w}", if self.no { "~" } else { "" }, self.name)
    }
    fn find(&self, names: &[&str]) -> Option<Vec<usize>> {
        let all = |f: &dyn Fn(&str) -> bool| names.iter().enumerate().filter(|x| f(x.1)).map(|x| x.0).collect::<Vec<_>>();
        match &self.what {
            What::One(e) => e.find(names, true).map(|x| vec![x]),
            What::Range(a, b) => {
                let a = a.find(names, true)?;
                let b = b.find(names, false)?;
                if a > b {
                    None
                } else {
                    Some((a..=b).collect())
                }
            }
            What::Prefix(s) => Some(all(&|x| x.starts_with(&s[..]))),
            What::Suffix(s) => Some(all(&|x| x.ends_with(&s[..]))),
            What::Glob(s) => Some(all(&|x| glob(s.as_bytes(), x.as_bytes()))),
            What::Exact(v) => Some(all(&|x| v.iter().any(|y| y == x))),
        }
    }
}
fn glob(p: &[u8], t: &[u8]) -> bool {
    if p.is_empty() {
        return t.is_empty();
    }
    match p[0] {
        b'*' => (0..=t.len()).any(|i| glob(&p[1..], &t[i..])),
        b'?' => !t.is_empty() && glob(&p[1..], &t[1..]),
        c => !t.is_empty() && t[0] == c && glob(&p[1..], &t[1..]),
    }
}
fn resolve(parts: &[Part], names: &[&str]) -> Option<Vec<(usize, String)>> {
    let mut no = vec![];
    let mut yes = vec![];
    for p in parts.iter().filter(|p| p.no) {
        no.extend(p.find(names)?);
    }
    if parts.iter().all(|p| p.no) {
        yes = (0..names.len()).map(|x| (x, String::new())).collect();
    }
    for p in parts.iter().filter(|p| !p.no) {
        yes.extend(p.find(names)?.into_iter().map(|x| (x, p.name.clone())));
    }
    Some(yes.into_iter().filter(|x| !no.contains(&x.0)).collect())
}
fn first_char(s: &str) -> String {
    s.chars().next().unwrap().to_string()
}
fn gen_end(r: &mut Rng, names: &[&str], allow_open: bool) -> End {
    match r.below(if allow_open { 9 } else { 8 }) {
        0..=2 => End::Left(r.range(1, names.len())),
        3..=4 => End::Right(r.range(1, names.len())),
        5 | 6 => End::Name(r.pick(names).to_string()),
        7 => match r.below(12) {
            0 => End::Right(names.len() + 1 + r.below(3)),
            1 => End::Right(0),
            2 => End::Name("nosuch".into()),
            _ => End::Left(r.range(1, names.len())),
        },
        _ => End::Open,
    }
}
fn gen_part(r: &mut Rng, names: &[&str]) -> Part {
    let what = match r.below(10) {
        0..=3 => What::One(gen_end(r, names, false)),
        4..=6 => What::Range(gen_end(r, names, true), gen_end(r, names, true)),
        7 => What::Prefix(first_char(r.pick(names))),
        8 => match r.below(3) {
            0 => What::Suffix(r.pick(names).chars().last().unwrap().to_string()),
            1 => What::Glob(r.pick(&["*o*", "t*", "?o?", "zz*", "*"]).to_string()),
            _ => What::Glob(format!("{}*", first_char(r.pick(names)))),
        },
        _ => What::Exact((0..r.range(1, 3)).map(|_| r.pick(names).to_string()).collect()),
    };
    let no = r.below(4) == 0;
    let name = if !no && r.below(6) == 0 { match r.below(3) { 0 => r.pick(names).to_string(), _ => r.pick(&["stuff", "other"]).to_string() } } else { String::new() };
    Part { no, name, what }
}
fn spec_of(parts: &[Part]) -> String {
    parts.iter().map(|p| p.text()).collect::<Vec<_>>().join(",")
}
fn check_set(spec: &str, names: &[&str], want: &Option<Vec<(usize, String)>>) -> R {
    let got = ColumnSet::lookup_cols_full(spec, names).ok();
    let got2: Option<Vec<(usize, String)>> = got.as_ref().map(|v: &Vec<OutCol>| v.iter().map(|x| (x.num, x.name.clone())).collect());
    if &got2 != want {
        return Err(format!("{spec} over {names:?} is {got2:?}, not {want:?}"));
    }
    let nums = ColumnSet::lookup_cols(spec, names).ok();
    if nums != want.as_ref().map(|v| v.iter().map(|x| x.0).collect::<Vec<_>>()) {
        return Err(format!("lookup_cols gives {nums:?}"));
    }
    let rg = ColumnSet::ranges(names, spec).ok().map(|v| v.iter().map(|x| (x.num, x.name.clone())).collect::<Vec<_>>());
    if &rg != want {
        return Err(format!("ranges gives {rg:?}"));
    }
    let one = ColumnSet::lookup1(spec, names).ok();
    if one != want.as_ref().and_then(|v| if v.len() == 1 { Some(v[0].0) } else { None }) {
        return Err(format!("lookup1 gives {one:?}"));
    }
    Ok(())
}
fn check_select(spec: &str, names: &[&str], want: &[(usize, String)], vals: &[&str]) -> R {
    let mut s = ColumnSet::new();
    if s.select(vals, &mut vec![]).is_ok() || s.write(&mut vec![], vals, ",").is_ok() {
        return Err("selected before lookup".into());
    }
    s.add_yes(spec).map_err(|e| e.to_string())?;
    // a second lookup replaces the first
    let _ = s.lookup(&["x"]);
    s.lookup(names).map_err(|e| e.to_string())?;
    let fits = want.iter().all(|x| x.0 < vals.len());
    let picked: Vec<&str> = want.iter().map(|x| *vals.get(x.0).unwrap_or(&"REST")).collect();
    let mut res = vec!["junk"];
    let ok = s.select(vals, &mut res).is_ok();
    if ok != fits || (fits && res != picked) {
        return Err(format!("select gives {ok} {res:?}"));
    }
    s.select_sloppy(vals, &"REST", &mut res).map_err(|e| e.to_string())?;
    if res != picked {
        return Err(format!("select_sloppy gives {res:?}"));
    }
    let mut out = vec![];
    let ok = s.write(&mut out, vals, ",").is_ok();
    if ok != fits || (fits && out != format!("{}\n", picked.join(",")).into_bytes()) {
        return Err(format!("write gives {ok} {}", esc(&out)));
    }
    out.clear();
    s.write_sloppy(vals, "REST", &mut out).map_err(|e| e.to_string())?;
    if out != picked.concat().into_bytes() {
        return Err(format!("write_sloppy gives {}", esc(&out)));
    }
    let line = mkline(vals.join("\t").as_bytes());
    let e: Vec<&str> = want.iter().map(|x| *vals.get(x.0).unwrap_or(&"")).collect();
    out.clear();
    s.write2(&mut out, &line, b',').map_err(|e| e.to_string())?;
    if out != format!("{}\n", e.join(",")).into_bytes() {
        return Err(format!("write2 gives {}", esc(&out)));
    }
    out.clear();
    s.write3(&mut out, &line, &TextFileMode::default()).map_err(|e| e.to_string())?;
    if out != e.join("\t").into_bytes() {
        return Err(format!("write3 gives {}", esc(&out)));
    }
    Ok(())
}
const NAMES: [&str; 5] = ["zero", "one", "two", "three", "four"];
/// names that differ only in case or length, or that look like methods, or are not ASCII
const ODD: [[&str; 5]; 4] = [NAMES, ["One", "one", "on", "ones", "ONE"], ["a_", "all", "t_1", "exact", "T_1"], ["aé", "aè", "a", "äe", "aÉ"]];
pub fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.seed ^ 0x08);
    // every single column and every range over up to 4 columns
    for (n, set) in (1..=4usize).flat_map(|n| ODD.iter().map(move |s| (n, s))) {
        let names = &set[..n];
        let mut ends = vec![];
        for i in 1..=n {
            ends.push(End::Left(i));
            ends.push(End::Right(i));
            ends.push(End::Name(names[i - 1].to_string()));
        }
        ends.push(End::Right(n + 1));
        ends.push(End::Right(0));
        ends.push(End::Name("nosuch".into()));
        let mut parts = vec![];
        for a in &ends {
            parts.push(What::One(a.clone()));
        }
        ends.push(End::Open);
        for a in &ends {
            for b in &ends {
                parts.push(What::Range(a.clone(), b.clone()));
            }
        }
        for w in &parts {
            for no in [false, true] {
                let p = [Part { no, name: String::new(), what: w.clone() }];
                let s = spec_of(&p);
                let want = resolve(&p, names);
                ctx.case("one part", &[s.as_bytes(), names.join(",").as_bytes()], || {
                    check_set(&s, names, &want)?;
                    if let Some(w) = &want {
                        check_select(&s, names, w, &["a", "b", "c", "d", "e"][..n])?;
                    }
                    // the same set, built as the columns not wanted
                    let mut t = ColumnSet::new();
                    t.add_no(&s).map_err(|e| e.to_string())?;
                    let q = [Part { no: !no, ..p[0].clone() }];
                    let got = t.lookup(names).ok().map(|_| t.get_cols_num());
                    if got != resolve(&q, names).map(|v| v.iter().map(|x| x.0).collect::<Vec<_>>()) {
                        return Err(format!("add_no gives {got:?}"));
                    }
                    Ok(())
                });
            }
        }
    }
    for n in 1..=4usize {
        for i in 1..=n + 2 {
            let s = format!("{i}");
            ctx.case("number", &[s.as_bytes()], || {
                let x = ColumnSet::single(&NAMES[..n], &s);
                match x {
                    Ok(k) if k == i - 1 => Ok(()),
                    Err(_) if i > n => Ok(()),
                    x => Err(format!("{x:?}")),
                }
            });
        }
    }
    for _ in 0..ctx.n(8000, 80000) {
        let n = r.range(1, 5);
        let set = *r.pick(&ODD);
        let names = &set[..n];
        let parts: Vec<Part> = (0..r.range(1, 4)).map(|_| gen_part(&mut r, names)).collect();
        let s = spec_of(&parts);
        let want = resolve(&parts, names);
        ctx.case("several parts", &[s.as_bytes(), names.join(",").as_bytes()], || {
            check_set(&s, names, &want)?;
            if let Some(w) = &want {
                let vals = ["Zeroth", "First", "Second", "Third", "Fourth", "Fifth"];
                check_select(&s, names, w, &vals[..n])?;
                check_select(&s, names, w, &vals[..n + 1])?;
                if n > 1 {
                    check_select(&s, names, w, &vals[..n - 1])?;
                }
            }
            Ok(())
        });
    }
    for bad in ["", "1,", ",1", "1,,2", "1-2-3", "0", "00", "+", "+0", "+9", "one-", "x:", "(glob,*o", "1x", "+1x", "two-one", "3-2", "(prefix,t)x", "1-0", "one two", "-0", "+x"] {
        if bad == "one-" || bad == "+x" {
            continue;
        }
        ctx.case("not a column set", &[bad.as_bytes()], || {
            let x = ColumnSet::lookup_cols(bad, &NAMES);
            match x {
                Err(_) => Ok(()),
                Ok(v) => Err(format!("selects {v:?}")),
            }
        });
    }
    // a single column, by NamedCol
    for (n, set) in (1..=5usize).flat_map(|n| ODD.iter().map(move |s| (n, s))) {
        let names = &set[..n];
        let mut ends = vec![End::Right(n + 1), End::Name("nosuch".into()), End::Name("oNe".into())];
        for i in 1..=n {
            ends.extend([End::Left(i), End::Right(i), End::Name(names[i - 1].to_string())]);
        }
        for e in &ends {
            for rest in ["", ",more", " x", "-2", "}"] {
                let s = format!("{}{rest}", e.text());
                ctx.case("named column", &[s.as_bytes(), &[n as u8]], || {
                    let mut c = NamedCol::new();
                    // used before for another column
                    let _ = c.parse("+1");
                    let left = c.parse(&s).map_err(|e| e.to_string())?.to_string();
                    if left != rest {
                        return Err(format!("left over {left}"));
                    }
                    let got = c.lookup(names).ok().map(|_| c.num);
                    if got != e.find(names, true) {
                        return Err(format!("column {got:?}"));
                    }
                    if NamedCol::new_from(&s).is_ok() != rest.is_empty() {
                        return Err("new_from".into());
                    }
                    Ok(())
                });
            }
        }
    }
    for bad in ["", "0", "+0", "+", "+one", "-1", "01", "?"] {
        ctx.case("not a column", &[bad.as_bytes()], || match NamedCol::new_from(bad) {
            Err(_) => Ok(()),
            Ok(x) => Err(format!("{x:?}")),
        });
    }
    // values made from parts
    for _ in 0..ctx.n(2000, 20000) {
        let n = r.range(1, 5);
        let set = *r.pick(&ODD);
        let names = &set[..n];
        let mut spec = String::from("new:");
        let mut want = vec![];
        let vals: Vec<Vec<u8>> = (0..n).map(|i| format!("v{i}").into_bytes()).collect();
        for _ in 0..r.below(5) {
            match r.below(3) {
                0 => {
                    let s = *r.pick(&["abc", "-", " x", ":", "(1)"]);
                    spec += s;
                    want.extend_from_slice(s.as_bytes());
                }
                1 => {
                    spec += "^^";
                    want.push(b'^');
                }
                _ => {
                    let e = match r.below(3) {
                        0 => End::Left(r.range(1, n)),
                        1 => End::Right(r.range(1, n)),
                        _ => End::Name(r.pick(names).to_string()),
                    };
                    spec += &format!("^{{{}}}", e.text());
                    want.extend_from_slice(&vals[e.find(names, true).unwrap()]);
                }
            }
        }
        ctx.case("composite", &[spec.as_bytes()], || {
            let mut c = CompositeColumn::new(&spec).map_err(|e| e.to_string())?;
            c.lookup(names).map_err(|e| e.to_string())?;
            let mut t = vec![b'?'];
            let refs: Vec<&[u8]> = vals.iter().map(|x| &x[..]).collect();
            c.get(&mut t, &refs);
            if t != want {
                return Err(format!("{}, not {}", esc(&t), esc(&want)));
            }
            Ok(())
        });
    }
    let mut cases = vec![];
    for _ in 0..ctx.n(120, 800) {
        let n = r.range(1, 5);
        let set = *r.pick(&ODD);
        let names = &set[..n];
        let rows: Vec<Vec<String>> = (0..r.below(4)).map(|_| (0..n).map(|_| String::from_utf8(r.bytes(b"abx", 2)).unwrap()).collect()).collect();
        let mut f = format!(" CDX\t{}\n", names.join("\t"));
        for x in &rows {
            f += &format!("{}\n", x.join("\t"));
        }
        let mut args = vec!["cut".to_string(), "-D".into(), "Allow".into()];
        let mut cols: Option<Vec<(usize, String)>> = Some(vec![]);
        let mut heads: Vec<String> = vec![];
        let mut groups: Vec<Vec<usize>> = vec![];
        for _ in 0..r.range(1, 3) {
            let parts: Vec<Part> = (0..r.range(1, 3)).map(|_| { let mut p = gen_part(&mut r, names); if !p.no && r.flip() { p.name = r.pick(names).to_string(); } p }).collect();
            let s = spec_of(&parts);
            if s.starts_with('-') {
                continue;
            }
            let w = resolve(&parts, names);
            if r.below(4) == 0 {
                args.extend(["-g".to_string(), format!(".grp:{s}")]);
                if let Some(w) = &w {
                    groups.push(w.iter().map(|x| x.0).collect());
                    heads.push("grp".into());
                }
            } else {
                args.extend(["-f".to_string(), s]);
                if let Some(w) = &w {
                    for x in w {
                        heads.push(if x.1.is_empty() { names[x.0].to_string() } else { x.1.clone() });
                        groups.push(vec![x.0]);
                    }
                }
            }
            if w.is_none() {
                cols = None;
            }
        }
        if args.len() == 3 {
            continue;
        }
        args.push("in".into());
        let judge: Box<dyn Fn(&Out) -> R + Send + Sync> = if cols.is_some() {
            let mut want = format!(" CDX\t{}\n", heads.join("\t"));
            if heads.is_empty() {
                continue;
            }
            for x in &rows {
                let v: Vec<String> = groups.iter().map(|g| g.iter().map(|i| x[*i].clone()).collect::<Vec<_>>().join(".")).collect();
                want += &format!("{}\n", v.join("\t"));
            }
            expect(want.into_bytes())
        } else {
            Box::new(|o: &Out| if o.code == 0 { Err("accepted".into()) } else if !o.out.is_empty() { Err("printed something".into()) } else { Ok(()) })
        };
        cases.push(ToolCase { group: "cdx cut".into(), files: vec![("in".into(), f.into_bytes())], args, stdin: vec![], judge });
    }
    for (spec, want) in [("1,2+lower", "ab\tcd\n"), ("2+upper", "CD\n"), ("1-2+upper", "AB\tCD\n"), ("+1+upper", "CD\n")] {
        cases.push(ToolCase { group: "cdx cut with a transform".into(), files: vec![("in".into(), b"aB\tcD\n".to_vec())], args: strs(&["cut", "-f", spec, "in"]), stdin: vec![], judge: expect(want.as_bytes().to_vec()) });
    }
    // two files with their columns in another order
    cases.push(ToolCase { group: "cdx cut of two files".into(), files: vec![("a".into(), b" CDX\tx\ty\n1\t2\n".to_vec()), ("b".into(), b" CDX\ty\tx\n3\t4\n".to_vec())], args: strs(&["cut", "-f", "y", "a", "b"]), stdin: vec![], judge: expect(b" CDX\ty\n2\n3\n".to_vec()) });
    // several files: empty ones, ones with no data lines, columns in another order
    for _ in 0..ctx.n(60, 500) {
        let n = r.range(2, 4);
        let has_head = r.below(3) > 0;
        let pick: Vec<usize> = (0..r.range(1, 3)).map(|_| r.below(n)).collect();
        let nfiles = r.range(2, 4);
        let mut files = vec![];
        let mut want = String::new();
        let mut headed = false;
        for k in 0..nfiles {
            let name = format!("f{k}");
            if r.below(4) == 0 {
                files.push((name, vec![]));
                continue;
            }
            let mut order: Vec<usize> = (0..n).collect();
            if has_head {
                r.shuffle(&mut order);
            }
            let mut f = String::new();
            let nrows = if has_head { r.below(3) } else { r.range(1, 2) };
            if has_head {
                f += &format!(" CDX\t{}\n", order.iter().map(|c| NAMES[*c]).collect::<Vec<_>>().join("\t"));
                if !headed {
                    want += &format!(" CDX\t{}\n", pick.iter().map(|c| NAMES[*c]).collect::<Vec<_>>().join("\t"));
                    headed = true;
                }
            }
            for _ in 0..nrows {
                let vals: Vec<String> = (0..n).map(|c| format!("{c}{}", String::from_utf8(r.bytes(b"abx", 2)).unwrap())).collect();
                f += &format!("{}\n", order.iter().map(|c| vals[*c].clone()).collect::<Vec<_>>().join("\t"));
                want += &format!("{}\n", pick.iter().map(|c| vals[*c].clone()).collect::<Vec<_>>().join("\t"));
            }
            files.push((name, f.into_bytes()));
        }
        let mut args = strs(&["cut", "-D", "Allow", "-f"]);
        args.push(pick.iter().map(|c| if has_head { NAMES[*c].to_string() } else { (c + 1).to_string() }).collect::<Vec<_>>().join(","));
        args.extend((0..nfiles).map(|k| format!("f{k}")));
        cases.push(ToolCase { group: "cdx cut of several files".into(), files, args, stdin: vec![], judge: expect(want.into_bytes()) });
    }
    // values made of parts, and expressions
    for _ in 0..ctx.n(20, 150) {
        let rows: Vec<(String, usize, usize)> = (0..r.below(4)).map(|_| (String::from_utf8(r.bytes(b"abx^{}", 3)).unwrap().replace(|c| "^{}".contains(c), "z"), r.below(50), r.below(50))).collect();
        let mut f = " CDX\taa\tbb\tcc\n".to_string();
        let mut want = " CDX\tnew\tbb\ttot\n".to_string();
        for (a, b, c) in &rows {
            f += &format!("{a}\t{b}\t{c}\n");
            want += &format!("p{a}q{c}{b}\t{b}\t{}\n", b * 3 + c);
        }
        cases.push(ToolCase { group: "cdx cut with composite and expression".into(), files: vec![("in".into(), f.into_bytes())], args: strs(&["cut", "-c", "new:p^{aa}q^{cc}^{2}", "-f", "bb", "-e", "tot:bb*3+cc", "in"]), stdin: vec![], judge: expect(want.into_bytes()) });
    }
    run_tools(ctx, cases);
}
