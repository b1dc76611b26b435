//! numeric keys order by exact decimal value
use crate::common::*;
use cdx::comp::{CompMaker, LineCompList};
use cdx::prelude::*;
use std::cmp::Ordering;

/// independent reading of a numeral: sign, integer digits without leading zeros, fraction digits without trailing zeros
pub fn parse(s: &[u8]) -> (bool, Vec<u8>, Vec<u8>) {
    let mut i = 0;
    while i < s.len() && s[i] <= b' ' {
        i += 1;
    }
    let mut neg = false;
    if i < s.len() && s[i] == b'-' {
        neg = true;
        i += 1;
    }
    let mut ip = Vec::new();
    while i < s.len() && (s[i].is_ascii_digit() || s[i] == b',') {
        if s[i] != b',' && !(ip.is_empty() && s[i] == b'0') {
            ip.push(s[i]);
        }
        i += 1;
    }
    let mut fp = Vec::new();
    if i < s.len() && s[i] == b'.' {
        i += 1;
        while i < s.len() && s[i].is_ascii_digit() {
            fp.push(s[i]);
            i += 1;
        }
    }
    while fp.last() == Some(&b'0') {
        fp.pop();
    }
    if ip.is_empty() && fp.is_empty() {
        neg = false;
    }
    (neg, ip, fp)
}
pub fn num_oracle(a: &[u8], b: &[u8]) -> Ordering {
    let (an, ai, af) = parse(a);
    let (bn, bi, bf) = parse(b);
    match (an, bn) {
        (true, false) => return Ordering::Less,
        (false, true) => return Ordering::Greater,
        _ => {}
    }
    let m = ai.len().cmp(&bi.len()).then_with(|| ai.cmp(&bi)).then_with(|| af.cmp(&bf));
    if an {
        m.reverse()
    } else {
        m
    }
}

fn one(ctx: &mut Ctx, group: &str, c: &mut cdx::comp::Comp, l: &mut LineCompList, a: &[u8], b: &[u8]) {
    ctx.case(group, &[a, b], || {
        let want = num_oracle(a, b);
        let got = c.comp(a, b);
        if got != want {
            return Err(format!("comp gave {got:?}, the values are {want:?}"));
        }
        let eq = want == Ordering::Equal;
        if c.equal(a, b) != eq {
            return Err(format!("equal gave {}, the values are {want:?}", !eq));
        }
        c.set(a);
        if c.comp_self(b) != want || c.equal_self(b) != eq {
            return Err(format!("comparison with a preset value differs, the values are {want:?}"));
        }
        if !a.contains(&b'\t') && !b.contains(&b'\t') && l.comp_lines(a, b) != want {
            return Err(format!("line comparison gave {:?}, the values are {want:?}", l.comp_lines(a, b)));
        }
        Ok(())
    });
}

pub fn numeral(rng: &mut Rng) -> Vec<u8> {
    let mut s = Vec::new();
    if rng.below(8) == 0 {
        s.extend_from_slice(b" ");
    }
    if rng.below(3) == 0 {
        s.push(b'-');
    }
    let n = match rng.below(6) {
        0 => 0,
        1..=3 => rng.range(1, 4),
        4 => rng.range(5, 25),
        _ => rng.range(18, 22),
    };
    let alpha: &[u8] = if rng.flip() { b"0123456789" } else { b"09" };
    for i in 0..n {
        s.push(*rng.pick(alpha));
        if rng.below(6) == 0 && i + 1 < n {
            s.push(b',');
        }
    }
    if rng.flip() {
        s.push(b'.');
        for _ in 0..rng.below(6) {
            s.push(*rng.pick(alpha));
        }
        if rng.below(3) == 0 {
            s.extend_from_slice(b"00");
        }
    }
    s
}
fn mutate(rng: &mut Rng, s: &[u8]) -> Vec<u8> {
    let mut v = s.to_vec();
    for _ in 0..rng.range(1, 2) {
        let i = rng.below(v.len() + 1);
        match rng.below(3) {
            0 => v.insert(i, *rng.pick(b"0019,.-")),
            1 if i < v.len() => v[i] = *rng.pick(b"0123456789,.-"),
            _ if i < v.len() => {
                v.remove(i);
            }
            _ => {}
        }
    }
    v
}

pub fn run(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed);
    let mut c = CompMaker::make_comp("num").unwrap();
    let mut l = LineCompList::new();
    l.push(CompMaker::make_line_comp("1,num").unwrap());
    l.lookup(&["a"]).unwrap();
    let all = all_strings(b"019,.- ", 3);
    for a in &all {
        for b in &all {
            one(ctx, "every pair of short texts", &mut c, &mut l, a, b);
        }
    }
    let all = all_strings(b"059.", 4);
    for a in &all {
        for b in &all {
            one(ctx, "every pair of short numerals", &mut c, &mut l, a, b);
        }
    }
    for _ in 0..ctx.n(150_000, 3_000_000) {
        let a = numeral(&mut rng);
        let b = if rng.flip() { mutate(&mut rng, &a) } else { numeral(&mut rng) };
        one(ctx, "random numerals", &mut c, &mut l, &a, &b);
    }
    for _ in 0..ctx.n(200, 2000) {
        let n = rng.range(40, 3000);
        let a: Vec<u8> = (0..n).map(|_| *rng.pick(b"0123456789")).collect();
        let b = mutate(&mut rng, &a);
        one(ctx, "very long numerals", &mut c, &mut l, &a, &b);
    }
    // the whole tool
    let mut cases = Vec::new();
    for _ in 0..ctx.n(150, 2000) {
        let n = rng.range(2, 12);
        let mut ls: Vec<Vec<u8>> = (0..n)
            .map(|_| {
                let mut x = numeral(&mut rng);
                x.retain(|c| *c != b' ');
                if x.is_empty() {
                    x.push(b'0');
                }
                x
            })
            .collect();
        let mut f = Vec::new();
        for x in &ls {
            f.extend_from_slice(x);
            f.push(b'\n');
        }
        ls.sort();
        cases.push(ToolCase {
            group: "cdx sort -k1,num".into(),
            files: vec![("f".into(), f)],
            args: vec!["sort".into(), "-k".into(), "1,num".into(), "f".into()],
            stdin: vec![],
            judge: Box::new(move |o| {
                if o.code != 0 {
                    return Err(format!("exit {}: {}", o.code, String::from_utf8_lossy(&o.err)));
                }
                let mut got: Vec<Vec<u8>> = o.out.split(|c| *c == b'\n').map(|x| x.to_vec()).collect();
                if got.pop() != Some(vec![]) {
                    return Err("no final newline".into());
                }
                for w in got.windows(2) {
                    if num_oracle(&w[0], &w[1]) == Ordering::Greater {
                        return Err(format!("{} before {} in {}", esc(&w[0]), esc(&w[1]), esc(&o.out)));
                    }
                }
                got.sort();
                if got != ls {
                    return Err(format!("not a permutation: {}", esc(&o.out)));
                }
                Ok(())
            }),
        });
    }
    run_tools(ctx, cases);
}
