//! every key comparator is a consistent ordering of its values
use crate::common::*;
use cdx::comp::{Comp, CompMaker};
use std::cmp::Ordering;
#[path = "c04.rs"]
mod n;

fn trim(s: &[u8]) -> &[u8] {
    let i = s.iter().take_while(|c| **c <= b' ').count();
    &s[i..]
}
fn ipv(s: &[u8]) -> Vec<Vec<u8>> {
    let mut s = trim(s);
    let mut v = Vec::new();
    loop {
        let k = s.iter().take_while(|c| c.is_ascii_digit()).count();
        let z = s[..k].iter().take_while(|c| **c == b'0').count();
        v.push(s[z..k].to_vec());
        s = &s[k..];
        if s.first() != Some(&b'.') {
            return v;
        }
        s = &s[1..];
    }
}
fn ipord(a: &[u8], b: &[u8]) -> Ordering {
    let (x, y) = (ipv(a), ipv(b));
    for i in 0..x.len().min(y.len()) {
        let o = x[i].len().cmp(&y[i].len()).then_with(|| x[i].cmp(&y[i]));
        if o != Ordering::Equal {
            return o;
        }
    }
    x.len().cmp(&y.len())
}
/// a well-formed decimal floating point number
fn float_val(s: &[u8]) -> Option<f64> {
    let t = std::str::from_utf8(s).ok()?;
    if t.is_empty() || !t.bytes().all(|c| c.is_ascii_digit() || b"+-.eE".contains(&c)) || !t.ends_with(|c: char| c.is_ascii_digit()) {
        return None;
    }
    t.parse::<f64>().ok()
}
fn oracle(m: &str, a: &[u8], b: &[u8]) -> Option<Ordering> {
    match m {
        "plain" => Some(a.cmp(b)),
        "lower" => Some(a.to_ascii_lowercase().cmp(&b.to_ascii_lowercase())),
        "len" => Some(a.len().cmp(&b.len())),
        "ip" => Some(ipord(a, b)),
        "num" => Some(n::num_oracle(a, b)),
        "equal" => Some(Ordering::Equal),
        "float" => float_val(a)?.partial_cmp(&float_val(b)?),
        _ => None,
    }
}
fn pair(ctx: &mut Ctx, m: &str, c: &mut Comp, a: &[u8], b: &[u8]) {
    let g = format!("{m}: pairs");
    ctx.case(&g, &[a, b], || {
        let got = c.comp.comp(a, b);
        if let Some(w) = oracle(m, a, b) {
            if got != w {
                return Err(format!("{m} gave {got:?}, the values are {w:?}"));
            }
        }
        if c.comp.comp(b, a) != got.reverse() {
            return Err(format!("{m} is not antisymmetric: {got:?} and {:?}", c.comp.comp(b, a)));
        }
        if c.comp.comp(a, a) != Ordering::Equal || !c.comp.equal(a, a) {
            return Err(format!("{m} is not reflexive"));
        }
        if c.comp.equal(a, b) != (got == Ordering::Equal) || c.comp(a, b) != got || c.equal(a, b) != (got == Ordering::Equal) {
            return Err(format!("equal gave {}, comp {got:?}", c.comp.equal(a, b)));
        }
        c.comp.set(a);
        if c.comp.comp_self(b) != got || c.comp.equal_self(b) != (got == Ordering::Equal) {
            return Err(format!("with a preset value {:?}, otherwise {got:?}", c.comp.comp_self(b)));
        }
        c.comp.set(b);
        if c.comp.comp_self(b) != Ordering::Equal || c.comp.comp_self(a) != got.reverse() {
            return Err("a second preset value is not used".into());
        }
        Ok(())
    });
}
fn triple(ctx: &mut Ctx, m: &str, c: &Comp, a: &[u8], b: &[u8], d: &[u8]) {
    let g = format!("{m}: triples");
    ctx.case(&g, &[a, b, d], || {
        let (x, y, z) = (c.comp.comp(a, b), c.comp.comp(b, d), c.comp.comp(a, d));
        if x != Ordering::Greater && y != Ordering::Greater {
            let w = if x == Ordering::Less || y == Ordering::Less { Ordering::Less } else { Ordering::Equal };
            if z != w {
                return Err(format!("{m} is not transitive: {x:?} {y:?} {z:?}"));
            }
        }
        Ok(())
    });
}
fn gen(rng: &mut Rng, m: &str) -> Vec<u8> {
    if rng.below(8) == 0 {
        return rng.bytes(b"aAzZ\0\xff09.-+eE ,\t", 12);
    }
    match m {
        "plain" | "lower" | "len" | "equal" => {
            let n = *rng.pick(&[0usize, 1, 2, 7, 8, 9, 16, 17]);
            (0..n).map(|_| *rng.pick(b"aAbBzZ[@`{\0\xe9\xc9\x7f\x80")).collect()
        }
        "ip" => {
            let mut v = Vec::new();
            if rng.below(6) == 0 {
                v.push(b' ');
            }
            for i in 0..rng.range(1, 5) {
                if i > 0 {
                    v.push(b'.');
                }
                let p: &[u8] = rng.pick(&[&b"0"[..], b"00", b"1", b"01", b"9", b"10", b"99", b"100", b"127", b"255", b"256", b"", b"0100", b"18446744073709551616", b"2"]);
                v.extend_from_slice(p);
            }
            if rng.below(6) == 0 {
                v.extend_from_slice(b"x");
            }
            v
        }
        "num" => n::numeral(rng),
        _ => {
            let mut v = Vec::new();
            if rng.below(3) == 0 {
                v.push(*rng.pick(b"+-"));
            }
            for _ in 0..rng.below(4) {
                v.push(*rng.pick(b"019"));
            }
            if rng.below(10) == 0 {
                v.extend_from_slice(b"9007199254740993");
            }
            if rng.flip() {
                v.push(b'.');
                for _ in 0..rng.below(5) {
                    v.push(*rng.pick(b"0139"));
                }
            }
            if rng.below(3) == 0 {
                v.push(*rng.pick(b"eE"));
                if rng.flip() {
                    v.push(*rng.pick(b"+-"));
                }
                for _ in 0..rng.below(4) {
                    v.push(*rng.pick(b"0123"));
                }
            }
            if rng.below(12) == 0 {
                v.push(*rng.pick(b"KMGk"));
            }
            v
        }
    }
}
fn mutate(rng: &mut Rng, s: &[u8]) -> Vec<u8> {
    let mut v = s.to_vec();
    let i = rng.below(v.len() + 1);
    let c = *rng.pick(b"aA0019,.-\0\xe9 zZ[{@`");
    match rng.below(4) {
        0 => v.insert(i, c),
        1 if i < v.len() => v[i] = c,
        2 if i < v.len() => v[i] ^= 0x20,
        _ if i < v.len() => {
            v.remove(i);
        }
        _ => {}
    }
    v
}
pub fn run(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed);
    for m in ["plain", "lower", "len", "ip", "num", "float", "equal"] {
        let mut c = CompMaker::make_comp(m).unwrap();
        let alpha: &[u8] = match m {
            "ip" => b"01. ",
            "num" => b"01.-,",
            "float" => b"01.-e",
            _ => b"aA\0\xff[",
        };
        let all = all_strings(alpha, 3);
        for a in &all {
            for b in &all {
                pair(ctx, m, &mut c, a, b);
            }
        }
        let all = all_strings(alpha, 2);
        for a in &all {
            for b in &all {
                for d in &all {
                    triple(ctx, m, &c, a, b, d);
                }
            }
        }
        for _ in 0..ctx.n(40_000, 1_000_000) {
            let a = gen(&mut rng, m);
            let b = if rng.flip() { mutate(&mut rng, &a) } else { gen(&mut rng, m) };
            let d = if rng.flip() { mutate(&mut rng, &b) } else { gen(&mut rng, m) };
            pair(ctx, m, &mut c, &a, &b);
            triple(ctx, m, &c, &a, &b, &d);
        }
    }
    // long values
    for m in ["plain", "lower", "len", "ip", "num", "equal"] {
        let mut c = CompMaker::make_comp(m).unwrap();
        let lens = [1usize, 20, 255, 256, 257, 4464, 65535, 65536, 70000];
        for x in lens {
            for y in lens {
                let (a, mut b) = (vec![b'1'; x], vec![b'1'; y]);
                pair(ctx, m, &mut c, &a, &b);
                b[y - 1] = b'2';
                pair(ctx, m, &mut c, &a, &b);
            }
        }
    }
    // every byte value against every other, also inside a longer text
    for m in ["plain", "lower"] {
        let mut c = CompMaker::make_comp(m).unwrap();
        for x in 0..=255u8 {
            for y in 0..=255u8 {
                pair(ctx, m, &mut c, &[x], &[y]);
                pair(ctx, m, &mut c, &[b'q', x, b'a'], &[b'Q', y, b'B']);
            }
        }
    }
    // doubles: the order and the order of the cached form agree for every kind of value
    let mut v = vec![0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, f64::MAX, f64::MIN, 1.0, -1.0, f64::from_bits(1), f64::EPSILON];
    for _ in 0..ctx.n(200, 1000) {
        v.push(f64::from_bits(rng.next()));
    }
    for &x in &v {
        for &y in &v {
            ctx.case("doubles", &[format!("{x:e}").as_bytes(), format!("{y:e}").as_bytes()], || {
                let w = match x.partial_cmp(&y) {
                    Some(o) => o,
                    None => y.is_nan().cmp(&x.is_nan()),
                };
                let got = cdx::num::fcmp(x, y);
                if got != w {
                    return Err(format!("fcmp gave {got:?}, expected {w:?}"));
                }
                let u = cdx::num::ulp_to_ulong(x).cmp(&cdx::num::ulp_to_ulong(y));
                if u != w {
                    return Err(format!("ulp_to_ulong orders {u:?}, expected {w:?}"));
                }
                Ok(())
            });
        }
    }
}
