//! cached sort keys never change a comparison
use crate::common::*;
use cdx::comp::{CompMaker, Item, LineCompList};
use std::cmp::Ordering;

const METHODS: &[&str] = &["", "lower", "num", "len", "float", "ip", "equal"];

fn val(rng: &mut Rng, kind: usize) -> Vec<u8> {
    match kind {
        0 => rng.bytes(b"aAbBzZ", 11),
        1 => {
            // shared 8 byte prefix and around it
            let mut v = b"abcdefghij"[..rng.range(5, 10)].to_vec();
            if rng.flip() {
                let i = rng.below(v.len());
                v[i] = *rng.pick(b"\0aAjJ~\x80\xff@[`{");
            }
            if rng.flip() {
                v.push(*rng.pick(b"\0aZ\xff"));
            }
            v
        }
        2 => rng.bytes(b"\0\x01a\xff", 10),
        3 => {
            let v: &[&[u8]] = &[b"0", b"-0", b"0.0", b"1", b"-1", b"1.5", b"-1.5", b"1e5", b"1e400", b"-1e400", b"0e400", b"1e-400", b"-1e-400", b"12345678901234567890", b"12345678901234567891", b"abc", b"", b"nan", b"inf", b"5", b"5.0", b"5.1", b"+5", b"1K", b"1k", b"9007199254740993", b"9007199254740992", b"-", b"-x", b".", b"-."];
            rng.pick(v).to_vec()
        }
        4 => {
            let n = rng.range(1, 5);
            let mut s = Vec::new();
            for i in 0..n {
                if i > 0 {
                    s.push(b'.');
                }
                s.extend_from_slice(*rng.pick(&[&b"0"[..], b"1", b"9", b"10", b"255", b"010", b"", b"99"]));
            }
            s
        }
        _ => rng.bytes(b"0123456789.-e", 9),
    }
}
fn near(rng: &mut Rng, v: &[u8]) -> Vec<u8> {
    let mut r = v.to_vec();
    match rng.below(5) {
        0 => {}
        1 => r.push(*rng.pick(b"\0a0\xff")),
        2 => {
            r.pop();
        }
        3 if !r.is_empty() => {
            let i = rng.below(r.len());
            r[i] ^= *rng.pick(b"\x20\x01\x80");
            if r[i] == b'\t' || r[i] == b'\n' {
                r[i] = b'q';
            }
        }
        _ => {
            if !r.is_empty() {
                let i = rng.below(r.len());
                r[i] = *rng.pick(b"aA0\0\xff");
            }
        }
    }
    r
}
fn item(off: usize, len: usize) -> Item {
    let mut i = Item::new();
    i.offset = off as u32;
    i.size_plus = len as u32;
    i
}
fn name(o: Ordering) -> String {
    format!("{o:?}")
}

fn pair(ctx: &mut Ctx, group: &str, l: &mut LineCompList, spec: &str, junk: &[u8], a: &[u8], b: &[u8]) {
    ctx.case(group, &[spec.as_bytes(), junk, a, b], || {
        let mut base = junk.to_vec();
        base.extend_from_slice(a);
        let bo = base.len();
        base.extend_from_slice(b);
        base.extend_from_slice(b"tail\n");
        let mut ia = item(junk.len(), a.len());
        let mut ib = item(bo, b.len());
        l.fill_cache_line(&mut ia, &base);
        l.fill_cache_line(&mut ib, &base);
        if ia.get(&base) != a || ib.get(&base) != b || ia.size() as usize != a.len() {
            return Err("filling the cache changed the item's line".into());
        }
        let bare = a.strip_suffix(b"\n").unwrap_or(a);
        if !bare.contains(&b'\n') {
            let mut ic = item(junk.len(), a.len());
            l.fill_cache_cols(&mut ic, &mkline(bare));
            if (ic.cache, ic.complete()) != (ia.cache, ia.complete()) || ic.get(&base) != a {
                return Err(format!("filling from the split line gives {:x} {}, from the line {:x} {}", ic.cache, ic.complete(), ia.cache, ia.complete()));
            }
        }
        let full = l.comp_lines(a, b);
        let got = l.comp_items(&base, &ia, &ib);
        if got != full {
            return Err(format!("through the cache {}, full keys {}", name(got), name(full)));
        }
        let back = l.comp_items(&base, &ib, &ia);
        if back != l.comp_lines(b, a) {
            return Err(format!("through the cache {}, full keys {} (swapped)", name(back), name(l.comp_lines(b, a))));
        }
        let feq = l.equal_lines(a, b);
        let eq = l.equal_items(&base, &ia, &ib);
        if eq != feq {
            return Err(format!("equal through the cache {eq}, full keys {feq}"));
        }
        if feq != (full == Ordering::Equal) {
            return Err(format!("equal_lines {feq} but comp_lines {}", name(full)));
        }
        Ok(())
    });
}

pub fn run(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed);
    let short = all_strings(b"\0aA\xff", 3);
    for m in METHODS {
        for rev in ["", "rev."] {
            if m.is_empty() && !rev.is_empty() {
                continue;
            }
            let spec = format!(",{rev}{m}");
            let mut l = LineCompList::new();
            l.add(&spec).unwrap();
            l.lookup(&["a", "b", "c"]).unwrap();
            for a in &short {
                for b in &short {
                    pair(ctx, "every pair of short keys", &mut l, &spec, b"xy", a, b);
                }
            }
        }
    }
    for _ in 0..ctx.n(1500, 30_000) {
        if ctx.full() {
            return;
        }
        let nk = if rng.below(5) == 0 { rng.range(4, 7) } else { rng.range(1, 3) };
        let mut specs = Vec::new();
        let mut l = LineCompList::new();
        for _ in 0..nk {
            let m = *rng.pick(METHODS);
            let s = match rng.below(8) {
                0 => format!(",{m}"),
                1 => format!(",rev{}{m}", if m.is_empty() { "" } else { "." }),
                2 => {
                    let e = *rng.pick(&["2", "2*1", "1/3", "0-1", "len(c1)"]);
                    let _ = e;
                    format!(",expr,{}", rng.pick(&["c1+c2", "c1-c2", "c1/c2", "c2*2"]))
                }
                x if x < 5 => format!("{},{m}", rng.range(1, 3)),
                _ => format!("{},rev{}{m}", rng.range(1, 3), if m.is_empty() { "" } else { "." }),
            };
            if l.add(&s).is_err() {
                l.add("1").unwrap();
                specs.push("1".to_string());
            } else {
                specs.push(s);
            }
        }
        if l.lookup(&["c1", "c2", "c3"]).is_err() {
            continue;
        }
        let spec = specs.join(" ");
        for _ in 0..60 {
            let kind = rng.below(6);
            let nc = rng.range(1, 3);
            let av: Vec<Vec<u8>> = (0..nc).map(|_| val(&mut rng, kind)).collect();
            let mut bv = av.clone();
            for x in bv.iter_mut() {
                if rng.flip() {
                    *x = near(&mut rng, x);
                } else if rng.flip() {
                    *x = val(&mut rng, kind);
                }
            }
            let pa: Vec<&[u8]> = av.iter().map(|x| &x[..]).collect();
            let pb: Vec<&[u8]> = bv.iter().map(|x| &x[..]).collect();
            let (mut a, mut b) = (join(&pa, b'\t'), join(&pb, b'\t'));
            if rng.flip() {
                a.push(b'\n');
                b.push(b'\n');
            }
            let jn = rng.below(4);
            pair(ctx, "random keys", &mut l, &spec, &b"junk"[..jn], &a, &b);
        }
    }
    // single value comparators: the cached number and completeness as such
    for m in METHODS {
        let c = CompMaker::make_comp(m).unwrap();
        for _ in 0..ctx.n(6000, 200_000) {
            let kind = rng.below(6);
            let a = val(&mut rng, kind);
            let b = if rng.flip() { near(&mut rng, &a) } else { val(&mut rng, kind) };
            ctx.case("single values", &[m.as_bytes(), &a, &b], || {
                let (mut ia, mut ib) = (item(0, a.len()), item(a.len(), b.len()));
                if rng.flip() {
                    ia.set_complete();
                    ib.cache = 77;
                }
                c.fill_cache(&mut ia, &a);
                c.fill_cache(&mut ib, &b);
                let o = c.comp(&a, &b);
                if ia.cache < ib.cache && o != Ordering::Less || ia.cache > ib.cache && o != Ordering::Greater {
                    return Err(format!("caches {:x} {:x} but the keys are {o:?}", ia.cache, ib.cache));
                }
                if ia.complete() && ib.complete() && (ia.cache == ib.cache) != c.equal(&a, &b) {
                    return Err(format!("complete caches {:x} {:x} but equal is {}", ia.cache, ib.cache, c.equal(&a, &b)));
                }
                let mut base = a.clone();
                base.extend_from_slice(&b);
                if m.is_empty() {
                    // the plain order has its own cached comparison
                    if ia.compare(&ib, &base) != o || ib.compare(&ia, &base) != o.reverse() {
                        return Err(format!("Item::compare gives {:?}, the keys are {o:?}", ia.compare(&ib, &base)));
                    }
                    if ia.equal(&ib, &base) != (a == b) {
                        return Err(format!("Item::equal gives {}", ia.equal(&ib, &base)));
                    }
                }
                if ia.compare2(&ib, &base, &*c.comp) != o {
                    return Err(format!("Item::compare2 gives {:?}, the keys are {o:?}", ia.compare2(&ib, &base, &*c.comp)));
                }
                Ok(())
            });
        }
    }
    // long lines
    for m in METHODS {
        for rev in ["", "rev."] {
            let spec = format!(",{rev}{}", if m.is_empty() { "plain" } else { m });
            let mut l = LineCompList::new();
            l.add(&spec).unwrap();
            l.lookup(&["c1", "c2", "c3"]).unwrap();
            for x in [255usize, 256, 4464, 65535, 65536, 70000] {
                for y in [1usize, 255, 256, 4464, 65535, 65536, 70000] {
                    let (mut a, b) = (vec![b'1'; x], vec![b'1'; y]);
                    a[x - 1] = b'2';
                    pair(ctx, "long lines", &mut l, &spec, b"x", &a, &b);
                }
            }
        }
    }
    // the whole tool: sorting lines whose cached prefixes tie
    let mut tools = Vec::new();
    for _ in 0..ctx.n(200, 2000) {
        let m = *rng.pick(&["", "lower", "num", "len", "float", "ip"]);
        let rev = rng.flip();
        let kind = rng.below(6);
        let mut ls: Vec<Vec<u8>> = Vec::new();
        let first = val(&mut rng, kind);
        for _ in 0..rng.range(2, 9) {
            let mut x = if rng.flip() { near(&mut rng, &first) } else { val(&mut rng, kind) };
            x.retain(|c| *c != b'\t' && *c != b'\n' && *c != b'\r');
            ls.push(x);
        }
        let mut f = Vec::new();
        for x in &ls {
            f.extend_from_slice(x);
            f.push(b'\n');
        }
        let meth = if rev && m.is_empty() { "rev".to_string() } else if rev { format!("rev.{m}") } else { m.to_string() };
        tools.push(ToolCase {
            group: "cdx sort".into(),
            files: vec![("f".into(), f)],
            args: strs(&["sort", "-k", &format!("1,{meth}"), "f"]),
            stdin: vec![],
            judge: Box::new(move |o| {
                if o.code != 0 {
                    return Err(format!("exit {}: {}", o.code, String::from_utf8_lossy(&o.err)));
                }
                let got = out_lines(&o.out)?;
                let c = CompMaker::make_comp(m).unwrap();
                for w in got.windows(2) {
                    let mut x = c.comp(&w[0], &w[1]);
                    if rev {
                        x = x.reverse();
                    }
                    if x == Ordering::Greater {
                        return Err(format!("{} is before {} in {}", esc(&w[0]), esc(&w[1]), esc(&o.out)));
                    }
                }
                Ok(())
            }),
        });
    }
    run_tools(ctx, tools);
}
