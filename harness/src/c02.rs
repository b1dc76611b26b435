//! multi-key comparison is lexicographic with per-key reversal
use crate::common::*;
use cdx::comp::{Comp, CompList, CompMaker, LineCompList};
use std::cmp::Ordering;

const METHODS: &[&str] = &["", "lower", "num", "len", "float", "ip", "equal", "plain"];

#[derive(Clone)]
struct Key {
    col: Option<usize>,
    method: &'static str,
    rev: bool,
    strict: bool,
}
impl Key {
    fn spec(&self, by_name: bool) -> String {
        let mut m: Vec<&str> = Vec::new();
        if self.rev {
            m.push("rev");
        }
        if self.strict {
            m.push("strict");
        }
        if !self.method.is_empty() {
            m.push(self.method);
        }
        let c = match self.col {
            None => String::new(),
            Some(n) if by_name => NAMES[n].to_string(),
            Some(n) => (n + 1).to_string(),
        };
        if m.is_empty() {
            c
        } else {
            format!("{c},{}", m.join("."))
        }
    }
    fn text<'a>(&self, l: &'a [u8]) -> &'a [u8] {
        match self.col {
            None => l,
            Some(n) => col(l, n),
        }
    }
}
const NAMES: &[&str] = &["aa", "bb", "cc", "dd"];

struct Base(Vec<(&'static str, Comp)>);
impl Base {
    fn new() -> Self {
        Base(METHODS.iter().map(|m| (*m, CompMaker::make_comp(m).unwrap())).collect())
    }
    fn one(&self, m: &str, a: &[u8], b: &[u8]) -> Ordering {
        // the single comparators are other properties' subject: here they are the given orders
        self.0.iter().find(|x| x.0 == m).unwrap().1.comp.comp(a, b)
    }
    fn want(&self, keys: &[Key], a: &[u8], b: &[u8]) -> Ordering {
        for k in keys {
            let mut o = self.one(k.method, k.text(a), k.text(b));
            if k.rev {
                o = o.reverse();
            }
            if o != Ordering::Equal {
                return o;
            }
        }
        Ordering::Equal
    }
}

fn rand_key(rng: &mut Rng, whole: bool) -> Key {
    Key {
        col: if whole && rng.below(6) == 0 { None } else { Some(rng.below(4)) },
        method: METHODS[rng.below(METHODS.len())],
        rev: rng.flip(),
        strict: rng.below(5) == 0,
    }
}
fn val(rng: &mut Rng) -> Vec<u8> {
    let v: &[&[u8]] = &[b"", b"a", b"A", b"b", b"B", b"1", b"2", b"10", b"-1", b"1.5", b"ab", b"abcdefgh", b"abcdefghi", b"1.2.3.4", b"1.2.3.10", b"z", b"a ", b" a", b"a\r", b"1 ", b"b\x0b"];
    rng.pick(v).to_vec()
}
fn line(rng: &mut Rng) -> Vec<u8> {
    let n = rng.range(1, 4);
    let v: Vec<Vec<u8>> = (0..n).map(|_| val(rng)).collect();
    let p: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
    join(&p, b'\t')
}
fn near(rng: &mut Rng, l: &[u8]) -> Vec<u8> {
    let mut p: Vec<Vec<u8>> = cols(l).iter().map(|x| x.to_vec()).collect();
    if rng.below(4) > 0 {
        let i = rng.below(p.len());
        p[i] = val(rng);
    }
    let q: Vec<&[u8]> = p.iter().map(|x| &x[..]).collect();
    join(&q, b'\t')
}

fn must(name: &str, got: Ordering, want: Ordering) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{name} gave {got:?}, the keys say {want:?}"))
    }
}
fn mustb(name: &str, got: bool, want: Ordering) -> R {
    if got == (want == Ordering::Equal) {
        Ok(())
    } else {
        Err(format!("{name} gave {got}, the keys say {want:?}"))
    }
}

pub fn run(ctx: &mut Ctx) {
    let mut rng = Rng::new(ctx.seed);
    let base = Base::new();
    for round in 0..ctx.n(2500, 40_000) {
        if ctx.full() {
            return;
        }
        let nk = if rng.below(5) == 0 { rng.range(5, 9) } else { rng.range(1, 4) };
        let keys: Vec<Key> = (0..nk).map(|_| rand_key(&mut rng, true)).collect();
        let by_name = rng.flip();
        let spec: Vec<String> = keys.iter().map(|k| k.spec(by_name)).collect();
        let specs = spec.join(" ");
        let mut l = LineCompList::new();
        for s in &spec {
            l.add(s).unwrap();
        }
        l.lookup(NAMES).unwrap();
        for _ in 0..40 {
            let a = line(&mut rng);
            let b = near(&mut rng, &a);
            let c = near(&mut rng, &b);
            let (ta, tb) = (mkline(&a), mkline(&b));
            ctx.case("random key lists", &[specs.as_bytes(), &a, &b], || {
                let w = base.want(&keys, &a, &b);
                must("comp_lines", l.comp_lines(&a, &b), w)?;
                must("comp_lines_n", l.comp_lines_n(&a, &b, 0, 0), w)?;
                must("comp_cols", l.comp_cols(&ta, &tb), w)?;
                must("comp_cols_n", l.comp_cols_n(&ta, &tb, 0, 0), w)?;
                mustb("equal_lines", l.equal_lines(&a, &b), w)?;
                mustb("equal_lines_n", l.equal_lines_n(&a, &b, 0, 0), w)?;
                mustb("equal_cols", l.equal_cols(&ta, &tb), w)?;
                mustb("equal_cols_n", l.equal_cols_n(&ta, &tb, 0, 0), w)?;
                must("comp_lines the other way round", l.comp_lines(&b, &a), w.reverse())?;
                let (ab, bc, ac) = (w, l.comp_lines(&b, &c), l.comp_lines(&a, &c));
                if (ab == bc && ac != ab) || (ab == Ordering::Equal && ac != bc) || (bc == Ordering::Equal && ac != ab) {
                    return Err(format!("not transitive with {}: {ab:?} {bc:?} {ac:?}", esc(&c)));
                }
                if nk == 1 {
                    let mut one = CompMaker::make_line_comp(&spec[0]).unwrap();
                    one.lookup(NAMES).unwrap();
                    must("LineComp::comp_lines", one.comp_lines(&a, &b), w)?;
                    must("LineComp::comp_cols", one.comp_cols(&ta, &tb), w)?;
                    mustb("LineComp::equal_lines", one.equal_lines(&a, &b), w)?;
                    mustb("LineComp::equal_cols", one.equal_cols(&ta, &tb), w)?;
                }
                Ok(())
            });
            // compare a stored value
            let vals: Vec<&[u8]> = keys.iter().map(|k| k.text(&a)).collect();
            if nk == 1 {
                // one key takes the whole stored value, whatever it contains
                let d = *rng.pick(b",\t");
                let v: Vec<u8> = if keys[0].col.is_none() { a.clone() } else { join(&[vals[0], b"x"], d) };
                ctx.case("one stored value", &[specs.as_bytes(), &v, &b], || {
                    l.set(&v, d).map_err(|e| format!("set failed: {e}"))?;
                    let mut w = base.one(keys[0].method, &v, keys[0].text(&b));
                    if keys[0].rev {
                        w = w.reverse();
                    }
                    must("comp_self_line", l.comp_self_line(&b), w)?;
                    must("comp_self_cols", l.comp_self_cols(&tb), w)?;
                    mustb("equal_self_line", l.equal_self_line(&b), w)?;
                    mustb("equal_self_cols", l.equal_self_cols(&tb), w)
                });
            }
            if keys.iter().all(|k| k.col.is_some()) {
                let pat = join(&vals, b',');
                ctx.case("stored value against a line", &[specs.as_bytes(), &pat, &b], || {
                    l.set(&pat, b',').map_err(|e| format!("set failed: {e}"))?;
                    let w = base.want(&keys, &a, &b);
                    must("comp_self_line", l.comp_self_line(&b), w)?;
                    must("comp_self_cols", l.comp_self_cols(&tb), w)?;
                    mustb("equal_self_line", l.equal_self_line(&b), w)?;
                    mustb("equal_self_cols", l.equal_self_cols(&tb), w)
                });
            }
        }
        // two files with different column orders
        let mut l2 = LineCompList::new();
        let keys: Vec<Key> = (0..nk).map(|_| rand_key(&mut rng, false)).collect();
        let mut perm: Vec<usize> = vec![0, 1, 2, 3];
        for i in (1..4).rev() {
            perm.swap(i, rng.below(i + 1));
        }
        // the second file's columns under the same names, or under names of their own (given as first.second)
        let other = ["ee", "ff", "gg", "hh"];
        let dotted = rng.flip();
        let by_num = rng.flip();
        let spec2: Vec<String> = keys
            .iter()
            .map(|k| {
                let s = k.spec(true);
                if !dotted {
                    return s;
                }
                let c = k.col.unwrap();
                let cs = if by_num { format!("{}.{}", c + 1, perm.iter().position(|x| *x == c).unwrap() + 1) } else { format!("{}.{}", NAMES[c], other[c]) };
                format!("{cs}{}", &s[2..])
            })
            .collect();
        for s in &spec2 {
            l2.add(s).unwrap();
        }
        let names2: Vec<&str> = perm.iter().map(|i| if dotted { other[*i] } else { NAMES[*i] }).collect();
        l2.lookup_n(NAMES, 0).unwrap();
        l2.lookup_n(&names2, 1).unwrap();
        let specs = spec2.join(" ") + " / " + &names2.join(" ");
        for _ in 0..8 {
            let mk = |rng: &mut Rng| -> Vec<Vec<u8>> { (0..4).map(|_| val(rng)).collect() };
            let av = mk(&mut rng);
            let mut bv = av.clone();
            for _ in 0..rng.below(3) {
                bv[rng.below(4)] = val(&mut rng);
            }
            let pa: Vec<&[u8]> = av.iter().map(|x| &x[..]).collect();
            let pb: Vec<&[u8]> = bv.iter().map(|x| &x[..]).collect();
            let pb2: Vec<&[u8]> = perm.iter().map(|i| &bv[*i][..]).collect();
            let (a, b, b2) = (join(&pa, b'\t'), join(&pb, b'\t'), join(&pb2, b'\t'));
            let (ta, tb2) = (mkline(&a), mkline(&b2));
            ctx.case("two files, columns by name", &[specs.as_bytes(), &a, &b2], || {
                let w = base.want(&keys, &a, &b);
                must("comp_lines_n", l2.comp_lines_n(&a, &b2, 0, 1), w)?;
                must("comp_lines_n swapped", l2.comp_lines_n(&b2, &a, 1, 0), w.reverse())?;
                must("comp_cols_n", l2.comp_cols_n(&ta, &tb2, 0, 1), w)?;
                mustb("equal_lines_n", l2.equal_lines_n(&a, &b2, 0, 1), w)?;
                mustb("equal_cols_n", l2.equal_cols_n(&ta, &tb2, 0, 1), w)
            });
        }
        // an expression as key, alone or with others
        {
            type F = fn(f64, f64) -> f64;
            let es: &[(&str, F)] = &[("aa+bb", |a, b| a + b), ("bb", |_, b| b), ("aa-bb", |a, b| a - b), ("[aa]*2", |a, _| a * 2.0)];
            let (e, f) = *rng.pick(es);
            let (rev, before, after) = (rng.flip(), rng.below(3) == 0, rng.flip());
            let mut l3 = LineCompList::new();
            let mut spec = vec![];
            if before {
                spec.push("cc".to_string());
            }
            spec.push(format!(",{}expr,{e}", if rev { "rev." } else { "" }));
            if after {
                spec.push("dd,rev.num".to_string());
            }
            for x in &spec {
                l3.add(x).unwrap();
            }
            let two = ["bb", "dd", "aa", "cc"];
            l3.lookup_n(NAMES, 0).unwrap();
            l3.lookup_n(&two, 1).unwrap();
            let specs = spec.join(" ");
            for _ in 0..6 {
                let mut mk = |like: Option<&Vec<f64>>| -> Vec<f64> { (0..4).map(|i| match like { Some(l) if rng.flip() => l[i], _ => rng.range(0, 6) as f64 / 2.0 }).collect() };
                let a = mk(None);
                let b = mk(Some(&a));
                let text = |v: &[f64]| v.iter().map(|x| format!("{x}")).collect::<Vec<_>>().join("\t").into_bytes();
                let want = |ka: f64, b: &[f64], only: bool| -> Ordering {
                    let mut o = Ordering::Equal;
                    if before && !only {
                        o = a[2].partial_cmp(&b[2]).unwrap();
                    }
                    if o == Ordering::Equal {
                        o = ka.partial_cmp(&f(b[0], b[1])).unwrap();
                        if rev {
                            o = o.reverse();
                        }
                    }
                    if o == Ordering::Equal && after && !only {
                        o = b[3].partial_cmp(&a[3]).unwrap();
                    }
                    o
                };
                let w = want(f(a[0], a[1]), &b, false);
                let (ta, tb, tb2) = (text(&a), text(&b), text(&[b[1], b[3], b[0], b[2]]));
                let (ca, cb, cb2) = (mkline(&ta), mkline(&tb), mkline(&tb2));
                ctx.case("expression keys", &[specs.as_bytes(), &ta, &tb], || {
                    must("comp_lines", l3.comp_lines(&ta, &tb), w)?;
                    must("comp_cols", l3.comp_cols(&ca, &cb), w)?;
                    mustb("equal_lines", l3.equal_lines(&ta, &tb), w)?;
                    mustb("equal_cols", l3.equal_cols(&ca, &cb), w)?;
                    must("comp_lines_n", l3.comp_lines_n(&ta, &tb2, 0, 1), w)?;
                    must("comp_cols_n", l3.comp_cols_n(&ca, &cb2, 0, 1), w)?;
                    mustb("equal_lines_n", l3.equal_lines_n(&ta, &tb2, 0, 1), w)?;
                    mustb("equal_cols_n", l3.equal_cols_n(&ca, &cb2, 0, 1), w)?;
                    if !before && !after {
                        let k = f(a[0], a[1]);
                        l3.set(format!("{k}").as_bytes(), b',').map_err(|e| format!("set: {e}"))?;
                        let w = want(k, &b, true);
                        must("comp_self_line", l3.comp_self_line(&tb), w)?;
                        must("comp_self_cols", l3.comp_self_cols(&cb), w)?;
                        mustb("equal_self_line", l3.equal_self_line(&tb), w)?;
                        mustb("equal_self_cols", l3.equal_self_cols(&cb), w)?;
                    }
                    Ok(())
                });
            }
        }
        // value comparator lists
        let mut cl = CompList::new();
        let ks: Vec<Key> = (0..nk).map(|_| Key { col: None, ..rand_key(&mut rng, false) }).collect();
        let mut sp = Vec::new();
        for k in &ks {
            let s = k.spec(false);
            let s = s.strip_prefix(',').unwrap_or(&s).to_string();
            cl.add(&s).unwrap();
            sp.push(s);
        }
        let sp = sp.join(" ");
        for _ in 0..10 {
            let (mut a, mut b) = (val(&mut rng), val(&mut rng));
            if round % 16 == 0 {
                // long values
                a.resize(*rng.pick(&[255, 256, 257, 4464, 65535, 65536, 70000]), b'q');
                b.resize(*rng.pick(&[1, 255, 256, 257, 4464, 65535, 65536, 70000]), b'q');
            }
            ctx.case("value comparator lists", &[sp.as_bytes(), &a, &b], || {
                let w = base.want(&ks, &a, &b);
                must("CompList::comp", cl.comp(&a, &b), w)?;
                mustb("CompList::equal", cl.equal(&a, &b), w)?;
                let pat = join(&vec![&a[..]; ks.len()], b'|');
                cl.set(&pat, b'|').map_err(|e| format!("set: {e}"))?;
                must("CompList::comp_self", cl.comp_self(&b), w)?;
                mustb("CompList::equal_self", cl.equal_self(&b), w)
            });
        }
        let _ = round;
    }
    let mut tools = Vec::new();
    for _ in 0..ctx.n(300, 3000) {
        let nk = rng.range(1, 3);
        let keys: Vec<Key> = (0..nk).map(|_| Key { strict: false, ..rand_key(&mut rng, false) }).collect();
        let mut ls = vec![line(&mut rng)];
        for _ in 0..rng.range(1, 8) {
            let x = near(&mut rng, &ls[0]);
            ls.push(x);
        }
        let mut f = Vec::new();
        for x in &ls {
            f.extend_from_slice(x);
            f.push(b'\n');
        }
        let mut args = strs(&["sort"]);
        for k in &keys {
            args.push("-k".into());
            args.push(k.spec(false));
        }
        args.push("f".into());
        tools.push(ToolCase {
            group: "cdx sort with several keys".into(),
            files: vec![("f".into(), f)],
            args,
            stdin: vec![],
            judge: Box::new(move |o| {
                if o.code != 0 {
                    return Err(format!("exit {}: {}", o.code, String::from_utf8_lossy(&o.err)));
                }
                let got = out_lines(&o.out)?;
                let base = Base::new();
                for w in got.windows(2) {
                    if base.want(&keys, &w[0], &w[1]) == Ordering::Greater {
                        return Err(format!("{} is before {}", esc(&w[0]), esc(&w[1])));
                    }
                }
                Ok(())
            }),
        });
    }
    run_tools(ctx, tools);
}
