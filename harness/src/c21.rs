//! numbers in options are read exactly
use crate::common::*;
use cdx::column::NamedCol;
use cdx::num::{suffix_valf, suffix_valu, Junk, JunkType, JunkVal};
use cdx::text::Text;
use cdx::util::FakeSlice;

fn power(c: u8) -> Option<(u128, u32)> {
    let p = |s: &[u8]| s.iter().position(|x| *x == c).map(|x| x as u32 + 1);
    p(b"KMGTPEZY").map(|x| (1024, x)).or_else(|| p(b"kmgtpezy").map(|x| (1000, x)))
}
/// magnitude (None: more than 128 bits), bytes used; None if there is no number
fn digits(s: &[u8]) -> Option<(Option<u128>, usize)> {
    let n = s.iter().take_while(|x| x.is_ascii_digit()).count();
    if n == 0 {
        return None;
    }
    let mut v: Option<u128> = Some(0);
    for c in &s[..n] {
        v = v.and_then(|x| x.checked_mul(10)).and_then(|x| x.checked_add((c - b'0') as u128));
    }
    match s.get(n).and_then(|c| power(*c)) {
        Some((b, e)) => Some((v.and_then(|x| x.checked_mul(b.pow(e))), n + 1)),
        None => Some((v, n)),
    }
}
/// value and bytes used; Err means it does not fit, None that there is no number
fn want_u(s: &[u8]) -> Option<Result<(usize, usize), ()>> {
    let k = (s.first() == Some(&b'+')) as usize;
    digits(&s[k..]).map(|(v, n)| v.and_then(|x| usize::try_from(x).ok()).map(|x| (x, n + k)).ok_or(()))
}
fn want_i(s: &[u8]) -> Option<Result<(isize, usize), ()>> {
    let neg = s.first() == Some(&b'-');
    let k = (neg || s.first() == Some(&b'+')) as usize;
    digits(&s[k..]).map(|(v, n)| {
        v.and_then(|x| i128::try_from(x).ok()).and_then(|x| isize::try_from(if neg { -x } else { x }).ok()).map(|x| (x, n + k)).ok_or(())
    })
}
fn want_f(s: &[u8]) -> (f64, usize) {
    let d = |mut i: usize| {
        while i < s.len() && s[i].is_ascii_digit() {
            i += 1;
        }
        i
    };
    let mut i = d(matches!(s.first(), Some(b'+' | b'-')) as usize);
    if s.get(i) == Some(&b'.') {
        i = d(i + 1);
    }
    if matches!(s.get(i), Some(b'e' | b'E')) {
        let j = i + 1 + matches!(s.get(i + 1), Some(b'+' | b'-')) as usize;
        if d(j) > j {
            i = d(j);
        }
    }
    let v: f64 = std::str::from_utf8(&s[..i]).unwrap().parse().unwrap_or(0.0);
    match s.get(i).and_then(|c| power(*c)) {
        Some((b, e)) => (v * b.pow(e) as f64, i + 1),
        None => (v, i),
    }
}
fn ints<T: Text + ?Sized>(t: &T, s: &[u8]) -> R {
    let (v, rest) = t.to_usize();
    let used = s.len() - rest.len();
    match want_u(s) {
        None => {
            if (v, used) != (0, 0) {
                return Err(format!("to_usize read {v} from {used} bytes, but there is no number"));
            }
        }
        Some(Err(())) => {
            if used != 0 {
                return Err(format!("to_usize read {v}, but the number does not fit"));
            }
        }
        Some(Ok(w)) => {
            if (v, used) != w {
                return Err(format!("to_usize read {v} from {used} bytes, not {} from {}", w.0, w.1));
            }
        }
    }
    if s.len() > 0 {
        let whole = match want_u(s) {
            Some(Ok((v, n))) if n == s.len() => Some(v),
            _ => None,
        };
        if t.to_usize_whole(s, "x").ok() != whole {
            return Err(format!("to_usize_whole gave {:?}, not {whole:?}", t.to_usize_whole(s, "x").ok()));
        }
        for (jv, bad) in [(JunkVal::Min, usize::MIN), (JunkVal::Max, usize::MAX)] {
            if t.to_usize_junk(&Junk { junk_type: JunkType::None, junk_val: jv }) != whole.unwrap_or(bad) {
                return Err("to_usize_junk(None)".into());
            }
            let pre = match want_u(s) {
                Some(Ok((v, _))) => v,
                _ => bad,
            };
            if t.to_usize_junk(&Junk { junk_type: JunkType::Trailing, junk_val: jv }) != pre {
                return Err("to_usize_junk(Trailing)".into());
            }
        }
    }
    if let Some(Ok((v, _))) = want_u(s) {
        if t.to_usize_lossy() != v {
            return Err("to_usize_lossy".into());
        }
    }
    let (v, rest) = t.to_isize();
    let used = s.len() - rest.len();
    match want_i(s) {
        None => {
            if (v, used) != (0, 0) {
                return Err(format!("to_isize read {v} from {used} bytes, but there is no number"));
            }
        }
        Some(Err(())) => {
            if used != 0 {
                return Err(format!("to_isize read {v}, but the number does not fit"));
            }
        }
        Some(Ok(w)) => {
            if (v, used) != w {
                return Err(format!("to_isize read {v} from {used} bytes, not {} from {}", w.0, w.1));
            }
            if t.to_isize_lossy() != v {
                return Err("to_isize_lossy".into());
            }
        }
    }
    if s.len() > 0 {
        let whole = match want_i(s) {
            Some(Ok((v, n))) if n == s.len() => Some(v),
            _ => None,
        };
        if t.to_isize_whole(s, "x").ok() != whole {
            return Err(format!("to_isize_whole gave {:?}, not {whole:?}", t.to_isize_whole(s, "x").ok()));
        }
        for (jv, bad) in [(JunkVal::Min, isize::MIN), (JunkVal::Max, isize::MAX)] {
            if t.to_isize_junk(&Junk { junk_type: JunkType::None, junk_val: jv }) != whole.unwrap_or(bad) {
                return Err("to_isize_junk(None)".into());
            }
        }
    }
    let (v, rest) = t.to_f64();
    let w = want_f(s);
    let used = s.len() - rest.len();
    if v.to_bits() != w.0.to_bits() || used != w.1 {
        return Err(format!("to_f64 read {v:e} from {used} bytes, not {:e} from {}", w.0, w.1));
    }
    if t.to_f64_lossy().to_bits() != w.0.to_bits() {
        return Err("to_f64_lossy".into());
    }
    if t.to_f64_whole(s, "x").ok() != if w.1 == s.len() { Some(w.0) } else { None } {
        return Err("to_f64_whole".into());
    }
    Ok(())
}
fn one(s: &[u8]) -> R {
    ints(s, s)?;
    if let Ok(t) = std::str::from_utf8(s) {
        ints(t, s).map_err(|x| format!("as str: {x}"))?;
        // a byte position or range of them
        let lim = |x: &str| match want_u(x.as_bytes()) {
            Some(Ok((v, n))) if n == x.len() && v >= 1 && v <= u32::MAX as usize => Some(v),
            _ => None,
        };
        if s.len() > 0 && !t.contains('-') {
            let data = vec![7u8; 300];
            let got = FakeSlice::new(t).ok();
            match (lim(t), &got) {
                (None, None) => {}
                (Some(n), Some(g)) => {
                    if n <= data.len() {
                        let r = g.get(&data);
                        if r.len() != 1 || r.as_ptr() as usize - data.as_ptr() as usize != n - 1 {
                            return Err(format!("byte position {n} selects other bytes"));
                        }
                    } else if !g.get_safe(&data).is_empty() {
                        return Err(format!("byte position {n} selects bytes of a shorter text"));
                    }
                }
                _ => return Err(format!("byte position: {}", if got.is_some() { "accepted" } else { "refused" })),
            }
        }
        // a column by number
        if matches!(s.first(), Some(b'1'..=b'9')) {
            let mut c = NamedCol::new();
            if let Ok(rest) = c.parse(t) {
                let used = s.len() - rest.len();
                match want_u(s) {
                    Some(Ok((v, n))) => {
                        if used != n || c.num != v - 1 {
                            return Err(format!("column number read as {}", c.num.wrapping_add(1)));
                        }
                    }
                    _ => {
                        if used != 0 {
                            return Err("a column number that does not fit was accepted".into());
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
pub fn run(ctx: &mut Ctx) {
    for c in 0..=255u8 {
        ctx.case("suffix", &[&[c]], || {
            if c == b'0' {
                return Ok(()); // a digit, never seen as a suffix
            }
            let w = power(c).map(|(b, e)| b.pow(e));
            if let Some(Ok(w)) = w.map(usize::try_from) {
                if suffix_valu(c) != Some(w) {
                    return Err(format!("suffix stands for {:?}, not {w}", suffix_valu(c)));
                }
            }
            if suffix_valu(c).is_some() != w.is_some() || suffix_valf(c) != w.map(|x| x as f64) {
                return Err(format!("suffix stands for {:?} and {:?}", suffix_valu(c), suffix_valf(c)));
            }
            Ok(())
        });
    }
    for s in all_strings(b"+-19.eKx", ctx.n(4, 5)) {
        ctx.case("text", &[&s], || one(&s));
    }
    for b in [usize::MAX as u128, isize::MAX as u128, u32::MAX as u128, 1 << 32, 1 << 16] {
        for d in 0..30u128 {
            for sign in ["", "+", "-"] {
                let t = format!("{sign}{}", b - 15 + d);
                ctx.case("near a limit", &[t.as_bytes()], || one(t.as_bytes()));
            }
        }
        for c in b"KMGTPEZYkmgtpezy" {
            let (base, e) = power(*c).unwrap();
            let q = b / base.pow(e);
            for v in q.saturating_sub(2)..q + 3 {
                for sign in ["", "+", "-"] {
                    let t = format!("{sign}{v}{}", *c as char);
                    ctx.case("near a limit", &[t.as_bytes()], || one(t.as_bytes()));
                }
            }
        }
    }
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(20000, 400000) {
        let mut s = vec![];
        if r.flip() {
            s.push(*r.pick(b"+-"));
        }
        let n = r.below(24);
        for _ in 0..n {
            s.push(b'0' + r.below(10) as u8);
        }
        if r.below(3) == 0 {
            s.push(b'.');
            for _ in 0..r.below(20) {
                s.push(b'0' + r.below(10) as u8);
            }
        }
        if r.below(4) == 0 {
            s.push(*r.pick(b"eE"));
            if r.flip() {
                s.push(*r.pick(b"+-"));
            }
            for _ in 0..r.below(4) {
                s.push(b'0' + r.below(10) as u8);
            }
        }
        if r.flip() {
            s.push(*r.pick(b"KMGTPEZYkmgtpezyBx \0\xff"));
        }
        if r.below(4) == 0 {
            s.extend(r.bytes(b"k1+- .", 3));
        }
        ctx.case("numerals", &[&s], || one(&s));
    }
    // the number a tool is given is the number it uses
    let mut cases = vec![];
    let mut file: Vec<u8> = b" CDX\tn\n".to_vec();
    for i in 0..2100 {
        file.extend(format!("{i}\n").bytes());
    }
    for (spec, n) in [("1", 1usize), ("007", 7), ("1k", 1000), ("1K", 1024), ("2k", 2000), ("+3", 3), ("2000", 2000)] {
        cases.push(ToolCase {
            group: format!("line {spec}"),
            files: vec![("a".into(), file.clone())],
            args: strs(&["sample", "--range", spec, "a"]),
            stdin: vec![],
            judge: expect(format!(" CDX\tn\n{}\n", n - 1).into_bytes()),
        });
    }
    for spec in ["99999999999999999999", "18446744073709551616", "1Z", "1Y", "16E", "1x", "x", "1kk", "1 ", "1.5", "18446744073709551615K"] {
        cases.push(ToolCase {
            group: format!("line {spec}"),
            files: vec![("a".into(), file.clone())],
            args: strs(&["sample", "--range", spec, "a"]),
            stdin: vec![],
            judge: Box::new(move |o: &Out| if o.code == 1 && o.out.is_empty() { Ok(()) } else { Err(format!("exit {} with {} bytes written", o.code, o.out.len())) }),
        });
    }
    run_tools(ctx, cases);
}
