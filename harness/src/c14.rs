//! expressions evaluate by the stated precedence and associativity
use crate::common::*;
use cdx::expr::{calc, Expr};

/// precedence climbing over tokens, independent of the code's shunting yard
struct P<'a> {
    t: &'a [&'a str],
    i: usize,
    vars: &'a [(&'a str, f64)],
}
fn fact(x: f64) -> f64 {
    if x < 0.0 {
        return 0.0;
    }
    let n = x.round() as u64;
    if n > 170 {
        f64::INFINITY
    } else {
        (1..=n).fold(1.0, |a, b| a * b as f64)
    }
}
fn b2f(x: bool) -> f64 {
    if x {
        1.0
    } else {
        0.0
    }
}
fn binop(s: &str) -> Option<(u32, bool, fn(f64, f64) -> f64)> {
    Some(match s {
        "<" => (1, false, |a, b| b2f(a < b)),
        ">" => (1, false, |a, b| b2f(a > b)),
        "<=" => (1, false, |a, b| b2f(a <= b)),
        ">=" => (1, false, |a, b| b2f(a >= b)),
        "==" => (1, false, |a, b| b2f(a == b)),
        "!=" => (1, false, |a, b| b2f(a != b)),
        "+" => (2, false, |a, b| a + b),
        "-" => (2, false, |a, b| a - b),
        "*" => (3, false, |a, b| a * b),
        "/" => (3, false, |a, b| a / b),
        "%" => (3, false, |a, b| a % b),
        "^" => (5, true, |a, b| a.powf(b)),
        _ => return None,
    })
}
impl P<'_> {
    fn peek(&self) -> Option<&str> {
        self.t.get(self.i).copied()
    }
    fn expr(&mut self, min: u32) -> Result<f64, ()> {
        let mut l = self.prefix()?;
        while let Some(o) = self.peek() {
            let Some((p, right, f)) = binop(o) else { break };
            if p < min {
                break;
            }
            self.i += 1;
            let r = self.expr(if right { p } else { p + 1 })?;
            l = f(l, r);
        }
        Ok(l)
    }
    fn prefix(&mut self) -> Result<f64, ()> {
        match self.peek() {
            Some("-") => {
                self.i += 1;
                Ok(-self.expr(5)?)
            }
            Some("+") => {
                self.i += 1;
                self.expr(5)
            }
            _ => {
                let mut v = self.primary()?;
                while self.peek() == Some("!") {
                    self.i += 1;
                    v = fact(v);
                }
                Ok(v)
            }
        }
    }
    fn primary(&mut self) -> Result<f64, ()> {
        let t = self.peek().ok_or(())?.to_string();
        self.i += 1;
        if t == "(" {
            let v = self.expr(0)?;
            if self.peek() != Some(")") {
                return Err(());
            }
            self.i += 1;
            return Ok(v);
        }
        if let Some(f) = t.strip_suffix('(') {
            let mut a = vec![];
            loop {
                a.push(self.expr(0)?);
                match self.peek() {
                    Some(",") => self.i += 1,
                    Some(")") => {
                        self.i += 1;
                        break;
                    }
                    _ => return Err(()),
                }
            }
            return Ok(match (f, a.len()) {
                ("max", _) => a.iter().fold(a[0], |x, y| if *y > x { *y } else { x }),
                ("min", _) => a.iter().fold(a[0], |x, y| if *y < x { *y } else { x }),
                ("avg", n) => a.iter().sum::<f64>() / n as f64,
                ("if", 3) => {
                    if a[0] != 0.0 {
                        a[1]
                    } else {
                        a[2]
                    }
                }
                ("pow", 2) => a[0].powf(a[1]),
                ("atan2", 2) => a[0].atan2(a[1]),
                ("hypot", 2) => a[0].hypot(a[1]),
                ("fma", 3) => a[0].mul_add(a[1], a[2]),
                ("abs", 1) => a[0].abs(),
                ("sqrt", 1) => a[0].sqrt(),
                ("floor", 1) => a[0].floor(),
                ("ceil", 1) => a[0].ceil(),
                ("acos", 1) => a[0].acos(),
                ("asin", 1) => a[0].asin(),
                ("cos", 1) => a[0].cos(),
                ("log", 1) => a[0].ln(),
                _ => return Err(()),
            });
        }
        if let Some(x) = self.vars.iter().find(|v| v.0 == t) {
            return Ok(x.1);
        }
        match t.as_str() {
            "pi" | "M_PI" => return Ok(std::f64::consts::PI),
            "e" => return Ok(std::f64::consts::E),
            "M_SQRT2" => return Ok(std::f64::consts::SQRT_2),
            _ => (),
        }
        if t.as_bytes()[0].is_ascii_digit() {
            return t.parse().map_err(|_| ());
        }
        Err(())
    }
}
fn oracle(t: &[&str], vars: &[(&str, f64)]) -> Option<f64> {
    let mut p = P { t, i: 0, vars };
    let v = p.expr(0).ok()?;
    if p.i == t.len() {
        Some(v)
    } else {
        None
    }
}
/// do the tokens, written without blanks, read back as the same tokens?
fn lexes(t: &[&str]) -> bool {
    for w in t.windows(2) {
        let (a, b) = (w[0], w[1]);
        let (x, y) = (a.as_bytes()[a.len() - 1], b.as_bytes()[0]);
        let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
        if word(x) && word(y) {
            return false;
        }
        if word(x) && b == "(" && a.as_bytes()[0].is_ascii_alphabetic() {
            return false;
        }
        if matches!(a, "<" | ">" | "!") && (b == "==" || b.starts_with('=')) {
            return false;
        }
    }
    true
}
fn same(a: Option<f64>, b: Option<f64>) -> bool {
    match (a, b) {
        (Some(x), Some(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()) || (x == 0.0 && y == 0.0),
        (None, None) => true,
        _ => false,
    }
}
fn one(ctx: &mut Ctx, g: &str, t: &[&str]) {
    if !lexes(t) {
        return;
    }
    let s = t.concat();
    ctx.case(g, &[s.as_bytes()], || {
        let want = oracle(t, &[]);
        let got = calc(&s).ok();
        if !same(want, got) {
            return Err(format!("gave {got:?}, its value is {want:?}"));
        }
        Ok(())
    });
}
fn gen(rng: &mut Rng, depth: usize, vars: &[&'static str], out: &mut Vec<&'static str>) {
    const NUM: [&str; 8] = ["0", "1", "2", "3", "10", "0.5", "2.25", "7"];
    const BIN: [&str; 12] = ["+", "-", "*", "/", "%", "^", "<", ">", "<=", ">=", "==", "!="];
    const F: [(&str, usize, usize); 16] = [
        ("max(", 1, 4), ("min(", 1, 4), ("avg(", 1, 4), ("if(", 3, 3), ("pow(", 2, 2), ("atan2(", 2, 2), ("hypot(", 2, 2), ("fma(", 3, 3),
        ("abs(", 1, 1), ("sqrt(", 1, 1), ("floor(", 1, 1), ("ceil(", 1, 1), ("acos(", 1, 1), ("asin(", 1, 1), ("cos(", 1, 1), ("log(", 1, 1),
    ];
    let k = if depth == 0 { rng.below(2) } else { rng.below(12) };
    match k {
        0 | 1 => {
            if !vars.is_empty() && rng.flip() {
                out.push(vars[rng.below(vars.len())]);
            } else if rng.below(10) == 0 {
                out.push(*rng.pick(&["pi", "e", "M_PI", "M_SQRT2"]));
            } else {
                out.push(*rng.pick(&NUM));
            }
        }
        2..=6 => {
            gen(rng, depth - 1, vars, out);
            out.push(*rng.pick(&BIN));
            gen(rng, depth - 1, vars, out);
        }
        7 => {
            out.push(*rng.pick(&["-", "+"]));
            gen(rng, depth - 1, vars, out);
        }
        8 => {
            gen(rng, depth - 1, vars, out);
            out.push("!");
        }
        9 | 10 => {
            out.push("(");
            gen(rng, depth - 1, vars, out);
            out.push(")");
        }
        _ => {
            let f = *rng.pick(&F);
            out.push(f.0);
            let n = rng.range(f.1, f.2);
            for i in 0..n {
                if i > 0 {
                    out.push(",");
                }
                gen(rng, depth - 1, vars, out);
            }
            out.push(")");
        }
    }
}
fn exhaustive(ctx: &mut Ctx, g: &str, toks: &[&str], max: usize) {
    let mut idx: Vec<usize> = vec![];
    for len in 0..=max {
        idx.clear();
        idx.resize(len, 0);
        loop {
            let t: Vec<&str> = idx.iter().map(|i| toks[*i]).collect();
            one(ctx, g, &t);
            let mut k = 0;
            while k < len {
                idx[k] += 1;
                if idx[k] < toks.len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
            if k == len || ctx.full() {
                break;
            }
        }
    }
}
fn with_vars(ctx: &mut Ctx, rng: &mut Rng) {
    for _ in 0..ctx.n(4000, 40000) {
        let mut t = vec![];
        let d = rng.range(1, 4);
        // names that differ in case, in a letter that is not ASCII, or in length
        let (va, vb, vc) = *rng.pick(&[("ab", "x9", "zz"), ("ab", "AB", "Ab"), ("aé", "aè", "aÉ"), ("x_1", "X_1", "x_"), ("maxx", "max_", "Maxx"), ("a", "ab", "abc"), ("xπ", "xπ2", "πx")]);
        gen(rng, d, &[va, "c2", vb, "c1"], &mut t);
        if !lexes(&t) {
            continue;
        }
        let s = t.concat();
        let vals: Vec<f64> = (0..3).map(|_| *rng.pick(&[0.0, 1.0, -1.0, 2.5, -3.0, 100.0])).collect();
        let swapped = rng.flip();
        ctx.case("columns as variables", &[s.as_bytes(), format!("{vals:?}").as_bytes()], || {
            let mut e = Expr::new(&s).map_err(|e| e.to_string())?;
            let cells: Vec<String> = vals.iter().map(|v| v.to_string()).collect();
            let line = cells.join("\t");
            for names in [[va, vb, vc], [vc, va, vb]] {
                let at = |n: &str| vals[names.iter().position(|x| *x == n).unwrap()];
                let vars = [(va, at(va)), (vb, at(vb)), ("c1", vals[0]), ("c2", vals[1])];
                let want = oracle(&t, &vars);
                let got = match e.lookup(&names) {
                    Ok(()) => {
                        let a = e.eval(&mkline(line.as_bytes()));
                        let b = e.eval_line(line.as_bytes(), b'\t');
                        if !same(Some(a), Some(b)) {
                            return Err(format!("eval gave {a}, eval_line {b}"));
                        }
                        Some(a)
                    }
                    Err(_) => None,
                };
                if !same(want, got) {
                    return Err(format!("columns {names:?}, line {line:?}: gave {got:?}, its value is {want:?}"));
                }
                if !swapped {
                    break;
                }
            }
            Ok(())
        });
    }
}
fn sets(ctx: &mut Ctx) {
    let specs: [(&str, fn(&[f64]) -> f64); 6] = [
        ("max([a-c])", |v| v.iter().cloned().fold(f64::MIN, f64::max)),
        ("min([1-3])*2", |v| v.iter().cloned().fold(f64::MAX, f64::min) * 2.0),
        ("avg([b-c])-[a]", |v| (v[1] + v[2]) / 2.0 - v[0]),
        ("[c]-[a]*[b]", |v| v[2] - v[0] * v[1]),
        ("-[c]^2", |v| -(v[2].powf(2.0))),
        ("max([a-c],1)", |v| v.iter().cloned().fold(1.0, f64::max)),
    ];
    for (s, f) in specs {
        ctx.case("column sets in expressions", &[s.as_bytes()], || {
            let mut e = Expr::new(s).map_err(|e| e.to_string())?;
            e.lookup(&["a", "b", "c"]).map_err(|e| e.to_string())?;
            for v in [[1.0, 2.0, 3.0], [-1.0, 5.0, 0.5], [7.0, 7.0, -7.0]] {
                let l = format!("{}\t{}\t{}", v[0], v[1], v[2]);
                let got = e.eval(&mkline(l.as_bytes()));
                if got != f(&v) {
                    return Err(format!("line {l:?} gave {got}, not {}", f(&v)));
                }
            }
            Ok(())
        });
    }
}
fn tools(ctx: &mut Ctx, rng: &mut Rng) {
    let mut cases = vec![];
    for _ in 0..ctx.n(60, 500) {
        let mut t = vec![];
        gen(rng, 3, &["x", "yy"], &mut t);
        if !lexes(&t) {
            continue;
        }
        let s = t.concat();
        if oracle(&t, &[("x", 1.0), ("yy", 1.0)]).is_none() {
            continue;
        }
        let mut file = b" CDX\tx\tyy\n".to_vec();
        let mut want = file.clone();
        for _ in 0..6 {
            let (a, b) = (rng.range(0, 5), rng.range(0, 5));
            let l = format!("{a}\t{b}\n");
            file.extend(l.as_bytes());
            if oracle(&t, &[("x", a as f64), ("yy", b as f64)]).unwrap() != 0.0 {
                want.extend(l.as_bytes());
            }
        }
        cases.push(ToolCase { group: "cdx cgrep expr".into(), files: vec![("in".into(), file)], args: vec!["cgrep".into(), "-p".into(), format!(",expr,{s}"), "in".into()], stdin: vec![], judge: expect(want) });
    }
    // cdx calc: one value per line of every file, empty files in between
    for _ in 0..ctx.n(20, 200) {
        let mut args = vec!["calc".to_string()];
        let (mut files, mut want) = (vec![], vec![]);
        for i in 0..rng.range(1, 4) {
            let mut f = vec![];
            for _ in 0..rng.below(4) {
                let (a, b) = (rng.range(0, 50), rng.range(0, 50));
                f.extend(format!("{a}+{b}*2\n").bytes());
                want.extend(format!("{}\n", a + b * 2).bytes());
            }
            args.push(format!("f{i}"));
            files.push((format!("f{i}"), f));
        }
        cases.push(ToolCase { group: "cdx calc".into(), files, args, stdin: vec![], judge: expect(want) });
    }
    run_tools(ctx, cases);
}
fn functions(ctx: &mut Ctx) {
    for (e, v) in TABLE {
        ctx.case("every function", &[e.as_bytes()], || match calc(e) {
            Ok(x) if (x - v).abs() <= 1e-9 * v.abs().max(1e-3) => Ok(()),
            x => Err(format!("gave {x:?}, its value is {v}")),
        });
    }
    // every factorial, and fractions in between
    for n in 0..=172u32 {
        for (e, x) in [(format!("{n}!"), n as f64), (format!("({n}+0.4)!"), n as f64 + 0.4), (format!("({n}-0.4)!"), n as f64 - 0.4)] {
            ctx.case("every factorial", &[e.as_bytes()], || match calc(&e) {
                Ok(v) if v == fact(x) || v.is_finite() && (v - fact(x)).abs() <= 1e-12 * v => Ok(()),
                v => Err(format!("gave {v:?}, its value is {}", fact(x))),
            });
        }
    }
    // a tiny step, not visible in the comparison above
    for (e, a, up) in [("nextafter(1.5,9)-1.5", 1.5f64, true), ("nextafter(1.5,0)-1.5", 1.5, false), ("nextafter(-2,0)+2", -2.0, true)] {
        ctx.case("every function", &[e.as_bytes()], || {
            let x = calc(e).map_err(|x| x.to_string())?;
            let b = f64::from_bits(if (a > 0.0) == up { a.to_bits() + 1 } else { a.to_bits() - 1 });
            if x == b - a { Ok(()) } else { Err(format!("gave {x}")) }
        });
    }
}
/// values computed elsewhere (Python and SciPy)
const TABLE: &[(&str, f64)] = &[
    ("pi", 3.141592653589793),
    ("e", 2.718281828459045),
    ("M_E", 2.718281828459045),
    ("M_LOG2E", 1.4426950408889634),
    ("M_LOG10E", 0.4342944819032518),
    ("M_LN2", 0.6931471805599453),
    ("M_LN10", 2.302585092994046),
    ("M_PI", 3.141592653589793),
    ("M_PI_2", 1.5707963267948966),
    ("M_PI_4", 0.7853981633974483),
    ("M_1_PI", 0.3183098861837907),
    ("M_2_PI", 0.6366197723675814),
    ("M_2_SQRTPI", 1.1283791670955126),
    ("M_SQRT2", 1.4142135623730951),
    ("M_SQRT1_2", 0.7071067811865476),
    ("log(M_MAX)", 709.782712893384),
    ("0-log(0-M_MIN)", -709.782712893384),
    ("log(M_MIN_POS)", -708.3964185322641),
    ("M_INF>M_MAX", 1.0),
    ("M_NEG_INF<M_MIN", 1.0),
    ("acos(0.25)", 1.318116071652818),
    ("acos(-0.75)", 2.4188584057763776),
    ("acos(0.5)", 1.0471975511965979),
    ("acosh(2.0)", 1.3169578969248166),
    ("acosh(7.25)", 2.669358110903154),
    ("asin(0.25)", 0.25268025514207865),
    ("asin(-0.75)", -0.848062078981481),
    ("asin(0.5)", 0.5235987755982989),
    ("asinh(0.25)", 0.24746646154726346),
    ("asinh(-0.75)", -0.6931471805599453),
    ("asinh(0.5)", 0.48121182505960347),
    ("asinh(2.0)", 1.4436354751788103),
    ("asinh(-3.5)", -1.9657204716496515),
    ("asinh(7.25)", 2.678871313462426),
    ("atan(0.25)", 0.24497866312686414),
    ("atan(-0.75)", -0.6435011087932844),
    ("atan(0.5)", 0.4636476090008061),
    ("atan(2.0)", 1.1071487177940904),
    ("atan(-3.5)", -1.2924966677897853),
    ("atan(7.25)", 1.433730152484709),
    ("atanh(0.25)", 0.25541281188299536),
    ("atanh(-0.75)", -0.9729550745276566),
    ("atanh(0.5)", 0.5493061443340548),
    ("cbrt(0.25)", 0.6299605249474366),
    ("cbrt(-0.75)", -0.9085602964160697),
    ("cbrt(0.5)", 0.7937005259840998),
    ("cbrt(2.0)", 1.2599210498948734),
    ("cbrt(-3.5)", -1.5182944859378316),
    ("cbrt(7.25)", 1.9354383203138983),
    ("ceil(0.25)", 1.0),
    ("ceil(-0.75)", 0.0),
    ("ceil(0.5)", 1.0),
    ("ceil(2.0)", 2.0),
    ("ceil(-3.5)", -3.0),
    ("ceil(7.25)", 8.0),
    ("cos(0.25)", 0.9689124217106447),
    ("cos(-0.75)", 0.7316888688738209),
    ("cos(0.5)", 0.8775825618903728),
    ("cos(2.0)", -0.4161468365471424),
    ("cos(-3.5)", -0.9364566872907963),
    ("cos(7.25)", 0.5679241732886948),
    ("cosh(0.25)", 1.0314130998795732),
    ("cosh(-0.75)", 1.2946832846768448),
    ("cosh(0.5)", 1.1276259652063807),
    ("cosh(2.0)", 3.7621956910836314),
    ("cosh(-3.5)", 16.572824671057315),
    ("cosh(7.25)", 704.0527791895422),
    ("erf(0.25)", 0.2763263901682369),
    ("erf(-0.75)", -0.7111556336535151),
    ("erf(0.5)", 0.5204998778130465),
    ("erf(2.0)", 0.9953222650189527),
    ("erf(-3.5)", -0.9999992569016276),
    ("erf(7.25)", 1.0),
    ("exp(0.25)", 1.2840254166877414),
    ("exp(-0.75)", 0.4723665527410147),
    ("exp(0.5)", 1.6487212707001282),
    ("exp(2.0)", 7.38905609893065),
    ("exp(-3.5)", 0.0301973834223185),
    ("exp(7.25)", 1408.1048482046956),
    ("exp2(0.25)", 1.189207115002721),
    ("exp2(-0.75)", 0.5946035575013605),
    ("exp2(0.5)", 1.4142135623730951),
    ("exp2(2.0)", 4.0),
    ("exp2(-3.5)", 0.08838834764831845),
    ("exp2(7.25)", 152.2185107203483),
    ("exp10(0.25)", 1.7782794100389228),
    ("exp10(-0.75)", 0.1778279410038923),
    ("exp10(0.5)", 3.1622776601683795),
    ("exp10(2.0)", 100.0),
    ("exp10(-3.5)", 0.00031622776601683794),
    ("exp10(7.25)", 17782794.100389227),
    ("expm1(0.25)", 0.2840254166877415),
    ("expm1(-0.75)", -0.5276334472589853),
    ("expm1(0.5)", 0.6487212707001282),
    ("expm1(2.0)", 6.38905609893065),
    ("expm1(-3.5)", -0.9698026165776815),
    ("expm1(7.25)", 1407.1048482046956),
    ("fabs(0.25)", 0.25),
    ("fabs(-0.75)", 0.75),
    ("fabs(0.5)", 0.5),
    ("fabs(2.0)", 2.0),
    ("fabs(-3.5)", 3.5),
    ("fabs(7.25)", 7.25),
    ("floor(0.25)", 0.0),
    ("floor(-0.75)", -1.0),
    ("floor(0.5)", 0.0),
    ("floor(2.0)", 2.0),
    ("floor(-3.5)", -4.0),
    ("floor(7.25)", 7.0),
    ("j0(0.25)", 0.9844359292958528),
    ("j0(-0.75)", 0.8642422751666485),
    ("j0(0.5)", 0.938469807240813),
    ("j0(2.0)", 0.22389077914123562),
    ("j0(-3.5)", -0.38012773998726346),
    ("j0(7.25)", 0.29199692419177903),
    ("j1(0.25)", 0.12402597732272692),
    ("j1(-0.75)", -0.34924360217486217),
    ("j1(0.5)", 0.24226845767487387),
    ("j1(2.0)", 0.5767248077568734),
    ("j1(-3.5)", -0.1373775273623272),
    ("j1(7.25)", 0.0685817006531318),
    ("lgamma(0.25)", 1.2880225246980772),
    ("lgamma(-0.75)", 1.5757045971498589),
    ("lgamma(0.5)", 0.5723649429247004),
    ("lgamma(2.0)", 0.0),
    ("lgamma(-3.5)", -1.3090066849930417),
    ("lgamma(7.25)", 7.0521854507385395),
    ("log(0.25)", -1.3862943611198906),
    ("log(0.5)", -0.6931471805599453),
    ("log(2.0)", 0.6931471805599453),
    ("log(7.25)", 1.9810014688665833),
    ("log1p(0.25)", 0.22314355131420976),
    ("log1p(-0.75)", -1.3862943611198906),
    ("log1p(0.5)", 0.4054651081081644),
    ("log1p(2.0)", 1.0986122886681096),
    ("log1p(7.25)", 2.1102132003465894),
    ("log2(0.25)", -2.0),
    ("log2(0.5)", -1.0),
    ("log2(2.0)", 1.0),
    ("log2(7.25)", 2.8579809951275723),
    ("log10(0.25)", -0.6020599913279624),
    ("log10(0.5)", -0.3010299956639812),
    ("log10(2.0)", 0.3010299956639812),
    ("log10(7.25)", 0.8603380065709937),
    ("round(0.25)", 0.0),
    ("round(-0.75)", -1.0),
    ("round(0.5)", 1.0),
    ("round(2.0)", 2.0),
    ("round(-3.5)", -4.0),
    ("round(7.25)", 7.0),
    ("sin(0.25)", 0.24740395925452294),
    ("sin(-0.75)", -0.6816387600233341),
    ("sin(0.5)", 0.479425538604203),
    ("sin(2.0)", 0.9092974268256817),
    ("sin(-3.5)", 0.35078322768961984),
    ("sin(7.25)", 0.8230808790115055),
    ("sinh(0.25)", 0.2526123168081683),
    ("sinh(-0.75)", -0.82231673193583),
    ("sinh(0.5)", 0.5210953054937474),
    ("sinh(2.0)", 3.626860407847019),
    ("sinh(-3.5)", -16.542627287634996),
    ("sinh(7.25)", 704.0520690151534),
    ("sqrt(0.25)", 0.5),
    ("sqrt(0.5)", 0.7071067811865476),
    ("sqrt(2.0)", 1.4142135623730951),
    ("sqrt(7.25)", 2.692582403567252),
    ("tan(0.25)", 0.25534192122103627),
    ("tan(-0.75)", -0.9315964599440725),
    ("tan(0.5)", 0.5463024898437905),
    ("tan(2.0)", -2.185039863261519),
    ("tan(-3.5)", -0.3745856401585947),
    ("tan(7.25)", 1.4492795301268253),
    ("tanh(0.25)", 0.24491866240370913),
    ("tanh(-0.75)", -0.6351489523872873),
    ("tanh(0.5)", 0.46211715726000974),
    ("tanh(2.0)", 0.9640275800758169),
    ("tanh(-3.5)", -0.9981778976111987),
    ("tanh(7.25)", 0.9999989913051835),
    ("tgamma(0.25)", 3.6256099082219087),
    ("tgamma(-0.75)", -4.834146544295877),
    ("tgamma(0.5)", 1.7724538509055159),
    ("tgamma(2.0)", 1.0),
    ("tgamma(-3.5)", 0.27008820585226917),
    ("tgamma(7.25)", 1155.3810139199893),
    ("trunc(0.25)", 0.0),
    ("trunc(-0.75)", 0.0),
    ("trunc(0.5)", 0.0),
    ("trunc(2.0)", 2.0),
    ("trunc(-3.5)", -3.0),
    ("trunc(7.25)", 7.0),
    ("y0(0.25)", -0.9315730249300588),
    ("y0(0.5)", -0.4445187335067066),
    ("y0(2.0)", 0.5103756726497451),
    ("y0(7.25)", 0.04842252986520284),
    ("y1(0.25)", -2.7041052293152825),
    ("y1(0.5)", -1.4714723926702433),
    ("y1(2.0)", -0.10703243154093756),
    ("y1(7.25)", -0.28934799419758717),
    ("abs(0.25)", 0.25),
    ("abs(-0.75)", 0.75),
    ("abs(0.5)", 0.5),
    ("abs(2.0)", 2.0),
    ("abs(-3.5)", 3.5),
    ("abs(7.25)", 7.25),
    ("atan2(0.5,-1.5)", 2.819842099193151),
    ("atan2(0.5,2.0)", 0.24497866312686414),
    ("atan2(0.5,7.25)", 0.0688564893010446),
    ("atan2(-1.5,0.5)", -1.2490457723982544),
    ("atan2(-1.5,2.0)", -0.6435011087932844),
    ("atan2(-1.5,7.25)", -0.20401797959254858),
    ("atan2(2.0,0.5)", 1.3258176636680326),
    ("atan2(2.0,-1.5)", 2.214297435588181),
    ("atan2(2.0,7.25)", 0.26916749278570046),
    ("atan2(7.25,0.5)", 1.501939837493852),
    ("atan2(7.25,-1.5)", 1.7748143063874453),
    ("atan2(7.25,2.0)", 1.3016288340091962),
    ("copysign(0.5,-1.5)", -0.5),
    ("copysign(0.5,2.0)", 0.5),
    ("copysign(0.5,7.25)", 0.5),
    ("copysign(-1.5,0.5)", 1.5),
    ("copysign(-1.5,2.0)", 1.5),
    ("copysign(-1.5,7.25)", 1.5),
    ("copysign(2.0,0.5)", 2.0),
    ("copysign(2.0,-1.5)", -2.0),
    ("copysign(2.0,7.25)", 2.0),
    ("copysign(7.25,0.5)", 7.25),
    ("copysign(7.25,-1.5)", -7.25),
    ("copysign(7.25,2.0)", 7.25),
    ("fdim(0.5,-1.5)", 2.0),
    ("fdim(0.5,2.0)", 0.0),
    ("fdim(0.5,7.25)", 0.0),
    ("fdim(-1.5,0.5)", 0.0),
    ("fdim(-1.5,2.0)", 0.0),
    ("fdim(-1.5,7.25)", 0.0),
    ("fdim(2.0,0.5)", 1.5),
    ("fdim(2.0,-1.5)", 3.5),
    ("fdim(2.0,7.25)", 0.0),
    ("fdim(7.25,0.5)", 6.75),
    ("fdim(7.25,-1.5)", 8.75),
    ("fdim(7.25,2.0)", 5.25),
    ("fmax(0.5,-1.5)", 0.5),
    ("fmax(0.5,2.0)", 2.0),
    ("fmax(0.5,7.25)", 7.25),
    ("fmax(-1.5,0.5)", 0.5),
    ("fmax(-1.5,2.0)", 2.0),
    ("fmax(-1.5,7.25)", 7.25),
    ("fmax(2.0,0.5)", 2.0),
    ("fmax(2.0,-1.5)", 2.0),
    ("fmax(2.0,7.25)", 7.25),
    ("fmax(7.25,0.5)", 7.25),
    ("fmax(7.25,-1.5)", 7.25),
    ("fmax(7.25,2.0)", 7.25),
    ("fmin(0.5,-1.5)", -1.5),
    ("fmin(0.5,2.0)", 0.5),
    ("fmin(0.5,7.25)", 0.5),
    ("fmin(-1.5,0.5)", -1.5),
    ("fmin(-1.5,2.0)", -1.5),
    ("fmin(-1.5,7.25)", -1.5),
    ("fmin(2.0,0.5)", 0.5),
    ("fmin(2.0,-1.5)", -1.5),
    ("fmin(2.0,7.25)", 2.0),
    ("fmin(7.25,0.5)", 0.5),
    ("fmin(7.25,-1.5)", -1.5),
    ("fmin(7.25,2.0)", 2.0),
    ("fmod(0.5,-1.5)", 0.5),
    ("fmod(0.5,2.0)", 0.5),
    ("fmod(0.5,7.25)", 0.5),
    ("fmod(-1.5,0.5)", -0.0),
    ("fmod(-1.5,2.0)", -1.5),
    ("fmod(-1.5,7.25)", -1.5),
    ("fmod(2.0,0.5)", 0.0),
    ("fmod(2.0,-1.5)", 0.5),
    ("fmod(2.0,7.25)", 2.0),
    ("fmod(7.25,0.5)", 0.25),
    ("fmod(7.25,-1.5)", 1.25),
    ("fmod(7.25,2.0)", 1.25),
    ("hypot(0.5,-1.5)", 1.5811388300841898),
    ("hypot(0.5,2.0)", 2.0615528128088303),
    ("hypot(0.5,7.25)", 7.267220926874317),
    ("hypot(-1.5,0.5)", 1.5811388300841898),
    ("hypot(-1.5,2.0)", 2.5),
    ("hypot(-1.5,7.25)", 7.403546447480424),
    ("hypot(2.0,0.5)", 2.0615528128088303),
    ("hypot(2.0,-1.5)", 2.5),
    ("hypot(2.0,7.25)", 7.520804478245662),
    ("hypot(7.25,0.5)", 7.267220926874317),
    ("hypot(7.25,-1.5)", 7.403546447480424),
    ("hypot(7.25,2.0)", 7.520804478245662),
    ("nextafter(0.5,-1.5)", 0.49999999999999994),
    ("nextafter(0.5,2.0)", 0.5000000000000001),
    ("nextafter(0.5,7.25)", 0.5000000000000001),
    ("nextafter(-1.5,0.5)", -1.4999999999999998),
    ("nextafter(-1.5,2.0)", -1.4999999999999998),
    ("nextafter(-1.5,7.25)", -1.4999999999999998),
    ("nextafter(2.0,0.5)", 1.9999999999999998),
    ("nextafter(2.0,-1.5)", 1.9999999999999998),
    ("nextafter(2.0,7.25)", 2.0000000000000004),
    ("nextafter(7.25,0.5)", 7.249999999999999),
    ("nextafter(7.25,-1.5)", 7.249999999999999),
    ("nextafter(7.25,2.0)", 7.249999999999999),
    ("pow(0.5,-1.5)", 2.8284271247461903),
    ("pow(0.5,2.0)", 0.25),
    ("pow(0.5,7.25)", 0.0065695032441696445),
    ("pow(-1.5,2.0)", 2.25),
    ("pow(2.0,0.5)", 1.4142135623730951),
    ("pow(2.0,-1.5)", 0.3535533905932738),
    ("pow(2.0,7.25)", 152.2185107203483),
    ("pow(7.25,0.5)", 2.692582403567252),
    ("pow(7.25,-1.5)", 0.051226300186772926),
    ("pow(7.25,2.0)", 52.5625),
    ("remainder(0.5,-1.5)", 0.5),
    ("remainder(0.5,2.0)", 0.5),
    ("remainder(0.5,7.25)", 0.5),
    ("remainder(-1.5,0.5)", -0.0),
    ("remainder(-1.5,2.0)", 0.5),
    ("remainder(-1.5,7.25)", -1.5),
    ("remainder(2.0,0.5)", 0.0),
    ("remainder(2.0,-1.5)", 0.5),
    ("remainder(2.0,7.25)", 2.0),
    ("remainder(7.25,0.5)", 0.25),
    ("remainder(7.25,-1.5)", -0.25),
    ("remainder(7.25,2.0)", -0.75),
    ("jn(2,1.5)", 0.23208767214421475),
    ("jn(2,4.0)", 0.3641281458520728),
    ("jn(3,1.5)", 0.06096395114113964),
    ("jn(3,4.0)", 0.43017147387562193),
    ("yn(2,1.5)", -0.932193759762974),
    ("yn(2,4.0)", 0.215903594603615),
    ("yn(3,1.5)", -2.073541399060686),
    ("yn(3,4.0)", -0.1820221159534853),
    ("ldexp(3.0,2)", 12.0),
    ("ldexp(2.0,3)", 16.0),
    ("ldexp(-1.5,-2)", -0.375),
    ("ldexp(5.0,1)", 10.0),
    ("scalbn(3.0,2)", 12.0),
    ("scalbn(2.0,3)", 16.0),
    ("scalbn(-1.5,-2)", -0.375),
    ("scalbn(5.0,1)", 10.0),
    ("fma(2.0,3.0,5.0)", 11.0),
    ("fma(2.0,5.0,3.0)", 13.0),
    ("fma(3.0,2.0,5.0)", 11.0),
    ("fma(3.0,5.0,2.0)", 17.0),
    ("fma(5.0,2.0,3.0)", 13.0),
    ("fma(5.0,3.0,2.0)", 17.0),
];
pub fn run(ctx: &mut Ctx) {
    functions(ctx);
    let mut rng = Rng::new(ctx.seed);
    exhaustive(ctx, "every short token sequence", &["2", "3", "+", "-", "*", "^", "(", ")", "!", "<="], ctx.n(5, 6));
    exhaustive(ctx, "every short token sequence with functions", &["2", "3", "-", "max(", ",", ")", "(", "/", "x"], ctx.n(5, 6));
    exhaustive(ctx, "operator chains", &["2", "-", "^", "!", ")", "(", "=="], ctx.n(6, 7));
    for _ in 0..ctx.n(20000, 300000) {
        let mut t = vec![];
        let d = rng.range(1, 5);
        gen(&mut rng, d, &[], &mut t);
        // sometimes damage it
        if rng.below(4) == 0 && !t.is_empty() {
            let i = rng.below(t.len());
            match rng.below(3) {
                0 => {
                    t.remove(i);
                }
                1 => t.insert(i, *rng.pick(&["(", ")", "+", "*", "2", ",", "max(", "!"])),
                _ => t[i] = *rng.pick(&["(", ")", "-", "/", "3", ",", "min(", "!="]),
            }
        }
        one(ctx, "random expressions", &t);
    }
    with_vars(ctx, &mut rng);
    sets(ctx);
    tools(ctx, &mut rng);
}
