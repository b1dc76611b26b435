//! Shared machinery of the bounded stand-ins and of the counterexample search.
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering as AO};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Fail {
    pub group: String,
    pub input: String,
    pub detail: String,
}

static CURRENT: Mutex<(u64, String, Vec<Vec<u8>>)> = Mutex::new((0, String::new(), Vec::new()));
static TICK: AtomicU64 = AtomicU64::new(0);

pub struct Ctx {
    pub thorough: bool,
    pub seed: u64,
    pub bin: PathBuf,
    pub dir: PathBuf,
    pub out: PathBuf,
    pub property: String,
    pub fails: Vec<Fail>,
    pub groups: BTreeMap<String, u64>,
    pub max_fails: usize,
    pub known: Vec<String>,
    pub known_hit: BTreeMap<String, u64>,
    pub start: Instant,
}

pub fn esc(x: &[u8]) -> String {
    let mut s = String::from("b\"");
    for &c in x {
        for e in std::ascii::escape_default(c) {
            s.push(e as char);
        }
    }
    s.push('"');
    s
}
pub fn escs(parts: &[&[u8]]) -> String {
    parts.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", ")
}

impl Ctx {
    pub fn full(&self) -> bool {
        self.fails.len() >= self.max_fails
    }
    pub fn secs(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    /// scale an iteration count by tier
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// Run one case against the real code. A panic or an Err is a failure of the property.
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, group: &str, input: &[&[u8]], f: F) {
        if self.full() {
            return;
        }
        match self.groups.get_mut(group) {
            Some(x) => *x += 1,
            None => {
                self.groups.insert(group.to_string(), 1);
            }
        }
        {
            let mut c = CURRENT.lock().unwrap();
            c.0 = TICK.fetch_add(1, AO::Relaxed) + 1;
            c.1.clear();
            c.1.push_str(group);
            c.2.clear();
            for x in input {
                c.2.push(x.to_vec());
            }
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        {
            CURRENT.lock().unwrap().0 = 0;
        }
        let msg = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => {
                let m = if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else if let Some(s) = p.downcast_ref::<&str>() {
                    (*s).to_string()
                } else {
                    "?".to_string()
                };
                format!("panic: {m}")
            }
        };
        self.fail(group, escs(input), msg);
    }
    pub fn count(&mut self, group: &str, n: u64) {
        *self.groups.entry(group.to_string()).or_insert(0) += n;
    }
    pub fn fail(&mut self, group: &str, input: String, detail: String) {
        let key = format!("{group} | {input}");
        for k in &self.known {
            if key == *k {
                *self.known_hit.entry(k.clone()).or_insert(0) += 1;
                return;
            }
        }
        if self.fails.len() < self.max_fails {
            self.fails.push(Fail { group: group.to_string(), input, detail });
        }
    }
    pub fn write_report(&self, extra: Option<(String, String, String)>) {
        let mut s = String::from("{\n");
        s.push_str(&format!(" \"property\": {},\n", js(&self.property)));
        s.push_str(&format!(" \"seed\": {},\n \"wall_s\": {:.2},\n", self.seed, self.secs()));
        let g: Vec<String> =
            self.groups.iter().map(|(k, v)| format!("  {}: {}", js(k), v)).collect();
        s.push_str(&format!(" \"cases\": {{\n{}\n }},\n", g.join(",\n")));
        let mut f: Vec<String> = self
            .fails
            .iter()
            .map(|x| {
                format!(
                    "  {{\"group\": {}, \"input\": {}, \"detail\": {}}}",
                    js(&x.group),
                    js(&x.input),
                    js(&x.detail)
                )
            })
            .collect();
        if let Some((a, b, c)) = extra {
            f.push(format!(
                "  {{\"group\": {}, \"input\": {}, \"detail\": {}}}",
                js(&a),
                js(&b),
                js(&c)
            ));
        }
        let k: Vec<String> =
            self.known_hit.iter().map(|(k, v)| format!("  {}: {}", js(k), v)).collect();
        s.push_str(&format!(" \"known_hit\": {{\n{}\n }},\n", k.join(",\n")));
        s.push_str(&format!(" \"failures\": [\n{}\n ]\n}}\n", f.join(",\n")));
        std::fs::write(&self.out, s).unwrap();
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// if one library case runs for more than `limit` seconds, report it as a hang and stop
pub fn watchdog(out: PathBuf, property: String, limit: u64) {
    std::thread::spawn(move || {
        let mut last = (0u64, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = CURRENT.lock().unwrap();
            if c.0 == 0 || c.0 != last.0 {
                last = (c.0, Instant::now());
                continue;
            }
            if last.1.elapsed().as_secs() >= limit {
                let parts: Vec<&[u8]> = c.2.iter().map(|x| &x[..]).collect();
                let s = format!(
                    "{{\n \"property\": {},\n \"cases\": {{}},\n \"known_hit\": {{}},\n \"failures\": [\n  {{\"group\": {}, \"input\": {}, \"detail\": \"does not terminate (no result within {} s)\"}}\n ]\n}}\n",
                    js(&property), js(&c.1), js(&escs(&parts)), limit
                );
                std::fs::write(&out, s).unwrap();
                std::process::exit(3);
            }
        }
    });
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn flip(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn bytes(&mut self, alpha: &[u8], max: usize) -> Vec<u8> {
        let n = self.below(max + 1);
        (0..n).map(|_| *self.pick(alpha)).collect()
    }
}

/// all strings over alpha of length <= max
pub fn all_strings(alpha: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut res: Vec<Vec<u8>> = vec![vec![]];
    let mut lo = 0;
    for _ in 0..max {
        let hi = res.len();
        for i in lo..hi {
            for &c in alpha {
                let mut x = res[i].clone();
                x.push(c);
                res.push(x);
            }
        }
        lo = hi;
    }
    res
}

pub struct Out {
    /// where the tool ran
    pub dir: std::path::PathBuf,
    pub code: i32,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}

/// Run the real cdx binary with a time limit; cwd is a scratch directory.
pub fn run_bin(bin: &std::path::Path, dir: &std::path::Path, args: &[&str], stdin: &[u8]) -> Result<Out, String> {
    let mut child = Command::new(bin)
        .args(args)
        .current_dir(dir)
        .env("RUST_BACKTRACE", "0")
        .env("TMPDIR", dir)
        .env("HOME", dir)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("spawn: {e}"))?;
    let mut si = child.stdin.take().unwrap();
    let data = stdin.to_vec();
    let t0 = std::thread::spawn(move || {
        let _ = si.write_all(&data);
    });
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = std::io::Read::read_to_end(&mut so, &mut v);
        v
    });
    let t2 = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = std::io::Read::read_to_end(&mut se, &mut v);
        v
    });
    let t = Instant::now();
    let st = loop {
        if let Some(s) = child.try_wait().map_err(|e| e.to_string())? {
            break s;
        }
        if t.elapsed().as_secs() > 20 {
            let _ = child.kill();
            let _ = child.wait();
            return Err("does not terminate (20 s)".to_string());
        }
        std::thread::sleep(Duration::from_millis(1));
    };
    let _ = t0.join();
    let out = t1.join().unwrap();
    let err = t2.join().unwrap();
    let code = st.code().unwrap_or(-1);
    if code == 101 {
        return Err(format!("cdx panicked: {}", String::from_utf8_lossy(&err).lines().take(3).collect::<Vec<_>>().join(" / ")));
    }
    Ok(Out { dir: dir.to_path_buf(), code, out, err })
}

/// One whole-tool case: files to create, arguments, and what must come out.
pub struct ToolCase {
    pub group: String,
    pub files: Vec<(String, Vec<u8>)>,
    pub args: Vec<String>,
    pub stdin: Vec<u8>,
    /// judge the output: Err(description) when the property is broken
    pub judge: Box<dyn Fn(&Out) -> Result<(), String> + Send + Sync>,
}
impl ToolCase {
    pub fn desc(&self) -> String {
        let mut s = format!("cdx {}", self.args.join(" "));
        for (n, d) in &self.files {
            s.push_str(&format!("; {}={}", n, esc(d)));
        }
        if !self.stdin.is_empty() {
            s.push_str(&format!("; stdin={}", esc(&self.stdin)));
        }
        s
    }
}

pub fn expect(want: Vec<u8>) -> Box<dyn Fn(&Out) -> Result<(), String> + Send + Sync> {
    Box::new(move |o| {
        if o.code != 0 {
            return Err(format!("exit {} : {}; expected {}", o.code, String::from_utf8_lossy(&o.err), esc(&want)));
        }
        if o.out != want {
            return Err(format!("got {} expected {}", esc(&o.out), esc(&want)));
        }
        Ok(())
    })
}

/// run tool cases on all cores
pub fn run_tools(ctx: &mut Ctx, cases: Vec<ToolCase>) {
    if ctx.full() {
        return;
    }
    let next = AtomicU64::new(0);
    let bad: Mutex<Vec<(String, String, String)>> = Mutex::new(Vec::new());
    let (bin, dir) = (ctx.bin.clone(), ctx.dir.clone());
    std::thread::scope(|s| {
        for w in 0..8 {
            let d = dir.join(format!("w{w}"));
            let (next, bad, cases, bin) = (&next, &bad, &cases, &bin);
            s.spawn(move || {
                loop {
                    let i = next.fetch_add(1, AO::Relaxed) as usize;
                    if i >= cases.len() || bad.lock().unwrap().len() >= 20 {
                        break;
                    }
                    let c = &cases[i];
                    let _ = std::fs::remove_dir_all(&d);
                    std::fs::create_dir_all(&d).unwrap();
                    for (n, x) in &c.files {
                        std::fs::create_dir_all(d.join(n).parent().unwrap()).unwrap();
                        std::fs::write(d.join(n), x).unwrap();
                    }
                    let args: Vec<&str> = c.args.iter().map(|x| &x[..]).collect();
                    let r = run_bin(bin, &d, &args, &c.stdin).and_then(|o| (c.judge)(&o));
                    if let Err(e) = r {
                        bad.lock().unwrap().push((c.group.clone(), c.desc(), e));
                    }
                }
            });
        }
    });
    for c in &cases {
        ctx.count(&c.group, 1);
    }
    for (a, b, c) in bad.into_inner().unwrap() {
        ctx.fail(&a, b, c);
    }
}

/// a TextLine holding this text (without newline), split on tabs
pub fn mkline(text: &[u8]) -> cdx::prelude::TextLine {
    let mut t = cdx::prelude::TextLine::new();
    t.raw().extend_from_slice(text);
    t.raw().push(b'\n');
    t.split(&cdx::prelude::TextFileMode::default());
    t
}
/// join with a separator
pub fn join(parts: &[&[u8]], sep: u8) -> Vec<u8> {
    let mut v = Vec::new();
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            v.push(sep);
        }
        v.extend_from_slice(p);
    }
    v
}
pub fn cols(line: &[u8]) -> Vec<&[u8]> {
    line.split(|c| *c == b'\t').collect()
}
pub fn col(line: &[u8], n: usize) -> &[u8] {
    cols(line).get(n).copied().unwrap_or(b"")
}
/// the lines of an output that must end in a newline
pub fn out_lines(d: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    let mut v: Vec<Vec<u8>> = d.split(|c| *c == b'\n').map(|x| x.to_vec()).collect();
    if v.pop() != Some(vec![]) {
        return Err(format!("output does not end in a newline: {}", esc(d)));
    }
    Ok(v)
}
pub fn strs(x: &[&str]) -> Vec<String> {
    x.iter().map(|s| s.to_string()).collect()
}
pub type R = std::result::Result<(), String>;
