//! Choice-sequence property engine: tapes, cases, workers, shrinking, replay and evidence.
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- PRNG

#[derive(Clone)]
pub struct Rng {
    s: [u64; 2],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        let a = splitmix(&mut x);
        let b = splitmix(&mut x);
        Rng { s: [a | 1, b] }
    }
    /// xoroshiro128+
    pub fn next(&mut self) -> u64 {
        let (s0, mut s1) = (self.s[0], self.s[1]);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.s[0] = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.s[1] = s1.rotate_left(37);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// f64 in [0, 1)
    pub fn f64(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// f32 in [0, 1), 24 bits
    pub fn f32(&mut self) -> f32 {
        (self.next() >> 40) as f32 / (1u64 << 24) as f32
    }
}

pub fn mix(xs: &[u64]) -> u64 {
    let mut h = 0x243F6A8885A308D3u64;
    for &x in xs {
        h ^= x;
        h = splitmix(&mut h.clone()).rotate_left(17) ^ h.wrapping_mul(0x9E3779B97F4A7C15);
    }
    let mut h2 = h;
    splitmix(&mut h2)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

// ---------------------------------------------------------------- tape

/// Source of all random decisions of a case. Smaller drawn values mean simpler cases.
pub struct Src {
    rng: Option<Rng>,
    tape: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), tape: vec![], pos: 0, rec: vec![] }
    }
    pub fn replay(tape: &[u64]) -> Src {
        Src { rng: None, tape: tape.to_vec(), pos: 0, rec: vec![] }
    }
    pub fn from_bytes(data: &[u8]) -> Src {
        let tape = data.chunks(4).map(|c| c.iter().fold(0u64, |a, &b| a << 8 | b as u64)).collect();
        Src { rng: None, tape, pos: 0, rec: vec![] }
    }
    /// A replayed tape that has run out (all further draws are 0).
    pub fn exhausted(&self) -> bool {
        self.rng.is_none() && self.pos >= self.tape.len()
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match self.rng {
            Some(ref mut r) => r.below(n),
            None => {
                let v = self.tape.get(self.pos).cloned().unwrap_or(0);
                self.pos += 1;
                if v < n { v } else { v % n }
            }
        };
        self.rec.push(v);
        v
    }
    pub fn int(&mut self, lo: i64, hi_incl: i64) -> i64 {
        lo + self.below((hi_incl - lo + 1) as u64) as i64
    }
    pub fn usize(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below((hi_incl - lo + 1) as u64) as usize
    }
    /// true with probability p (p in percent); false is simplest
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) >= 100 - p
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// [0, 1)
    pub fn unit(&mut self) -> f64 {
        self.below(1 << 32) as f64 / (1u64 << 32) as f64
    }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 {
        lo + self.unit() * (hi - lo)
    }
    /// log-uniform
    pub fn logrange(&mut self, lo: f64, hi: f64) -> f64 {
        (lo.ln() + self.unit() * (hi.ln() - lo.ln())).exp()
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
    /// weighted choice of index
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let tot: u64 = ws.iter().sum();
        let mut v = self.below(tot);
        for (i, &w) in ws.iter().enumerate() {
            if v < w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    pub fn seed(&mut self) -> u64 {
        self.below(1 << 32)
    }
}

// ---------------------------------------------------------------- cases

pub enum Fail {
    Discard,
    Violation(String),
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => { return Err($crate::engine::Fail::Violation(format!($($arg)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !($cond) { return Err($crate::engine::Fail::Violation(format!($($arg)*))); } };
}
#[macro_export]
macro_rules! discard {
    () => { return Err($crate::engine::Fail::Discard) };
}

#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub want_desc: bool,
    pub desc: String,
    /// number of oracle comparisons made
    pub comparisons: u64,
    pub thorough: bool,
}

impl Ctx {
    pub fn label(&mut self, s: &str) {
        if let Some(x) = self.labels.get_mut(s) {
            *x += 1;
        } else {
            self.labels.insert(s.to_string(), 1);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn cmp(&mut self) {
        self.comparisons += 1;
    }
    pub fn desc<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_desc && self.desc.len() < 300 {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            let s = f();
            self.desc.push_str(&s);
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> R;

#[derive(Clone, Copy)]
pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: &'static [Sub],
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let mut g = match LAST_PANIC.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        };
        if g.is_empty() {
            *g = format!("{} at {}", msg, loc);
        }
    }));
}

pub fn take_panic() -> String {
    let mut g = match LAST_PANIC.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    std::mem::take(&mut *g)
}

/// Result of one case: Ok(true)=pass, Ok(false)=discard, Err=violation.
pub fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> Result<bool, String> {
    take_panic();
    let r = catch_unwind(AssertUnwindSafe(|| f(src, ctx)));
    match r {
        Ok(Ok(())) => Ok(true),
        Ok(Err(Fail::Discard)) => Ok(false),
        Ok(Err(Fail::Violation(m))) => Err(m),
        Err(_) => Err(format!("panic: {}", take_panic())),
    }
}

fn case_seed(seed: u64, prop: &str, sub: &str, idx: u64) -> u64 {
    mix(&[seed, hash_str(prop), hash_str(sub), idx])
}

// ---------------------------------------------------------------- json

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------- worker

const NW: u64 = 8;

fn tier_cases(s: &Sub, thorough: bool) -> u64 {
    let n = if thorough { s.thorough } else { s.quick };
    // PTCHECK_SCALE=percent, for experiments only
    match std::env::var("PTCHECK_SCALE").ok().and_then(|v| v.parse::<u64>().ok()) {
        Some(p) => (n * p / 100).max(8),
        None => n,
    }
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn getrlimit(resource: i32, rlim: *mut [u64; 2]) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
    fn dup2(a: i32, b: i32) -> i32;
}

/// a runaway allocation ends the worker, not the machine
fn limit_memory() {
    let l = [16u64 << 30; 2];
    unsafe {
        setrlimit(9, &l);
    }
}

/// Limits the size of files this process may write; returns the former limit.
pub fn limit_file_size(n: u64) -> u64 {
    unsafe {
        signal(25, 1); // SIGXFSZ ignored: writes fail instead
        let mut l = [0u64; 2];
        getrlimit(1, &mut l);
        let old = l[0];
        l[0] = n.min(l[1]);
        setrlimit(1, &l);
        old
    }
}

/// standard error goes to stderr.txt in the current directory
pub fn stderr_to_file() {
    use std::os::unix::io::IntoRawFd;
    if let Ok(f) = fs::OpenOptions::new().create(true).append(true).open("stderr.txt") {
        unsafe {
            dup2(f.into_raw_fd(), 2);
        }
    }
}

/// Runs the share of worker `w`; writes `result.txt` in the current directory.
pub fn worker(p: &Prop, w: u64, seed: u64, thorough: bool, only: Option<&str>) {
    install_panic_hook();
    limit_memory();
    let cur = fs::File::create("current.txt").unwrap();
    let mut out = String::new();
    let mut hashes: Vec<u8> = Vec::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let (mut evals, mut discards, mut comparisons) = (0u64, 0u64, 0u64);
    let mut seen: HashSet<u64> = HashSet::new();
    for (si, s) in p.subs.iter().enumerate() {
        if let Some(o) = only {
            if o != s.name {
                continue;
            }
        }
        let n = tier_cases(s, thorough);
        let mut idx = w;
        let t0 = Instant::now();
        let mut samples = 0;
        while idx < n {
            {
                use std::os::unix::fs::FileExt;
                let _ = cur.write_at(format!("{:4} {:12}\n", si, idx).as_bytes(), 0);
            }
            let mut src = Src::random(case_seed(seed, p.id, s.name, idx));
            let mut ctx = Ctx { thorough, want_desc: samples < 1, ..Ctx::default() };
            match run_case(s.f, &mut src, &mut ctx) {
                Ok(true) => {
                    evals += 1;
                    *labels.entry(format!("{}/cases", s.name)).or_insert(0) += 1;
                    if ctx.nontrivial {
                        let h = mix(&src.rec) ^ hash_str(s.name);
                        *labels.entry(format!("{}/nontrivial", s.name)).or_insert(0) += 1;
                        if seen.insert(h) {
                            hashes.extend_from_slice(&h.to_le_bytes());
                        }
                        if ctx.want_desc && !ctx.desc.is_empty() {
                            samples += 1;
                            out.push_str(&format!("sample\t{}\n", format!("{}#{}: {}", s.name, idx, ctx.desc).replace(['\n', '\t'], " ")));
                        }
                    }
                }
                Ok(false) => {
                    evals += 1;
                    discards += 1;
                    *labels.entry(format!("{}/discard", s.name)).or_insert(0) += 1;
                }
                Err(m) => {
                    evals += 1;
                    out.push_str(&format!("fail\t{}\t{}\t{}\n", si, idx, m.replace(['\n', '\t'], " ")));
                    comparisons += ctx.comparisons;
                    for (k, v) in ctx.labels {
                        *labels.entry(format!("{}/{}", s.name, k)).or_insert(0) += v;
                    }
                    break;
                }
            }
            comparisons += ctx.comparisons;
            for (k, v) in ctx.labels {
                *labels.entry(format!("{}/{}", s.name, k)).or_insert(0) += v;
            }
            idx += NW;
        }
        out.push_str(&format!("time\t{}\t{:.2}\n", s.name, t0.elapsed().as_secs_f64()));
    }
    out.push_str(&format!("evals\t{}\ndiscards\t{}\ncomparisons\t{}\n", evals, discards, comparisons));
    for (k, v) in labels {
        out.push_str(&format!("label\t{}\t{}\n", k, v));
    }
    fs::write("hashes.bin", hashes).unwrap();
    fs::write("result.txt", out).unwrap();
}

// ---------------------------------------------------------------- shrinking (runs in its own process)

fn fails(f: CaseFn, tape: &[u64], thorough: bool) -> Option<(Vec<u64>, String)> {
    let mut src = Src::replay(tape);
    let mut ctx = Ctx { thorough, ..Ctx::default() };
    match run_case(f, &mut src, &mut ctx) {
        Err(m) => Some((src.rec, m)),
        _ => None,
    }
}

fn lex_less(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

pub fn shrink(f: CaseFn, tape: Vec<u64>, msg: String, thorough: bool, budget: Duration) -> (Vec<u64>, String, u64) {
    let start = Instant::now();
    let mut best = tape;
    let mut bmsg = msg;
    let mut runs = 0u64;
    loop {
        let before = best.clone();
        // delete blocks
        for &bl in &[64usize, 32, 16, 8, 4, 2, 1] {
            let mut i = best.len();
            while i >= bl && start.elapsed() < budget {
                i -= 1;
                if i + bl > best.len() {
                    continue;
                }
                let mut t = best.clone();
                t.drain(i..i + bl);
                runs += 1;
                if let Some((rec, m)) = fails(f, &t, thorough) {
                    if lex_less(&rec, &best) {
                        best = rec;
                        bmsg = m;
                    }
                }
                if i > 4000 {
                    i -= i / 64;
                }
            }
        }
        // zero blocks
        for &bl in &[8usize, 1] {
            let mut i = 0;
            while i < best.len() && start.elapsed() < budget {
                let e = (i + bl).min(best.len());
                if best[i..e].iter().any(|&x| x != 0) {
                    let mut t = best.clone();
                    for x in &mut t[i..e] {
                        *x = 0;
                    }
                    runs += 1;
                    if let Some((rec, m)) = fails(f, &t, thorough) {
                        if lex_less(&rec, &best) {
                            best = rec;
                            bmsg = m;
                        }
                    }
                }
                i += bl;
            }
        }
        // lower values (binary search down)
        let mut i = 0;
        while i < best.len() && start.elapsed() < budget {
            let (mut lo, mut hi) = (0u64, best[i]);
            let mut tries = 0;
            while lo < hi && tries < 12 && start.elapsed() < budget {
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone();
                if i >= t.len() {
                    break;
                }
                t[i] = mid;
                runs += 1;
                tries += 1;
                match fails(f, &t, thorough) {
                    Some((rec, m)) if lex_less(&rec, &best) => {
                        best = rec;
                        bmsg = m;
                        hi = mid;
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if best == before || start.elapsed() >= budget {
            break;
        }
    }
    (best, bmsg, runs)
}

// ---------------------------------------------------------------- parent

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string()))
}

struct Scratch(PathBuf);
impl Scratch {
    fn new(tag: &str) -> Scratch {
        let d = verif_dir().join("work").join(format!("{}-{}", tag, std::process::id()));
        let _ = fs::remove_dir_all(&d);
        fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if std::env::var("PTCHECK_KEEP").is_err() {
            let _ = fs::remove_dir_all(&self.0);
        }
    }
}

fn spawn_self(dir: &Path, args: &[String]) -> std::process::Child {
    fs::create_dir_all(dir).unwrap();
    let err = fs::File::create(dir.join("stderr.txt")).unwrap();
    Command::new(std::env::current_exe().unwrap())
        .args(args)
        .current_dir(dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(err)
        .spawn()
        .unwrap()
}

fn tail(path: &Path, n: usize) -> String {
    let s = fs::read(path).unwrap_or_default();
    let s = String::from_utf8_lossy(&s).to_string();
    let k = s.len().saturating_sub(n);
    let k = (k..=s.len()).find(|&k| s.is_char_boundary(k)).unwrap_or(0);
    s[k..].to_string()
}

fn write_replay(p: &Prop, sub: &str, seed: u64, thorough: bool, idx: u64, msg: &str, tape: &[u64]) -> PathBuf {
    let dir = verif_dir().join("replays");
    fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!("{}-{}-s{}-c{}.txt", p.id, sub, seed, idx));
    let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
    let mut f = fs::File::create(&path).unwrap();
    let _ = writeln!(f, "property {}\nsub {}\nseed {}\ntier {}\ncase {}\nmessage {}\ntape {}", p.id, sub, seed, if thorough { "thorough" } else { "quick" }, idx, msg, t.join(" "));
    path
}

/// Full check of one property. Returns the exit code.
pub fn run_property(p: &Prop, seed: u64, thorough: bool, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let scratch = Scratch::new(p.id);
    let limit = Duration::from_secs(if thorough { 6 * 3600 } else { 780 });
    let mut kids = vec![];
    for w in 0..NW {
        let dir = scratch.0.join(format!("w{}", w));
        let mut args = vec!["worker".to_string(), p.id.to_string(), w.to_string(), seed.to_string(), if thorough { "thorough".into() } else { "quick".into() }];
        if let Some(o) = only {
            args.push(o.to_string());
        }
        kids.push((w, dir.clone(), spawn_self(&dir, &args), None::<std::process::ExitStatus>));
    }
    // a case that makes no progress for this long is taken for hanging, if it does so again on its own
    let stuck_after = Duration::from_secs(150);
    let mut seen: Vec<(String, Instant)> = (0..NW).map(|_| (String::new(), Instant::now())).collect();
    let mut hung = vec![false; NW as usize];
    loop {
        let mut open = 0;
        for k in kids.iter_mut() {
            if k.3.is_none() {
                match k.2.try_wait() {
                    Ok(Some(st)) => k.3 = Some(st),
                    _ => {
                        open += 1;
                        let c = fs::read_to_string(k.1.join("current.txt")).unwrap_or_default();
                        let e = &mut seen[k.0 as usize];
                        if c != e.0 {
                            *e = (c, Instant::now());
                        } else if e.1.elapsed() > stuck_after {
                            let _ = k.2.kill();
                            if let Ok(st) = k.2.wait() {
                                k.3 = Some(st);
                                hung[k.0 as usize] = true;
                            }
                        }
                    }
                }
            }
        }
        if open == 0 {
            break;
        }
        if t0.elapsed() > limit {
            for k in kids.iter_mut() {
                let _ = k.2.kill();
                let _ = k.2.wait();
            }
            println!("ERROR property={} watchdog: workers did not finish within {:?} (case {})", p.id, limit, tail(&kids[0].1.join("current.txt"), 40));
            return 2;
        }
        std::thread::sleep(Duration::from_millis(20));
    }

    let (mut evals, mut discards, mut comparisons) = (0u64, 0u64, 0u64);
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut fails_: Vec<(usize, u64, String)> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut times: BTreeMap<String, f64> = BTreeMap::new();
    let mut errors = vec![];
    let mut hangs = 0;
    for (w, dir, _, st) in &kids {
        let st = st.unwrap();
        let res = fs::read_to_string(dir.join("result.txt"));
        if !st.success() || res.is_err() {
            use std::os::unix::process::ExitStatusExt;
            let cur = fs::read_to_string(dir.join("current.txt")).unwrap_or_default();
            let mut it = cur.split_whitespace();
            let si = it.next().and_then(|x| x.parse::<usize>().ok());
            let idx = it.next().and_then(|x| x.parse::<u64>().ok());
            let sig = st.signal();
            if let (true, Some(si), Some(idx)) = (hung[*w as usize], si, idx) {
                hangs += 1;
                if hangs > 2 || fails_.iter().any(|f| f.2.starts_with("the process was ended")) {
                    continue;
                }
                let d2 = scratch.0.join(format!("re{}", w));
                let args = vec!["one".to_string(), p.id.to_string(), si.to_string(), seed.to_string(), idx.to_string(), if thorough { "thorough".into() } else { "quick".to_string() }];
                let mut c = spawn_self(&d2, &args);
                let t1 = Instant::now();
                let mut ended = false;
                while t1.elapsed() < stuck_after && !ended {
                    ended = matches!(c.try_wait(), Ok(Some(_)));
                    std::thread::sleep(Duration::from_millis(20));
                }
                let _ = c.kill();
                let _ = c.wait();
                if !ended {
                    fails_.push((si, idx, format!("the process was ended: this case does not terminate within {:?}", stuck_after)));
                    continue;
                }
            }
            if let (Some(sig), Some(si), Some(idx)) = (sig, si, idx) {
                if sig != 9 && sig != 15 {
                    // does that very case crash again?
                    let d2 = scratch.0.join(format!("re{}", w));
                    let args = vec!["one".to_string(), p.id.to_string(), si.to_string(), seed.to_string(), idx.to_string(), if thorough { "thorough".into() } else { "quick".to_string() }];
                    let mut c = spawn_self(&d2, &args);
                    let t1 = Instant::now();
                    let mut again = None;
                    while t1.elapsed() < Duration::from_secs(120) {
                        if let Ok(Some(s)) = c.try_wait() {
                            again = s.signal();
                            break;
                        }
                        std::thread::sleep(Duration::from_millis(20));
                    }
                    let _ = c.kill();
                    let _ = c.wait();
                    if again == Some(sig) {
                        fails_.push((si, idx, format!("the process was ended by signal {} ({})", sig, tail(&d2.join("stderr.txt"), 300).replace('\n', " "))));
                        continue;
                    }
                }
            }
            errors.push(format!("worker {} ended abnormally: {:?} at {}; {}", w, st, cur.trim(), tail(&dir.join("stderr.txt"), 500)));
            continue;
        }
        for l in res.unwrap().lines() {
            let v: Vec<&str> = l.split('\t').collect();
            match v[0] {
                "evals" => evals += v[1].parse::<u64>().unwrap(),
                "discards" => discards += v[1].parse::<u64>().unwrap(),
                "comparisons" => comparisons += v[1].parse::<u64>().unwrap(),
                "label" => *labels.entry(v[1].to_string()).or_insert(0) += v[2].parse::<u64>().unwrap(),
                "sample" => {
                    if samples.len() < 12 {
                        samples.push(v[1].to_string())
                    }
                }
                "time" => *times.entry(v[1].to_string()).or_insert(0.) += v[2].parse::<f64>().unwrap(),
                "fail" => fails_.push((v[1].parse().unwrap(), v[2].parse().unwrap(), v[3..].join(" "))),
                _ => {}
            }
        }
        let hb = fs::read(dir.join("hashes.bin")).unwrap_or_default();
        for c in hb.chunks_exact(8) {
            hashes.insert(u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]));
        }
    }
    fails_.sort();

    let mut code = 0;
    let mut vio = 0;
    if let Some((si, idx, msg)) = fails_.first().cloned() {
        vio = fails_.len() as i64;
        code = 1;
        let s = &p.subs[si];
        // shrink in a child process
        let d = scratch.0.join("shrink");
        let args = vec!["shrink".to_string(), p.id.to_string(), si.to_string(), seed.to_string(), idx.to_string(), if thorough { "thorough".into() } else { "quick".to_string() }];
        let mut tape_msg = None;
        if !msg.starts_with("the process was ended") {
            let mut c = spawn_self(&d, &args);
            let t1 = Instant::now();
            while t1.elapsed() < Duration::from_secs(120) {
                if let Ok(Some(_)) = c.try_wait() {
                    break;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            let _ = c.kill();
            let _ = c.wait();
            if let Ok(r) = fs::read_to_string(d.join("shrunk.txt")) {
                let mut ls = r.lines();
                let m = ls.next().unwrap_or("").to_string();
                let t: Vec<u64> = ls.next().unwrap_or("").split_whitespace().filter_map(|x| x.parse().ok()).collect();
                tape_msg = Some((t, m));
            }
        }
        let (tape, m2) = match tape_msg {
            Some(x) => x,
            None => {
                // fall back to the unshrunk tape
                let seedx = case_seed(seed, p.id, s.name, idx);
                (vec![u64::MAX, seedx], msg.clone())
            }
        };
        let path = write_replay(p, s.name, seed, thorough, idx, &m2, &tape);
        println!("check {} / {} case {}: {}", p.id, s.name, idx, msg);
        println!("shrunk: {}", m2);
        println!("VIOLATION property={} replay={}", p.id, path.display());
    } else if !errors.is_empty() {
        code = 2;
    }
    for e in &errors {
        println!("ERROR property={} {}", p.id, e);
    }

    // known findings
    if let Ok(kf) = fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for l in kf.lines() {
            if let Some(rest) = l.strip_prefix("finding: ") {
                if rest.starts_with(&format!("property={} ", p.id)) {
                    println!("KNOWN-FINDING: {}", rest);
                }
            }
        }
    }

    // evidence
    let mut ev = String::from("{\n");
    ev.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", jstr(p.id), jstr(if thorough { "thorough" } else { "quick" }), seed));
    ev.push_str(" \"coverage\": {\n");
    ev.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"discarded\": {},\n  \"oracle_comparisons\": {},\n  \"rule\": {},\n", evals, hashes.len(), discards, comparisons, jstr(p.rule)));
    let sv: Vec<String> = samples.iter().map(|s| jstr(s)).collect();
    ev.push_str(&format!("  \"samples\": [{}],\n", sv.join(", ")));
    let lv: Vec<String> = labels.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    ev.push_str(&format!("  \"labels\": {{{}}},\n", lv.join(", ")));
    let tv: Vec<String> = times.iter().map(|(k, v)| format!("{}: {:.1}", jstr(k), v)).collect();
    ev.push_str(&format!("  \"worker_seconds\": {{{}}}\n }},\n", tv.join(", ")));
    let av: Vec<String> = p.assumptions.iter().map(|s| jstr(s)).collect();
    ev.push_str(&format!(" \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", av.join(", "), t0.elapsed().as_secs_f64(), vio));
    if only.is_none() {
        let edir = verif_dir().join("evidence");
        let _ = fs::create_dir_all(&edir);
        let _ = fs::write(edir.join(format!("{}.json", p.id)), &ev);
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {} discarded, {} comparisons, {:.1}s{}",
        p.id,
        evals,
        hashes.len(),
        discards,
        comparisons,
        t0.elapsed().as_secs_f64(),
        if code == 0 { ", held" } else { "" }
    );
    if std::env::var("PTCHECK_VERBOSE").is_ok() {
        for (k, v) in &labels {
            println!("  {:50} {}", k, v);
        }
        for (k, v) in &times {
            println!("  time {:45} {:.1}", k, v);
        }
        for f in &fails_ {
            println!("  fail {} case {}: {}", p.subs[f.0].name, f.1, f.2);
        }
    }
    code
}

fn tape_of(p: &Prop, si: usize, seed: u64, idx: u64, thorough: bool) -> (Vec<u64>, Option<String>) {
    let s = &p.subs[si];
    let mut src = Src::random(case_seed(seed, p.id, s.name, idx));
    let mut ctx = Ctx { thorough, ..Ctx::default() };
    let r = run_case(s.f, &mut src, &mut ctx);
    (src.rec, r.err())
}

pub fn one(p: &Prop, si: usize, seed: u64, idx: u64, thorough: bool) {
    install_panic_hook();
    let (_, m) = tape_of(p, si, seed, idx, thorough);
    if let Some(m) = m {
        println!("{}", m);
    }
}

pub fn shrink_main(p: &Prop, si: usize, seed: u64, idx: u64, thorough: bool) {
    install_panic_hook();
    let (tape, m) = tape_of(p, si, seed, idx, thorough);
    let m = match m {
        Some(m) => m,
        None => {
            return;
        }
    };
    let save = |t: &[u64], m: &str| {
        let v: Vec<String> = t.iter().map(|x| x.to_string()).collect();
        fs::write("shrunk.tmp", format!("{}\n{}\n", m.replace('\n', " "), v.join(" "))).unwrap();
        fs::rename("shrunk.tmp", "shrunk.txt").unwrap();
    };
    save(&tape, &m);
    // only accept if it replays from its tape
    if fails(p.subs[si].f, &tape, thorough).is_none() {
        return;
    }
    let secs = std::env::var("PTCHECK_SHRINK_S").ok().and_then(|v| v.parse().ok()).unwrap_or(40);
    let (t, m, _) = shrink(p.subs[si].f, tape, m, thorough, Duration::from_secs(secs));
    save(&t, &m);
}

/// Replays a file: prints what happens, exit code 1 if it still fails.
pub fn replay_main(props: &[&Prop], file: &str) -> i32 {
    install_panic_hook();
    let txt = fs::read_to_string(file).expect("cannot read replay file");
    let (mut id, mut sub, mut tape, mut thorough) = (String::new(), String::new(), vec![], false);
    for l in txt.lines() {
        if let Some(x) = l.strip_prefix("property ") {
            id = x.to_string();
        } else if let Some(x) = l.strip_prefix("sub ") {
            sub = x.to_string();
        } else if let Some(x) = l.strip_prefix("tier ") {
            thorough = x == "thorough";
        } else if let Some(x) = l.strip_prefix("tape ") {
            tape = x.split_whitespace().filter_map(|v| v.parse().ok()).collect();
        }
    }
    let p = props.iter().find(|p| p.id == id).expect("unknown property");
    let s = p.subs.iter().find(|s| s.name == sub).expect("unknown sub-check");
    let scratch = Scratch::new("replay");
    std::env::set_current_dir(&scratch.0).unwrap();
    stderr_to_file();
    let mut src = if tape.len() == 2 && tape[0] == u64::MAX { Src::random(tape[1]) } else { Src::replay(&tape) };
    let mut ctx = Ctx { thorough, want_desc: true, ..Ctx::default() };
    let r = run_case(s.f, &mut src, &mut ctx);
    println!("{} / {}: {}", id, sub, ctx.desc);
    match r {
        Err(m) => {
            println!("{}", m);
            println!("VIOLATION property={} replay={}", id, file);
            1
        }
        Ok(_) => {
            println!("property held on this case");
            0
        }
    }
}
