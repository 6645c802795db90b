//! Shared monitor plumbing: seeded randomness, verdicts, evidence, panic capture, watchdogs.
//!
//! Verdicts are three-valued: violated (exit 1, with a `VIOLATION` line and a replay file), held on what was observed
//! (exit 0), inconclusive / harness error (exit 2).

use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::AssertUnwindSafe;
use std::path::PathBuf;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

pub use serde_json::{json, Value};

pub fn parse_json(s: &str) -> Result<Value, String> {
    serde_json::from_str(s).map_err(|e| e.to_string())
}

// ---------------------------------------------------------------- randomness

/// xoshiro256** seeded by splitmix64.
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed ^ 0xA5A5_5A5A_DEAD_BEEF;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    /// A stream that depends on the seed and on `n` only.
    pub fn fork(seed: u64, n: u64) -> Self {
        let mut x = seed.wrapping_mul(0x2545F4914F6CDD1D) ^ n.wrapping_mul(0x9E3779B97F4A7C15);
        let a = splitmix(&mut x);
        Rng::new(a)
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// In `0..n`; 0 when n is 0.
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn one(&mut self, xs: &[&'static str]) -> &'static str {
        xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    /// Text with a hostile mix of ASCII, control, multi-byte and astral characters.
    pub fn text(&mut self, max: usize) -> String {
        let n = self.below(max + 1);
        (0..n).map(|_| self.ch()).collect()
    }
    pub fn ch(&mut self) -> char {
        match self.below(12) {
            0..=4 => (b'a' + self.below(26) as u8) as char,
            5 => *self.pick(&['\r', '\n', '\t', ' ', '\0', '\u{7f}', '\u{1}']),
            6 => *self.pick(&['"', '\\', '{', '}', ':', ',', '[', ']', '/', '=', '#']),
            7 => *self.pick(&['é', 'ß', 'Ω', 'ж', '\u{a0}', '\u{ff}']),
            8 => *self.pick(&['中', '文', '：', '\u{2028}', '\u{feff}', '\u{fffd}', '\u{200b}']),
            9 => *self.pick(&['😀', '𝒳', '👩', '\u{10ffff}', '\u{1d400}']),
            _ => (b'0' + self.below(10) as u8) as char,
        }
    }
    /// An arbitrary JSON value without floats that do not survive printing.
    pub fn json(&mut self, depth: usize) -> Value {
        match self.below(if depth == 0 { 6 } else { 9 }) {
            0 => Value::Null,
            1 => Value::Bool(self.chance(1, 2)),
            2 => json!(self.u64() as i64),
            3 => json!(self.below(1000) as i64 - 500),
            4 | 5 => Value::String(self.text(24)),
            6 | 7 => {
                let n = self.below(4);
                Value::Array((0..n).map(|_| self.json(depth - 1)).collect())
            }
            _ => {
                let n = self.below(4);
                let mut m = serde_json::Map::new();
                for _ in 0..n {
                    let k = self.text(8);
                    m.insert(k, self.json(depth - 1));
                }
                Value::Object(m)
            }
        }
    }
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a via a Hasher: stable between runs.
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut f = F(0xcbf29ce484222325);
    t.hash(&mut f);
    f.finish()
}

// ---------------------------------------------------------------- panics

#[derive(Clone, Debug)]
pub struct PanicRec {
    pub thread: String,
    pub file: String,
    pub line: u32,
    pub msg: String,
}

impl PanicRec {
    /// The panic was raised by the harness itself.
    pub fn is_harness(&self) -> bool {
        self.file.starts_with("vm-") || self.file.contains("/harness/vm-")
    }
    pub fn is_expected(&self) -> bool {
        self.msg.contains("vm-expected-panic")
    }
}

fn panics() -> &'static Mutex<Vec<PanicRec>> {
    static P: OnceLock<Mutex<Vec<PanicRec>>> = OnceLock::new();
    P.get_or_init(|| Mutex::new(Vec::new()))
}

fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

/// Installs a hook which records every panic of every thread.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<opaque>".to_string()
        };
        let (file, line) = info
            .location()
            .map(|l| (l.file().to_string(), l.line()))
            .unwrap_or_default();
        let rec = PanicRec {
            thread: std::thread::current().name().unwrap_or("?").to_string(),
            file,
            line,
            msg,
        };
        if std::env::var_os("VM_DEBUG").is_some() || rec.thread == "main" {
            eprintln!("[panic] {rec:?}");
        }
        lock(panics()).push(rec);
    }));
}

pub fn take_panics() -> Vec<PanicRec> {
    std::mem::take(&mut *lock(panics()))
}

pub fn panic_count() -> usize {
    lock(panics()).len()
}

/// Runs `f`, turning a panic into the recorded panic (and removing it from the global list).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, PanicRec> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let me = std::thread::current().name().unwrap_or("?").to_string();
            let mut ps = lock(panics());
            let i = ps.iter().rposition(|p| p.thread == me);
            Err(match i {
                Some(i) => ps.remove(i),
                None => PanicRec { thread: me, file: "?".into(), line: 0, msg: "unknown".into() },
            })
        }
    }
}

/// Outcome of a watched run.
pub enum Watched<T> {
    Done(T),
    Panicked(PanicRec),
    /// No completion within the limit (the thread is leaked).
    Hung,
}

/// Runs `f` on a named thread under a generous wall-clock watchdog.
pub fn watched<T: Send + 'static>(limit: Duration, f: impl FnOnce() -> T + Send + 'static) -> Watched<T> {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let (tx, rx) = std::sync::mpsc::channel();
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    std::thread::Builder::new()
        .name(format!("watched-{n}"))
        .spawn(move || {
            let r = guard(f);
            let _ = tx.send(r);
        })
        .expect("spawn");
    match rx.recv_timeout(limit) {
        Ok(Ok(v)) => Watched::Done(v),
        Ok(Err(p)) => Watched::Panicked(p),
        Err(_) => Watched::Hung,
    }
}

// ---------------------------------------------------------------- context

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable signature of what failed (used to match known findings).
    pub sig: String,
    pub detail: Value,
}

/// Bumped by every observation and by every finished case; names the cases that are under way.
#[derive(Default)]
struct Progress {
    ticks: std::sync::atomic::AtomicU64,
    running: Mutex<BTreeMap<String, String>>,
}

fn progress() -> &'static Progress {
    static P: OnceLock<Progress> = OnceLock::new();
    P.get_or_init(Progress::default)
}

pub fn tick() {
    progress().ticks.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}

/// Ends the process with a violation when nothing has been observed for a long time: the code under observation hangs.
fn stall_watch(prop: String, root: PathBuf, limit: Duration) {
    std::thread::Builder::new()
        .name("stall-watch".into())
        .spawn(move || {
            let (mut last, mut since) = (0, Instant::now());
            loop {
                std::thread::sleep(Duration::from_secs(1));
                let now = progress().ticks.load(std::sync::atomic::Ordering::Relaxed);
                if now != last {
                    (last, since) = (now, Instant::now());
                } else if since.elapsed() > limit {
                    let running = lock(&progress().running).clone();
                    let part = std::env::var("VM_PART").unwrap_or_default();
                    let path = root.join("evidence").join(format!("{prop}.{part}.stalled.json"));
                    let body = json!({"property": prop, "signature": "stalled", "no_progress_for_s": limit.as_secs(), "under way": running,
                        "seed": std::env::var("VERIF_SEED").unwrap_or_default()});
                    let _ = std::fs::write(&path, body.to_string());
                    println!("VIOLATION property={prop} replay={}", path.display());
                    println!("  stalled: nothing happened for {}s; under way: {running:?}", limit.as_secs());
                    std::process::exit(1);
                }
            }
        })
        .expect("spawn");
}

struct Inner {
    evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    counters: BTreeMap<String, u64>,
    violations: Vec<Violation>,
    inconclusive: Vec<String>,
}

/// How much larger the workload is than the least that makes sense.
fn scale() -> usize {
    std::env::var("VM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

/// The verdict and evidence collector of one check run. Cheap to clone, thread-safe.
#[derive(Clone)]
pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub start: Instant,
    pub deadline: Instant,
    pub root: PathBuf,
    pub args: Vec<String>,
    inner: Arc<Mutex<Inner>>,
}

impl Ctx {
    pub fn from_env(prop: &str, args: Vec<String>) -> Ctx {
        install_panic_hook();
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
        let start = Instant::now();
        let budget = match std::env::var("VM_BUDGET_S").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(s) => Duration::from_secs_f64(s),
            None if tier == Tier::Quick => Duration::from_secs(30),
            None => Duration::from_secs(900),
        };
        stall_watch(prop.to_string(), root.clone(), Duration::from_secs(150));
        Ctx {
            prop: prop.to_string(),
            tier,
            seed,
            start,
            deadline: start + budget,
            root,
            args,
            inner: Arc::new(Mutex::new(Inner {
                evaluations: 0,
                distinct: HashSet::new(),
                samples: vec![],
                counters: BTreeMap::new(),
                violations: vec![],
                inconclusive: vec![],
            })),
        }
    }

    pub fn rng(&self, stream: u64) -> Rng {
        Rng::fork(self.seed, stream.wrapping_add(h64(&self.prop)))
    }
    /// Quick or thorough bound.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.tier == Tier::Quick {
            quick * scale()
        } else {
            thorough.max(quick * scale())
        }
    }
    /// True while there is budget left (used to bound, never to decide).
    pub fn time_left(&self) -> bool {
        Instant::now() < self.deadline && lock(&self.inner).violations.len() < 20
    }
    pub fn eval(&self, sig: u64, nontrivial: bool) {
        tick();
        let mut i = lock(&self.inner);
        i.evaluations += 1;
        if nontrivial {
            i.distinct.insert(sig);
        }
    }
    pub fn count(&self, name: &str, n: u64) {
        tick();
        *lock(&self.inner).counters.entry(name.to_string()).or_default() += n;
    }
    pub fn get(&self, name: &str) -> u64 {
        lock(&self.inner).counters.get(name).copied().unwrap_or(0)
    }
    pub fn sample(&self, v: impl FnOnce() -> Value) {
        let mut i = lock(&self.inner);
        if i.samples.len() < 4 {
            let v = v();
            i.samples.push(v);
        }
    }
    pub fn violate(&self, sig: impl Into<String>, detail: Value) {
        let sig = sig.into();
        let mut i = lock(&self.inner);
        if i.violations.len() < 200 {
            i.violations.push(Violation { sig, detail });
        }
    }
    pub fn inconclusive(&self, why: impl Into<String>) {
        lock(&self.inner).inconclusive.push(why.into());
    }
    pub fn violations(&self) -> usize {
        lock(&self.inner).violations.len()
    }
    /// Too few observations of `name` make the run inconclusive.
    pub fn require(&self, name: &str, at_least: u64) {
        let got = self.get(name);
        if got < at_least {
            self.inconclusive(format!("observed too little: {name} = {got} < {at_least}"));
        }
    }
    /// A panic of the code under test is a violation, one of the harness is a harness error.
    pub fn on_panic(&self, what: &str, p: &PanicRec, detail: Value) {
        if p.is_expected() {
            return;
        }
        if p.is_harness() {
            // What the monitor takes for granted about the code under observation did not hold.
            self.violate(
                format!("expectation:{what}"),
                json!({"what": what, "expectation": format!("{}:{}: {}", p.file, p.line, p.msg), "case": detail}),
            );
        } else {
            self.violate(
                format!("panic:{what}"),
                json!({"what": what, "panic": format!("{}:{}: {}", p.file, p.line, p.msg), "case": detail}),
            );
        }
    }
    /// Reports the panics that other threads raised.
    pub fn drain_panics(&self, what: &str, detail: impl Fn() -> Value) {
        for p in take_panics() {
            self.on_panic(what, &p, detail());
        }
    }

    /// Writes the evidence file, prints the verdict, and returns the exit code.
    pub fn finish(&self, level: &str, rule: &str, assumptions: &[&str]) -> i32 {
        self.drain_panics("background thread", || Value::Null);
        let i = lock(&self.inner);
        let known = load_known(&self.root, &self.prop);
        let mut fresh = vec![];
        let mut hit: BTreeMap<String, String> = BTreeMap::new();
        for v in &i.violations {
            match known.iter().find(|(s, _)| *s == v.sig) {
                Some((s, what)) => {
                    hit.insert(s.clone(), what.clone());
                }
                None => fresh.push(v),
            }
        }
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), json!(i.evaluations));
        cov.insert("distinct_nontrivial".into(), json!(i.distinct.len()));
        cov.insert("rule".into(), json!(rule));
        cov.insert("samples".into(), json!(i.samples));
        cov.insert("observed".into(), json!(i.counters));
        if !i.inconclusive.is_empty() {
            cov.insert("inconclusive".into(), json!(i.inconclusive));
        }
        let ev = json!({
            "property": self.prop,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed as i64,
            "level": level,
            "coverage": cov,
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": fresh.len(),
        });
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let part = std::env::var("VM_PART").unwrap_or_default();
        let name = if part.is_empty() { self.prop.clone() } else { format!("{}.{part}", self.prop) };
        let path = dir.join(format!("{name}.json"));
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap_or_default()) {
            eprintln!("cannot write {path:?}: {e}");
            return 2;
        }
        for (_, what) in hit {
            println!("KNOWN-FINDING: property={} {what}", self.prop);
        }
        if !fresh.is_empty() {
            let mut seen = HashSet::new();
            for (n, v) in fresh.iter().filter(|v| seen.insert(v.sig.clone())).take(5).enumerate() {
                let replay = dir.join(format!("{name}.replay.{n}.json"));
                let body = json!({"property": self.prop, "signature": v.sig, "seed": self.seed,
                    "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" }, "detail": v.detail});
                let _ = std::fs::write(&replay, serde_json::to_string_pretty(&body).unwrap_or_default());
                println!("VIOLATION property={} replay={}", self.prop, replay.display());
                let mut d = v.detail.to_string();
                if d.len() > 1500 {
                    let mut k = 1500;
                    while !d.is_char_boundary(k) {
                        k -= 1;
                    }
                    d.truncate(k);
                }
                println!("  {}: {d}", v.sig);
            }
            return 1;
        }
        if !i.inconclusive.is_empty() {
            for w in i.inconclusive.iter().take(10) {
                eprintln!("INCONCLUSIVE: {w}");
            }
            return 2;
        }
        if i.evaluations == 0 {
            eprintln!("INCONCLUSIVE: nothing was observed");
            return 2;
        }
        println!(
            "held: property={} evaluations={} distinct={} observed={:?} wall={:.1}s",
            self.prop,
            i.evaluations,
            i.distinct.len(),
            i.counters,
            self.start.elapsed().as_secs_f64()
        );
        0
    }
}

fn load_known(root: &std::path::Path, prop: &str) -> Vec<(String, String)> {
    let Ok(text) = std::fs::read_to_string(root.join("known-findings.json")) else {
        return vec![];
    };
    let Ok(v) = serde_json::from_str::<Value>(&text) else {
        return vec![];
    };
    v["known"]
        .as_array()
        .into_iter()
        .flatten()
        .filter(|e| e["property"] == prop)
        .filter_map(|e| Some((e["signature"].as_str()?.to_string(), e["what"].as_str()?.to_string())))
        .collect()
}

/// A scratch directory below $TMPDIR (or /tmp) that is removed on drop.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let base = std::env::var_os("VM_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let p = base.join(format!("vm-{tag}-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p.canonicalize().expect("scratch"))
    }
    pub fn path(&self) -> &std::path::Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Runs indices `0..n` on `threads` worker threads until done, out of budget, or `f` returns false.
pub fn parallel(ctx: &Ctx, n: usize, threads: usize, f: impl Fn(usize) + Sync) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (next, f, ctx) = (&next, &f, ctx);
            std::thread::Builder::new()
                .name(format!("worker-{t}"))
                .spawn_scoped(s, move || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= n || !ctx.time_left() {
                        break;
                    }
                    lock(&progress().running).insert(format!("worker-{t}"), format!("case {i}"));
                    if let Err(p) = guard(|| f(i)) {
                        ctx.on_panic("case", &p, json!({"index": i}));
                    }
                    lock(&progress().running).remove(&format!("worker-{t}"));
                    tick();
                })
                .expect("spawn");
        }
    });
}
