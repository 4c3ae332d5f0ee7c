//! Episode context, verdicts, trace, watchdog, counting allocator.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

// ---------------------------------------------------------------- allocator
pub struct CountingAlloc;
static LIVE: AtomicI64 = AtomicI64::new(0);
static ASKED: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            LIVE.fetch_add(l.size() as i64, Relaxed);
            ASKED.fetch_add(l.size() as u64, Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            LIVE.fetch_add(l.size() as i64, Relaxed);
            ASKED.fetch_add(l.size() as u64, Relaxed);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
            ASKED.fetch_add(n as u64, Relaxed);
        }
        q
    }
}
/// live heap bytes of the process, as requested from the allocator
pub fn live_bytes() -> i64 {
    LIVE.load(Relaxed)
}

/// bytes ever asked for, a reallocation counting in full
pub fn asked_bytes() -> u64 {
    ASKED.load(Relaxed)
}

// ---------------------------------------------------------------- rng
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        let mut r = Rng(s ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, s: &[T]) -> T {
        s[self.idx(s.len())]
    }
    /// far beyond any size, but equal or close to `near` in its low 8, 16, 31, 32 ... bits
    pub fn far(&mut self, near: usize) -> usize {
        let e = self.pick(&[8, 16, 16, 24, 31, 32, 32, 33, 48, 62, 63]);
        match self.below(6) {
            0 => usize::MAX - near,
            1 => (1usize << e).wrapping_sub(1 + near),
            2 => near.wrapping_add(usize::MAX << e),
            3 => near.wrapping_add((self.range(1, 255) as usize | 1).wrapping_mul(1 << e)),
            _ => near.wrapping_add(1 << e),
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
}
pub fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z ^ (z >> 32)
}

// ---------------------------------------------------------------- episode info, trace, verdicts
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
static REPORTED: AtomicBool = AtomicBool::new(false);
static EPISODE: Mutex<(String, u64)> = Mutex::new((String::new(), 0));

const TRACE: usize = 48;
thread_local! {
    static RING: RefCell<(Vec<(&'static str, u64, u64)>, usize)> = const { RefCell::new((Vec::new(), 0)) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static WAY: Cell<u64> = const { Cell::new(0) };
}

/// one of several equivalent ways to do the same, drawn for the episode; `n` many
pub fn way(n: u64) -> u64 {
    WAY.with(|w| {
        let x = mix(w.get(), 0x5eed);
        // 0 stands for "always the first way"
        if w.get() != 0 {
            w.set(x | 1);
        }
        if w.get() == 0 {
            0
        } else {
            (x >> 20) % n
        }
    })
}

pub fn set_episode(prop: &str, seed: u64) {
    let mut e = EPISODE.lock().unwrap();
    *e = (prop.to_string(), seed);
    // memory reserved on request is not what C15 is about
    WAY.with(|w| w.set(if prop == "C15" { 0 } else { mix(seed, 0x77a9) | 1 }));
    RING.with(|r| {
        let mut r = r.borrow_mut();
        r.0.clear();
        r.1 = 0;
    });
}

/// record one monitored event
#[inline]
pub fn ev(name: &'static str, a: u64, b: u64) {
    PROGRESS.fetch_add(1, Relaxed);
    RING.with(|r| {
        if let Ok(mut r) = r.try_borrow_mut() {
            let r = &mut *r;
            if r.0.len() < TRACE {
                r.0.push((name, a, b));
            } else {
                r.0[r.1 % TRACE] = (name, a, b);
            }
            r.1 += 1;
        }
    });
}
pub fn progress() {
    PROGRESS.fetch_add(1, Relaxed);
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn trace_json() -> String {
    RING.with(|r| match r.try_borrow() {
        Ok(r) => {
            let n = r.0.len();
            let mut v = Vec::new();
            for i in 0..n {
                let (s, a, b) = if n < TRACE { r.0[i] } else { r.0[(r.1 + i) % TRACE] };
                v.push(json_str(&format!("{s} {a} {b}")));
            }
            format!("[{}]", v.join(","))
        }
        Err(_) => "[]".into(),
    })
}

fn emit(kind: &str, msg: &str) {
    if REPORTED.swap(true, Relaxed) {
        // another thread already reports; let it finish
        std::thread::sleep(std::time::Duration::from_millis(500));
        return;
    }
    let (p, s) = match EPISODE.try_lock() {
        Ok(e) => e.clone(),
        Err(_) => (String::new(), 0),
    };
    println!(
        "{{\"verdict\":{},\"prop\":{},\"episode\":\"{}\",\"message\":{},\"events\":{},\"trace\":{}}}",
        json_str(kind),
        json_str(&p),
        s,
        json_str(msg),
        PROGRESS.load(Relaxed),
        trace_json()
    );
}

/// The observed execution refutes the property.
pub fn violation(msg: String) -> ! {
    emit("violation", &msg);
    std::process::exit(3)
}
pub fn inconclusive(msg: String) -> ! {
    emit("inconclusive", &msg);
    std::process::exit(4)
}
/// The execution left the state the monitor needs (another property is broken): this episode
/// cannot say anything about the monitored property.
pub fn foreign(msg: String) -> ! {
    emit("foreign", &msg);
    std::process::exit(5)
}
static BASE: AtomicBool = AtomicBool::new(false);
/// Library panics inside are not about the monitored property.
pub fn base_op<R>(on: bool, f: impl FnOnce() -> R) -> R {
    if !on {
        return f();
    }
    BASE.store(true, Relaxed);
    let r = f();
    BASE.store(false, Relaxed);
    r
}
#[macro_export]
macro_rules! fail { ($($t:tt)*) => { $crate::core::violation(format!($($t)*)) } }
#[macro_export]
macro_rules! check { ($c:expr, $($t:tt)*) => { if !$c { $crate::core::violation(format!($($t)*)) } } }

/// Payload of panics injected by the monitors
pub struct Injected;
/// Payload of a panic in harness code under a misbehaving-user scenario
pub fn quietly<R>(f: impl FnOnce() -> R) -> R {
    let old = QUIET.with(|q| q.replace(true));
    let r = f();
    QUIET.with(|q| q.set(old));
    r
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Injected>() || QUIET.with(|q| q.get()) {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| (l.file().to_string(), l.line()));
        let (file, line) = loc.unwrap_or_default();
        let harness = file.starts_with("src/") || file.contains("/verif/") || file.contains("harness/src");
        if harness {
            inconclusive(format!("harness panic at {file}:{line}: {msg}"));
        }
        if BASE.load(Relaxed) {
            foreign(format!("panic in library code at {file}:{line}: {msg}"));
        }
        violation(format!("panic in library code at {file}:{line}: {msg}"));
    }));
}

// ---------------------------------------------------------------- watchdog (CPU time without progress)
fn cpu_seconds() -> Option<f64> {
    let s = std::fs::read_to_string("/proc/self/stat").ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let k: f64 = f.get(12)?.parse().ok()?;
    Some((u + k) / 100.0)
}
/// longest CPU time without a monitored event, in milliseconds
pub static LONGEST_GAP_MS: AtomicU64 = AtomicU64::new(0);
pub fn start_watchdog(limit_cpu_s: f64) {
    if cfg!(miri) {
        return;
    }
    std::thread::spawn(move || {
        let mut last = PROGRESS.load(Relaxed);
        let mut base = cpu_seconds().unwrap_or(0.0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let p = PROGRESS.load(Relaxed);
            let Some(c) = cpu_seconds() else { continue };
            if p == last {
                LONGEST_GAP_MS.fetch_max(((c - base) * 1000.0) as u64, Relaxed);
            }
            if p != last {
                last = p;
                base = c;
            } else if c - base > limit_cpu_s {
                violation(format!(
                    "no monitored event completed during {limit_cpu_s} s of CPU time: a call does not return"
                ));
            }
        }
    });
}

// ---------------------------------------------------------------- statistics of what was observed
#[derive(Default)]
pub struct Stats {
    pub c: BTreeMap<&'static str, u64>,
    pub shapes: HashSet<u64>,
    pub prints: HashSet<u64>,
    pub samples: Vec<String>,
    pub maxes: BTreeMap<&'static str, u64>,
}
impl Stats {
    #[inline]
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.c.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxes.entry(k).or_insert(0);
        if n > *e {
            *e = n;
        }
    }
    pub fn shape(&mut self, h: u64) {
        if self.shapes.len() < 30_000 {
            self.shapes.insert(h);
        }
    }
    pub fn to_json(&self) -> String {
        let kv = |m: &BTreeMap<&'static str, u64>| {
            m.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",")
        };
        let hs = |m: &HashSet<u64>| m.iter().map(|h| format!("\"{h:x}\"")).collect::<Vec<_>>().join(",");
        format!(
            "{{\"counters\":{{{}}},\"maxes\":{{{}}},\"shapes\":[{}],\"prints\":[{}],\"samples\":[{}]}}",
            kv(&self.c),
            kv(&self.maxes),
            hs(&self.shapes),
            hs(&self.prints),
            self.samples.join(",")
        )
    }
}

// ---------------------------------------------------------------- context
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    /// interpreter: tiny budgets
    Miri,
    /// sanitizer build
    San,
    Native,
}

pub struct Ctx {
    pub rng: Rng,
    pub st: Stats,
    /// node capacity of the build under test
    pub n: usize,
    pub tier: Tier,
    pub thorough: bool,
    pub deadline: Option<Instant>,
    pub fp: u64,
    /// the current episode changed the structure in an interesting way
    pub nontrivial: bool,
    pub desc: String,
    pub variant: String,
}
impl Ctx {
    pub fn late(&self) -> bool {
        self.deadline.is_some_and(|d| Instant::now() > d)
    }
    #[inline]
    pub fn add(&mut self, k: &'static str) {
        self.st.add(k, 1)
    }
    /// a size to aim for, spread over the depths reachable in this build
    pub fn size(&mut self) -> usize {
        let n = self.n as u64;
        let w = self.rng.below(100);
        if self.tier == Tier::Miri {
            return self.rng.range(2, n * 7) as usize;
        }
        let san = self.tier == Tier::San;
        let r = if self.n <= 16 {
            match w {
                0..=19 => self.rng.range(1, 4 * n),
                20..=64 => self.rng.range(4 * n, 40 * n),
                65..=92 => self.rng.range(40 * n, if san { 90 * n } else { 160 * n }),
                _ => self.rng.range(100 * n, if san { 130 * n } else { 600 * n }),
            }
        } else {
            match w {
                0..=29 => self.rng.range(1, 4 * n),
                30..=74 => self.rng.range(4 * n, 30 * n),
                75..=96 => self.rng.range(30 * n, 130 * n),
                _ => self.rng.range(130 * n, if san { 150 * n } else { 320 * n }),
            }
        };
        r as usize
    }
    /// time for an episode of a size beyond all others?
    pub fn giant(&mut self) -> bool {
        self.tier == Tier::Native && self.rng.chance(1, if self.n <= 16 { 250 } else { 80 })
    }
    pub fn note(&mut self, x: u64) {
        self.fp = mix(self.fp, x);
    }
    pub fn miri(&self) -> bool {
        self.tier == Tier::Miri
    }
    /// number of steps, scaled down for slow tiers
    pub fn steps(&mut self, native: usize) -> usize {
        match self.tier {
            Tier::Miri => native / 12 + 10,
            Tier::San => native / 2 + 10,
            Tier::Native => native,
        }
    }
    /// Run `f` and report how many heap bytes stay allocated, statistics excluded.
    pub fn measured<R>(&mut self, f: impl FnOnce(&mut Ctx) -> R) -> (R, i64) {
        let keep = std::mem::take(&mut self.st);
        let before = live_bytes();
        let r = f(self);
        let mut c = [("", 0u64); 96];
        let mut nc = 0;
        for (k, v) in &self.st.c {
            c[nc] = (k, *v);
            nc += 1;
        }
        let mut mx = [("", 0u64); 32];
        let mut nm = 0;
        for (k, v) in &self.st.maxes {
            mx[nm] = (k, *v);
            nm += 1;
        }
        let mut sh = [0u64; 256];
        let mut ns = 0;
        for h in self.st.shapes.iter().take(256) {
            sh[ns] = *h;
            ns += 1;
        }
        self.st = Stats::default();
        let after = live_bytes();
        self.st = keep;
        for (k, v) in &c[..nc] {
            self.st.add(k, *v);
        }
        for (k, v) in &mx[..nm] {
            self.st.max(k, *v);
        }
        for h in &sh[..ns] {
            self.st.shape(*h);
        }
        (r, after - before)
    }
}

/// A structure walk met more nodes than the contents can justify.
pub fn check_shape_limit(seen: usize, lim: usize, depth: usize) {
    if seen > lim || depth > 64 {
        violation(format!(
            "walking all children through a visitor meets more than {lim} nodes (depth {depth}): the structure is not a tree over the entries"
        ));
    }
}
