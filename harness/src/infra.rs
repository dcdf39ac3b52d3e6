#![allow(dead_code)]
//! Case runner, PRNG, violation log, counters, watchdog.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[derive(Clone)]
pub struct Rng(u64, u64);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed), mix(seed ^ 0xdead_beef_1234_5678) | 1)
    }
    pub fn next(&mut self) -> u64 {
        let mut s1 = self.0;
        let s0 = self.1;
        let r = s0.wrapping_add(s1);
        self.0 = s0;
        s1 ^= s1 << 23;
        self.1 = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        r
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() >> 11) as usize % n
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn coin(&mut self) -> bool {
        self.next() >> 63 == 1
    }
    pub fn byte(&mut self) -> u8 {
        (self.next() >> 24) as u8
    }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
        xs[self.below(xs.len())]
    }
    pub fn pickv<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

struct FxH(u64);
impl Hasher for FxH {
    fn finish(&self) -> u64 {
        mix(self.0)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0.rotate_left(5) ^ *x as u64).wrapping_mul(0x517cc1b727220a95);
        }
    }
}
pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = FxH(0x1234);
    t.hash(&mut h);
    h.finish()
}
pub fn hstr(s: &str) -> u64 {
    h64(s.as_bytes())
}
/// Readable form of bytes.
pub fn show(b: &[u8]) -> String {
    let s = if b.len() > 400 { &b[..400] } else { b };
    format!("\"{}\"{}", s.escape_ascii(), if b.len() > 400 { format!("...({} bytes)", b.len()) } else { String::new() })
}

pub struct Viol {
    pub sig: String,
    pub detail: String,
    pub stream: String,
    pub case: u64,
}
pub struct Abort;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub shard: u64,
    pub nshards: u64,
    pub scale: f64,
    pub only: Option<(String, u64)>,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub sigs: BTreeSet<String>,
    pub evals: u64,
    pub nontrivial: u64,
    pub required: Vec<(String, u64)>,
    pub crumb: Option<std::fs::File>,
    pub verbose: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

/// One generated case: its own PRNG, derived from (seed, property, stream, index) only.
pub struct Case<'c> {
    pub rng: Rng,
    pub ctx: &'c mut Ctx,
    pub stream: &'static str,
    pub idx: u64,
    pub desc: String,
    pub quiet: bool,
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().downcast_ref::<Abort>().is_some() {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let s = format!("{msg} @ {loc}");
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(s.clone()));
        if std::env::var_os("VZ_SHOW_PANICS").is_some() || cfg!(miri) {
            eprintln!("panic: {s}");
        }
    }));
}
pub fn take_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}
/// Strips addresses/lines so that signatures stay stable.
pub fn panic_sig(s: &str) -> String {
    let file = s.rsplit(" @ ").next().unwrap_or("");
    let file = file.rsplit_once(':').map(|x| x.0).unwrap_or(file);
    let file = file.rsplit("/src/").next().unwrap_or(file);
    format!("panic:{file}")
}

impl Ctx {
    pub fn new(prop: &str) -> Self {
        Ctx {
            prop: prop.into(),
            seed: 1,
            tier: Tier::Quick,
            shard: 0,
            nshards: 1,
            scale: 1.0,
            only: None,
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: Vec::new(),
            viols: Vec::new(),
            sigs: BTreeSet::new(),
            evals: 0,
            nontrivial: 0,
            required: Vec::new(),
            crumb: None,
            verbose: false,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn ev(&mut self, k: &str) {
        self.evn(k, 1)
    }
    pub fn evn(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn require(&mut self, k: &str, n: u64) {
        self.required.push((k.into(), n));
    }
    pub fn violation(&mut self, stream: &str, case: u64, sig: &str, detail: String) {
        if self.verbose {
            eprintln!("VIOL {sig} [{stream}#{case}] {detail}");
        }
        // Keep at most a few witnesses per signature.
        let n = self.viols.iter().filter(|v| v.sig == sig).count();
        if n < 3 {
            self.sigs.insert(sig.into());
            self.viols.push(Viol { sig: sig.into(), detail, stream: stream.into(), case });
        }
        self.ev("violations_raw");
    }
    /// Runs exactly `n` cases whatever the scale: complete enumerations.
    pub fn run_all(&mut self, stream: &'static str, n: u64, f: impl FnMut(&mut Case)) {
        let old = self.scale;
        self.scale = if old > 0.0 { 1.0 } else { 0.0 };
        self.run(stream, n, n, f);
        self.scale = old;
    }
    /// Runs `n` cases (scaled by tier) of the given stream.
    pub fn run(&mut self, stream: &'static str, quick: u64, thorough: u64, mut f: impl FnMut(&mut Case)) {
        let n = if self.thorough() { thorough } else { quick };
        let n = ((n as f64) * self.scale).ceil() as u64;
        let (lo, hi) = match &self.only {
            Some((s, c)) => {
                if s != stream {
                    return;
                }
                (*c, *c + 1)
            }
            None => (0, n),
        };
        let base = mix(self.seed ^ hstr(&self.prop).rotate_left(17) ^ hstr(stream));
        let mut idx = lo;
        while idx < hi {
            if self.only.is_none() && idx % self.nshards != self.shard {
                idx += 1;
                continue;
            }
            self.crumb(stream, idx);
            PROGRESS.fetch_add(1, Relaxed);
            self.evals += 1;
            let mut case =
                Case { rng: Rng::new(base ^ mix(idx)), ctx: self, stream, idx, desc: String::new(), quiet: false };
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
            let desc = std::mem::take(&mut case.desc);
            if let Err(e) = r {
                if e.downcast_ref::<Abort>().is_none() {
                    let p = take_panic();
                    let sig = panic_sig(&p);
                    self.violation(stream, idx, &sig, format!("panicked: {p}; case: {desc}"));
                }
            }
            if self.viols.len() > 40 {
                break;
            }
            idx += 1;
        }
        self.evn(&format!("cases:{stream}"), 0);
    }
    #[cfg(not(miri))]
    fn crumb(&mut self, stream: &str, idx: u64) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.crumb {
            let s = format!("{:<40}\n", format!("{stream} {idx}"));
            let _ = f.write_at(s.as_bytes(), 0);
        }
    }
    #[cfg(miri)]
    fn crumb(&mut self, stream: &str, idx: u64) {
        if self.verbose || std::env::var_os("VZ_CRUMB").is_some() {
            eprintln!("CRUMB {stream} {idx}");
        }
    }
    pub fn write(&self, path: &str) -> std::io::Result<()> {
        let viols: Vec<_> = self
            .viols
            .iter()
            .map(|v| serde_json::json!({"sig": v.sig, "detail": v.detail, "stream": v.stream, "case": v.case}))
            .collect();
        let missing: Vec<_> = self
            .required
            .iter()
            .map(|(k, n)| serde_json::json!([k, n]))
            .collect();
        let j = serde_json::json!({
            "prop": self.prop, "seed": self.seed, "shard": self.shard, "evals": self.evals,
            "nontrivial": self.nontrivial,
            "counters": self.counters, "samples": self.samples, "violations": viols,
            "required": missing,
        });
        std::fs::write(path, serde_json::to_vec(&j).unwrap())?;
        let mut v: Vec<u8> = Vec::with_capacity(self.distinct.len() * 8);
        for d in &self.distinct {
            v.extend_from_slice(&d.to_le_bytes());
        }
        std::fs::write(format!("{path}.distinct"), v)
    }
}

impl Case<'_> {
    pub fn ev(&mut self, k: &str) {
        self.ctx.ev(k)
    }
    pub fn evn(&mut self, k: &str, n: u64) {
        self.ctx.evn(k, n)
    }
    /// Records a distinct non-trivial observation.
    pub fn seen<T: Hash + ?Sized>(&mut self, t: &T) {
        self.ctx.nontrivial += 1;
        if self.ctx.distinct.len() < 60_000 {
            let h = h64(t);
            self.ctx.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.ctx.samples.len() < 4 && (self.idx < 3 || self.idx % 37 == 5) {
            let s = f();
            self.ctx.samples.push(format!("[{}#{}] {}", self.stream, self.idx, s));
        }
    }
    pub fn fail(&mut self, sig: &str, detail: impl Into<String>) {
        let d = detail.into();
        let detail = if self.desc.is_empty() { d } else { format!("{d}; case: {}", self.desc) };
        let (s, i) = (self.stream, self.idx);
        self.ctx.violation(s, i, sig, detail);
    }
    pub fn abort(&mut self) -> ! {
        std::panic::panic_any(Abort)
    }
    /// Runs `f`, turning a panic into a violation. Returns None if it panicked.
    pub fn guard<T>(&mut self, sig: &str, f: impl FnOnce() -> T) -> Option<T> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Some(v),
            Err(_) => {
                let p = take_panic();
                let s = format!("{sig}:{}", panic_sig(&p));
                self.fail(&s, format!("panicked: {p}"));
                None
            }
        }
    }
}

#[macro_export]
macro_rules! ck {
    ($c:expr, $cond:expr, $sig:expr, $($fmt:tt)+) => {
        if !($cond) {
            let d = format!($($fmt)+);
            $c.fail($sig, d);
        }
    };
}
#[macro_export]
macro_rules! ckeq {
    ($c:expr, $a:expr, $b:expr, $sig:expr, $($fmt:tt)+) => {
        match (&$a, &$b) {
            (a, b) => {
                if !(*a == *b) {
                    let d = format!("got {:?}, expected {:?}: {}", a, b, format!($($fmt)+));
                    $c.fail($sig, d);
                }
            }
        }
    };
}
