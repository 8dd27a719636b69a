//! Driver: cases are numbered; case i of a property is a pure function of (seed, i).
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(a: u64, b: u64) -> Rng {
        let mut r = Rng(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567);
        r.next(); r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn s<'a>(&mut self, v: &[&'a str]) -> &'a str { v[self.below(v.len())] }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
}

pub struct Fail { pub what: String, pub input: String }
pub type R = Result<(), Fail>;
pub fn fail(what: impl Into<String>, input: impl Into<String>) -> R { Err(Fail { what: what.into(), input: input.into() }) }
#[macro_export]
macro_rules! ensure {
    ($c:expr, $input:expr, $($a:tt)*) => { if !($c) { return $crate::fw::fail(format!($($a)*), $input); } };
}

/// context of one worker: what the cases report
pub struct Cx<'a> {
    pub seed: u64,
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<String>,
    shared: &'a Shared,
    pub slot: usize,
}
impl<'a> Cx<'a> {
    /// count one evaluated input; `key` identifies it, `nt` says whether it is non-trivial
    pub fn seen(&mut self, key: &str, nt: bool) {
        self.evals += 1;
        if nt {
            let h = hash(key.as_bytes());
            if self.nontrivial.len() < 3_000_000 && self.nontrivial.insert(h) && self.samples.len() < 2 && (h & 7 == 1) {
                self.samples.push(key.chars().take(300).collect());
            }
        }
    }
    pub fn note(&mut self, input: &str) {
        if let Some(p) = LIVE.get() { let _ = std::fs::write(p, input); }
        if let Ok(mut g) = self.shared.current[self.slot].lock() {
            g.0 = input.chars().take(4000).collect();
            g.1 = Instant::now();
        }
    }
}
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b { h ^= *x as u64; h = h.wrapping_mul(0x100000001b3); }
    h ^ (h >> 29)
}

struct Shared {
    next: AtomicU64,
    stop: AtomicBool,
    current: Vec<Mutex<(String, Instant)>>,
    fail: Mutex<Option<(u64, Fail)>>,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// number of deterministic (seed-independent) cases that come first
    pub fixed: u64,
    /// case function; i < fixed is deterministic
    pub case: fn(&mut Cx, u64, &mut Rng) -> R,
    /// random cases in the quick tier
    pub quick: u64,
}

pub struct Report { pub evals: u64, pub nontrivial: u64, pub cases: u64, pub fixed_done: bool, pub samples: Vec<String>, pub fail: Option<(u64, Fail)>, pub wall: f64 }

pub fn run(p: &Prop, seed: u64, thorough: bool, budget: Duration, only: Option<u64>, live: Option<&str>) -> Report {
    let n = if LIVE.get().is_some() { 1 } else { std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4) };
    let scale = if p.id == "C11" { (1, 12) } else { (20, 120) };
    let total = p.fixed + p.quick * if thorough { scale.1 } else { scale.0 };
    let shared = Shared {
        next: AtomicU64::new(only.unwrap_or(0)),
        stop: AtomicBool::new(false),
        current: (0..n).map(|_| Mutex::new((String::new(), Instant::now()))).collect(),
        fail: Mutex::new(None),
    };
    let t0 = Instant::now();
    let res: Mutex<(u64, HashSet<u64>, Vec<String>, u64)> = Mutex::new(Default::default());
    let active = AtomicU64::new(n as u64);
    let fail = std::thread::scope(|s| {
        for slot in 0..n {
            let (shared, res, active) = (&shared, &res, &active);
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || {
                let mut cx = Cx { seed, evals: 0, nontrivial: HashSet::new(), samples: vec![], shared, slot };
                let mut done = 0u64;
                loop {
                    if shared.stop.load(Ordering::Relaxed) { break; }
                    let i = shared.next.fetch_add(1, Ordering::Relaxed);
                    if i >= total || (only.is_some() && Some(i) != only) { break; }
                    if t0.elapsed() > budget { shared.stop.store(true, Ordering::Relaxed); break; }
                    let mut rng = if i < p.fixed { Rng::new(7, i) } else { Rng::new(seed, i) };
                    cx.note(&format!("case {}", i));
                    let r = catch_unwind(AssertUnwindSafe(|| (p.case)(&mut cx, i, &mut rng)));
                    done += 1;
                    let f = match r {
                        Ok(Ok(())) => None,
                        Ok(Err(f)) => Some(f),
                        Err(e) => {
                            let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            let cur = shared.current[slot].lock().map(|g| g.0.clone()).unwrap_or_default();
                            Some(Fail { what: format!("panicked: {} {}", msg, LASTLOC.with(|l| l.borrow().clone())), input: cur })
                        }
                    };
                    if let Some(f) = f {
                        let mut g = shared.fail.lock().unwrap();
                        if g.as_ref().map_or(true, |(j, _)| i < *j) { *g = Some((i, f)); }
                        shared.stop.store(true, Ordering::Relaxed);
                        break;
                    }
                }
                if let Ok(mut g) = shared.current[slot].lock() { g.0.clear(); }
                let mut g = res.lock().unwrap();
                g.0 += cx.evals; g.3 += done;
                if g.1.is_empty() { g.1 = cx.nontrivial; } else { g.1.extend(cx.nontrivial); }
                if g.2.len() < 6 { g.2.extend(cx.samples); }
                active.fetch_sub(1, Ordering::SeqCst);
            }).unwrap();
        }
        // watchdog: a single case that never ends
        while active.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            for c in &shared.current {
                let g = c.lock().unwrap();
                if g.1.elapsed() > Duration::from_secs(45) && !g.0.is_empty() && active.load(Ordering::SeqCst) > 0 {
                    let txt = g.0.clone();
                    if t0.elapsed() > Duration::from_secs(45) && !shared.stop.load(Ordering::Relaxed) || g.1.elapsed() > Duration::from_secs(120) {
                        if let Some(path) = live {
                            let _ = std::fs::write(path, format!("did not terminate within 45 s\n{}\n", txt));
                        }
                        println!("HANG {}", txt.escape_debug());
                        std::process::exit(3);
                    }
                }
            }
        }
        shared.fail.lock().unwrap().take()
    });
    let g = res.into_inner().unwrap();
    let mut samples = g.2; samples.truncate(6);
    Report { evals: g.0, nontrivial: g.1.len() as u64, cases: g.3, fixed_done: g.3 >= p.fixed, samples, fail, wall: t0.elapsed().as_secs_f64() }
}

/// when set, every input is written here before it is tried (single threaded re-run after a crash)
pub static LIVE: std::sync::OnceLock<String> = std::sync::OnceLock::new();
thread_local! { pub static LASTLOC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("at {}:{}", l.file(), l.line())).unwrap_or_default();
        LASTLOC.with(|x| *x.borrow_mut() = l);
    }));
}
