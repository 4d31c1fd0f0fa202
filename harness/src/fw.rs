//! Framework of the monitors: cases, verdicts, event counts, replay.

use crate::rng::{hash_bytes, Rng};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Debug, Clone)]
pub struct Fail {
    pub what: String,
    pub detail: Value,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(what: impl Into<String>, detail: Value) -> Result<T, Fail> {
    Err(Fail { what: what.into(), detail })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $what:expr, $($json:tt)+) => {
        if !($cond) {
            return Err($crate::fw::Fail { what: ($what).into(), detail: serde_json::json!($($json)+) });
        }
    };
}

/// One execution of a monitored workload.
pub struct Case {
    pub rng: Rng,
    pub index: u64,
    pub thorough: bool,
    pub events: BTreeMap<String, u64>,
    sig: u64,
    trivial: bool,
    pub sample: Value,
}

impl Case {
    pub fn ev(&mut self, name: &str, n: u64) {
        if n != 0 {
            *self.events.entry(name.to_string()).or_insert(0) += n;
        }
    }
    /// Keeps the largest value seen (e.g. the largest deviation from the oracle, in some integer unit).
    pub fn max(&mut self, name: &str, v: u64) {
        let e = self.events.entry(format!("max:{}", name)).or_insert(0);
        *e = (*e).max(v);
    }
    /// Adds to the signature by which distinct cases are counted.
    pub fn sig(&mut self, bytes: &[u8]) {
        self.sig = hash_bytes(self.sig, bytes);
    }
    pub fn sig_u(&mut self, v: u64) {
        self.sig(&v.to_le_bytes());
    }
    /// This case exercised nothing of interest.
    pub fn trivial(&mut self) {
        self.trivial = true;
    }
}

pub struct Group {
    pub prop: &'static str,
    pub name: &'static str,
    /// Number of cases, quick and thorough.
    pub quick: u64,
    pub thorough: u64,
    /// Cases that may not run in parallel with others.
    pub serial: bool,
    pub exhaustive: bool,
    pub rule: &'static str,
    pub f: fn(&mut Case) -> R,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String, bool)>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

/// Whether a panic comes from the code under test: its location, or else the innermost named frame of ours.
fn panic_in_library(file: &str) -> bool {
    if file.contains("harness/src") || file.starts_with("src/") && !file.contains("repo") {
        // The library's own paths are absolute (/repo/src) because it is a path dependency outside this package.
        return false;
    }
    if file.contains("/repo/") {
        return true;
    }
    let bt = std::backtrace::Backtrace::force_capture().to_string();
    for line in bt.lines() {
        let l = line.trim();
        if l.contains("fw::install_hook") || l.contains("fw::panic_in_library") {
            continue;
        }
        if l.contains("ozz_animation_rs::") || l.contains("ozz_animation_rs[") {
            return true;
        }
        if l.contains("ozzmon::") || l.contains("ozzmon[") {
            return false;
        }
    }
    true
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let (loc, lib) = match info.location() {
            Some(l) => (format!("{}:{}", l.file(), l.line()), panic_in_library(l.file())),
            None => ("?".to_string(), true),
        };
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc, lib)));
    }));
}

/// The panic this thread caught last: what and where, and whether it was the library's.
pub fn take_panic() -> (String, bool) {
    let (m, l, lib) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into(), false));
    (format!("{} at {}", m, l), lib)
}

pub enum Outcome<T> {
    Done(T),
    /// The library panicked: message and location.
    Panicked(String, String),
}

/// Runs library code that must not panic, turning a panic of the library into a value. A panic of the harness goes on.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Outcome<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Outcome::Done(v),
        Err(e) => {
            let (m, l, lib) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into(), false));
            if !lib {
                PANIC.with(|p| *p.borrow_mut() = Some((m, l, lib)));
                std::panic::resume_unwind(e);
            }
            Outcome::Panicked(m, l)
        }
    }
}

pub enum Verdict {
    Held,
    Violated(Fail),
    HarnessError(String),
}

pub struct CaseRun {
    pub verdict: Verdict,
    pub events: BTreeMap<String, u64>,
    pub sig: u64,
    pub trivial: bool,
    pub sample: Value,
}

pub fn run_case(g: &Group, seed: u64, index: u64, thorough: bool) -> CaseRun {
    let s = hash_bytes(hash_bytes(seed, g.prop.as_bytes()), g.name.as_bytes());
    let mut x = s ^ index.wrapping_mul(0xD1342543DE82EF95);
    let mut case = Case {
        rng: Rng::new(crate::rng::splitmix(&mut x)),
        index,
        thorough,
        events: BTreeMap::new(),
        sig: 0,
        trivial: false,
        sample: Value::Null,
    };
    let r = catch_unwind(AssertUnwindSafe(|| (g.f)(&mut case)));
    let verdict = match r {
        Ok(Ok(())) => Verdict::Held,
        Ok(Err(f)) => Verdict::Violated(f),
        Err(_) => {
            let (m, l, lib) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into(), false));
            if lib {
                Verdict::Violated(Fail { what: format!("the library panicked: {} at {}", m, l), detail: json!({ "panic": m, "at": l }) })
            } else {
                Verdict::HarnessError(format!("{} at {}", m, l))
            }
        }
    };
    CaseRun { verdict, events: case.events, sig: case.sig, trivial: case.trivial, sample: case.sample }
}

#[derive(Default)]
struct Acc {
    evaluations: u64,
    events: BTreeMap<String, u64>,
    per_group: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    violations: Vec<Value>,
    errors: Vec<String>,
    truncated: bool,
}

fn merge_events(into: &mut BTreeMap<String, u64>, from: &BTreeMap<String, u64>) {
    for (k, v) in from {
        let e = into.entry(k.clone()).or_insert(0);
        if k.starts_with("max:") {
            *e = (*e).max(*v);
        } else {
            *e += *v;
        }
    }
}

/// What each worker is doing, for the driver to name the case when the process dies or hangs.
pub struct Progress {
    slots: Vec<(AtomicU64, AtomicU64)>,
    file: Option<String>,
}

/// Linux thread CPU time in milliseconds.
fn thread_cpu_ms(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let t: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(t * 10)
}

pub fn gettid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|f| f.to_string_lossy().to_string()))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

pub struct Options {
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub deadline_s: u64,
    pub out: Option<String>,
    pub only_group: Option<String>,
    /// Divides the numbers of cases, for instrumented builds.
    pub divide: u64,
    /// Multiplies them, for the build that decides.
    pub multiply: u64,
    pub current: Option<String>,
    /// Only deaths of the process, hangs, and what the allocator saw count; verdicts belong to other properties.
    pub only_crashes: bool,
}

pub const HANG_CPU_MS: u64 = 60_000;

pub fn run_property(groups: &[&Group], opt: &Options) -> i32 {
    install_hook();
    let start = Instant::now();
    let acc = Arc::new(Mutex::new(Acc::default()));
    let stop = Arc::new(AtomicBool::new(false));
    let progress = Arc::new(Progress {
        slots: (0..opt.threads.max(1)).map(|_| (AtomicU64::new(0), AtomicU64::new(u64::MAX))).collect(),
        file: opt.current.clone(),
    });
    let mut rules: Vec<String> = Vec::new();
    let mut exhaustive_groups = Vec::new();
    for (gi, g) in groups.iter().enumerate() {
        if let Some(only) = &opt.only_group {
            if !only.split(',').any(|o| o == g.name) {
                continue;
            }
        }
        if !opt.only_crashes {
            rules.push(format!("{}: {}", g.name, g.rule));
        }
        if g.exhaustive && !opt.only_crashes {
            exhaustive_groups.push(g.name.to_string());
        }
        let total = if opt.thorough { g.thorough } else { g.quick };
        let total = if g.exhaustive { total } else { total * opt.multiply.max(1) };
        let total = if opt.divide > 1 { (total / opt.divide).max(1) } else { total };
        let threads = if g.serial { 1 } else { opt.threads.max(1) };
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (acc, stop, progress, next, done) = (&acc, &stop, &progress, &next, &done);
                let builder = std::thread::Builder::new().stack_size(16 << 20);
                builder
                    .spawn_scoped(sc, move || {
                        progress.slots[t].0.store(gettid(), Ordering::SeqCst);
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= total {
                                break;
                            }
                            if start.elapsed().as_secs() > opt.deadline_s {
                                acc.lock().unwrap().truncated = true;
                                break;
                            }
                            if let Some(f) = &progress.file {
                                let _ = std::fs::write(format!("{}.{}", f, t), format!("{} {} {}", g.prop, g.name, i));
                            }
                            progress.slots[t].1.store(i, Ordering::SeqCst);
                            let _ = crate::mem::take_error();
                            let mut r = run_case(g, opt.seed, i, opt.thorough);
                            if opt.only_crashes {
                                if !matches!(r.verdict, Verdict::Held) {
                                    r.events.insert("verdicts left to other properties".into(), 1);
                                    r.verdict = Verdict::Held;
                                }
                                if let Some(e) = crate::mem::take_error() {
                                    r.verdict = Verdict::Violated(Fail { what: format!("memory misuse: {}", e), detail: json!({}) });
                                }
                                r.sample = Value::Null;
                            }
                            progress.slots[t].1.store(u64::MAX, Ordering::SeqCst);
                            let mut a = acc.lock().unwrap();
                            a.evaluations += 1;
                            *a.per_group.entry(if opt.only_crashes { format!("{} {}", g.prop, g.name) } else { g.name.to_string() }).or_insert(0) += 1;
                            merge_events(&mut a.events, &r.events);
                            if !r.trivial {
                                let s = hash_bytes(hash_bytes(r.sig, g.name.as_bytes()), g.prop.as_bytes());
                                a.distinct.insert(s);
                            }
                            if r.sample != Value::Null && a.samples.len() < 3 * (gi + 1) && a.samples.len() < 12 {
                                let s = json!({"group": g.name, "index": i, "case": r.sample});
                                a.samples.push(s);
                            }
                            match r.verdict {
                                Verdict::Held => {}
                                Verdict::Violated(f) => {
                                    let v = json!({"property": g.prop, "group": g.name, "seed": opt.seed, "index": i,
                                        "thorough": opt.thorough, "what": f.what, "detail": f.detail});
                                    a.violations.push(v);
                                    if a.violations.len() >= 20 {
                                        stop.store(true, Ordering::SeqCst);
                                    }
                                }
                                Verdict::HarnessError(e) => {
                                    a.errors.push(format!("group {} index {}: {}", g.name, i, e));
                                    if a.errors.len() >= 5 {
                                        stop.store(true, Ordering::SeqCst);
                                    }
                                }
                            }
                        }
                        progress.slots[t].1.store(u64::MAX, Ordering::SeqCst);
                        done.fetch_add(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // Watchdog: a case that burns far more processor time than any case ever needs is a hang.
            if opt.current.is_some() {
                let (progress, done) = (&progress, &done);
                sc.spawn(move || {
                    let mut seen: Vec<(u64, u64)> = vec![(u64::MAX, 0); progress.slots.len()];
                    while done.load(Ordering::SeqCst) < threads as u64 {
                        std::thread::sleep(std::time::Duration::from_millis(20));
                        for (k, slot) in progress.slots.iter().enumerate().take(threads) {
                            let i = slot.1.load(Ordering::SeqCst);
                            if i == u64::MAX {
                                seen[k] = (u64::MAX, 0);
                                continue;
                            }
                            let cpu = thread_cpu_ms(slot.0.load(Ordering::SeqCst)).unwrap_or(0);
                            if seen[k].0 != i {
                                seen[k] = (i, cpu);
                            } else if cpu > seen[k].1 + HANG_CPU_MS {
                                if let Some(f) = &progress.file {
                                    let _ = std::fs::write(format!("{}.hang", f), format!("{} {} {}", g.prop, g.name, i));
                                }
                                std::process::exit(97);
                            }
                        }
                    }
                });
            }
        });
        if stop.load(Ordering::SeqCst) {
            break;
        }
    }
    let a = acc.lock().unwrap();
    let mut code = 0;
    if !a.errors.is_empty() {
        code = 3;
    }
    if !a.violations.is_empty() {
        code = 1;
    }
    let out = json!({
        "evaluations": a.evaluations,
        "per_group": a.per_group,
        "distinct_nontrivial": a.distinct.len(),
        "events": a.events,
        "rule": rules.join(" | "),
        "exhaustive_groups": exhaustive_groups,
        "samples": a.samples,
        "violations": a.violations,
        "errors": a.errors,
        "truncated": a.truncated,
        "wall_s": start.elapsed().as_secs_f64(),
    });
    match &opt.out {
        Some(p) => std::fs::write(p, serde_json::to_string_pretty(&out).unwrap()).unwrap(),
        None => println!("{}", serde_json::to_string_pretty(&out).unwrap()),
    }
    code
}
