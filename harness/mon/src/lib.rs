//! Monitor runtime shared by every check: deterministic cases, verdicts,
//! evidence, replay files and known findings.
use std::{
    any::Any,
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Display,
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use rand::{rngs::StdRng, SeedableRng};
pub use rand;
pub use serde_json::{json, Value};

/// A refutation of the property by an observed execution.
#[derive(Debug, Clone)]
pub struct Viol {
    /// stable signature, the key for known findings
    pub sig: String,
    pub msg: String,
}

/// Why a case stopped early.
#[derive(Debug, Clone)]
pub enum Stop {
    Viol(Viol),
    /// harness problem: neither held nor violated
    Harness(String),
}
impl From<Viol> for Stop {
    fn from(v: Viol) -> Self {
        Stop::Viol(v)
    }
}
pub type CaseResult = Result<(), Stop>;

pub fn viol(sig: impl Into<String>, msg: impl Display) -> Stop {
    Stop::Viol(Viol { sig: sig.into(), msg: msg.to_string() })
}
pub fn harness(msg: impl Display) -> Stop {
    Stop::Harness(msg.to_string())
}

/// `check!(cond, "sig", "fmt", args..)`: the oracle says `cond` must hold.
#[macro_export]
macro_rules! check {
    ($c:expr, $sig:expr, $($arg:tt)*) => {
        if !($c) { return Err($crate::viol($sig, format!($($arg)*))); }
    };
}
#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err($crate::viol($sig, format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b))); }
    }};
}

thread_local! {
    static BLAMED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = payload_str(info.payload());
        if std::env::var_os("MON_BT").is_some() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        BLAMED.with(|b| b.set(loc.starts_with("/repo/") || (loc.starts_with('/') && called_by_repo())));
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}
/// Is the panic that is being reported inside a call made by the code under
/// test, to the standard library or another crate?
fn called_by_repo() -> bool {
    let bt = std::backtrace::Backtrace::force_capture().to_string();
    for line in bt.lines() {
        let line = line.trim();
        if let Some(at) = line.strip_prefix("at ") {
            // the innermost frame that is neither a dependency nor the runtime
            if at.starts_with("/repo/") {
                return true;
            }
            if ["check/src/", "refs/src/", "shadow/src/"].iter().any(|d| at.contains(d)) {
                return false;
            }
        }
    }
    false
}
fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}
pub fn last_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow().clone()).unwrap_or_default()
}

/// The last panic on this thread since the previous call.
pub fn take_panic() -> Option<(String, String)> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

/// Run code under test; a panic in it is returned as `Err(text)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = last_panic();
            Err(format!("panicked at {loc}: {msg}"))
        }
    }
}
/// Run code under test that must not panic; a panic is a violation.
pub fn total<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Stop> {
    guard(f).map_err(|e| viol(format!("abort:{what}"), format!("{what} {e}")))
}

pub struct Case {
    pub rng: StdRng,
    pub idx: u64,
    pub seed: u64,
    pub thorough: bool,
    pub replaying: bool,
    counts: BTreeMap<&'static str, u64>,
    keys: Vec<u64>,
    sample: Option<Value>,
    evals: u64,
    want_sample: bool,
    pub detail: Option<Value>,
}
impl Case {
    /// count an observed event
    pub fn count(&mut self, what: &'static str) {
        *self.counts.entry(what).or_default() += 1;
    }
    pub fn count_n(&mut self, what: &'static str, n: u64) {
        *self.counts.entry(what).or_default() += n;
    }
    /// record one evaluated non-trivial input by identity
    pub fn nontrivial(&mut self, key: impl Hash) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        key.hash(&mut h);
        self.keys.push(h.finish());
    }
    /// count `n` further oracle evaluations beyond the case itself
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// seconds after which a single case counts as not returning
pub const HANG_S: u64 = 150;

struct StreamStats {
    name: String,
    cases: u64,
    evals: u64,
    counts: BTreeMap<&'static str, u64>,
    keys: HashSet<u64>,
    samples: Vec<Value>,
    ended_by_budget: bool,
}

pub struct Run {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    level: &'static str,
    rule: String,
    start: Instant,
    budget: Duration,
    root: PathBuf,
    stats: Vec<StreamStats>,
    viols: Vec<(Viol, Value)>,
    known_hit: BTreeMap<String, String>,
    harness_errors: Vec<String>,
    known: Vec<(String, String, String)>,
    replay: Option<(String, u64)>,
    assumptions: Vec<String>,
    extra: BTreeMap<String, Value>,
    required: Vec<(String, u64)>,
    threads: usize,
    /// VERIF_SCALE: fraction of the usual counts (used for sanitizer runs)
    scale: f64,
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
pub fn case_rng(seed: u64, prop: &str, stream: &str, idx: u64) -> StdRng {
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    s[8..16].copy_from_slice(&fnv(prop).to_le_bytes());
    s[16..24].copy_from_slice(&fnv(stream).to_le_bytes());
    s[24..].copy_from_slice(&idx.to_le_bytes());
    StdRng::from_seed(s)
}

impl Run {
    pub fn from_env(prop: &str, level: &'static str, rule: &str) -> Run {
        install_panic_hook();
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
        let mut seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
        let mut tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let mut replay = None;
        if let Ok(path) = std::env::var("VERIF_REPLAY") {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&path).expect("replay file")).expect("replay json");
            seed = v["seed"].as_u64().unwrap();
            tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
            replay = Some((v["stream"].as_str().unwrap().to_string(), v["case"].as_u64().unwrap()));
        }
        let known = match std::fs::read_to_string(root.join("known_findings.json")) {
            Ok(s) => serde_json::from_str::<Value>(&s)
                .expect("known_findings.json")
                .get("known")
                .and_then(|k| k.as_array().cloned())
                .unwrap_or_default()
                .iter()
                .map(|k| {
                    (
                        k["property"].as_str().unwrap().to_string(),
                        k["signature"].as_str().unwrap().to_string(),
                        k["what"].as_str().unwrap().to_string(),
                    )
                })
                .filter(|k| k.0 == prop)
                .collect(),
            Err(_) => vec![],
        };
        let budget = match tier {
            Tier::Quick => 240,
            Tier::Thorough => 780,
        };
        Run {
            prop: prop.to_string(),
            seed,
            tier,
            level,
            rule: rule.to_string(),
            start: Instant::now(),
            budget: Duration::from_secs(budget),
            root,
            stats: vec![],
            viols: vec![],
            known_hit: BTreeMap::new(),
            harness_errors: vec![],
            known,
            replay,
            assumptions: vec![],
            extra: BTreeMap::new(),
            required: vec![],
            threads: std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
            scale: std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// quick count, thorough count
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough() { thorough } else { quick };
        ((n as f64 * self.scale) as u64).max(1)
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
    pub fn extra(&mut self, k: &str, v: Value) {
        self.extra.insert(k.into(), v);
    }
    /// the run is inconclusive unless event `what` was observed at least `min` times
    pub fn require(&mut self, what: &str, min: u64) {
        if self.scale == 1.0 {
            self.required.push((what.into(), min));
        }
    }
    pub fn set_threads(&mut self, n: usize) {
        self.threads = n;
    }

    /// Run `n` independent cases on all cores.
    pub fn stream(&mut self, name: &str, n: u64, f: impl Fn(&mut Case) -> CaseResult + Sync) {
        let only = match &self.replay {
            Some((s, i)) if s == name => Some(*i),
            Some(_) => return,
            None => None,
        };
        let replaying = only.is_some();
        let next = AtomicU64::new(only.unwrap_or(0));
        let end = only.map(|i| i + 1).unwrap_or(n);
        let stop = AtomicBool::new(false);
        let budget_hit = AtomicBool::new(false);
        let deadline = self.start + self.budget;
        type Out = (Vec<(u64, Stop, Option<Value>)>, StreamStats);
        let known: HashSet<String> = self.known.iter().map(|k| k.1.clone()).collect();
        let epoch = self.start;
        let worker = |slot: &(AtomicU64, AtomicU64)| -> Out {
            let mut fails = vec![];
            let mut st = StreamStats {
                name: name.into(),
                cases: 0,
                evals: 0,
                counts: BTreeMap::new(),
                keys: HashSet::new(),
                samples: vec![],
                ended_by_budget: false,
            };
            loop {
                if stop.load(Ordering::Relaxed) {
                    break;
                }
                if Instant::now() > deadline {
                    budget_hit.store(true, Ordering::Relaxed);
                    break;
                }
                let idx = next.fetch_add(1, Ordering::Relaxed);
                if idx >= end {
                    break;
                }
                let mut case = Case {
                    rng: case_rng(self.seed, &self.prop, name, idx),
                    idx,
                    seed: self.seed,
                    thorough: self.tier == Tier::Thorough,
                    replaying,
                    counts: BTreeMap::new(),
                    keys: vec![],
                    sample: None,
                    evals: 0,
                    want_sample: idx < 2,
                    detail: None,
                };
                slot.1.store(epoch.elapsed().as_secs(), Ordering::Relaxed);
                slot.0.store(idx, Ordering::Relaxed);
                let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
                slot.0.store(u64::MAX, Ordering::Relaxed);
                let r = match r {
                    Ok(r) => r,
                    Err(_) => {
                        let (loc, msg) = last_panic();
                        if BLAMED.with(|b| b.get()) {
                            Err(viol("abort", format!("code under test panicked at {loc}: {msg}")))
                        } else {
                            Err(harness(format!("harness panic at {loc}: {msg}")))
                        }
                    }
                };
                st.cases += 1;
                st.evals += 1 + case.evals;
                for (k, v) in case.counts {
                    *st.counts.entry(k).or_default() += v;
                }
                if st.keys.len() < 4_000_000 {
                    st.keys.extend(case.keys);
                }
                if let Some(s) = case.sample {
                    st.samples.push(s);
                }
                if let Err(e) = r {
                    let is_known = matches!(&e, Stop::Viol(v) if known.contains(&v.sig));
                    fails.push((idx, e, case.detail));
                    if !is_known && fails.len() >= 4 {
                        stop.store(true, Ordering::Relaxed);
                    }
                    if fails.len() >= 2000 {
                        break;
                    }
                }
            }
            (fails, st)
        };
        let slots: Vec<(AtomicU64, AtomicU64)> =
            (0..self.threads.max(1)).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
        let nthreads = if replaying { 1 } else { self.threads.min(end.max(1) as usize).max(1) };
        let outs: Vec<Out> = std::thread::scope(|s| {
            let worker = &worker;
            let hs: Vec<_> = slots
                .iter()
                .take(nthreads)
                .map(|slot| {
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || worker(slot)).unwrap()
                })
                .collect();
            // a case normally takes milliseconds: one that makes no progress for
            // HANG_S seconds is a call that does not return
            while hs.iter().any(|h| !h.is_finished()) {
                std::thread::sleep(Duration::from_millis(20));
                let now = epoch.elapsed().as_secs();
                for (i, t) in &slots {
                    let i = i.load(Ordering::Relaxed);
                    if i != u64::MAX && now.saturating_sub(t.load(Ordering::Relaxed)) > HANG_S {
                        self.hang(name, i);
                    }
                }
            }
            hs.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        let mut total = StreamStats {
            name: name.into(),
            cases: 0,
            evals: 0,
            counts: BTreeMap::new(),
            keys: HashSet::new(),
            samples: vec![],
            ended_by_budget: budget_hit.load(Ordering::Relaxed),
        };
        let mut fails = vec![];
        for (f, st) in outs {
            fails.extend(f);
            total.cases += st.cases;
            total.evals += st.evals;
            for (k, v) in st.counts {
                *total.counts.entry(k).or_default() += v;
            }
            total.keys.extend(st.keys);
            total.samples.extend(st.samples);
        }
        total.samples.truncate(3);
        fails.sort_by_key(|f| f.0);
        self.stats.push(total);
        for (idx, stop, detail) in fails {
            match stop {
                Stop::Harness(m) => self.harness_errors.push(format!("{name}#{idx}: {m}")),
                Stop::Viol(v) => {
                    if let Some(k) = self.known.iter().find(|k| k.1 == v.sig) {
                        self.known_hit.entry(v.sig.clone()).or_insert(k.2.clone());
                        continue;
                    }
                    let info = json!({"property": self.prop, "seed": self.seed,
                        "tier": if self.thorough() {"thorough"} else {"quick"},
                        "stream": name, "case": idx, "signature": v.sig, "message": v.msg, "detail": detail});
                    self.viols.push((v, info));
                }
            }
        }
    }

    /// A case does not return: report it and end the process.
    fn hang(&self, name: &str, idx: u64) -> ! {
        let dir = self.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-hang.json", self.prop));
        let info = json!({"property": self.prop, "seed": self.seed, "tier": if self.thorough() {"thorough"} else {"quick"},
            "stream": name, "case": idx, "signature": "hang", "message": format!("case did not return within {HANG_S} s")});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&info).unwrap());
        println!("VIOLATION property={} replay={}", self.prop, path.display());
        println!("  [hang] {name}#{idx} did not return within {HANG_S} s");
        std::process::exit(1);
    }

    /// Record a violation found outside `stream`.
    pub fn report(&mut self, stream: &str, idx: u64, v: Viol, detail: Value) {
        if let Some(k) = self.known.iter().find(|k| k.1 == v.sig) {
            self.known_hit.entry(v.sig.clone()).or_insert(k.2.clone());
            return;
        }
        let info = json!({"property": self.prop, "seed": self.seed, "tier": if self.thorough() {"thorough"} else {"quick"},
            "stream": stream, "case": idx, "signature": v.sig, "message": v.msg, "detail": detail});
        self.viols.push((v, info));
    }
    pub fn harness_error(&mut self, m: impl Display) {
        self.harness_errors.push(m.to_string());
    }

    /// Write evidence, print the verdict and return the exit status.
    pub fn finish(mut self) -> i32 {
        let mut counts: BTreeMap<String, u64> = BTreeMap::new();
        let mut evals = 0;
        let mut distinct = 0;
        let mut samples = vec![];
        let mut streams = vec![];
        for s in &self.stats {
            evals += s.evals;
            distinct += s.keys.len() as u64;
            for (k, v) in &s.counts {
                *counts.entry(k.to_string()).or_default() += v;
            }
            for x in &s.samples {
                samples.push(json!({"stream": s.name, "case": x}));
            }
            streams.push(json!({"stream": s.name, "cases": s.cases, "distinct_nontrivial": s.keys.len(), "ended_by_time_budget": s.ended_by_budget}));
        }
        samples.truncate(8);
        if self.replay.is_none() {
            for (w, min) in &self.required {
                let got = counts.get(w).copied().unwrap_or(0);
                if got < *min && self.viols.is_empty() {
                    self.harness_errors.push(format!("inconclusive: event '{w}' observed {got} times, need {min}"));
                }
            }
            for k in &self.known {
                if !self.known_hit.contains_key(&k.1) && self.viols.is_empty() {
                    eprintln!("note: known finding '{}' was not reproduced on this tree", k.1);
                }
            }
        }
        let wall = self.start.elapsed().as_secs_f64();
        let mut cov = json!({
            "evaluations": evals, "distinct_nontrivial": distinct, "rule": self.rule,
            "samples": samples, "events_observed": counts, "streams": streams,
            "known_findings_reproduced": self.known_hit.keys().collect::<Vec<_>>(),
        });
        for (k, v) in &self.extra {
            cov[k] = v.clone();
        }
        let ev = json!({
            "property": self.prop, "tier": if self.thorough() {"thorough"} else {"quick"},
            "seed": self.seed, "level": self.level, "coverage": cov,
            "assumptions": self.assumptions, "wall_s": (wall * 1000.0).round() / 1000.0,
            "violations": self.viols.len(),
        });
        if self.replay.is_none() {
            let dir = self.root.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            let mut ev = ev;
            if let Ok(t) = std::env::var("VERIF_BUILD_S") {
                ev["coverage"]["build_s"] = json!(t.parse::<f64>().unwrap_or(0.0));
            }
            std::fs::write(dir.join(format!("{}.json", self.prop)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        }
        for (sig, what) in &self.known_hit {
            println!("KNOWN-FINDING: property={} {} [{}]", self.prop, what, sig);
        }
        if !self.viols.is_empty() {
            let dir = self.root.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let mut seen = HashSet::new();
            let mut k = 0;
            for (v, info) in &self.viols {
                if !seen.insert(v.sig.clone()) || k >= 5 {
                    continue;
                }
                let path = dir.join(format!("{}-{}.json", self.prop, k));
                let _ = std::fs::write(&path, serde_json::to_string_pretty(info).unwrap());
                println!("VIOLATION property={} replay={}", self.prop, path.display());
                println!("  [{}] {}", v.sig, truncate(&v.msg, 1500));
                k += 1;
            }
            return 1;
        }
        if !self.harness_errors.is_empty() {
            for e in self.harness_errors.iter().take(10) {
                eprintln!("HARNESS-ERROR {}: {}", self.prop, truncate(e, 1500));
            }
            return 3;
        }
        println!("OK property={} evaluations={} distinct={} wall={:.1}s", self.prop, evals, distinct, wall);
        0
    }
}
pub fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n { s.to_string() } else { format!("{}…", s.chars().take(n).collect::<String>()) }
}

/// Shared flag helper for workloads run outside `stream`.
pub type Flag = Arc<Mutex<bool>>;
