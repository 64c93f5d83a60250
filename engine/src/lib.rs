//! Property-based testing engine: choice-tape generator, deterministic sharded runner, tape shrinking,
//! JSON replay files, evidence files, known-findings handling.
//!
//! Every run is a pure function of (code under test, VERIF_SEED, tier): the seed of case `i` of a family is
//! derived from (VERIF_SEED, property, family, i); case counts are fixed; no wall clock decides an outcome.
//! A case that burns CAP_CPU_SECS of processor time in its thread without finishing (the slowest takes a few
//! seconds on the unchanged tree) is reported as not terminating; a process in which nothing happens at all exits 3.

use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub mod lock {
    pub use std::sync::{Mutex, MutexGuard};
}

// ---------------------------------------------------------------------------------------------- randomness

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h)
}

/// Small deterministic generator used for derived data (bulk payloads are derived from a recorded seed, so
/// that they replay from the case).
#[derive(Clone)]
pub struct Rng64(pub u64);
impl Rng64 {
    pub fn new(seed: u64) -> Self {
        Rng64(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn u128(&mut self) -> u128 {
        ((self.next() as u128) << 64) | self.next() as u128
    }
}

/// Choice-tape source: every decision of a generator goes through `below`, is recorded, and can be replayed
/// or shrunk (smaller choices are simpler).
pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng64>,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { tape: vec![], pos: 0, rng: Some(Rng64::new(seed)), rec: vec![] }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { tape, pos: 0, rng: None, rec: vec![] }
    }
    /// Uniform in 0..n (n >= 1).
    pub fn below(&mut self, n: u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => r.below(n),
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n.saturating_sub(1))
            }
        };
        self.rec.push(v);
        v
    }
    pub fn u64(&mut self) -> u64 {
        let v = match &mut self.rng {
            Some(r) => r.next(),
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v
            }
        };
        self.rec.push(v);
        v
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn usize(&mut self, lo: usize, hi_incl: usize) -> usize {
        self.range(lo as u64, hi_incl as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability 1/n.
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == n - 1
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize].clone()
    }
    /// Weighted index; put the simplest alternative first.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    /// A k-bit value biased to boundaries.
    pub fn value(&mut self, k: usize) -> u128 {
        if k < 3 {
            return self.below(1 << k) as u128;
        }
        let mask = if k >= 128 { u128::MAX } else { (1u128 << k) - 1 };
        let v = match self.below(10) {
            0 => self.below(4) as u128,
            1 => mask - self.below(4) as u128,
            2 => (1u128 << (k - 1)).wrapping_sub(2).wrapping_add(self.below(5) as u128),
            3 => 1u128 << self.below(k as u64),
            4 => mask >> self.below(k as u64),
            _ => ((self.u64() as u128) << 64) | self.u64() as u128,
        };
        v & mask
    }
}

// ------------------------------------------------------------------------------------------------ outcomes

#[derive(Clone, Debug)]
pub struct Fail {
    /// Coarse class, stable while shrinking and used to match known findings.
    pub kind: String,
    pub msg: String,
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub fail: Option<Fail>,
    pub nontrivial: bool,
    /// Extra elementary evaluations inside this case (schedules, alterations, comparisons); 0 counts as 1.
    pub evals: u64,
    pub labels: Vec<String>,
}

impl Outcome {
    pub fn ok(nontrivial: bool) -> Self {
        Outcome { fail: None, nontrivial, evals: 1, labels: vec![] }
    }
    pub fn fail(kind: impl Into<String>, msg: impl Into<String>) -> Self {
        Outcome {
            fail: Some(Fail { kind: kind.into(), msg: msg.into() }),
            nontrivial: true,
            evals: 1,
            labels: vec![],
        }
    }
    pub fn label(mut self, l: impl Into<String>) -> Self {
        self.labels.push(l.into());
        self
    }
    pub fn evals(mut self, n: u64) -> Self {
        self.evals = n;
        self
    }
}

/// Makes `?` usable in checks.
pub type Check = Result<Outcome, Fail>;
pub fn fail<T>(kind: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { kind: kind.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $kind:expr, $($arg:tt)*) => {
        if !$c { return Err($crate::Fail { kind: ($kind).to_string(), msg: format!($($arg)*) }); }
    };
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
/// Location and message of the last panic caught on this thread.
pub fn take_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic (no message)".into())
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{loc}: {msg}")));
        if std::env::var_os("VF_PANIC_TRACE").is_some() {
            eprintln!("panic at {loc}: {msg}");
        }
    }));
}

// ------------------------------------------------------------------------------------------------ families

pub trait Family: Sync {
    fn name(&self) -> &str;
    fn cases(&self, tier: Tier) -> u64;
    fn rule(&self) -> &str;
    fn run_case(&self, seed: u64, idx: u64) -> CaseResult;
    fn case_json(&self, seed: u64, idx: u64) -> serde_json::Value;
    fn shrink(&self, seed: u64, idx: u64, kind: &str, budget: usize) -> Shrunk;
    fn replay(&self, json: &serde_json::Value) -> Result<Outcome, String>;
    /// Cases of this family use much memory or threads: run them one at a time.
    fn serial(&self) -> bool;
}

pub struct CaseResult {
    pub outcome: Outcome,
    pub hash: u64,
    pub debug: Option<String>,
}
pub struct Shrunk {
    pub case: serde_json::Value,
    pub fail: Fail,
    pub steps: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Fam<C> {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub serial: bool,
    pub gen: fn(&mut Src, u64) -> C,
    pub run: fn(&C) -> Check,
}

impl<C> Fam<C> {
    fn outcome(&self, c: &C) -> Outcome {
        let r = catch_unwind(AssertUnwindSafe(|| (self.run)(c)));
        match r {
            Ok(Ok(o)) => o,
            Ok(Err(f)) => Outcome { fail: Some(f), nontrivial: true, evals: 1, labels: vec![] },
            Err(_) => {
                let p = take_panic();
                Outcome::fail("panic", format!("panic: {p}"))
            }
        }
    }
}

impl<C: Serialize + DeserializeOwned + Debug + Clone> Family for Fam<C> {
    fn name(&self) -> &str {
        self.name
    }
    fn serial(&self) -> bool {
        self.serial
    }
    fn cases(&self, tier: Tier) -> u64 {
        let scale = std::env::var("VF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
        let n = match tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        ((n as f64) * scale).ceil() as u64
    }
    fn rule(&self) -> &str {
        self.rule
    }
    fn run_case(&self, seed: u64, idx: u64) -> CaseResult {
        let mut s = Src::random(seed);
        let case = (self.gen)(&mut s, idx);
        let outcome = self.outcome(&case);
        let dbg = format!("{case:?}");
        let hash = hash_str(&dbg);
        let debug = if idx < 2 || std::env::var("VF_TIMES").is_ok() || outcome.fail.is_some() { Some(dbg) } else { None };
        CaseResult { outcome, hash, debug }
    }
    fn case_json(&self, seed: u64, idx: u64) -> serde_json::Value {
        let mut s = Src::random(seed);
        serde_json::to_value((self.gen)(&mut s, idx)).unwrap_or(serde_json::Value::Null)
    }
    fn shrink(&self, seed: u64, idx: u64, kind: &str, budget: usize) -> Shrunk {
        let mut s = Src::random(seed);
        let case0 = (self.gen)(&mut s, idx);
        let mut best = s.rec;
        let f0 = self.outcome(&case0).fail.unwrap_or(Fail { kind: kind.into(), msg: "not reproduced".into() });
        let mut best_case = case0;
        let mut best_fail = f0;
        let mut runs = 0usize;
        let t0 = Instant::now();
        // budget: number of runs; the time stop only affects how small the reproduction gets, not the verdict
        let over = |runs: usize| runs >= budget || t0.elapsed().as_secs() > 40;
        let attempt = |tape: Vec<u64>, best: &mut Vec<u64>, best_case: &mut C, best_fail: &mut Fail, runs: &mut usize| -> bool {
            *runs += 1;
            let mut s = Src::replay(tape);
            let c = match catch_unwind(AssertUnwindSafe(|| (self.gen)(&mut s, idx))) {
                Ok(c) => c,
                Err(_) => return false,
            };
            let smaller = (s.rec.len(), &s.rec) < (best.len(), best);
            if !smaller {
                return false;
            }
            if let Some(f) = self.outcome(&c).fail {
                if f.kind == kind {
                    *best = s.rec;
                    *best_case = c;
                    *best_fail = f;
                    return true;
                }
            }
            false
        };
        let mut progress = true;
        while progress && !over(runs) {
            progress = false;
            // delete blocks
            let mut size = (best.len() / 2).max(1);
            while size >= 1 && !over(runs) {
                let mut i = 0;
                while i + size <= best.len() && !over(runs) {
                    let mut t = best.clone();
                    t.drain(i..i + size);
                    if attempt(t, &mut best, &mut best_case, &mut best_fail, &mut runs) {
                        progress = true;
                    } else {
                        i += size;
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            // zero / reduce values
            let mut i = 0;
            while i < best.len() && !over(runs) {
                if best[i] != 0 {
                    let orig = best[i];
                    for v in [0, 1, orig / 2, orig - 1] {
                        if v >= orig || i >= best.len() {
                            continue;
                        }
                        let mut t = best.clone();
                        t[i] = v;
                        if attempt(t, &mut best, &mut best_case, &mut best_fail, &mut runs) {
                            progress = true;
                            break;
                        }
                    }
                }
                i += 1;
            }
        }
        Shrunk {
            case: serde_json::to_value(&best_case).unwrap_or(serde_json::Value::Null),
            fail: best_fail,
            steps: runs,
        }
    }
    fn replay(&self, json: &serde_json::Value) -> Result<Outcome, String> {
        let c: C = serde_json::from_value(json.clone()).map_err(|e| e.to_string())?;
        Ok(self.outcome(&c))
    }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub families: Vec<Box<dyn Family>>,
    pub assumptions: Vec<&'static str>,
}

// ------------------------------------------------------------------------------------------- known findings

/// `known_findings.txt`: lines `finding: property=<id> family=<family> kind=<kind> <what fails>` suppress exactly
/// that (property, family, kind); `fixed:` lines are records and suppress nothing.
fn load_known(root: &std::path::Path, id: &str) -> Vec<(String, String, String)> {
    let mut out = vec![];
    if let Ok(t) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for l in t.lines() {
            let Some(rest) = l.strip_prefix("finding: ") else { continue };
            let mut p = rest.splitn(4, ' ');
            let prop = p.next().and_then(|x| x.strip_prefix("property="));
            let fam = p.next().and_then(|x| x.strip_prefix("family="));
            let kind = p.next().and_then(|x| x.strip_prefix("kind="));
            let what = p.next().unwrap_or("");
            if let (Some(pr), Some(f), Some(k)) = (prop, fam, kind) {
                if pr == id {
                    out.push((f.to_string(), k.to_string(), what.to_string()));
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------- main driver

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

struct FamStats {
    evals: u64,
    cases: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    fails: Vec<(u64, Fail)>,
}

pub fn main_with(props: Vec<Prop>) -> ! {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.first().map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "list" => {
            for p in &props {
                for f in &p.families {
                    println!("{} {} quick={} thorough={}", p.id, f.name(), f.cases(Tier::Quick), f.cases(Tier::Thorough));
                }
            }
            std::process::exit(0)
        }
        "replay" => {
            let txt = std::fs::read_to_string(&args[1]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&txt).expect("replay json");
            let pid = v["property"].as_str().unwrap_or("");
            let fam = v["family"].as_str().unwrap_or("");
            let p = props.iter().find(|p| p.id == pid).expect("property in this binary");
            let f = p.families.iter().find(|f| f.name() == fam).expect("family");
            let o = big_stack(|| f.replay(&v["case"]).expect("case decodes"));
            match o.fail {
                Some(fl) => {
                    println!("reproduced kind={} {}", fl.kind, fl.msg);
                    println!("VIOLATION property={} replay={}", pid, args[1]);
                    std::process::exit(1)
                }
                None => {
                    println!("not reproduced");
                    std::process::exit(0)
                }
            }
        }
        "check" => {
            let pid = &args[1];
            let only = args.get(2).map(|s| s.as_str());
            let p = match props.iter().find(|p| p.id == pid.as_str()) {
                Some(p) => p,
                None => {
                    eprintln!("unknown property {pid}");
                    std::process::exit(2)
                }
            };
            std::process::exit(run_prop(p, only))
        }
        _ => {
            eprintln!("usage: check <id> [family] | replay <file> | list");
            std::process::exit(2)
        }
    }
}

fn big_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, f)
            .expect("thread")
            .join()
            .expect("worker")
    })
}

fn run_prop(p: &Prop, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let threads: usize = std::env::var("VF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let known = load_known(&root(), p.id);
    let mut known_hit: HashSet<usize> = HashSet::new();
    let mut all: Vec<(String, FamStats)> = vec![];
    let mut violation = None;

    // watchdog: a stuck case is an error of the run (exit 3), never a verdict
    let progress = std::sync::Arc::new(AtomicU64::new(0));
    {
        let progress = progress.clone();
        let limit: u64 = std::env::var("VF_STUCK_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(400);
        std::thread::spawn(move || {
            let mut last = (0, Instant::now());
            loop {
                std::thread::sleep(std::time::Duration::from_secs(2));
                let v = progress.load(Ordering::Relaxed);
                if v != last.0 {
                    last = (v, Instant::now());
                } else if last.1.elapsed().as_secs() > limit {
                    eprintln!("ERROR: no case finished for {limit} s, giving up (inconclusive)");
                    std::process::exit(3);
                }
            }
        });
    }

    for fam in &p.families {
        if let Some(o) = only {
            if fam.name() != o {
                continue;
            }
        }
        let n = fam.cases(tier);
        let fseed = mix(seed ^ hash_str(p.id) ^ hash_str(fam.name()).rotate_left(17));
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let stats = Mutex::new(FamStats {
            evals: 0,
            cases: 0,
            nontrivial: HashSet::new(),
            labels: BTreeMap::new(),
            samples: vec![],
            fails: vec![],
        });
        let active = AtomicUsize::new(0);
        let slots: Vec<Mutex<Option<(u64, u64, u64)>>> = (0..threads.max(1)).map(|_| Mutex::new(None)).collect();
        let finished = AtomicUsize::new(0);
        let nthreads = if fam.serial() { 1 } else { threads };
        let ft0 = Instant::now();
        std::thread::scope(|s| {
            s.spawn(|| overseer(p, fam.as_ref(), seed, fseed, nthreads, &slots, &stats, &stop, &finished, &known));
            for w in 0..nthreads {
                let slot = &slots[w];
                let (stats, stop, next, progress, finished, known) = (&stats, &stop, &next, &progress, &finished, &known);
                active.fetch_add(1, Ordering::Relaxed);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                      let _done = CountOnDrop(finished);
                      let tid = own_tid();
                      loop {
                        // after a failure only lower indices could matter; they were all handed out already
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        let c0 = Instant::now();
                        *slot.lock().unwrap() = Some((i, tid, cpu_secs(tid)));
                        let r = fam.run_case(mix(fseed ^ mix(i)), i);
                        *slot.lock().unwrap() = None;
                        if std::env::var("VF_TIMES").is_ok() {
                            let d = r.debug.as_deref().unwrap_or("");
                            eprintln!("TIME {:.3} case {i} {:?} {:.6000}", c0.elapsed().as_secs_f64(), r.outcome.labels, d);
                        }
                        progress.fetch_add(1, Ordering::Relaxed);
                        let mut st = stats.lock().unwrap();
                        st.cases += 1;
                        st.evals += r.outcome.evals.max(1);
                        if r.outcome.nontrivial {
                            st.nontrivial.insert(r.hash);
                        }
                        for l in r.outcome.labels {
                            *st.labels.entry(l).or_insert(0) += 1;
                        }
                        if let Some(d) = r.debug {
                            if st.samples.len() < 3 {
                                let mut d = d;
                                if d.len() > 1200 {
                                    let mut cut = 1200;
                                    while !d.is_char_boundary(cut) {
                                        cut -= 1;
                                    }
                                    d.truncate(cut);
                                    d.push_str("...");
                                }
                                st.samples.push(d);
                            }
                        }
                        if let Some(f) = r.outcome.fail {
                            let is_known = known.iter().any(|(kf, kk, _)| kf == fam.name() && *kk == f.kind);
                            st.fails.push((i, f));
                            if !is_known {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                      }
                    })
                    .expect("spawn");
            }
        });
        let mut st = stats.into_inner().unwrap();
        st.fails.sort_by_key(|x| x.0);
        eprintln!(
            "[{}] {}: {} cases, {} evaluations, {} non-trivial, {} failures, {:.1}s {:?}",
            p.id, fam.name(), st.cases, st.evals, st.nontrivial.len(), st.fails.len(), ft0.elapsed().as_secs_f64(), st.labels
        );
        for (i, f) in &st.fails {
            if let Some(k) = known.iter().position(|(kf, kk, _)| kf == fam.name() && *kk == f.kind) {
                known_hit.insert(k);
            } else if violation.is_none() {
                violation = Some((fam.name().to_string(), *i, f.clone(), mix(fseed ^ mix(*i))));
            }
        }
        all.push((fam.name().to_string(), st));
        if violation.is_some() {
            break;
        }
    }

    let mut exit = 0;
    let mut nviol = 0;
    if let Some((fname, idx, f, cseed)) = &violation {
        let fam = p.families.iter().find(|x| x.name() == fname).unwrap();
        eprintln!("failure in {fname} case {idx}: {} - {}", f.kind, f.msg);
        let stop_progress = progress.clone();
        let done = AtomicBool::new(false);
        let sh = std::thread::scope(|s| {
            s.spawn(|| {
                let t = Instant::now();
                while !done.load(Ordering::Relaxed) {
                    stop_progress.fetch_add(1, Ordering::Relaxed);
                    std::thread::sleep(std::time::Duration::from_millis(500));
                    if t.elapsed().as_secs() > 120 {
                        // an attempt of the shrinker does not come back: report the case as found
                        emit(p.id, fname, seed, *idx, f, 0, &fam.case_json(*cseed, *idx));
                        std::process::exit(1);
                    }
                }
            });
            let r = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || fam.shrink(*cseed, *idx, &f.kind, 400))
                .unwrap()
                .join()
                .unwrap();
            done.store(true, Ordering::Relaxed);
            r
        });
        emit(p.id, fname, seed, *idx, &sh.fail, sh.steps, &sh.case);
        exit = 1;
        nviol = 1;
    }
    for (i, (_, _, what)) in known.iter().enumerate() {
        if known_hit.contains(&i) {
            println!("KNOWN-FINDING: property={} {}", p.id, what);
        }
    }

    // evidence
    let evals: u64 = all.iter().map(|x| x.1.evals).sum();
    let nontriv: usize = all.iter().map(|x| x.1.nontrivial.len()).sum();
    let mut rules = String::new();
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut fams = serde_json::Map::new();
    for (name, st) in &all {
        let f = p.families.iter().find(|x| x.name() == name).unwrap();
        rules.push_str(&format!("[{name}] {} ", f.rule()));
        for s in &st.samples {
            samples.push(serde_json::json!({"family": name, "case": s}));
        }
        fams.insert(
            name.clone(),
            serde_json::json!({"cases": st.cases, "evaluations": st.evals, "distinct_nontrivial": st.nontrivial.len(), "labels": st.labels}),
        );
    }
    let ev = serde_json::json!({
        "property": p.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": p.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nontriv,
            "rule": rules.trim(),
            "samples": samples,
            "families": fams,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": nviol,
    });
    if only.is_none() {
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    }
    exit
}

fn emit(id: &str, fname: &str, seed: u64, idx: u64, f: &Fail, steps: usize, case: &serde_json::Value) {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{:x}.json", id, fname, hash_str(&case.to_string()) & 0xffff_ffff));
    let doc = serde_json::json!({
        "property": id, "family": fname, "seed": seed, "case_index": idx, "kind": f.kind,
        "message": f.msg, "shrink_runs": steps, "case": case,
        "replay": format!("tools/run.sh replay <this file>")
    });
    std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("write replay");
    println!("{}: {} ({})", id, f.msg, f.kind);
    println!("VIOLATION property={} replay={}", id, path.display());
}

// ------------------------------------------------------------------------------------ cases that do not finish

struct CountOnDrop<'a>(&'a AtomicUsize);
impl Drop for CountOnDrop<'_> {
    fn drop(&mut self) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }
}

fn own_tid() -> u64 {
    std::fs::read_to_string("/proc/thread-self/stat").ok().and_then(|t| t.split(' ').next().and_then(|x| x.parse().ok())).unwrap_or(0)
}

/// Processor time the thread has used, in seconds.
fn cpu_secs(tid: u64) -> u64 {
    let Ok(t) = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) else { return 0 };
    let Some(p) = t.rfind(')') else { return 0 };
    let f: Vec<&str> = t[p + 1..].split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (n(11) + n(12)) / 100
}

const CAP_CPU_SECS: u64 = 300;

/// Ends the run when a case uses up its processor time, or when a violation was found and another case that was
/// under way does not come back.
#[allow(clippy::too_many_arguments)]
fn overseer(
    p: &Prop,
    fam: &dyn Family,
    seed: u64,
    fseed: u64,
    nthreads: usize,
    slots: &[Mutex<Option<(u64, u64, u64)>>],
    stats: &Mutex<FamStats>,
    stop: &AtomicBool,
    finished: &AtomicUsize,
    known: &[(String, String, String)],
) {
    let cap = std::env::var("VF_CPU_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(CAP_CPU_SECS);
    let mut stopped: Option<Instant> = None;
    let mut ticks = 0u64;
    while finished.load(Ordering::Relaxed) < nthreads {
        std::thread::sleep(std::time::Duration::from_millis(20));
        ticks += 1;
        if ticks % 50 != 0 {
            continue;
        }
        if stop.load(Ordering::Relaxed) {
            let t = *stopped.get_or_insert_with(Instant::now);
            if t.elapsed().as_secs() > 60 {
                let first = {
                    let st = stats.lock().unwrap();
                    st.fails
                        .iter()
                        .filter(|(_, f)| !known.iter().any(|(kf, kk, _)| kf == fam.name() && *kk == f.kind))
                        .min_by_key(|x| x.0)
                        .cloned()
                };
                if let Some((i, f)) = first {
                    emit(p.id, fam.name(), seed, i, &f, 0, &fam.case_json(mix(fseed ^ mix(i)), i));
                    std::process::exit(1);
                }
            }
        }
        for s in slots {
            let Some((i, tid, start)) = *s.lock().unwrap() else { continue };
            if cpu_secs(tid).saturating_sub(start) >= cap {
                let f = Fail { kind: "no-end".into(), msg: format!("case {i} has used {cap} s of processor time and has not finished") };
                if !known.iter().any(|(kf, kk, _)| kf == fam.name() && *kk == f.kind) {
                    emit(p.id, fam.name(), seed, i, &f, 0, &fam.case_json(mix(fseed ^ mix(i)), i));
                    std::process::exit(1);
                }
            }
        }
    }
}
