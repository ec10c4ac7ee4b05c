//! Case runner: seeds, verdicts, what the monitors observed, panics.

use crate::rng::{hash_str, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

/// Begins the names of the counters of known findings.
pub const KNOWN: &str = "known_finding: ";

#[derive(Debug)]
pub enum Fail {
    Violation(String),
    Inconclusive(String),
}

pub type Verdict = Result<(), Fail>;

impl Fail {
    pub fn v(s: impl Into<String>) -> Fail {
        Fail::Violation(s.into())
    }
    pub fn context(self, what: &str) -> Fail {
        let what: String = what.chars().take(1500).collect();
        match self {
            Fail::Violation(s) => Fail::Violation(format!("{} [{}]", s, what)),
            x => x,
        }
    }
}

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::core::Fail::Violation(format!($($t)*))) };
}

/// What a run observed.
#[derive(Default)]
pub struct Case {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub verbose: bool,
    pub thorough: bool,
    sample_every: u64,
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        mix(self.0, 77)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}

impl Case {
    pub fn new(verbose: bool) -> Case {
        Case { verbose, sample_every: 1, ..Default::default() }
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.counters.get_mut(k) {
            Some(x) => *x += n,
            None => {
                self.counters.insert(k.to_string(), n);
            }
        }
    }
    /// A failure that KNOWN_FINDINGS lists is counted and reported, but is not a violation.
    pub fn known(&mut self, prop: &str, id: &str) -> bool {
        let listed = crate::runner::known_findings().iter().any(|(p, i, _)| p == prop && i == id);
        if listed {
            self.count(&format!("{}{}", KNOWN, id));
        }
        listed
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// Register a case as evaluated; it is remembered as distinct when non-trivial.
    pub fn key<T: Hash>(&mut self, k: &T, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            let mut h = Fnv(0xcbf2_9ce4_8422_2325);
            k.hash(&mut h);
            self.distinct.insert(h.finish());
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        // keep the 1st, 2nd, 4th, 8th ... case
        if self.evaluations >= self.sample_every && self.samples.len() < 12 {
            self.sample_every *= 4;
            let s: String = f().chars().take(400).collect();
            self.samples.push(s);
        }
    }
    pub fn trace(&self, f: impl FnOnce() -> String) {
        if self.verbose {
            eprintln!("{}", f());
        }
    }
}

// ---------------------------------------------------------------- panics

#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub msg: String,
    pub location: String,
    pub thread: String,
}

static PANICS: Mutex<Vec<PanicInfo>> = Mutex::new(Vec::new());
static PANIC_COUNT: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static LAST: RefCell<Option<PanicInfo>> = RefCell::new(None);
}

/// Marker payload of panics raised on purpose by the workloads.
pub const DELIBERATE: &str = "deliberate panic of a callback";

pub fn install_panic_hook(verbose: bool) {
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if msg == DELIBERATE {
            return;
        }
        let location = info.location().map(|l| l.to_string()).unwrap_or_default();
        let pi = PanicInfo { msg, location, thread: format!("{:?}", std::thread::current().name()) };
        if verbose {
            eprintln!("panic: {:?}\n{}", pi, std::backtrace::Backtrace::force_capture());
        }
        PANIC_COUNT.fetch_add(1, Ordering::SeqCst);
        let _ = LAST.try_with(|l| *l.borrow_mut() = Some(pi.clone()));
        let mut p = PANICS.lock().unwrap_or_else(|e| e.into_inner());
        if p.len() < 100 {
            p.push(pi);
        }
    }));
}

/// The last panic of this thread, once.
pub fn last_panic() -> Option<PanicInfo> {
    LAST.try_with(|l| l.borrow_mut().take()).ok().flatten()
}

pub fn take_panics() -> Vec<PanicInfo> {
    std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner()))
}

/// Begins the message of panics of the harness that report something the library did.
pub const OBSERVED: &str = "observed: ";

/// A panic raised by harness code is an error of the harness unless it says otherwise, any other one
/// is the library's.
pub fn panic_fail(ps: &[PanicInfo]) -> Option<Fail> {
    let harness = |p: &PanicInfo| (p.location.starts_with("src/") || p.location.contains("/verif/")) && !p.msg.starts_with(OBSERVED);
    if let Some(p) = ps.iter().find(|p| !harness(p)) {
        return Some(Fail::Violation(format!("panic '{}' at {}", p.msg, p.location)));
    }
    ps.first().map(|p| Fail::Inconclusive(format!("harness panic '{}' at {}", p.msg, p.location)))
}

/// Begins the description of failures that concern memory itself.
pub const MEMORY: &str = "memory: ";

pub type CaseFn = fn(&mut Case, &mut Rng) -> Verdict;

pub fn case_seed(seed: u64, prop: &str, workload: &str, index: u64) -> u64 {
    mix(mix(hash_str(prop) ^ hash_str(workload).rotate_left(17), seed), index)
}

/// Run one case, turning panics into verdicts.
pub fn run_case(f: CaseFn, c: &mut Case, seed: u64) -> Verdict {
    take_panics();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(c, &mut Rng::new(seed))));
    let panics = take_panics();
    match r {
        Ok(Ok(())) => match panic_fail(&panics) {
            Some(f) => Err(f),
            None => Ok(()),
        },
        Ok(Err(e)) => match panics.first() {
            Some(p) => Err(match e {
                Fail::Violation(s) => Fail::Violation(format!("{}; also {:?}", s, p)),
                x => x,
            }),
            None => Err(e),
        },
        Err(_) => Err(panic_fail(&panics).unwrap_or_else(|| Fail::Inconclusive("panic without a record".into()))),
    }
}
