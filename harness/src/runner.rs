//! Runs workloads in worker processes, watches them, aggregates what the monitors saw.

use crate::core::*;
use crate::{Workload, WORKLOADS};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

fn workloads(prop: &str) -> Vec<&'static Workload> {
    let only = std::env::var("MON_ONLY").ok();
    WORKLOADS.iter().filter(|w| w.prop == prop && only.as_ref().map_or(true, |o| w.name == o)).collect()
}

pub fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d)
}

pub fn main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("run") if args.len() >= 4 => run(&args[2], &args[3]),
        Some("work") if args.len() == 3 => work(&args[2]),
        Some("replay") if args.len() >= 3 => replay(&args[2]),
        Some("stages") if args.len() >= 3 => crate::stages::run(&args[2]),
        Some("alone") if args.len() >= 4 => crate::apart::alone(&args[2], args[3].parse().expect("seed")),
        Some("fault") if args.len() >= 3 => crate::stages::fault(&args[2]),
        Some("list") => {
            for w in WORKLOADS {
                println!("{} {}", w.prop, w.name);
            }
            0
        }
        _ => {
            eprintln!("usage: mon run PROP quick|thorough | mon replay FILE | mon list");
            2
        }
    }
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("MON_ROOT").unwrap_or_else(|_| "/verif".into()))
}

/// (property, id, what fails) of the findings that are recorded and not repaired.
pub fn known_findings() -> &'static [(String, String, String)] {
    static LIST: std::sync::OnceLock<Vec<(String, String, String)>> = std::sync::OnceLock::new();
    LIST.get_or_init(|| {
        let text = std::fs::read_to_string(root().join("KNOWN_FINDINGS")).unwrap_or_default();
        text.lines()
            .filter_map(|l| {
                let l = l.strip_prefix("known: property=")?;
                let (prop, l) = l.split_once(" id=")?;
                let (id, what) = l.split_once(' ')?;
                Some((prop.into(), id.into(), what.into()))
            })
            .collect()
    })
}

// ------------------------------------------------------------------ worker

/// What a worker is told to do.
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug)]
pub struct Job {
    pub prop: String,
    pub workload: String,
    pub seed: u64,
    pub worker: u64,
    pub workers: u64,
    pub count: u64,
    pub deadline_s: u64,
    pub thorough: bool,
    /// only what concerns memory counts
    #[serde(default)]
    pub memory: bool,
    pub dir: String,
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);

/// Tell the watchdog the case is making progress (e.g. finished one step of a scenario).
pub fn progress() {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
}

fn find(prop: &str, name: &str) -> &'static Workload {
    WORKLOADS.iter().find(|w| w.prop == prop && w.name == name).expect("no such workload")
}

fn thread_cpu_ns(clock: libc::clockid_t) -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(clock, &mut ts);
        ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
    }
}

/// One case, on a thread of its own when the workload asks for it, under the watchdog.
pub fn one(w: &'static Workload, c: &mut Case, seed: u64) -> Verdict {
    if !w.sim {
        return run_case(w.f, c, seed);
    }
    let mut moved = std::mem::take(c);
    let h = std::thread::Builder::new()
        .name("scenario".into())
        .stack_size(if sanitized() { 64 << 20 } else { 16 << 20 })
        .spawn(move || {
            init_select_rng();
            watch_me();
            let r = run_case(w.f, &mut moved, seed);
            WATCH.store(0, Ordering::SeqCst);
            (moved, r)
        })
        .unwrap();
    match h.join() {
        Ok((m, r)) => {
            *c = m;
            r
        }
        Err(_) => Err(Fail::Inconclusive("scenario thread died".into())),
    }
}

/// `select!` seeds a thread-local generator from a global counter at its first use on a thread;
/// forcing that here makes the k-th scenario thread of a process always get the k-th seed.
pub fn init_select_rng() {
    futures::executor::block_on(async {
        let a = futures::future::ready(1);
        let b = futures::future::ready(2);
        futures::pin_mut!(a, b);
        futures::select! { _ = a => (), _ = b => () }
    });
}

/// pthread id of the thread under watch (0: none)
static WATCH: AtomicU64 = AtomicU64::new(0);

pub fn watch_me() {
    if !cfg!(miri) {
        WATCH.store(unsafe { libc::pthread_self() } as u64, Ordering::SeqCst);
    }
}

/// Whether this is a build with a sanitizer, or interpreted.
pub fn sanitized() -> bool {
    cfg!(miri) || std::env::var_os("MON_SANITIZED").is_some()
}

pub const WEDGE_CPU_S: u64 = 60;
const IDLE_S: u64 = 30;

/// Watches the thread running cases: a case that burns CPU without progress is a wedge, one that
/// sleeps forever is a deadlock (nothing outside the thread could ever wake it).
fn watchdog(report: impl Fn(String, bool) + Send + 'static) {
    std::thread::Builder::new()
        .name("watchdog".into())
        .spawn(move || {
            let mut last = (0, 0);
            let mut cpu0 = 0;
            let mut cpu_prev = 0;
            let mut idle = 0;
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let t = WATCH.load(Ordering::SeqCst);
                if t == 0 {
                    last = (0, 0);
                    continue;
                }
                let cpu = unsafe {
                    let mut clk: libc::clockid_t = 0;
                    if libc::pthread_getcpuclockid(t as libc::pthread_t, &mut clk) != 0 {
                        continue;
                    }
                    thread_cpu_ns(clk)
                };
                let p = PROGRESS.load(Ordering::Relaxed);
                if (t, p) != last {
                    last = (t, p);
                    cpu0 = cpu;
                    cpu_prev = cpu;
                    idle = 0;
                    continue;
                }
                if cpu - cpu0 > WEDGE_CPU_S * 1_000_000_000 {
                    report(format!("no progress in {} s of CPU time: the library does not terminate", WEDGE_CPU_S), true);
                }
                if cpu - cpu_prev < 1_000_000 {
                    idle += 1;
                    if idle > IDLE_S * 2 {
                        report(format!("the scenario sleeps for {} s without anything that could wake it: deadlock", IDLE_S), true);
                    }
                } else {
                    idle = 0;
                }
                cpu_prev = cpu;
            }
        })
        .unwrap();
}

pub fn worker_paths(j: &Job) -> (PathBuf, PathBuf, PathBuf) {
    let d = Path::new(&j.dir);
    let base = format!("{}-{}-{}", j.prop, j.workload, j.worker);
    (d.join(format!("{}.json", base)), d.join(format!("{}.hashes", base)), d.join(format!("{}.status", base)))
}

fn work(job: &str) -> i32 {
    #[cfg(not(miri))]
    unsafe {
        // memory bugs of the library must not take the machine down
        if !sanitized() {
            let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
        }
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    if sanitized() {
        // frames are bigger there
        let job = job.to_string();
        return std::thread::Builder::new().stack_size(64 << 20).spawn(move || work_on(&job)).unwrap().join().unwrap_or(4);
    }
    work_on(job)
}

fn work_on(job: &str) -> i32 {
    let j: Job = serde_json::from_str(job).expect("job");
    install_panic_hook(false);
    log_setup();
    let w = find(&j.prop, &j.workload);
    let (out, hashes, status) = worker_paths(&j);
    let st = std::fs::File::create(&status).unwrap();
    let start = Instant::now();
    let mut c = Case::new(false);
    c.thorough = j.thorough;
    let mut done = 0u64;
    let mut i = j.worker;
    let out2 = out.clone();
    let j2 = j.clone();
    let threads = w.threads;
    let report = move |what: String, violation: bool| {
        let mut violation = violation && !j2.memory;
        if violation && j2.prop == "C28" && !crate::apart::to_blame() {
            violation = false;
        }
        let idx = CURRENT.load(Ordering::SeqCst);
        let fail = j2.prop != "C28" || violation;
        let mut v = json!({"fail": {"what": what, "violation": violation, "index": idx, "burn": idx / j2.workers * threads}, "evaluations": 0, "counters": {}, "samples": []});
        if !fail {
            // it hangs by itself as well, or what it shares the process with does
            v["fail"] = Value::Null;
            v["counters"] = json!({"hangs_that_have_another_cause": 1});
        }
        std::fs::write(&out2, v.to_string()).unwrap();
        unsafe { libc::_exit(3) };
    };
    if !cfg!(miri) {
        watchdog(report);
    }
    let mut fail = Value::Null;
    while i < j.count {
        if i % 64 == j.worker % 64 && start.elapsed().as_secs() >= j.deadline_s {
            c.count("stopped_at_deadline");
            break;
        }
        if (w.sim || sanitized()) && start.elapsed().as_secs() >= j.deadline_s {
            c.count("stopped_at_deadline");
            break;
        }
        CURRENT.store(i, Ordering::SeqCst);
        {
            use std::os::unix::fs::FileExt;
            let _ = st.write_at(&i.to_le_bytes(), 0);
        }
        if !w.sim {
            watch_me();
        }
        progress();
        let r = one(w, &mut c, case_seed(j.seed, &j.prop, &j.workload, i));
        done += 1;
        match r {
            Ok(()) => {}
            Err(Fail::Violation(s)) if j.memory && !s.starts_with(MEMORY) => {
                c.count("observations_about_other_properties");
                if c.samples.len() < 3 {
                    c.samples.push(format!("not about memory: {}", s.chars().take(300).collect::<String>()));
                }
            }
            Err(Fail::Inconclusive(_)) if j.memory => c.count("cases_without_an_answer"),
            Err(f) => {
                let (what, violation) = match f {
                    Fail::Violation(s) => (s, true),
                    Fail::Inconclusive(s) => (s, false),
                };
                fail = json!({"what": what, "violation": violation, "index": i, "burn": i / j.workers * w.threads});
                break;
            }
        }
        i += j.workers;
    }
    WATCH.store(0, Ordering::SeqCst);
    let mut hf = std::io::BufWriter::new(std::fs::File::create(&hashes).unwrap());
    for h in &c.distinct {
        hf.write_all(&h.to_le_bytes()).unwrap();
    }
    hf.flush().unwrap();
    let v = json!({
        "fail": fail, "evaluations": c.evaluations, "cases": done,
        "counters": c.counters, "samples": c.samples,
    });
    std::fs::write(&out, v.to_string()).unwrap();
    0
}

static CURRENT: AtomicU64 = AtomicU64::new(0);

// ------------------------------------------------------------------ logging

struct Sink;
thread_local! {
    static LOGGED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static LOGGING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

thread_local! {
    /// what a logger does besides
    pub static LOG_GUEST: std::cell::RefCell<Option<Box<dyn FnOnce() + Send>>> = const { std::cell::RefCell::new(None) };
}

/// Whether log records of the library are formatted on this thread.
pub fn set_logging(on: bool) {
    LOGGING.with(|l| l.set(on))
}
pub fn logging() -> bool {
    LOGGING.with(|l| l.get())
}
pub fn logged() -> u64 {
    LOGGED.with(|l| l.get())
}

struct Counter(u64);
impl std::fmt::Write for Counter {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}

impl log::Log for Sink {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.target().starts_with("socket_io") && LOGGING.with(|l| l.get())
    }
    fn log(&self, r: &log::Record) {
        if self.enabled(r.metadata()) {
            use std::fmt::Write;
            let guest = LOG_GUEST.with(|g| g.borrow_mut().take());
            if let Some(g) = guest {
                g();
            }
            let mut c = Counter(0);
            // a formatting error of an argument makes real loggers (println) panic
            c.write_fmt(*r.args()).expect("observed: a log record of the library could not be formatted");
            LOGGED.with(|l| l.set(l.get() + 1));
            if std::env::var_os("MON_LOG").is_some() {
                eprintln!("[{}] {}", r.target(), r.args());
            }
        }
    }
    fn flush(&self) {}
}

pub fn log_setup() {
    log::set_logger(&Sink).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
}

// ------------------------------------------------------------------ parent

struct Outcome {
    violation: Option<(String, Value)>,
    error: Option<String>,
}

fn run(prop: &str, tier: &str) -> i32 {
    let seed = env_u64("VERIF_SEED", 1);
    let workers = env_u64("MON_WORKERS", 8).max(1);
    let thorough = tier == "thorough";
    let scale = env_u64("MON_SCALE_PCT", 100);
    let total_s = env_u64("MON_SECONDS", if thorough { 3600 } else { 240 });
    let wls = workloads(prop);
    if wls.is_empty() {
        eprintln!("no workloads for {}", prop);
        return 2;
    }
    let start = Instant::now();
    let dir = root().join("work").join(format!("run-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut per: Vec<Value> = Vec::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut evaluations = 0;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut outcome = Outcome { violation: None, error: None };
    for w in &wls {
        let count = (if thorough { w.thorough } else { w.quick }) * scale / 100;
        let t0 = Instant::now();
        let share = (total_s / wls.len() as u64).max(5);
        let jobs: Vec<Job> = (0..workers)
            .map(|i| Job {
                prop: prop.into(),
                workload: w.name.into(),
                seed,
                worker: i,
                workers,
                count: count.max(1),
                deadline_s: share,
                thorough,
                memory: false,
                dir: dir.to_string_lossy().into(),
            })
            .collect();
        let mut kids: Vec<_> = jobs
            .iter()
            .map(|j| {
                Command::new(std::env::current_exe().unwrap())
                    .arg("work")
                    .arg(serde_json::to_string(j).unwrap())
                    .stdin(Stdio::null())
                    .stdout(Stdio::null())
                    .stderr(std::fs::File::create(dir.join(format!("{}-{}.err", w.name, j.worker))).unwrap())
                    .spawn()
                    .unwrap()
            })
            .collect();
        let mut wl_eval = 0;
        let mut wl_cases = 0;
        let mut wl_counters: BTreeMap<String, u64> = BTreeMap::new();
        let mut fails: Vec<Value> = Vec::new();
        for (j, k) in jobs.iter().zip(kids.iter_mut()) {
            let status = k.wait().unwrap();
            let (out, hashes, st) = worker_paths(j);
            let res: Option<Value> = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok());
            if let Some(v) = res {
                wl_eval += v["evaluations"].as_u64().unwrap_or(0);
                wl_cases += v["cases"].as_u64().unwrap_or(0);
                for (k, n) in v["counters"].as_object().into_iter().flatten() {
                    let n = n.as_u64().unwrap_or(0);
                    let e = wl_counters.entry(k.clone()).or_insert(0);
                    *e = if k.starts_with("max_") { (*e).max(n) } else { *e + n };
                }
                if j.worker == 0 {
                    for s in v["samples"].as_array().into_iter().flatten() {
                        if samples.len() < 40 {
                            samples.push(json!(format!("{}: {}", w.name, s.as_str().unwrap_or(""))));
                        }
                    }
                }
                if let Ok(b) = std::fs::read(&hashes) {
                    for h in b.chunks_exact(8) {
                        distinct.insert(u64::from_le_bytes(h.try_into().unwrap()));
                    }
                }
                if !v["fail"].is_null() {
                    fails.push(v["fail"].clone());
                }
            } else {
                // the worker died: by a signal of its own making it is the library's fault
                let idx = std::fs::read(&st).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0);
                let err = std::fs::read_to_string(dir.join(format!("{}-{}.err", w.name, j.worker))).unwrap_or_default();
                let tail: String = err.chars().rev().take(2500).collect::<Vec<_>>().into_iter().rev().collect();
                let sig = status.signal();
                let san = err.contains("Sanitizer");
                let violation = san || matches!(sig, Some(libc::SIGSEGV) | Some(libc::SIGABRT) | Some(libc::SIGBUS) | Some(libc::SIGILL) | Some(libc::SIGFPE));
                fails.push(json!({
                    "what": format!("worker died with {:?} (signal {:?}): {}", status.code(), sig, tail),
                    "violation": violation, "index": idx, "burn": idx / workers * w.threads,
                }));
            }
        }
        evaluations += wl_eval;
        per.push(json!({
            "workload": w.name, "cases": wl_cases, "evaluations": wl_eval, "requested": count,
            "wall_s": t0.elapsed().as_secs_f64(), "observed": wl_counters,
        }));
        for (k, n) in wl_counters {
            let e = counters.entry(format!("{}.{}", w.name, k)).or_insert(0);
            *e += n;
        }
        fails.sort_by_key(|f| f["index"].as_u64());
        // a violation takes precedence over whatever else went wrong
        if let Some(f) = fails.iter().find(|f| f["violation"] == json!(true)) {
            let r = json!({"property": prop, "workload": w.name, "seed": seed, "index": f["index"], "burn": f["burn"], "thorough": thorough, "what": f["what"]});
            outcome.violation = Some((f["what"].as_str().unwrap_or("").into(), r));
            break;
        }
        if let Some(f) = fails.first() {
            outcome.error = Some(format!("{} case {}: {}", w.name, f["index"], f["what"].as_str().unwrap_or("")));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    for (p, id, what) in known_findings() {
        let n: u64 = counters.iter().filter(|(k, _)| k.ends_with(&format!(".{}{}", KNOWN, id))).map(|x| x.1).sum();
        if p == prop && n > 0 {
            println!("KNOWN-FINDING: property={} {} ({} times)", p, what, n);
        }
    }
    let mut verdict = "held on everything observed".to_string();
    let mut code = 0;
    let mut replay_path = None;
    if let Some((what, r)) = &outcome.violation {
        let p = root().join("work").join("replay");
        std::fs::create_dir_all(&p).unwrap();
        let f = p.join(format!("{}-{}-{}.json", prop, r["workload"].as_str().unwrap(), r["index"]));
        std::fs::write(&f, serde_json::to_string_pretty(r).unwrap()).unwrap();
        println!("{}", what);
        println!("VIOLATION property={} replay={}", prop, f.display());
        verdict = format!("violated: {}", what);
        replay_path = Some(f);
        code = 1;
    } else if let Some(e) = &outcome.error {
        println!("NO ANSWER property={}: {}", prop, e);
        verdict = format!("no answer: {}", e);
        code = 2;
    }
    // extra observations by the caller (e.g. a sanitizer run) are merged by run.sh
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct.len(),
            "rule": crate::RULES.iter().find(|r| r.0 == prop).map(|r| r.1).unwrap_or(""),
            "samples": samples, "observed": per,
        },
        "verdict": verdict, "replay": replay_path, "violations": if code == 1 { 1 } else { 0 },
        "workers": workers, "wall_s": start.elapsed().as_secs_f64(),
    });
    let evdir = root().join("evidence");
    std::fs::create_dir_all(&evdir).unwrap();
    let suffix = std::env::var("MON_EVIDENCE").unwrap_or_else(|_| format!("{}.json", prop));
    std::fs::write(evdir.join(suffix), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} {}: {} evaluations, {} distinct non-trivial, {:.1} s: {}",
        prop,
        tier,
        evaluations,
        distinct.len(),
        start.elapsed().as_secs_f64(),
        verdict.chars().take(300).collect::<String>()
    );
    if std::env::var_os("MON_SHOW").is_some() {
        for p in &per {
            println!("{}", serde_json::to_string_pretty(p).unwrap());
        }
    }
    code
}

fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("json");
    if std::env::var_os("MON_STAGE").is_none() {
        if let Some(stage) = v["stage"].as_str() {
            return crate::stages::replay(stage, file);
        }
    }
    let memory = v["stage"].is_string();
    let prop = v["of"].as_str().or(v["property"].as_str()).unwrap();
    let w = find(prop, v["workload"].as_str().unwrap());
    install_panic_hook(true);
    log_setup();
    let idx = v["index"].as_u64().unwrap();
    println!("replaying {} {} case {}", prop, w.name, idx);
    if w.sim {
        for _ in 0..v["burn"].as_u64().unwrap_or(0) {
            std::thread::spawn(init_select_rng).join().unwrap();
        }
    } else {
        watch_me();
    }
    if !cfg!(miri) {
        watchdog(|what, _| {
            println!("{}", what);
            unsafe { libc::_exit(1) };
        });
    }
    let mut c = Case::new(std::env::var_os("MON_QUIET").is_none());
    c.thorough = v["thorough"].as_bool().unwrap_or(false);
    let seed = case_seed(v["seed"].as_u64().unwrap(), prop, w.name, idx);
    // the schedule of real threads is not ours: try it again
    let tries = if w.stress { 400 } else { 1 };
    for i in 0..tries {
        c.verbose = c.verbose && tries == 1;
        match one(w, &mut c, seed) {
            Ok(()) => {}
            Err(Fail::Violation(s)) if memory && !s.starts_with(MEMORY) => println!("not about memory: {}", s),
            Err(Fail::Violation(s)) => {
                println!("{}\nVIOLATION property={} replay={} (run {} of {})", s, v["property"].as_str().unwrap(), file, i + 1, tries);
                return 1;
            }
            Err(Fail::Inconclusive(s)) => {
                println!("no answer: {}", s);
                return 2;
            }
        }
    }
    println!("the property held");
    0
}
