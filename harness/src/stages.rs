//! Memory (C25): every workload of every property again, under the sanitizers and the interpreter, where
//! only what concerns memory counts.

use crate::core::*;
use crate::runner::{env_u64, root, worker_paths, Job};
use crate::{Workload, WORKLOADS};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub const STAGES: &[&str] = &["plain", "asan", "msan", "tsan", "miri"];

const TARGET: &str = "x86_64-unknown-linux-gnu";

/// What the detector of each stage must find in a deliberate fault before its silence means anything.
fn faults(stage: &str) -> &'static [&'static str] {
    match stage {
        "plain" => &["leak"],
        "asan" => &["use-after-free", "overrun"],
        "msan" => &["uninitialised"],
        "tsan" => &["race"],
        _ => &["use-after-free", "uninitialised", "race"],
    }
}

/// A fault on purpose.
pub fn fault(kind: &str) -> i32 {
    use std::hint::black_box as id;
    match kind {
        "use-after-free" => unsafe {
            let v = vec![1u8; 100];
            let p = id(v.as_ptr());
            drop(id(v));
            println!("{}", id(*p.add(50)));
        },
        "overrun" => unsafe {
            let v = vec![1u8; 100];
            println!("{}", id(*id(v.as_ptr()).add(100)));
        },
        "uninitialised" => {
            let mut v: Vec<u8> = Vec::with_capacity(100);
            #[allow(clippy::uninit_vec)]
            unsafe {
                v.set_len(100)
            };
            if id(&v)[id(50)] > 7 {
                println!("big");
            }
        }
        "race" => {
            struct Cell(std::cell::UnsafeCell<u64>);
            unsafe impl Sync for Cell {}
            static C: Cell = Cell(std::cell::UnsafeCell::new(0));
            let t: Vec<_> = (0..2)
                .map(|_| {
                    std::thread::spawn(|| {
                        for _ in 0..20 {
                            unsafe { *C.0.get() += 1 };
                            std::thread::yield_now();
                        }
                    })
                })
                .collect();
            for t in t {
                t.join().unwrap();
            }
        }
        "leak" => {
            let before = crate::memory::live();
            std::mem::forget(id(vec![1u8; 100]));
            return if crate::memory::live() - before == 100 { 77 } else { 0 };
        }
        _ => return 2,
    }
    0
}

fn command(stage: &str, args: &[&str]) -> Command {
    let h = root().join("harness");
    let mut c;
    match stage {
        "plain" => c = Command::new(std::env::current_exe().unwrap()),
        "miri" => {
            c = Command::new("cargo");
            c.current_dir(&h).env("CARGO_TARGET_DIR", h.join("target-miri"));
            c.args(["+nightly", "miri", "run", "-q", "--offline", "--bin", "mon", "--"]);
            c.env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed={}", env_u64("VERIF_SEED", 1)));
            c.env("CARGO_NET_OFFLINE", "true");
        }
        _ => {
            c = Command::new(h.join(format!("target-{}", stage)).join(TARGET).join("debug/mon"));
            c.env("ASAN_OPTIONS", "exitcode=77:halt_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:hard_rss_limit_mb=3000");
            c.env("MSAN_OPTIONS", "exitcode=77:halt_on_error=1:allocator_may_return_null=1:hard_rss_limit_mb=3000");
            c.env("TSAN_OPTIONS", "exitcode=77:halt_on_error=1:allocator_may_return_null=1:second_deadlock_stack=1");
            c.env("MON_SANITIZED", "1");
        }
    }
    c.args(args).env("MON_STAGE", stage).env("RUST_BACKTRACE", "0").stdin(Stdio::null());
    c
}

/// Whether the end of a process tells of a fault in memory; `Err`: it tells nothing.
fn judge(stage: &str, status: std::process::ExitStatus, err: &str) -> Result<bool, String> {
    let sig = status.signal();
    if stage == "miri" {
        if err.contains("Undefined Behavior:") || err.contains("Data race detected") {
            return Ok(true);
        }
        return Err(format!("the interpreter ended with {:?} {:?}", status.code(), sig));
    }
    if err.contains("hard rss limit exhausted") || err.contains("out-of-memory") || err.contains("failed to allocate") || err.contains("memory allocation of") {
        return Err("out of memory".into());
    }
    if status.code() == Some(77) || err.contains("ERROR: AddressSanitizer") || err.contains("WARNING: MemorySanitizer") || err.contains("WARNING: ThreadSanitizer") {
        return Ok(true);
    }
    if err.contains("has overflowed its stack") {
        return Err("stack overflow".into());
    }
    match sig {
        Some(libc::SIGSEGV) | Some(libc::SIGABRT) | Some(libc::SIGBUS) | Some(libc::SIGILL) | Some(libc::SIGFPE) => Ok(true),
        _ => Err(format!("ended with {:?} {:?}", status.code(), sig)),
    }
}

/// (cases, workers)
fn share(stage: &str, w: &Workload, thorough: bool) -> Option<(u64, u64)> {
    if w.prop == "C27" {
        return None; // (about time)
    }
    let quick = w.quick;
    let n = match stage {
        "plain" => return if w.prop == "C25" { Some((if thorough { w.thorough } else { quick }, 8)) } else { None },
        "miri" => {
            // cases take seconds there, and whole sessions minutes: time is the limit
            let workers = match (w.prop, w.name) {
                ("C25", "brief") => 4,
                ("C25", "strings") => 3,
                ("C25", "threads") => 2,
                ("C25", _) | ("C03", "decode") | ("C14", "many") | (_, "long") | ("C24", _) => return None,
                (_, "eager") => return None,
                _ if w.sim && !thorough => return None,
                ("C04", _) | ("C05", "typed") | ("C06", _) | ("C10", _) => 1,
                _ if !thorough => return None,
                _ => 1,
            };
            return Some((if thorough { 100_000 } else { 400 }, workers));
        }
        "tsan" => {
            if w.prop == "C25" && w.stress {
                quick / 2
            } else if w.stress || w.threads > 1 {
                quick / 12
            } else if w.sim && w.name != "floods" && w.name != "many" && w.name != "long" && w.name != "steady" {
                quick / 300
            } else {
                return None;
            }
        }
        // half as fast as the other
        _ => match w.name {
            "steady" => 8,
            "many" | "long" => 4,
            "floods" => quick / 200,
            _ if w.stress || w.threads > 1 => quick / 20,
            _ if w.sim && w.quick > 20_000 => quick / if stage == "msan" { 100 } else { 40 },
            _ if w.sim => quick / if stage == "msan" { 60 } else { 30 },
            _ if w.prop == "C25" => quick / if stage == "msan" { 50 } else { 25 },
            _ => quick / if stage == "msan" { 200 } else { 100 },
        },
    };
    let n = n.max(4);
    Some((if thorough { n * 40 } else { n }, if n > 200 { 2 } else { 1 }))
}

struct Unit {
    stage: &'static str,
    w: &'static Workload,
    job: Job,
}

#[derive(Default)]
struct Seen {
    cases: u64,
    evaluations: u64,
    counters: BTreeMap<String, u64>,
    quiet: Vec<String>,
}

pub fn run(tier: &str) -> i32 {
    let thorough = tier == "thorough";
    let seed = env_u64("VERIF_SEED", 1);
    let start = Instant::now();
    let dir = root().join("work").join(format!("stages-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let only = std::env::var("MON_ONLY").ok();
    let wanted = std::env::var("MON_STAGES").ok();

    // the detectors first
    let mut alive: Vec<&'static str> = Vec::new();
    let mut detectors: BTreeMap<&str, Value> = BTreeMap::new();
    for s in STAGES {
        if wanted.as_ref().map_or(false, |w| !w.split(',').any(|x| x == *s)) {
            continue;
        }
        let mut ok = true;
        let mut notes = Vec::new();
        for f in faults(s) {
            match command(s, &["fault", f]).output() {
                Ok(o) => {
                    let err = String::from_utf8_lossy(&o.stderr).into_owned();
                    let found = !o.status.success() && judge(s, o.status, &err) == Ok(true);
                    let clean = command(s, &["list"]).output().map_or(false, |o| o.status.success());
                    if !found || !clean {
                        ok = false;
                        notes.push(format!("{}: not found ({:?}, runs at all: {}): {}", f, o.status, clean, err.chars().take(300).collect::<String>()));
                    } else {
                        notes.push(format!("{}: found", f));
                    }
                }
                Err(e) => {
                    ok = false;
                    notes.push(format!("{}: {}", f, e));
                }
            }
        }
        detectors.insert(s, json!({"usable": ok, "deliberate_faults": notes}));
        if ok {
            alive.push(s);
        }
    }

    let mut units: Vec<Unit> = Vec::new();
    for stage in alive.iter().copied() {
        for w in WORKLOADS {
            if only.as_ref().map_or(false, |o| *o != format!("{}/{}", w.prop, w.name)) {
                continue;
            }
            let Some((count, workers)) = share(stage, w, thorough) else { continue };
            let d = dir.join(stage);
            std::fs::create_dir_all(&d).unwrap();
            for worker in 0..workers {
                let job = Job {
                    prop: w.prop.into(),
                    workload: w.name.into(),
                    // other cases than those of the properties' own checks
                    seed: seed.wrapping_mul(1000).wrapping_add(STAGES.iter().position(|s| *s == stage).unwrap() as u64 + 1),
                    worker,
                    workers,
                    count,
                    deadline_s: env_u64("MON_SECONDS", if thorough { 600 } else if stage == "miri" { 40 } else { 30 }),
                    thorough,
                    memory: true,
                    dir: d.to_string_lossy().into(),
                };
                units.push(Unit { stage, w, job });
            }
        }
    }
    // the interpreter's take longest
    units.sort_by_key(|u| std::cmp::Reverse(STAGES.iter().position(|s| *s == u.stage)));

    let seen: Mutex<BTreeMap<(&str, String), Seen>> = Default::default();
    let distinct: Mutex<HashSet<u64>> = Default::default();
    let samples: Mutex<Vec<Value>> = Default::default();
    let bad: Mutex<Vec<(usize, Value)>> = Default::default();
    let stop = AtomicBool::new(false);
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..env_u64("MON_WORKERS", 8) {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= units.len() || stop.load(Ordering::SeqCst) {
                    return;
                }
                let u = &units[i];
                let t0 = Instant::now();
                let (v, status, err) = go(u);
                let mut seen = seen.lock().unwrap();
                let s = seen.entry((u.stage, format!("{}/{}", u.w.prop, u.w.name))).or_default();
                let e = s.counters.entry("wall_ms".into()).or_insert(0);
                *e += t0.elapsed().as_millis() as u64;
                if let Some(v) = &v {
                    s.cases += v["cases"].as_u64().unwrap_or(0);
                    s.evaluations += v["evaluations"].as_u64().unwrap_or(0);
                    for (k, n) in v["counters"].as_object().into_iter().flatten() {
                        let n = n.as_u64().unwrap_or(0);
                        let e = s.counters.entry(k.clone()).or_insert(0);
                        *e = if k.starts_with("max_") { (*e).max(n) } else { *e + n };
                    }
                    for x in v["samples"].as_array().into_iter().flatten().take(1) {
                        let mut p = samples.lock().unwrap();
                        if p.len() < 60 {
                            p.push(json!(format!("{} {}/{}: {}", u.stage, u.w.prop, u.w.name, x.as_str().unwrap_or(""))));
                        }
                    }
                    if let Ok(b) = std::fs::read(worker_paths(&u.job).1) {
                        let mut d = distinct.lock().unwrap();
                        for h in b.chunks_exact(8) {
                            d.insert(u64::from_le_bytes(h.try_into().unwrap()));
                        }
                    }
                }
                let idx = std::fs::read(worker_paths(&u.job).2)
                    .ok()
                    .filter(|b| b.len() == 8)
                    .map(|b| u64::from_le_bytes(b.try_into().unwrap()))
                    .unwrap_or(0);
                let mut violation = |what: String, index: u64| {
                    stop.store(true, Ordering::SeqCst);
                    bad.lock().unwrap().push((
                        i,
                        json!({"property": "C25", "of": u.w.prop, "stage": u.stage, "workload": u.w.name, "seed": u.job.seed,
                            "index": index, "burn": index / u.job.workers * u.w.threads, "thorough": thorough, "what": what}),
                    ));
                };
                match v.map(|v| v["fail"].clone()) {
                    // (a case that fails for another reason was counted and passed over)
                    Some(Value::Null) if status.success() => {}
                    Some(f) if f["violation"] == json!(true) => violation(f["what"].as_str().unwrap_or("").into(), f["index"].as_u64().unwrap_or(0)),
                    Some(f) if f.is_object() => s.quiet.push(format!("case {}: {}", f["index"], f["what"])),
                    _ if status.signal() == Some(libc::SIGKILL) => {
                        s.cases += idx / u.job.workers;
                        s.quiet.push(format!("stopped in case {}, which takes too long here", idx))
                    }
                    _ => match judge(u.stage, status, &err) {
                        Ok(true) => violation(format!("{}{} of {} under {}: {}", MEMORY, u.w.name, u.w.prop, u.stage, excerpt(&err)), idx),
                        Ok(false) => {}
                        Err(e) => s.quiet.push(format!("case {}: {}: {}", idx, e, excerpt(&err))),
                    },
                }
            });
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
    let mut bad = bad.into_inner().unwrap();
    bad.sort_by_key(|b| b.0);
    let seen = seen.into_inner().unwrap();
    let evaluations: u64 = seen.values().map(|s| s.evaluations).sum();
    let distinct = distinct.into_inner().unwrap().len();
    let mut verdict = "held on everything observed".to_string();
    let mut code = 0;
    let mut replay = None;
    if let Some((_, r)) = bad.first() {
        let p = root().join("work").join("replay");
        std::fs::create_dir_all(&p).unwrap();
        let f = p.join(format!("C25-{}-{}-{}-{}.json", r["stage"].as_str().unwrap(), r["of"].as_str().unwrap(), r["workload"].as_str().unwrap(), r["index"]));
        std::fs::write(&f, serde_json::to_string_pretty(r).unwrap()).unwrap();
        let what = r["what"].as_str().unwrap();
        println!("{}", what);
        println!("VIOLATION property=C25 replay={}", f.display());
        verdict = format!("violated: {}", what);
        replay = Some(f);
        code = 1;
    } else if !alive.contains(&"plain") {
        println!("NO ANSWER property=C25: {}", json!(detectors));
        verdict = "no answer".into();
        code = 2;
    }
    let per: Vec<Value> = seen
        .iter()
        .map(|((stage, w), s)| json!({"stage": stage, "workload": w, "cases": s.cases, "evaluations": s.evaluations, "observed": s.counters, "without_an_answer": s.quiet}))
        .collect();
    let mut totals: BTreeMap<&str, (u64, u64)> = BTreeMap::new();
    for ((stage, _), s) in &seen {
        let t = totals.entry(stage).or_default();
        t.0 += s.cases;
        t.1 += s.counters["wall_ms"];
    }
    let ev = json!({
        "property": "C25", "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct,
            "rule": crate::RULES.iter().find(|r| r.0 == "C25").map(|r| r.1).unwrap_or(""),
            "samples": samples.into_inner().unwrap(), "detectors": detectors, "observed": per,
            "cases_per_stage": totals.iter().map(|(k, v)| (k.to_string(), v.0)).collect::<BTreeMap<_, _>>(),
        },
        "verdict": verdict, "replay": replay, "violations": if code == 1 { 1 } else { 0 },
        "workers": 8, "wall_s": start.elapsed().as_secs_f64(),
    });
    let evdir = root().join("evidence");
    std::fs::create_dir_all(&evdir).unwrap();
    std::fs::write(evdir.join("C25.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "C25 {}: {} evaluations, {} distinct non-trivial, {:.1} s ({}): {}",
        tier,
        evaluations,
        distinct,
        start.elapsed().as_secs_f64(),
        totals.iter().map(|(k, v)| format!("{}: {} cases, {} s of a core", k, v.0, v.1 / 1000)).collect::<Vec<_>>().join("; "),
        verdict.chars().take(300).collect::<String>()
    );
    for (k, v) in &detectors {
        if v["usable"] != json!(true) {
            println!("not usable here: {} {}", k, v);
        }
    }
    if std::env::var_os("MON_SHOW").is_some() {
        for p in &per {
            println!("{}", p);
        }
    }
    code
}

fn excerpt(err: &str) -> String {
    let from = ["ERROR: AddressSanitizer", "WARNING: MemorySanitizer", "WARNING: ThreadSanitizer", "error: Undefined Behavior", "error:"]
        .iter()
        .filter_map(|m| err.find(m))
        .next()
        .unwrap_or(0);
    err[from..].chars().take(2500).collect()
}

fn go(u: &Unit) -> (Option<Value>, std::process::ExitStatus, String) {
    let (out, _, _) = worker_paths(&u.job);
    let errf = out.with_extension("err");
    let job = serde_json::to_string(&u.job).unwrap();
    let mut c = command(u.stage, &["work", &job]);
    c.stdout(Stdio::null()).stderr(std::fs::File::create(&errf).unwrap());
    let mut k = c.spawn().unwrap();
    // a worker that misses its deadline by far hangs, which is for other checks to say
    let limit = std::time::Duration::from_secs(u.job.deadline_s + if u.job.thorough { 600 } else if u.stage == "miri" { 60 } else { 180 });
    let t0 = Instant::now();
    let status = loop {
        match k.try_wait().unwrap() {
            Some(s) => break s,
            None if t0.elapsed() > limit => {
                let _ = k.kill();
                break k.wait().unwrap();
            }
            None => std::thread::sleep(std::time::Duration::from_millis(5)),
        }
    };
    let err = std::fs::read(&errf).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    let v = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok());
    (v, status, err)
}

/// Run one recorded case again in its stage.
pub fn replay(stage: &str, file: &str) -> i32 {
    let file: PathBuf = Path::new(file).canonicalize().unwrap();
    let o = command(stage, &["replay", file.to_str().unwrap()]).env("MON_QUIET", "1").output().unwrap();
    let (out, err) = (String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned());
    print!("{}", out);
    if out.contains("VIOLATION property=") {
        return 1;
    }
    eprint!("{}", err);
    if !o.status.success() && judge(stage, o.status, &err) == Ok(true) {
        println!("VIOLATION property=C25 replay={}", file.display());
        return 1;
    }
    o.status.code().unwrap_or(2)
}
