//! Drives properties: sharded, seeded proptest runs, shrinking, replay, known findings, evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngSeed, TestCaseError, TestError, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

use crate::sim::{Fail, Res};

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub enum Mode {
    Check,
    /// run this case of this phase only
    Replay { phase: String, case: Value },
}

pub struct Env {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub root: PathBuf,
    pub mode: Mode,
    pub known: Vec<String>,
    pub only_phase: Option<String>,
    pub scale: f64,
    /// steps taken to make a failing case smaller, at most
    pub shrink: u32,
}

impl Env {
    /// Number of cases for this tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.tier == Tier::Quick { quick } else { thorough };
        ((n as f64 * self.scale) as u64).max(1)
    }
}

#[derive(Default)]
pub struct Obs {
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub known: BTreeSet<String>,
}

impl Obs {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn count(&mut self, l: &'static str, n: u64) {
        *self.labels.entry(l).or_insert(0) += n;
    }
    /// The case ran into a listed defect and was set aside.
    pub fn known(&mut self, sig: &str) {
        self.known.insert(sig.to_owned());
    }
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub labels: BTreeMap<String, u64>,
    pub phases: Vec<Value>,
    pub violation: Option<(String, PathBuf)>,
    pub harness_error: Option<String>,
    pub known_hits: BTreeSet<String>,
    pub rules: Vec<String>,
    pub exhaustive_notes: Vec<String>,
}

fn mix(parts: &[&str], seed: u64, shard: u64) -> u64 {
    // FNV-1a then splitmix: stable across runs and builds
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        for b in p.bytes().chain([0xff]) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    let mut z = h ^ seed.wrapping_mul(0x9E3779B97F4A7C15) ^ shard.wrapping_mul(0xD1B54A32D192ED03);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- watchdog

/// Code under test that uses this much CPU time in one call is looping.
const LOOP_CPU_S: f64 = 25.0;
/// ... and one that uses next to none for this many half seconds is blocked.
const BLOCKED_TICKS: u32 = 240;

struct Worker {
    clock: libc::clockid_t,
    seq: AtomicU64,
    busy: AtomicBool,
    replay: Mutex<String>,
}

static WORKERS: Mutex<Vec<Arc<Worker>>> = Mutex::new(Vec::new());
thread_local! {
    static ME: RefCell<Option<Arc<Worker>>> = RefCell::new(None);
}

fn me() -> Arc<Worker> {
    ME.with(|m| {
        m.borrow_mut()
            .get_or_insert_with(|| {
                let mut clock: libc::clockid_t = 0;
                unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
                let w = Arc::new(Worker {
                    clock,
                    seq: AtomicU64::new(0),
                    busy: AtomicBool::new(false),
                    replay: Mutex::new(String::new()),
                });
                let mut ws = WORKERS.lock().unwrap();
                ws.push(w.clone());
                INDEX.with(|i| i.set(ws.len()));
                w
            })
            .clone()
    })
}

pub fn watch_begin() -> bool {
    let w = me();
    w.seq.fetch_add(1, Ordering::SeqCst);
    !w.busy.swap(true, Ordering::SeqCst)
}

pub fn watch_end(outermost: bool) {
    if outermost {
        let w = me();
        w.busy.store(false, Ordering::SeqCst);
        w.seq.fetch_add(1, Ordering::SeqCst);
    }
}

fn cpu(clock: libc::clockid_t) -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(clock, &mut ts) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}

/// A quick check has to answer within 900 s, including building: no more cases are begun after this.
const ENOUGH_S: u64 = 600;
/// ... and whatever has been found by then is the answer.
const LAST_CALL_S: u64 = 780;

/// The first case that failed, for want of time to make it smaller.
static FAILED: Mutex<Option<(String, Value, String)>> = Mutex::new(None);
static STARTED: std::sync::OnceLock<(Instant, Tier)> = std::sync::OnceLock::new();

pub fn start_clock(tier: Tier) {
    let _ = STARTED.set((Instant::now(), tier));
}

fn later_than(s: u64) -> bool {
    STARTED.get().map_or(false, |(t, tier)| *tier == Tier::Quick && t.elapsed() > Duration::from_secs(s))
}

/// 1 + index of the worker that crashed in code under test.
static CRASHED: AtomicUsize = AtomicUsize::new(0);
static CRASH_SIGNAL: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static INDEX: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// A stack overflow, an abort (also for want of memory) or a wild access ends the process: the
/// thread stays here while the watchdog says which case it was.
extern "C" fn crashed(sig: libc::c_int) {
    CRASH_SIGNAL.store(sig as usize, Ordering::SeqCst);
    let i = INDEX.with(|i| i.get());
    if i == 0 || CRASHED.compare_exchange(0, i, Ordering::SeqCst, Ordering::SeqCst).is_err() {
        CRASHED.compare_exchange(0, usize::MAX, Ordering::SeqCst, Ordering::SeqCst).ok();
    }
    loop {
        unsafe { libc::pause() };
    }
}

fn catch_crashes() {
    unsafe {
        // Rust's own handler says "stack overflow" and aborts: only the abort is to be caught
        for sig in [libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = crashed as extern "C" fn(libc::c_int) as usize;
            a.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(sig, &a, std::ptr::null_mut());
        }
    }
}

pub fn start_watchdog(prop: &'static str, root: PathBuf) {
    catch_crashes();
    let r = root.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        let c = CRASHED.load(Ordering::SeqCst);
        if c == 0 {
            continue;
        }
        let sig = CRASH_SIGNAL.load(Ordering::SeqCst);
        let w = if c == usize::MAX { None } else { WORKERS.lock().unwrap().get(c - 1).cloned() };
        match w {
            Some(w) if w.busy.load(Ordering::SeqCst) => {
                let case = w.replay.lock().unwrap().clone();
                let v: Value = serde_json::from_str(&case).unwrap_or(Value::Null);
                let phase = v["phase"].as_str().unwrap_or("?").to_string();
                let msg = format!("the process died of signal {} in a call into the library (stack overflow, or abort)", sig);
                let path = write_replay(&r, prop, &phase, &v["case"], &msg);
                println!("  {}: {}", phase, msg);
                println!("VIOLATION property={} replay={}", prop, path.display());
                std::process::exit(1);
            }
            _ => {
                println!("ERROR: signal {}", sig);
                std::process::exit(2);
            }
        }
    });
    let r = root.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        if later_than(LAST_CALL_S) {
            match FAILED.lock().unwrap().take() {
                Some((phase, case, msg)) => {
                    let path = write_replay(&r, prop, &phase, &case, &msg);
                    println!("  {}: {}", phase, msg);
                    println!("VIOLATION property={} replay={}", prop, path.display());
                    std::process::exit(1);
                }
                None => {
                    println!("ERROR: no answer in {} s", LAST_CALL_S);
                    std::process::exit(2);
                }
            }
        }
    });
    std::thread::spawn(move || {
        let mut seen: BTreeMap<usize, (u64, f64, u32)> = BTreeMap::new();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let ws: Vec<Arc<Worker>> = WORKERS.lock().unwrap().clone();
            for (i, w) in ws.iter().enumerate() {
                if !w.busy.load(Ordering::SeqCst) {
                    seen.remove(&i);
                    continue;
                }
                let seq = w.seq.load(Ordering::SeqCst);
                let now = cpu(w.clock);
                match seen.get_mut(&i) {
                    Some((s, t, ticks)) if *s == seq => {
                        *ticks += 1;
                        // looping, or blocked: not even running
                        if now - *t > LOOP_CPU_S || (*ticks > BLOCKED_TICKS && now - *t < 1.0) {
                            let case = w.replay.lock().unwrap().clone();
                            let v: Value = serde_json::from_str(&case).unwrap_or(Value::Null);
                            let phase = v["phase"].as_str().unwrap_or("?").to_string();
                            let path = write_replay(
                                &root,
                                prop,
                                &phase,
                                &v["case"],
                                "one call into the library did not return (looping, or blocked)",
                            );
                            println!("  one call into the library did not return (looping, or blocked)");
                            println!("VIOLATION property={} replay={}", prop, path.display());
                            std::process::exit(1);
                        }
                    }
                    _ => {
                        seen.insert(i, (seq, now, 0));
                    }
                }
            }
        }
    });
}

/// Whether the application of the moment has logging enabled.
fn logging() -> bool {
    log::max_level() != log::LevelFilter::Off
}

pub fn set_logging(on: bool) {
    log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
}

fn write_replay(root: &PathBuf, prop: &str, phase: &str, case: &Value, msg: &str) -> PathBuf {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let body = json!({"property": prop, "phase": phase, "message": msg, "case": case, "logging": logging()});
    let text = serde_json::to_string_pretty(&body).unwrap();
    let path = dir.join(format!("{}-{}-{:016x}.json", prop, phase, hash_str(&case.to_string())));
    let _ = std::fs::write(&path, text);
    path
}

// ---------------------------------------------------------------- phases

const SHARDS: u64 = 16;

/// Runs one case; a panic of the harness itself is a harness failure.
fn run_case<C: Serialize>(phase: &str, c: &C, obs: &mut Obs, run: &(impl Fn(&C, &mut Obs) -> Res + Sync)) -> Res {
    *me().replay.lock().unwrap() = json!({"phase": phase, "case": c}).to_string();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(c, obs))) {
        Ok(r) => r,
        Err(p) => {
            let m = p
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| p.downcast_ref::<String>().cloned())
                .unwrap_or_default();
            Err(Fail::Harness(format!("harness panicked: {}", m)))
        }
    }
}

struct Found {
    shard: u64,
    logging: bool,
    original: Value,
    minimal: Value,
    message: String,
}

/// Verdicts that rest on the wall clock.
fn waited_in_vain(m: &str) -> bool {
    ["no progress", "stands still", "never connected", "never sent CONNECT", "is still refused", "stopped reading", "never finished"]
        .iter()
        .any(|x| m.contains(x))
}

/// One generated family of cases of a property. `rule` says how cases are made and which are
/// non-trivial; `run` decides one case.
pub fn phase<C>(
    env: &Env,
    rep: &mut Report,
    name: &'static str,
    rule: &str,
    cases: u64,
    strategy: impl Fn() -> BoxedStrategy<C> + Sync,
    run: impl Fn(&C, &mut Obs) -> Res + Sync,
) where
    C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static,
{
    if rep.violation.is_some() || rep.harness_error.is_some() {
        return;
    }
    if let Mode::Replay { phase, case } = &env.mode {
        if phase == name {
            let c: C = serde_json::from_value(case.clone()).expect("replay case");
            let mut obs = Obs::default();
            rep.evaluations += 1;
            let mut r = Ok(());
            for _ in 0..if name.starts_with("threads") { 30 } else { 3 } {
                r = run_case(name, &c, &mut obs, &run);
                if r.is_err() {
                    break;
                }
            }
            match r {
                Ok(()) => println!("replay: holds; labels {:?} known {:?}", obs.labels, obs.known),
                Err(Fail::Violation(m)) => {
                    println!("replay: {}", m);
                    rep.violation = Some((m.clone(), write_replay(&env.root, env.prop, name, case, &m)));
                }
                Err(Fail::Harness(m)) => rep.harness_error = Some(m),
            }
            rep.known_hits.extend(obs.known);
        }
        return;
    }
    if let Some(p) = &env.only_phase {
        if p != name {
            return;
        }
    }

    let t0 = Instant::now();
    let ev0 = rep.evaluations;
    let dn0 = rep.distinct.len();
    rep.rules.push(format!("{}: {}", name, rule));

    // saved failing inputs of the past first
    let dir = env.root.join("regress").join(env.prop);
    let mut files: Vec<PathBuf> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        let v: Value = match std::fs::read_to_string(&f).ok().and_then(|t| serde_json::from_str(&t).ok()) {
            Some(v) => v,
            None => continue,
        };
        if v["phase"].as_str() != Some(name) {
            continue;
        }
        let c: C = match serde_json::from_value(v["case"].clone()) {
            Ok(c) => c,
            Err(e) => {
                rep.harness_error = Some(format!("regression case {}: {}", f.display(), e));
                return;
            }
        };
        let mut obs = Obs::default();
        rep.evaluations += 1;
        *rep.labels.entry("saved regression cases".into()).or_insert(0) += 1;
        let r = run_case(name, &c, &mut obs, &run);
        rep.known_hits.extend(obs.known);
        match r {
            Ok(()) => {}
            Err(Fail::Violation(m)) => {
                let p = write_replay(&env.root, env.prop, name, &v["case"], &m);
                println!("  {}: saved case {}: {}", name, f.display(), m);
                rep.violation = Some((m, p));
                return;
            }
            Err(Fail::Harness(m)) => {
                rep.harness_error = Some(m);
                return;
            }
        }
    }

    let stop = AtomicBool::new(false);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    // cases that failed and then passed
    let once: Mutex<Vec<String>> = Mutex::new(vec![]);
    let threaded = name.starts_with("threads");
    let harness_err: Mutex<Option<String>> = Mutex::new(None);
    let merged: Mutex<&mut Report> = Mutex::new(rep);
    let shards = SHARDS.min(cases);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);

    // the second half with an application that has all logging enabled
    for (from, to) in [(0, (shards + 1) / 2), ((shards + 1) / 2, shards)] {
        if stop.load(Ordering::SeqCst) {
            break;
        }
        set_logging(from > 0);
        let next = AtomicUsize::new(from as usize);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                sc.spawn(|| loop {
                    let shard = next.fetch_add(1, Ordering::SeqCst) as u64;
                    if shard >= to || stop.load(Ordering::SeqCst) {
                        return;
                    }
                    let n = cases / shards + if shard < cases % shards { 1 } else { 0 };
                    let cfg = Config {
                        cases: n as u32,
                        failure_persistence: None,
                        rng_seed: RngSeed::Fixed(mix(&[env.prop, name], env.seed, shard)),
                        max_shrink_iters: env.shrink,
                        max_shrink_time: 40_000,
                        max_global_rejects: 1_000_000,
                        ..Config::default()
                    };
                    let mut runner = TestRunner::new(cfg);
                    let strat = strategy();
                    let local: RefCell<Report> = RefCell::new(Report::default());
                    let first: RefCell<Option<(Value, String)>> = RefCell::new(None);
                    let last_msg: RefCell<String> = RefCell::new(String::new());
                    let r = runner.run(&strat, |c: C| {
                        if first.borrow().is_none() && stop.load(Ordering::SeqCst) {
                            return Ok(());
                        }
                        if later_than(ENOUGH_S) {
                            local.borrow_mut().labels.entry(format!("{}/cases left out for want of time", name)).and_modify(|n| *n += 1).or_insert(1);
                            return Ok(());
                        }
                        let mut obs = Obs::default();
                        let mut r = run_case(name, &c, &mut obs, &run);
                        if first.borrow().is_none() && !threaded {
                            if let Err(Fail::Violation(m)) = &r {
                                // such a case is all but deterministic: what does not happen again is due to
                                // the machine, unless it keeps happening
                                let again = (0..3).find_map(|_| run_case(name, &c, &mut Obs::default(), &run).err());
                                if again.is_none() {
                                    let mut once = once.lock().unwrap();
                                    once.push(m.clone());
                                    if waited_in_vain(m) || once.iter().filter(|m| !waited_in_vain(m)).count() < 3 {
                                        r = Ok(());
                                    }
                                }
                            }
                        }
                        if first.borrow().is_none() {
                            let mut l = local.borrow_mut();
                            l.evaluations += 1;
                            for (k, v) in obs.labels {
                                *l.labels.entry(format!("{}/{}", name, k)).or_insert(0) += v;
                            }
                            l.known_hits.extend(obs.known);
                            if obs.nontrivial {
                                let j = serde_json::to_string(&c).unwrap_or_default();
                                let h = hash_str(&format!("{}:{}", name, j));
                                if l.distinct.insert(h) && l.samples.len() < 1 && shard < 2 && j.len() < 1500 {
                                    l.samples.push(json!({"phase": name, "case": serde_json::from_str::<Value>(&j).unwrap_or_default()}));
                                }
                            }
                        }
                        match r {
                            Ok(()) => Ok(()),
                            Err(Fail::Violation(m)) => {
                                let mut f = first.borrow_mut();
                                if f.is_none() {
                                    *f = Some((serde_json::to_value(&c).unwrap_or_default(), m.clone()));
                                    FAILED.lock().unwrap().get_or_insert_with(|| (name.into(), f.clone().unwrap().0, m.clone()));
                                    crate::sim::set_stall_ms(1000);
                                }
                                *last_msg.borrow_mut() = m.clone();
                                Err(TestCaseError::fail(m))
                            }
                            Err(Fail::Harness(m)) => {
                                *harness_err.lock().unwrap() = Some(m);
                                stop.store(true, Ordering::SeqCst);
                                Ok(())
                            }
                        }
                    });
                    match r {
                        Ok(()) => {}
                        Err(TestError::Fail(reason, c)) => {
                            stop.store(true, Ordering::SeqCst);
                            let (orig, _) = first.borrow().clone().unwrap();
                            let f = Found {
                                shard,
                                logging: from > 0,
                                original: orig,
                                minimal: serde_json::to_value(&c).unwrap_or_default(),
                                message: reason.message().to_string(),
                            };
                            let mut g = found.lock().unwrap();
                            if g.as_ref().map_or(true, |o| o.shard > shard) {
                                *g = Some(f);
                            }
                        }
                        Err(TestError::Abort(reason)) => {
                            *harness_err.lock().unwrap() = Some(format!("generator gave up: {}", reason.message()));
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                    let l = local.into_inner();
                    let mut m = merged.lock().unwrap();
                    m.evaluations += l.evaluations;
                    m.distinct.extend(l.distinct);
                    m.samples.extend(l.samples);
                    m.known_hits.extend(l.known_hits);
                    for (k, v) in l.labels {
                        *m.labels.entry(k).or_insert(0) += v;
                    }
                });
            }
        });
    }
    set_logging(false);
    drop(merged);
    crate::sim::set_stall_ms(6000);
    let once = once.into_inner().unwrap();
    if let Some(m) = once.first() {
        println!("  NOTE {}: {} case(s) failed and then passed ({})", name, once.len(), m);
        *rep.labels.entry(format!("{}/failed once, then passed", name)).or_insert(0) += once.len() as u64;
    }

    if let Some(f) = found.into_inner().unwrap() {
        set_logging(f.logging);
        // confirm, on the smallest case that still fails
        let tries = if threaded { 40 } else { 4 };
        let t1 = Instant::now();
        let mut confirmed = None;
        'outer: for v in [&f.minimal, &f.original] {
            let c: C = serde_json::from_value(v.clone()).expect("case");
            for i in 0..tries {
                if i > 3 && t1.elapsed() > Duration::from_secs(60) || i > 0 && later_than(LAST_CALL_S - 60) {
                    break;
                }
                if let Err(Fail::Violation(m)) = run_case(name, &c, &mut Obs::default(), &run) {
                    confirmed = Some((v.clone(), m));
                    break 'outer;
                }
            }
        }
        if confirmed.is_none() && !waited_in_vain(&f.message) {
            // seen to happen in a real execution, if not on demand
            confirmed = Some((f.minimal.clone(), format!("{} (does not happen on every run of this case)", f.message)));
        }
        match confirmed {
            Some((v, m)) => {
                println!("  {}: {}", name, m);
                let p = write_replay(&env.root, env.prop, name, &v, &m);
                rep.violation = Some((m, p));
            }
            None => {
                FAILED.lock().unwrap().take();
                // a wait ran out of time, once: the machine was held up
                println!("  NOTE {}: one case timed out and then passed ({})", name, f.message);
                *rep.labels.entry(format!("{}/timed out once, then passed", name)).or_insert(0) += 1;
            }
        }
        set_logging(false);
    } else if let Some(m) = harness_err.into_inner().unwrap() {
        rep.harness_error = Some(m);
    }
    rep.phases.push(json!({
        "phase": name,
        "evaluations": rep.evaluations - ev0,
        "distinct_nontrivial": rep.distinct.len() - dn0,
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
    }));
}

/// Writes the evidence file and prints the outcome. Returns the exit code.
pub fn finish(env: &Env, rep: Report, level_note: &[&str], t0: Instant) -> i32 {
    let mut code = 0;
    let unlisted: Vec<&String> = rep.known_hits.iter().filter(|k| !env.known.contains(k)).collect();
    let mut violation = rep.violation.clone();
    if violation.is_none() {
        if let Some(u) = unlisted.first() {
            let p = write_replay(&env.root, env.prop, "known", &json!(u), "defect not in the known-findings file");
            violation = Some((format!("{} (not in the known-findings file)", u), p));
        }
    }
    for k in &rep.known_hits {
        if env.known.contains(k) {
            println!("KNOWN-FINDING: property={} {}", env.prop, k);
        }
    }
    if let Mode::Check = env.mode {
        let ev = json!({
            "property": env.prop,
            "tier": if env.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": env.seed as i64,
            "level": "exploration",
            "coverage": {
                "evaluations": rep.evaluations,
                "distinct_nontrivial": rep.distinct.len(),
                "rule": rep.rules.join(" | "),
                "samples": rep.samples.iter().take(12).collect::<Vec<_>>(),
                "phases": rep.phases,
                "labels": rep.labels,
                "known_findings_met": rep.known_hits,
                "exhaustive_parts": rep.exhaustive_notes,
            },
            "assumptions": level_note,
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": if violation.is_some() { 1 } else { 0 },
        });
        let dir = env.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", env.prop)), serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("cannot write evidence: {}", e);
            code = 2;
        }
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s",
        env.prop,
        rep.evaluations,
        rep.distinct.len(),
        t0.elapsed().as_secs_f64()
    );
    if std::env::var("RUQ_LABELS").is_ok() {
        for (k, v) in &rep.labels {
            println!("    {:60} {}", k, v);
        }
        for p in &rep.phases {
            println!("    {}", p);
        }
    }
    if let Some((m, p)) = violation {
        println!("  {}", m);
        println!("VIOLATION property={} replay={}", env.prop, p.display());
        return 1;
    }
    if let Some(m) = rep.harness_error {
        println!("ERROR: {}", m);
        return 2;
    }
    code
}
