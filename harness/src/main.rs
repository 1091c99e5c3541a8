//! ruqcheck <PROPERTY>            run the check (VERIF_SEED, VERIF_TIER)
//! ruqcheck replay <file>         run one saved case
mod checks;
mod dbg;
mod engine;
mod gen;
mod machine;
mod mem;
mod real;
mod sim;
mod wire;

use std::path::PathBuf;
use std::time::Instant;

use engine::{Env, Mode, Report, Tier};

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn known_findings(root: &PathBuf, prop: &str) -> Vec<String> {
    let text = std::fs::read_to_string(root.join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let head = format!("KNOWN-FINDING: property={} ", prop);
    text.lines().filter_map(|l| l.strip_prefix(&head)).map(|l| l.trim().to_string()).collect()
}

/// Formats what is logged, as an application with logging enabled would. On in one half of the cases.
struct Log;

impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        struct Nowhere;
        impl std::fmt::Write for Nowhere {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = std::fmt::Write::write_fmt(&mut Nowhere, *r.args());
    }
    fn flush(&self) {}
}

fn main() {
    let _ = log::set_logger(&Log);
    // errors of the library carry backtraces otherwise, which costs time
    std::env::remove_var("RUST_BACKTRACE");
    let args: Vec<String> = std::env::args().skip(1).collect();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let (id, mode) = match args.get(0).map(|s| s.as_str()) {
        Some("replay") => {
            let t = std::fs::read_to_string(&args[1]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&t).expect("replay file");
            engine::set_logging(v["logging"] == true);
            (
                v["property"].as_str().unwrap().to_string(),
                Mode::Replay { phase: v["phase"].as_str().unwrap().to_string(), case: v["case"].clone() },
            )
        }
        Some(id) => (id.to_string(), Mode::Check),
        None => {
            eprintln!("usage: ruqcheck <property> | replay <file>");
            std::process::exit(2);
        }
    };
    let prop = match checks::ALL.iter().find(|(p, _)| *p == id) {
        Some((p, _)) => *p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    };
    // many sockets at once
    unsafe {
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = l.rlim_max.min(65536);
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
    let env = Env {
        prop,
        tier: if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick },
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        root: root.clone(),
        mode,
        known: known_findings(&root, prop),
        only_phase: std::env::var("RUQ_PHASE").ok(),
        shrink: std::env::var("RUQ_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(3000),
        scale: std::env::var("RUQ_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
    };
    sim::install_panic_hook();
    engine::start_clock(env.tier);
    engine::start_watchdog(prop, root);
    let t0 = Instant::now();
    let mut rep = Report::default();
    let f = checks::ALL.iter().find(|(p, _)| *p == prop).unwrap().1;
    let notes = f(&env, &mut rep);
    std::process::exit(engine::finish(&env, rep, &notes, t0));
}
