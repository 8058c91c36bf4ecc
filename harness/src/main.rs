#![allow(clippy::all)]
mod airdrop;
mod chain;
mod coreep;
mod coremodel;
mod corew;
mod ctx;
mod evlog;
mod math;
mod periph;
mod report;
mod sdk;
mod upg;
mod util;
mod venue;

use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

use ctx::Ctx;

pub const ALL: [&str; 34] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "A01", "A02",
    "A03", "A04", "A05", "A06", "P01", "P02", "P03", "P04", "P05", "P06", "M01", "M02", "M03", "U01",
    "E01", "W01",
];

/// the published SDK, and what its client composed (see sdk/drive.mjs)
fn the_sdk() -> Result<std::sync::Arc<sdk::Sdk>, String> {
    static S: std::sync::OnceLock<Result<std::sync::Arc<sdk::Sdk>, String>> = std::sync::OnceLock::new();
    S.get_or_init(|| sdk::Sdk::load(&std::env::var("SDK_ROOT").unwrap_or("/repo/ts/sdk".into())).map(std::sync::Arc::new)).clone()
}
const COMPOSED: u64 = 1 << 40;

/// one monitored episode, determined by the seed, the focus and its number
fn episode(c: &mut Ctx, ep: u64) {
    let rng = c.start(ep);
    let f = c.focus.clone();
    evlog::start(f == "E01");
    sdk::start((f == "W01").then(|| the_sdk().expect("the SDK")));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match (f.as_str(), ep % 4) {
        ("W01", 0) if ep % 16 == 8 => upg::history(c, rng),
        ("W01", 0) => sdk::history(c, rng),
        ("W01", 1) => airdrop::history(c, rng),
        ("W01", 2) => periph::history(c, rng),
        ("E01", 0) => airdrop::history(c, rng),
        ("E01", 1) => periph::history(c, rng),
        (f, _) if f.starts_with('A') => airdrop::history(c, rng),
        (f, _) if f.starts_with('P') || f == "M03" => periph::history(c, rng),
        ("M01", _) => math::pow_history(c, rng),
        ("M02", _) => math::pool_history(c, rng),
        ("U01", 1..=3) => upg::history(c, rng),
        ("C15", 0) => coreep::registry_history(c, rng),
        ("C14", 0) | ("U01", _) => coreep::instantiate_history(c, rng),
        ("C16", 0..=2) => coreep::completion_history(c, rng),
        (f, 3) if f.starts_with('C') && ep % 16 == 7 => coreep::completion_history(c, rng),
        _ => coreep::random_history(c, rng),
    }));
    evlog::drain(c);
    sdk::drain(c);
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        c.count("monitor_panics");
        c.samples.entry("monitor_panic".into()).or_insert(format!("episode {ep}: {m}"));
    }
}

struct Budget {
    min: u64,
    secs: f64,
    cap: f64,
}

fn budget(focus: &str, thorough: bool) -> Budget {
    let scale = match focus {
        "M02" => 3.0,
        f if f.starts_with('P') || f == "M03" => 0.8,
        _ => 1.0,
    };
    if thorough {
        Budget { min: (40_000.0 * scale) as u64, secs: 240.0, cap: 600.0 }
    } else {
        Budget { min: (3000.0 * scale) as u64, secs: 8.0, cap: 150.0 }
    }
}

fn run(focus: &str, seed: u64, thorough: bool, threads: u64, eps: Option<u64>) -> (Ctx, f64, u64) {
    let t = Instant::now();
    let b = budget(focus, thorough);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicU64::new(0);
    let mut all = Ctx::new(focus, seed);
    all.thorough = thorough;
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (next, stop, done, b) = (&next, &stop, &done, &b);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut c = Ctx::new(focus, seed);
                        c.thorough = thorough;
                        loop {
                            let ep = next.fetch_add(1, Ordering::SeqCst);
                            let el = t.elapsed();
                            let over = match eps {
                                Some(n) => ep >= n,
                                None => (ep >= b.min && el > Duration::from_secs_f64(b.secs)) || el > Duration::from_secs_f64(b.cap),
                            };
                            if over || stop.load(Ordering::SeqCst) {
                                return c;
                            }
                            episode(&mut c, ep);
                            done.fetch_add(1, Ordering::SeqCst);
                            if !c.viol.is_empty() {
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            all.merge(h.join().unwrap());
        }
    });
    all.viol.sort_by_key(|v| v.ep);
    (all, t.elapsed().as_secs_f64(), done.load(Ordering::SeqCst))
}

/// fixed histories of the known findings: (property, id, reproduces)
pub fn findings(focus: &str) -> Vec<(&'static str, bool)> {
    let mut c = Ctx::new(focus, 1);
    let mut probe = |id: &'static str, f: &mut dyn FnMut(&mut Ctx) -> bool| {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c))).unwrap_or(false);
        (id, r)
    };
    match focus {
        "C16" => vec![
            probe("dust", &mut coreep::finding_dust),
            probe("route", &mut coreep::finding_route),
            probe("empty", &mut coreep::finding_empty),
        ],
        "C03" => vec![probe("rate", &mut coreep::finding_rate)],
        "P06" => vec![probe("shared", &mut periph::finding_shared)],
        _ => vec![],
    }
}

fn usage() -> ! {
    eprintln!("usage: ibcx-monitor run ID DIR OUT | replay FILE | dev ID EPISODES [SEED]");
    std::process::exit(3);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        usage();
    }
    let loud = std::env::var("MONITOR_PANICS").is_ok();
    std::panic::set_hook(Box::new(move |p| {
        if loud {
            eprintln!("{p}");
        }
    }));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    match a[1].as_str() {
        "run" if a.len() == 5 && ALL.contains(&a[2].as_str()) => {
            if a[2] == "W01" {
                if let Err(e) = the_sdk() {
                    eprintln!("W01: cannot read the SDK: {e}");
                    std::process::exit(2);
                }
            }
            let (mut c, wall, eps) = run(&a[2], seed, thorough, 8, None);
            if a[2] == "W01" && c.viol.is_empty() {
                c.start(COMPOSED);
                if let Err(e) = sdk::judge_composed(&mut c, &std::env::var("SDK_OUT").unwrap_or_default()) {
                    eprintln!("W01: {e}");
                    std::process::exit(2);
                }
            }
            std::process::exit(report::finish(&a[2], c, wall, eps, &a[3], &a[4]));
        }
        "sdkcases" if a.len() == 4 => {
            let s = the_sdk().unwrap_or_else(|e| {
                eprintln!("W01: cannot read the SDK: {e}");
                std::process::exit(2)
            });
            let l: Vec<String> = sdk::cases(&s, a[3].parse().unwrap(), seed).iter().map(|x| x.to_string()).collect();
            std::fs::write(&a[2], l.join("\n")).expect("write");
        }
        "replay" => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("file")).expect("json");
            let focus = v["property"].as_str().unwrap_or("").to_string();
            let mut c = Ctx::new(&focus, v["seed"].as_u64().unwrap_or(1));
            c.verbose = true;
            if let Some(id) = v["finding"].as_str() {
                let r = findings(&focus).iter().any(|f| f.0 == id && f.1);
                eprintln!("{focus} {id}: {}", if r { "reproduced" } else { "not reproduced" });
                std::process::exit(r as i32);
            }
            if v["episode"] == COMPOSED {
                c.start(COMPOSED);
                if let Err(e) = sdk::judge_composed(&mut c, &std::env::var("SDK_OUT").unwrap_or_default()) {
                    eprintln!("W01: {e}");
                    std::process::exit(2);
                }
            } else {
                episode(&mut c, v["episode"].as_u64().unwrap_or(0));
            }
            match c.viol.first() {
                Some(x) => {
                    eprintln!("VIOLATED {focus}: {}", x.msg);
                    std::process::exit(1)
                }
                None => eprintln!("episode {} of {focus} shows no violation", v["episode"]),
            }
        }
        "dev" if a.len() > 3 => {
            let n: u64 = a[3].parse().unwrap();
            let seed = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(seed);
            for f in ALL.iter().filter(|f| a[2] == "all" || f.starts_with(a[2].as_str())) {
                let (c, wall, eps) = run(f, seed, false, 8, Some(n));
                eprintln!("{f}: {eps} episodes in {wall:.1} s, {} evaluations, {} distinct, {} violations", c.evals, c.distinct.len(), c.viol.len());
                if a[2] != "all" {
                    for (k, v) in &c.counters {
                        eprintln!("  {k}: {v}");
                    }
                } else if let Some(v) = c.counters.get("monitor_panics") {
                    eprintln!("  monitor panics {v}: {:?}", c.samples.get("monitor_panic"));
                }
                for v in c.viol.iter().take(2) {
                    eprintln!("  episode {}: {}", v.ep, v.msg.chars().take(400).collect::<String>());
                    for l in v.trace.iter().rev().take(8).rev() {
                        eprintln!("      {}", l.chars().take(300).collect::<String>());
                    }
                }
            }
        }
        _ => usage(),
    }
}
