//! ozzmon run <PROP> | ozzmon replay <FILE> | ozzmon case <PROP> <GROUP> <INDEX> | ozzmon list

use ozzmon::fw::*;
use serde_json::{json, Value};

fn env(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|s| s.parse().ok()).unwrap_or(default)
}

fn one(prop: &str, group: &str, seed: u64, index: u64, thorough: bool) -> i32 {
    install_hook();
    let gs = ozzmon::groups();
    let g = match gs.iter().find(|g| g.prop == prop && g.name == group) {
        Some(g) => g,
        None => {
            println!("unknown group {} {}", prop, group);
            return 3;
        }
    };
    let r = run_case(g, seed, index, thorough);
    match r.verdict {
        Verdict::Held => {
            println!("{}", json!({"verdict": "held", "events": r.events}));
            0
        }
        Verdict::Violated(f) => {
            println!("{}", json!({"verdict": "violated", "what": f.what, "detail": f.detail}));
            1
        }
        Verdict::HarnessError(e) => {
            println!("{}", json!({"verdict": "error", "error": e}));
            3
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let seed = env("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let prop = &args[2];
            let gs: Vec<&Group> = ozzmon::groups().into_iter().filter(|g| g.prop == prop || prop == "ALL").collect();
            if gs.is_empty() {
                println!("no groups for {}", prop);
                std::process::exit(3);
            }
            let opt = Options {
                seed,
                thorough,
                threads: env("OZZMON_THREADS", 7) as usize,
                deadline_s: env("OZZMON_DEADLINE", 300),
                out: std::env::var("OZZMON_OUT").ok(),
                only_group: std::env::var("OZZMON_GROUP").ok(),
                divide: env("OZZMON_DIVIDE", 1),
                multiply: env("OZZMON_MULTIPLY", 1),
                current: std::env::var("OZZMON_CURRENT").ok(),
                only_crashes: std::env::var("OZZMON_ONLY_CRASHES").is_ok(),
            };
            run_property(&gs, &opt)
        }
        Some("case") => one(&args[2], &args[3], seed, args[4].parse().unwrap(), thorough),
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            one(
                v["property"].as_str().unwrap(),
                v["group"].as_str().unwrap(),
                v["seed"].as_u64().unwrap(),
                v["index"].as_u64().unwrap(),
                v["thorough"].as_bool().unwrap_or(false),
            )
        }
        Some("digest") => {
            // digest LO HI: traces of numbered programs, for comparing builds.
            let (lo, hi): (u64, u64) = (args[2].parse().unwrap(), args[3].parse().unwrap());
            let threads = env("OZZMON_THREADS", 7);
            let tiny = std::env::var("OZZMON_TINY").is_ok();
            let fill = env("OZZMON_FILL", 0xA5) as u8;
            let next = std::sync::atomic::AtomicU64::new(lo);
            let parts = std::sync::Mutex::new(std::collections::BTreeMap::new());
            std::thread::scope(|sc| {
                for _ in 0..threads {
                    sc.spawn(|| {
                        ozzmon::mem::set_fill(fill);
                        loop {
                            let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            if i >= hi {
                                break;
                            }
                            let t = ozzmon::p_prog::digest_lines(seed, i, tiny);
                            parts.lock().unwrap().insert(i, t);
                        }
                    });
                }
            });
            let mut out = std::io::BufWriter::new(std::io::stdout().lock());
            for t in parts.into_inner().unwrap().values() {
                use std::io::Write;
                out.write_all(t.as_bytes()).unwrap();
            }
            0
        }
        Some("list") => {
            for g in ozzmon::groups() {
                println!("{} {} {} {}", g.prop, g.name, g.quick, g.thorough);
            }
            0
        }
        _ => {
            println!("usage: ozzmon run PROP | case PROP GROUP INDEX | replay FILE | list");
            3
        }
    };
    std::process::exit(code);
}
