//! Command line shared by the harness binaries.
use crate::engine::{finish, Session};
use crate::props;
use crate::watch;
use serde_json::Value;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::time::Instant;

fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|s| s.parse().ok()).unwrap_or(default)
}

pub fn real_main(all: Vec<props::Prop>) -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    crate::engine::quiet_guarded_panics();
    if args.is_empty() || args[0] == "selftest" {
        return run(all, &args);
    }
    let again = args.clone();
    watch::supervised(&args, move || run(all, &again))
}

/// Each case in a thread of its own, over and over for a while.
fn at_once(p: &props::Prop, cases: &[Value], path: &str) -> i32 {
    let until = Instant::now() + std::time::Duration::from_secs(20);
    let failed = AtomicBool::new(false);
    std::thread::scope(|sc| {
        for (slot, v) in cases.iter().enumerate() {
            let failed = &failed;
            sc.spawn(move || {
                watch::REPLAY_SLOT.set(slot);
                while Instant::now() < until && !failed.load(Relaxed) {
                    let test = v["test"].as_str().expect("test").to_string();
                    let mut s = Session::replay(p.id, test, v["case"].clone());
                    (p.run)(&mut s);
                    if let Some(Err(m)) = s.replay_outcome() {
                        println!("{}: {m}", p.id);
                        failed.store(true, Relaxed);
                    }
                }
            });
        }
    });
    if failed.load(Relaxed) {
        println!("VIOLATION property={} replay={path}", p.id);
        return 1;
    }
    println!("{}: the cases pass", p.id);
    0
}

fn run(all: Vec<props::Prop>, args: &[String]) -> i32 {
    match args.first().map(String::as_str) {
        Some("replay") => {
            let text = std::fs::read_to_string(&args[1]).expect("replay file");
            let v: Value = serde_json::from_str(&text).expect("replay json");
            let id = v["property"].as_str().expect("property");
            let test = v["test"].as_str().expect("test").to_string();
            let p = all.iter().find(|p| p.id == id).expect("known property");
            if test == watch::AT_ONCE {
                return at_once(p, v["case"].as_array().expect("cases"), &args[1]);
            }
            if test == watch::WHOLE {
                std::env::set_var("VERIF_SEED", v["case"]["seed"].as_str().unwrap_or("1"));
                std::env::set_var("VERIF_TIER", v["case"]["tier"].as_str().unwrap_or("quick"));
                return run(all, &[id.to_string()]);
            }
            let mut s = Session::replay(p.id, test, v["case"].clone());
            (p.run)(&mut s);
            match s.replay_outcome() {
                Some(Ok(())) => {
                    println!("{id}: the case passes");
                    0
                }
                Some(Err(m)) => {
                    println!("{id}: {m}");
                    println!("VIOLATION property={id} replay={}", args[1]);
                    1
                }
                None => {
                    eprintln!("no such test in {id}");
                    2
                }
            }
        }
        Some("selftest") => {
            crate::selftest::run();
            0
        }
        Some(id) => {
            let Some(p) = all.iter().find(|p| p.id == id) else {
                eprintln!("unknown property {id}");
                return 2;
            };
            let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
            let scale = std::env::var("UVH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 20.0 } else { 1.0 });
            let started = Instant::now();
            let mut s = Session::run(p.id, env_u64("VERIF_SEED", 1), scale, thorough);
            if p.id == "C06" {
                crate::interleave::stage(&mut s, env_u64("UVH_FUZZ_SECONDS", if thorough { 300 } else { 20 }));
            }
            // With threads that wait for each other, the rest would only hang.
            if s.failures.is_empty() {
                (p.run)(&mut s);
            }
            // Allocations and time are counted in this program only.
            if !matches!(p.id, "C23" | "C25") {
                crate::fuzz::stage(&mut s, env_u64("UVH_FUZZ_SECONDS", if thorough { 400 } else { 20 }));
            }
            finish(s, p.rule, p.exhaustive, &[props::REF], started.elapsed().as_secs_f64())
        }
        None => {
            eprintln!("usage: uvh <property> | uvh replay <file>");
            2
        }
    }
}
