//! Crashes and hangs of the code under test are violations too. The check runs in a child process;
//! a watchdog aborts it when one case takes too long. When the child dies, it is run again with
//! each worker writing down the case it is about to run, and those cases are then tried alone.
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

/// Longest one case may take, in seconds. The slowest take well under one.
const LIMIT: u32 = 60;
const SLOTS: usize = 16;
const WAIT: Duration = Duration::from_millis(5);
/// Saved cases that are not one case: several in as many threads, and a whole run.
pub const AT_ONCE: &str = "at once";
pub const WHOLE: &str = "whole check";

#[repr(align(128))]
struct Beat(AtomicU64);
/// Odd while the worker is inside the code under test.
static BEATS: [Beat; SLOTS] = [const { Beat(AtomicU64::new(0)) }; SLOTS];

thread_local! {
    /// Where a replayed case counts.
    pub static REPLAY_SLOT: Cell<usize> = const { Cell::new(0) };
    static SLOT: Cell<Option<usize>> = const { Cell::new(None) };
    static TRACE: RefCell<Option<(std::fs::File, &'static str, String)>> = const { RefCell::new(None) };
}

/// Called by a worker before its first case of a test.
pub fn worker(slot: usize, id: &'static str, test: &str) {
    SLOT.with(|s| s.set(Some(slot)));
    if let Some(dir) = std::env::var_os("UVH_TRACE") {
        let path = Path::new(&dir).join(format!("{slot}.json"));
        let file = std::fs::OpenOptions::new().create(true).append(false).write(true).truncate(false).open(path);
        let file = file.expect("trace file");
        file.set_len(0).expect("trace file");
        TRACE.with(|t| *t.borrow_mut() = Some((file, id, test.to_string())));
    }
}

/// Marks the time spent on one case.
pub struct Running(Option<usize>);
pub fn running<C: Serialize>(case: &C) -> Running {
    let slot = SLOT.with(Cell::get);
    if let Some(s) = slot {
        TRACE.with(|t| {
            if let Some((file, id, test)) = &*t.borrow() {
                let text = json!({"property": id, "test": test, "case": case}).to_string();
                let mut bytes = (text.len() as u64).to_le_bytes().to_vec();
                bytes.extend(text.bytes());
                file.write_all_at(&bytes, 0).expect("trace");
            }
        });
        BEATS[s].0.fetch_add(1, Ordering::Relaxed);
    }
    Running(slot)
}
impl Drop for Running {
    fn drop(&mut self) {
        if let Some(s) = self.0 {
            BEATS[s].0.fetch_add(1, Ordering::Relaxed);
        }
    }
}

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = [(0u64, 0u32); SLOTS];
        loop {
            std::thread::sleep(Duration::from_secs(1));
            for (b, (seen, ticks)) in BEATS.iter().zip(last.iter_mut()) {
                let now = b.0.load(Ordering::Relaxed);
                if now & 1 == 1 && now == *seen {
                    *ticks += 1;
                    if *ticks >= LIMIT {
                        eprintln!("one case has run for {LIMIT} s");
                        std::process::abort();
                    }
                } else {
                    (*seen, *ticks) = (now, 0);
                }
            }
        }
    });
}

/// A case that eats memory without end must end the process that runs it, and no other.
pub fn limit_memory(c: &mut Command, gigabytes: u64) {
    use std::os::unix::process::CommandExt;
    extern "C" {
        fn setrlimit(resource: std::os::raw::c_int, limits: *const [u64; 2]) -> std::os::raw::c_int;
    }
    const RLIMIT_AS: std::os::raw::c_int = 9;
    let limits = [gigabytes << 30; 2];
    unsafe {
        c.pre_exec(move || match setrlimit(RLIMIT_AS, &limits) {
            0 => Ok(()),
            _ => Err(std::io::Error::last_os_error()),
        });
    }
}

fn spawn(args: &[String], trace: Option<&Path>, limit: Option<Duration>) -> Option<ExitStatus> {
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.args(args).env("UVH_CHILD", "1");
    limit_memory(&mut c, if args[0] == "replay" { 3 } else { 12 });
    if let Some(dir) = trace {
        c.env("UVH_TRACE", dir);
    }
    let mut child = c.spawn().expect("child process");
    // Waits are counted, and no clock is compared: it jumps when the sandbox stands still.
    let mut waited = Duration::ZERO;
    loop {
        if let Some(status) = child.try_wait().expect("wait") {
            return Some(status);
        }
        if limit.is_some_and(|l| waited > l) {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(WAIT);
        waited += WAIT;
    }
}

/// SIGINT, SIGKILL and SIGTERM come from outside.
fn crashed(s: ExitStatus) -> Option<i32> {
    s.signal().filter(|n| ![2, 9, 15].contains(n))
}

/// Runs this program again as a child and makes sense of how it ends.
pub fn supervised(args: &[String], body: impl FnOnce() -> i32) -> i32 {
    if std::env::var_os("UVH_CHILD").is_some() {
        watchdog();
        return body();
    }
    let replay = args[0] == "replay";
    let limit = replay.then(|| Duration::from_secs(u64::from(LIMIT) * 2));
    let status = spawn(args, None, limit);
    if let Some(code) = status.and_then(|s| s.code()) {
        return code;
    }
    let how = match status.map(|s| (s, crashed(s))) {
        None => "no answer".to_string(),
        Some((_, Some(n))) => format!("died with signal {n}"),
        Some((s, None)) => {
            eprintln!("ended from outside: {s}");
            return 2;
        }
    };
    if replay {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("replay file")).expect("replay json");
        println!("{how}");
        println!("VIOLATION property={} replay={}", v["property"].as_str().unwrap_or("?"), args[1]);
        return 1;
    }
    eprintln!("the check {how}; looking for the case");
    let dir = crate::engine::verif().join("build/scratch").join(format!("trace-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("trace directory");
    let code = locate(args, &dir, &how);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// What none of the cases does alone they may do together.
fn at_once(dir: &Path, cases: &[Value]) -> Option<Value> {
    let id = cases.first()?["property"].clone();
    let v = json!({"property": id, "test": AT_ONCE, "case": cases});
    let path = dir.join("together.json");
    std::fs::write(&path, v.to_string()).expect("candidate");
    let args = ["replay".to_string(), path.display().to_string()];
    let s = spawn(&args, None, Some(Duration::from_secs(u64::from(LIMIT) + 60)));
    s.is_none_or(|s| crashed(s).is_some() || s.code() == Some(1)).then_some(v)
}

/// It happened twice, with the same seed: the history is the whole run.
fn whole(args: &[String]) -> Option<Value> {
    let seed = std::env::var("VERIF_SEED").unwrap_or_default();
    let tier = std::env::var("VERIF_TIER").unwrap_or_default();
    Some(json!({"property": args.first()?, "test": WHOLE, "case": {"seed": seed, "tier": tier}}))
}

fn locate(args: &[String], dir: &Path, how: &str) -> i32 {
    let again = spawn(args, Some(dir), None);
    if let Some(code) = again.and_then(|s| s.code()) {
        eprintln!("it did not happen again");
        return if code == 1 { 1 } else { 2 };
    }
    let mut found: Option<(String, Value)> = None;
    let mut candidates: Vec<Value> = Vec::new();
    for slot in 0..SLOTS {
        let Ok(bytes) = std::fs::read(dir.join(format!("{slot}.json"))) else { continue };
        let Some(head) = bytes.get(..8) else { continue };
        let n = u64::from_le_bytes(head.try_into().expect("eight bytes")) as usize;
        if let Some(v) = bytes.get(8..8 + n).and_then(|b| serde_json::from_slice(b).ok()) {
            candidates.push(v);
        }
    }
    let texts = candidates.clone();
    let results: Vec<(Value, bool)> = std::thread::scope(|sc| {
        let handles: Vec<_> = candidates
            .into_iter()
            .enumerate()
            .map(|(i, v)| {
                let path: PathBuf = dir.join(format!("candidate-{i}.json"));
                std::fs::write(&path, v.to_string()).expect("candidate");
                sc.spawn(move || {
                    let args = ["replay".to_string(), path.display().to_string()];
                    let s = spawn(&args, None, Some(Duration::from_secs(u64::from(LIMIT) + 30)));
                    let bad = s.is_none_or(|s| crashed(s).is_some() || s.code() == Some(1));
                    (v, bad)
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().expect("candidate")).collect()
    });
    for (v, bad) in results {
        let text = v.to_string();
        if bad && found.as_ref().is_none_or(|f| text.len() < f.0.len()) {
            found = Some((text, v));
        }
    }
    let found = found.map(|f| f.1).or_else(|| at_once(dir, &texts)).or_else(|| whole(args));
    let Some(mut v) = found else {
        eprintln!("no single case does it");
        return 2;
    };
    v["message"] = json!(format!("the process {how}"));
    let id = v["property"].as_str().unwrap_or("?").to_string();
    let replays = crate::engine::verif().join("replays");
    std::fs::create_dir_all(&replays).expect("replay dir");
    let path = replays.join(format!("{id}-crash.json"));
    std::fs::write(&path, serde_json::to_string_pretty(&v).expect("json") + "\n").expect("write replay");
    println!("  {id}/{}: the process {how}", v["test"].as_str().unwrap_or("?"));
    println!("VIOLATION property={id} replay={}", path.display());
    1
}
