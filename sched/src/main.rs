//! Interleavings: cases of C06 run in processes of their own, by threads of which one at a time may
//! go on. The code under test asks the scheduler at every basic block, load and store.
//!   uvh-sched run <campaign> <out> <seed> <seconds> <processor>
//!   uvh-sched replay <file>
use proptest::prelude::Rng as _;
use proptest::test_runner::{RngAlgorithm, TestRng};
use std::cell::Cell;
use std::os::raw::{c_int, c_ulong, c_void};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};
use std::sync::{Barrier, Mutex, OnceLock};
use std::thread::Thread;
use std::time::{Duration, Instant};
use uvh::engine::{guard, Outcome, Session, FUZZED};
use uvh::interleave::{is_inside, Hooks, Task, HOOKS};

/// Longest one process may take.
const LIMIT: u32 = 30;
/// When the thread whose turn it is does nothing for so long, it is waiting for another one.
const STUCK: Duration = Duration::from_millis(5);

const NOBODY: usize = usize::MAX;
static TURN: AtomicUsize = AtomicUsize::new(NOBODY);
static UNFINISHED: AtomicU64 = AtomicU64::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
static CHOICES: AtomicU64 = AtomicU64::new(0);
static THREADS: Mutex<Vec<Option<Thread>>> = Mutex::new(Vec::new());

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NOBODY) };
    static LEFT: Cell<u64> = const { Cell::new(0) };
}

fn random() -> u64 {
    let mut x = CHOICES.load(SeqCst);
    x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    CHOICES.store(x, SeqCst);
    x = (x ^ x >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ x >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ x >> 31
}

/// A number of steps: a few, or enough for several whole calls.
fn turn(long: u64) -> u64 {
    let bits = if random() % 6 < long { 11 + random() % 9 } else { random() % 13 };
    1 + random() % (1 << bits)
}

fn next() -> usize {
    let alive = UNFINISHED.load(SeqCst);
    let n = alive.count_ones();
    if n == 0 {
        return NOBODY;
    }
    let mut rest = alive;
    for _ in 0..random() % u64::from(n) {
        rest &= rest - 1;
    }
    rest.trailing_zeros() as usize
}

fn hand_over(to: usize) {
    TURN.store(to, SeqCst);
    if to != NOBODY {
        if let Some(Some(t)) = THREADS.lock().expect("threads").get(to) {
            t.unpark();
        }
    }
}

#[cold]
fn wait(me: usize) {
    let mut seen = STEPS.load(SeqCst);
    let mut since = Instant::now();
    loop {
        let holder = TURN.load(SeqCst);
        if holder == me {
            break;
        }
        std::thread::park_timeout(STUCK);
        let now = STEPS.load(SeqCst);
        if now != seen {
            (seen, since) = (now, Instant::now());
        } else if since.elapsed() > STUCK && TURN.load(SeqCst) == holder {
            let _ = TURN.compare_exchange(holder, me, SeqCst, SeqCst);
            since = Instant::now();
        }
    }
    LEFT.set(turn(2));
}

#[cold]
fn switch(me: usize) {
    let to = next();
    if to == me || to == NOBODY {
        LEFT.set(turn(1));
        return;
    }
    hand_over(to);
    wait(me);
}

/// `busy`: this is about memory that others may be using, a likelier place to stop.
fn point(busy: bool) {
    let me = ME.get();
    if me == NOBODY || !is_inside() {
        return;
    }
    // So that nothing called from here asks again.
    ME.set(NOBODY);
    STEPS.store(STEPS.load(SeqCst) + 1, SeqCst);
    if TURN.load(SeqCst) != me {
        wait(me);
    }
    let left = LEFT.get();
    if left == 0 || busy && random() % 4 == 0 {
        switch(me);
    } else {
        LEFT.set(left - 1);
        if busy && random() % 4 == 0 {
            // Stop soon after it.
            LEFT.set(random() % 8);
        }
    }
    ME.set(me);
}

/// Who used which eight bytes: the address, whether it was written to, and by which threads.
static USED: [AtomicU64; 1 << 14] = [const { AtomicU64::new(0) }; 1 << 14];

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline]
fn access(address: usize, store: bool) {
    let me = ME.get();
    if me == NOBODY || !is_inside() {
        return;
    }
    let (from, to) = unsafe { (&raw const __data_start as usize, &raw const _end as usize) };
    if (from..to).contains(&address) {
        return point(true);
    }
    let word = (address >> 3) as u64;
    let slot = &USED[(word ^ word >> 14) as usize % USED.len()];
    let old = slot.load(Relaxed);
    let (mut users, mut written) = (0, false);
    if old >> 8 == word & (1 << 56) - 1 {
        (users, written) = (old & 0x7f, old & 0x80 != 0);
    }
    let others = users & !(1 << (me % 7)) != 0;
    let new = word << 8 | users | 1 << (me % 7) | u64::from(written || store) << 7;
    slot.store(new, Relaxed);
    point(others && (written || store));
}

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        unsafe {
            *p = 1;
            p = p.add(1);
        }
    }
}
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    point(false);
}
macro_rules! accesses {
    ($store:literal: $($name:ident)*) => {$(
        #[no_mangle]
        extern "C" fn $name(address: usize) {
            access(address, $store);
        }
    )*};
}
accesses! { false:
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
}
accesses! { true:
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}

fn take_turns(seed: u64, tasks: &[Task<'_>]) -> Outcome {
    for u in &USED {
        u.store(0, Relaxed);
    }
    let n = tasks.len().min(64);
    CHOICES.store(seed, SeqCst);
    UNFINISHED.store((1 << n) - 1, SeqCst);
    *THREADS.lock().expect("threads") = vec![None; n];
    let ready = Barrier::new(n);
    TURN.store(next(), SeqCst);
    let results: Vec<Outcome> = std::thread::scope(|sc| {
        let handles: Vec<_> = tasks[..n]
            .iter()
            .enumerate()
            .map(|(i, task)| {
                let ready = &ready;
                sc.spawn(move || {
                    THREADS.lock().expect("threads")[i] = Some(std::thread::current());
                    ready.wait();
                    wait(i);
                    ME.set(i);
                    let result = guard(task);
                    ME.set(NOBODY);
                    UNFINISHED.fetch_and(!(1 << i), SeqCst);
                    STEPS.fetch_add(1, SeqCst);
                    hand_over(next());
                    result
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked in a thread".into()))).collect()
    });
    results.into_iter().collect()
}

extern "C" {
    fn fork() -> c_int;
    fn pipe(fds: *mut c_int) -> c_int;
    fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize;
    fn write(fd: c_int, buf: *const c_void, n: usize) -> isize;
    fn close(fd: c_int) -> c_int;
    fn kill(pid: c_int, signal: c_int) -> c_int;
    fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    fn poll(fds: *mut PollFd, n: c_ulong, ms: c_int) -> c_int;
    fn _exit(code: c_int) -> !;
    fn sched_setaffinity(pid: c_int, size: usize, mask: *const u64) -> c_int;
    fn prctl(option: c_int, a: c_ulong, b: c_ulong, c: c_ulong, d: c_ulong) -> c_int;
}
#[repr(C)]
struct PollFd {
    fd: c_int,
    events: i16,
    revents: i16,
}

fn fresh(f: &dyn Fn() -> Outcome) -> Outcome {
    let mut fds = [0; 2];
    let pid = unsafe {
        assert_eq!(pipe(fds.as_mut_ptr()), 0);
        fork()
    };
    assert!(pid >= 0, "no process");
    if pid == 0 {
        unsafe {
            close(fds[0]);
            prctl(1, 9, 0, 0, 0); // not longer than its parent
            let text = match guard(f) {
                Ok(()) => "+".to_string(),
                Err(m) => m,
            };
            let bytes = &text.as_bytes()[..text.len().min(60_000)];
            write(fds[1], bytes.as_ptr().cast(), bytes.len());
            _exit(0);
        }
    }
    // Seconds are counted, and no clock is compared: it jumps when the sandbox stands still.
    let mut ticks = 0;
    let mut text = Vec::new();
    let mut status = 0;
    let mut late = false;
    unsafe {
        close(fds[1]);
        loop {
            let mut p = PollFd { fd: fds[0], events: 1, revents: 0 };
            if poll(&mut p, 1, 1000) > 0 {
                let mut buf = [0u8; 4096];
                let n = read(fds[0], buf.as_mut_ptr().cast(), buf.len());
                if n <= 0 {
                    break;
                }
                text.extend(&buf[..n as usize]);
            } else {
                ticks += 1;
                if ticks >= LIMIT {
                    late = true;
                    kill(pid, 9);
                    break;
                }
            }
        }
        close(fds[0]);
        waitpid(pid, &mut status, 0);
    }
    let text = String::from_utf8_lossy(&text).into_owned();
    match status & 0x7f {
        _ if late => Err(format!("no answer in {} s", LIMIT)),
        0 if text == "+" => Ok(()),
        0 => Err(if text.is_empty() { "the process ended early".into() } else { text }),
        // Ended from outside.
        2 | 9 | 15 => std::process::exit(3),
        signal => Err(format!("the process died with signal {signal}")),
    }
}

/// Threads that take turns do so fastest on one processor.
fn one_processor(n: u64) {
    let cpus = std::thread::available_parallelism().map_or(1, std::num::NonZero::get) as u64;
    let mask = [1u64 << (n % cpus.min(64))];
    unsafe { sched_setaffinity(0, 8, mask.as_ptr()) };
}

static RANDOM: OnceLock<(u64, Duration)> = OnceLock::new();

fn driver(f: &mut dyn FnMut(&[u8]) -> bool) {
    let (seed, time) = *RANDOM.get().expect("set");
    let mut bytes = [0u8; 32];
    bytes[..8].copy_from_slice(&seed.to_le_bytes());
    let mut rng = TestRng::from_seed(RngAlgorithm::ChaCha, &bytes);
    let started = Instant::now();
    let mut input = vec![0u8; 6000];
    while started.elapsed() < time {
        rng.fill_bytes(&mut input);
        if f(&input) {
            return;
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    uvh::engine::quiet_guarded_panics();
    // What the harness computes once is computed before the first fork.
    uvh::mined::mined();
    uvh::refdata::data();
    let _ = HOOKS.set(Hooks { fresh, take_turns });
    let all = uvh::props::all();
    let p = all.iter().find(|p| p.id == "C06").expect("C06");
    match args.get(1).map(String::as_str) {
        Some("run") => {
            let number = |i: usize| args[i].parse::<u64>().expect("number");
            RANDOM.set((number(4), Duration::from_secs(number(5)))).expect("once");
            one_processor(number(6));
            let mut s = Session::fuzz(p.id, args[2].clone(), driver);
            (p.run)(&mut s);
            let did = FUZZED.lock().expect("statistics");
            std::fs::write(PathBuf::from(&args[3]), serde_json::to_string(&*did).expect("json")).expect("statistics file");
            std::process::exit(if did.failure.is_some() { 10 } else { 0 });
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&text).expect("replay json");
            let mut s = Session::replay(p.id, v["test"].as_str().expect("test").to_string(), v["case"].clone());
            (p.run)(&mut s);
            if let Some(Err(m)) = s.replay_outcome() {
                println!("{m}");
                std::process::exit(1);
            }
        }
        _ => std::process::exit(2),
    }
}
