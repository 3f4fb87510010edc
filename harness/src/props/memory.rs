//! C23: what a call allocates is given back.
use super::builder::{call, stateless, Call};
use super::Prop;
use crate::alloc::live;
use crate::engine::{Outcome, Session, Tags};
use crate::gen::weighted;
use crate::model::{build, Q};
use crate::refdata::{ALL_MASK, MAX, NVER};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::hint::black_box;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub const PROPS: [Prop; 1] = [Prop {
    id: "C23",
    run,
    rule: "Calls of every kind, their results dropped: the same call over and over, and calls that differ in one or all of \
           their arguments from one to the next. The bytes allocated and not freed (counted by the allocator) may grow at \
           first, and up to what a bounded cache holds, but not on and on. Non-trivial: the call is not refused.",
    exhaustive: false,
}];

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
struct Again {
    call: Call,
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
struct Varied {
    call: Call,
    /// What differs from one call to the next.
    how: u8,
    /// Where to start among the variants.
    from: u32,
}

fn query(q: &Q) {
    let b = build(q);
    let _ = black_box(b.clone().intervals());
    let _ = black_box(b.intervals());
}

fn set(q: &Q, probe: u32) {
    let Ok(s) = build(q).interval_set() else { return };
    let n = s.len();
    black_box(uvh_calls::index_of(&s, probe));
    black_box(uvh_calls::contains(&s, probe));
    black_box(uvh_calls::index_above(&s, probe));
    black_box(uvh_calls::codepoint_at(&s, probe));
    let t = s.clone();
    let mut it = t.iter();
    for _ in 0..3 {
        black_box((uvh_calls::next(&mut it), uvh_calls::next_back(&mut it)));
    }
    black_box(uvh_calls::nth(&mut it, n as usize / 2));
    black_box(uvh_calls::nth_back(&mut it, 2));
    black_box(uvh_calls::size_hint(&it));
}

/// Whether what is returned is right, and that it is returned, is for other properties to say.
fn perform(c: &Call) {
    let _ = std::panic::catch_unwind(|| match c {
        Call::Query(q) => query(q),
        Call::Keep(q) => set(q, q.min.unwrap_or(65)),
        other => drop(stateless(other)),
    });
}

fn word(mut k: u32) -> String {
    let mut s = String::new();
    for _ in 0..5 {
        s.push(char::from(b'a' + (k % 26) as u8));
        k /= 26;
    }
    s
}

fn vary_query(q: &Q, how: u8, k: u32) -> Q {
    let mut q = q.clone();
    let all = how % 9 == 8;
    let on = |n: u8| all || how % 9 == n;
    let far = k.wrapping_mul(2_654_435_761);
    if on(0) {
        q.inch = Some(q.inch.unwrap_or_default() + &word(k));
    }
    if on(1) {
        q.exch = Some(q.exch.unwrap_or_default() + &word(k));
    }
    if on(2) {
        // Any two letters of the code space, so that results differ, too.
        let c = char::from_u32(far % 0xD800).unwrap_or('a');
        let d = char::from_u32(0x10000 + (far >> 7) % 0xF0000).unwrap_or('b');
        q.inch = Some(format!("{}{c}{d}", q.inch.unwrap_or_default()));
    }
    if on(3) {
        q.min = Some(far % (q.hi().min(MAX) + 1));
    }
    if on(4) {
        q.max = Some(q.lo().min(MAX) + far % (MAX - q.lo().min(MAX) + 1));
    }
    let few = 1 << ((far >> 3) % 30) | 1 << ((far >> 9) % 30) | 1 << ((far >> 15) % 30) | 1 << ((far >> 21) % 30);
    let mask = if k % 2 == 0 { few } else { far & ALL_MASK };
    if on(5) {
        q.inc = Some(q.inc.unwrap_or(0) ^ mask);
    }
    if on(6) {
        q.exc = Some(q.exc.unwrap_or(0) ^ mask);
    }
    if how % 9 == 7 {
        // Refused, every one.
        q.max = Some(MAX + 1 + k);
        q.min = Some(k % 1000);
    }
    if how >= 128 {
        q.v = (k % NVER as u32) as u8;
    }
    q
}

fn vary(c: &Call, how: u8, k: u32) -> Call {
    match c {
        Call::Query(q) => Call::Query(vary_query(q, how, k)),
        Call::Keep(q) => Call::Keep(vary_query(q, how, k)),
        Call::Parse(s) => Call::Parse(if how % 2 == 0 { format!("{s}{k}") } else { format!("{}.{}.{k}", how % 20, k % 3) }),
        Call::Expand(e) => {
            let mut e = e.clone();
            match how % 3 {
                0 => e.names.push(word(k)),
                1 => e.names.insert(0, word(k)),
                _ => {
                    for (i, c) in crate::refdata::CATS.iter().enumerate() {
                        if k >> i & 1 == 1 {
                            e.names.push(c.1.into());
                        }
                    }
                }
            }
            e.times = 1;
            Call::Expand(e)
        }
        Call::Sets(a, b) => Call::Sets(*a ^ (k & ALL_MASK), *b),
        other => other.clone(),
    }
}

/// More than this kept is too much in any case.
const LIMIT: i64 = 48 << 20;
/// What leaks in this process stays, so that no more than a few cases can be looked at for long.
static CLOSER: AtomicI64 = AtomicI64::new(40);
static LEFT: AtomicI64 = AtomicI64::new(2 << 30);

fn grew(from: i64, calls: u64) -> Result<i64, String> {
    let by = live() - from;
    if by > LIMIT {
        return Err(format!("{by} bytes are still allocated after {calls} calls"));
    }
    Ok(by)
}

/// Runs `step` for 0.. and tells whether memory in use keeps growing.
fn watch(step: impl FnMut(u32), first: [u32; 4], then: [u32; 4]) -> Outcome {
    if LEFT.load(Relaxed) <= 0 {
        return Ok(());
    }
    let start = live();
    let got = watch_on(step, first, then);
    LEFT.fetch_sub((live() - start).max(0), Relaxed);
    got
}

fn watch_on(mut step: impl FnMut(u32), first: [u32; 4], then: [u32; 4]) -> Outcome {
    let mut k = 0;
    let mut phases = |ends: [u32; 4]| -> Result<Option<String>, String> {
        let start = live();
        let mut at = start;
        let mut rows = Vec::new();
        for end in ends {
            let from = k;
            let until = Instant::now() + Duration::from_secs(5);
            while k < end && (k % 64 != 0 || Instant::now() < until) {
                step(k);
                k += 1;
                if k % 64 == 0 {
                    grew(start, u64::from(k))?;
                }
            }
            rows.push((k - from, live() - at));
            at = live();
        }
        // The first phase is for caches to fill. An allocation may have room for twice what is in it.
        let on_and_on = rows[1..].iter().all(|(n, by)| *by * 8 >= i64::from(*n) && *by > 0);
        Ok(on_and_on.then(|| format!("bytes kept: {}", rows.iter().map(|(n, by)| format!("{by} by {n} calls")).collect::<Vec<_>>().join(", then "))))
    };
    if phases(first)?.is_none() {
        return Ok(());
    }
    // It may be a cache that fills slowly.
    if CLOSER.fetch_sub(1, Relaxed) <= 0 {
        return Ok(());
    }
    match phases(then)? {
        Some(m) => Err(m),
        None => Ok(()),
    }
}

fn again(c: &Again) -> Outcome {
    watch(|_| perform(&c.call), [4, 6, 8, 10], [20_000, 40_000, 80_000, 160_000])
}

fn varied(c: &Varied) -> Outcome {
    watch(|k| perform(&vary(&c.call, c.how, k.wrapping_add(c.from))), [60, 150, 350, 800], [20_000, 45_000, 100_000, 220_000])
}

fn fine(c: &Call) -> bool {
    !matches!(c, Call::Query(q) | Call::Keep(q) if crate::model::expected_error(q.lo(), q.hi()).is_some())
}

fn run(s: &mut Session) {
    let tags = |c: &Call| {
        Tags::new(fine(c))
            .tag(matches!(c, Call::Query(_)), "query")
            .tag(matches!(c, Call::Keep(_)), "interval set")
            .tag(matches!(c, Call::Parse(_) | Call::Expand(_)), "names")
            .tag(!fine(c), "refused")
    };
    // Calls that need something kept say nothing on their own.
    let own = || call().prop_filter("needs a set", |c| !matches!(c, Call::Probe(..) | Call::Step(..)));
    s.campaign("again", 150_000, || own().prop_map(|call| Again { call }), |c: &Again| tags(&c.call), again);
    let how = || weighted(&[(1, 0u8), (1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6), (1, 7), (2, 8), (1, 128 + 7), (1, 134)]);
    s.campaign(
        "varied",
        3_000,
        move || (own(), how(), any::<u32>()).prop_map(|(call, how, from)| Varied { call, how, from: from >> 2 }),
        |c: &Varied| tags(&c.call),
        varied,
    );
}
