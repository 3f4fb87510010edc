//! C25: the work grows with what is asked for and what is returned, not with its square.
use super::Prop;
use crate::engine::{Outcome, Session, Tags};
use crate::gen::weighted;
use crate::model::{build, Q};
use crate::refdata::{MAX, NVER};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::hint::black_box;
use std::time::Duration;

pub const PROPS: [Prop; 1] = [Prop {
    id: "C25",
    run,
    rule: "Queries with custom characters, and walks through interval sets, of a thousand up to half a million characters of the same \
           shape (ascending, descending, shuffled, repeated, from both ends, in blocks, in windows of any size). Measured in \
           processor time of the thread; what is k times as long may take no more than 40 times k as long, which a square \
           exceeds from 64 thousand characters on. Non-trivial: the operation takes more than 5 microseconds at a thousand.",
    exhaustive: false,
}];

#[derive(Debug, Clone, Copy, Hash, PartialEq, Serialize, Deserialize)]
enum What {
    Intervals,
    Set,
    Forward,
    Backward,
    BothEnds,
    Jumps,
    Names,
    Version,
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
struct Growth {
    what: What,
    /// Where the characters go: included, excluded, both, or by turns.
    into: u8,
    shape: u8,
    step: u32,
    base: u32,
    /// Number of code points the characters come from.
    window: u32,
    inc: Option<u32>,
    exc: Option<u32>,
    min: Option<u32>,
    max: Option<u32>,
    v: u8,
}

fn scalar(c: u32) -> char {
    char::from_u32(c % (MAX + 1)).unwrap_or('\u{e000}')
}

/// Spread over the window, so that the order is of the same kind however many there are.
fn position(g: &Growth, i: u32, n: u32) -> u32 {
    let (i, n, step, window) = (u64::from(i), u64::from(n), u64::from(g.step), u64::from(g.window.max(1)));
    let at = |k: u64, passes: u64| k * passes * window / n % window;
    let got = match g.shape % 10 {
        0 => at(i, step),
        1 => at(n - 1 - i, step),
        2 => (i.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20) % window,
        3 => step % window,
        4 => i % 2 * step % window,
        5 => at(if i < n / 2 { 2 * i } else { 2 * (n - 1 - i) + 1 }, 1),
        6 => at(i, step * 37),
        // The even ones, then the odd ones.
        7 => at(if i < n / 2 { 2 * i } else { 2 * (i - n / 2) + 1 }, 1),
        8 => at(if i % 2 == 0 { i } else { n - i }, step),
        _ => {
            let block = n / (16 * step);
            at((n / block).saturating_sub(i / block + 1) * block + i % block, 1)
        }
    };
    got as u32
}

fn text(g: &Growth, n: u32) -> String {
    (0..n).map(|i| scalar(g.base + position(g, i, n))).collect()
}

fn subject(g: &Growth, n: u32) -> Q {
    let mut q = Q::new(g.v as usize % NVER);
    (q.inc, q.exc, q.min, q.max) = (g.inc, g.exc, g.min, g.max);
    let s = text(g, n);
    match g.into % 4 {
        0 => q.inch = Some(s),
        1 => q.exch = Some(s),
        2 => (q.inch, q.exch) = (Some(s.clone()), Some(s)),
        _ => {
            let odd = |k: usize| s.chars().enumerate().filter(|(i, _)| i % 2 == k).map(|(_, c)| c).collect();
            (q.inch, q.exch) = (Some(odd(0)), Some(odd(1)));
        }
    }
    q
}

fn thread_time() -> Duration {
    extern "C" {
        fn clock_gettime(clock: i32, at: *mut [i64; 2]) -> i32;
    }
    const CLOCK_THREAD_CPUTIME_ID: i32 = 3;
    let mut at = [0i64; 2];
    assert_eq!(unsafe { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &mut at) }, 0);
    Duration::new(at[0] as u64, at[1] as u32)
}

fn timed<T>(f: impl FnOnce() -> T) -> Duration {
    let from = thread_time();
    black_box(f());
    thread_time() - from
}

fn once(g: &Growth, q: &Q, n: u32) -> Duration {
    if matches!(g.what, What::Names | What::Version) {
        let s = match g.what {
            What::Names => text(g, n),
            _ => "1.".repeat(n as usize / 2),
        };
        return timed(|| (uvh_calls::expand(&[s.clone()], crate::refdata::VERS[0].0).is_ok(), s.parse::<unicode_intervals::UnicodeVersion>().is_ok()));
    }
    let b = build(q);
    if g.what == What::Intervals {
        return timed(|| b.intervals());
    }
    if g.what == What::Set {
        return timed(|| b.interval_set());
    }
    timed(|| {
        let Ok(set) = b.interval_set() else { return };
        let mut it = set.iter();
        match g.what {
            What::Forward => while uvh_calls::next(&mut it).is_some() {},
            What::Backward => while uvh_calls::next_back(&mut it).is_some() {},
            What::BothEnds => while uvh_calls::next(&mut it).is_some() && uvh_calls::next_back(&mut it).is_some() {},
            _ => while uvh_calls::nth(&mut it, g.step as usize).is_some() && uvh_calls::nth_back(&mut it, 1).is_some() {},
        }
    })
}

const FIRST: u32 = 1 << 10;
/// Where a square shows, and the steps to it, at which something worse does.
const TIMES: [u32; 7] = [4, 16, 32, 64, 128, 256, 512];
/// What takes so long is not made longer: it would be a hang.
const PATIENCE: Duration = Duration::from_secs(2);
const FLOOR: Duration = Duration::from_micros(5);

fn measure(g: &Growth, n: u32, times: u32) -> Duration {
    let q = subject(g, n);
    (0..times).map(|_| once(g, &q, n)).min().expect("once")
}

fn at_first(g: &Growth) -> Duration {
    measure(g, FIRST, 8).max(FLOOR)
}

/// How long it took, and whether that is too long.
fn longer(g: &Growth, k: u32, small: Duration) -> (Duration, bool) {
    let took = measure(g, FIRST * k, if k > 16 { 1 } else { 2 });
    (took, took > small * 40 * k)
}

fn growth(g: &Growth) -> Outcome {
    let small = at_first(g);
    for k in TIMES {
        let (took, much) = longer(g, k, small);
        if !much && took > PATIENCE {
            break;
        }
        if !much {
            continue;
        }
        // Something else may have been going on.
        let mut last = None;
        for _ in 0..2 {
            let small = at_first(g);
            let (took, much) = longer(g, k, small);
            if !much {
                return Ok(());
            }
            last = Some((small, took));
        }
        let (small, took) = last.expect("twice");
        return Err(format!("{:?} with {FIRST} characters: {small:?}, with {} times as many: {took:?}", g.what, k));
    }
    Ok(())
}

fn run(s: &mut Session) {
    let what = || {
        weighted(&[
            (6, What::Intervals),
            (4, What::Set),
            (2, What::Forward),
            (2, What::Backward),
            (1, What::BothEnds),
            (2, What::Jumps),
            (1, What::Names),
            (1, What::Version),
        ])
    };
    let base = || weighted(&[(4, 0u32), (2, 0x100), (2, 0xFF00), (2, 0x1_0000), (1, 0x3_4000), (1, 0xE_0000)]);
    let window = || weighted(&[(2, 128u32), (2, 256), (1, 1024), (2, 0x1_0000), (6, 0x11_0000)]);
    let some = || prop_oneof![Just(None), Just(Some(0u32)), (0u32..30).prop_map(|i| Some(1 << i)), any::<u32>().prop_map(|m| Some(m & crate::refdata::ALL_MASK))];
    let low = || weighted(&[(6, None), (1, Some(0)), (1, Some(0x80)), (1, Some(0x1_0000))]);
    let high = || weighted(&[(6, None), (1, Some(255)), (1, Some(0x7F)), (1, Some(0x400)), (1, Some(0x10_FFFF)), (1, Some(0x1_0000))]);
    s.campaign(
        "growth",
        1_200,
        move || {
            ((what(), 0u8..4, 0u8..10, 1u32..6), (base(), window(), some(), some()), (low(), high(), 0..NVER as u8)).prop_map(
                |((what, into, shape, step), (base, window, inc, exc), (min, max, v))| Growth { what, into, shape, step, base, window, inc, exc, min, max, v },
            )
        },
        |g: &Growth| {
            Tags::new(measure(g, FIRST, 1) > FLOOR)
                .tag(g.what == What::Intervals, "intervals")
                .tag(g.what == What::Set, "interval set")
                .tag(matches!(g.what, What::Forward | What::Backward | What::BothEnds | What::Jumps), "iteration")
                .tag(matches!(g.what, What::Names | What::Version), "names")
        },
        growth,
    );
}
