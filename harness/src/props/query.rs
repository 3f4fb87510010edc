//! C01 exact result, C02 canonical form, C04 bounds.
use super::Prop;
use crate::engine::{Outcome, Session, Tags};
use crate::gen;
use crate::model::{self, build, Q};
use crate::refdata::{self, data, ALL_MASK, MAX, NCAT, NVER};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use unicode_intervals::Error;

pub const PROPS: [Prop; 3] = [
    Prop {
        id: "C01",
        run: c01,
        rule: "Random queries over all versions, category sets, ranges and character strings (boundaries of the data, \
               of the ranges and of the other string are favoured), plus enumerated families. Non-trivial: the \
               expected result is neither empty nor the whole code space, and at least one filter is in force.",
        exhaustive: false,
    },
    Prop {
        id: "C02",
        run: c02,
        rule: "Random queries as in C01, plus every pair of categories and runs of adjacent characters. Non-trivial: \
               the result has at least two intervals.",
        exhaustive: false,
    },
    Prop {
        id: "C04",
        run: c04,
        rule: "Bounds are any u32 pair, favouring the ends of the code space and of u32, set or left at the default, \
               with arbitrary other filters; plus every pair from a list of boundary values. Non-trivial: the pair is \
               invalid, or valid with a bound within 2 of an end of the code space or of the other bound.",
        exhaustive: false,
    },
];

pub fn check(q: &Q) -> Outcome {
    let got = build(q).intervals();
    match (got, model::query(q)) {
        (Ok(g), Ok(w)) if g == w => Ok(()),
        (Ok(g), Ok(w)) => {
            // Only the set counts here; its form is C02's business.
            let valid = g.iter().all(|i| i.0 <= i.1 && i.1 <= MAX);
            if valid && model::canon(&g) == w {
                return Ok(());
            }
            Err(format!("{}: {}", show(q), model::describe_diff(&g, &w)))
        }
        (Err(g), Err(w)) if g == w => Ok(()),
        (g, w) => Err(format!("{}: got {g:?}, expected {w:?}", show(q))),
    }
}

pub fn show(q: &Q) -> String {
    // Long strings do not belong in a message.
    let text = |s: &Option<String>| match s {
        Some(s) if s.len() > 2000 => format!("{} characters", s.chars().count()),
        other => format!("{other:?}"),
    };
    let cats = |m: Option<u32>| match m {
        None => "-".to_string(),
        Some(m) => format!("{{{}}}", model::set_of(m)),
    };
    format!(
        "{} include={} exclude={} +chars={} -chars={} min={:?} max={:?}",
        refdata::VERS[q.v as usize].1,
        cats(q.inc),
        cats(q.exc),
        text(&q.inch),
        text(&q.exch),
        q.min,
        q.max
    )
}

fn interesting(q: &Q) -> bool {
    match model::query(q) {
        Err(_) => false,
        Ok(r) => {
            !r.is_empty()
                && r != [(0, MAX)]
                && (q.mask() != ALL_MASK || !q.is_plain() || q.lo() != 0 || q.hi() != MAX)
        }
    }
}

pub fn tags(q: &Q) -> Tags {
    let n = q.mask().count_ones();
    let low = |s: &Option<String>| s.as_deref().unwrap_or("").chars().all(|c| (c as u32) < 256);
    Tags::new(interesting(q))
        .tag(n == 0, "no categories")
        .tag(n == 1, "one category")
        .tag(n > 1 && n < 30, "several categories")
        .tag(n == 30, "all categories")
        .tag(q.hi() < 256, "below 256")
        .tag(q.hi() < 256 && !(low(&q.inch) && low(&q.exch)), "below 256, characters above")
        .tag(q.lo() == 0 && q.hi() == MAX, "full range")
        .tag(!q.is_plain(), "custom characters")
        .tag(
            !q.inch.as_deref().unwrap_or("").is_empty() && !q.exch.as_deref().unwrap_or("").is_empty(),
            "both character strings",
        )
}

pub fn big_tags(b: &gen::Big) -> Tags {
    let q = b.query();
    let n = model::query(&q).map_or(0, |r| r.len());
    let chars = |s: &Option<String>| s.as_deref().map_or(0, |s| s.chars().count());
    let most = chars(&q.inch).max(chars(&q.exch));
    Tags::new(n > 1 && most > 255)
        .tag(n > 255, "over 255 intervals")
        .tag(n > 65535, "over 65,535 intervals")
        .tag(most > 255, "over 255 characters")
        .tag(most > 65535, "over 65,535 characters")
}

fn windows(v: usize, inc: Option<u32>, top: u32, mut f: impl FnMut(Q) -> bool) {
    for lo in 0..=top {
        for hi in lo..=top {
            let q = Q { inc, min: Some(lo), max: Some(hi), ..Q::new(v) };
            if !f(q) {
                return;
            }
        }
    }
}

fn c01(s: &mut Session) {
    s.campaign("random", 1_600_000, gen::query, tags, check);
    s.campaign("low", 700_000, gen::low_query, tags, check);
    s.campaign("long strings", 4_000, gen::big, big_tags, |b| check(&b.query()));
    // Every window of the first 264 code points, per category and per major class.
    let mut masks: Vec<Option<u32>> = vec![None, Some(0)];
    masks.extend((0..NCAT).map(|c| Some(1 << c)));
    masks.extend(refdata::GROUPS.iter().map(|g| Some(refdata::group_mask(*g))));
    s.sweep(
        "low windows",
        NVER * masks.len(),
        |i, sink| windows(i / masks.len(), masks[i % masks.len()], 263, |q| sink.case(interesting(&q), q)),
        check,
    );
    // Ranges that start or end at every edge of every interval of every category.
    s.sweep(
        "category edges",
        NVER * NCAT,
        |i, sink| {
            let (v, c) = (i / NCAT, i % NCAT);
            let runs = &data()[v].by_cat[c];
            for (k, &(a, b)) in runs.iter().enumerate() {
                let next = runs.get(k + 1).map_or(MAX, |n| n.0);
                for (lo, hi) in [
                    (a, MAX),
                    (a.saturating_sub(1), MAX),
                    ((a + 1).min(MAX), MAX),
                    (b, MAX),
                    ((b + 1).min(MAX), MAX),
                    (0, a),
                    (0, a.saturating_sub(1)),
                    (0, b),
                    (0, b.saturating_sub(1)),
                    (0, (b + 1).min(MAX)),
                    (b, next),
                    (a, b),
                ] {
                    if lo > hi {
                        continue;
                    }
                    for q in [
                        Q { inc: Some(1 << c), min: Some(lo), max: Some(hi), ..Q::new(v) },
                        Q { exc: Some(1 << c), min: Some(lo), max: Some(hi.min(lo + 0x200)), ..Q::new(v) },
                    ] {
                        if !sink.case(interesting(&q), q) {
                            return;
                        }
                    }
                }
            }
        },
        check,
    );
    s.sweep(
        "category pairs",
        NVER * NCAT,
        |i, sink| {
            let (v, a) = (i / NCAT, i % NCAT);
            for b in a..NCAT {
                let m = 1 << a | 1 << b;
                for (min, max) in [
                    (None, None),
                    (None, Some(255)),
                    (None, Some(256)),
                    (Some(100), Some(0x3000)),
                    (Some(256), None),
                    (Some(0xD000), Some(0x1_F000)),
                ] {
                    for q in [
                        Q { inc: Some(m), min, max, ..Q::new(v) },
                        Q { exc: Some(m), min, max, ..Q::new(v) },
                        Q { inc: Some(m), exc: Some(1 << a), min, max, ..Q::new(v) },
                    ] {
                        if !sink.case(interesting(&q), q) {
                            return;
                        }
                    }
                }
            }
        },
        check,
    );
    // Every set of three categories.
    s.sweep(
        "category triples",
        NCAT * NCAT,
        |i, sink| {
            let (a, b) = (i / NCAT, i % NCAT);
            for c in b + 1..NCAT {
                if a >= b {
                    break;
                }
                let m = 1 << a | 1 << b | 1 << c;
                let v = (a + b + c) % NVER;
                for q in [
                    Q { inc: Some(m), ..Q::new(v) },
                    Q { exc: Some(m), ..Q::new(v) },
                    Q { inc: Some(m), max: Some(255), ..Q::new(v) },
                    Q { exc: Some(m), max: Some(255), ..Q::new((v + 3) % NVER) },
                ] {
                    if !sink.case(interesting(&q), q) {
                        return;
                    }
                }
            }
        },
        check,
    );
    // Every code point, alone, in every role.
    const CHUNK: u32 = 0x800;
    let chunks = (MAX as usize + 1) / CHUNK as usize;
    s.sweep(
        "every code point",
        NVER * chunks,
        |i, sink| {
            let (v, k) = (i / chunks, i % chunks);
            for c in k as u32 * CHUNK..(k as u32 + 1) * CHUNK {
                let g = 1 << data()[v].gc[c as usize];
                let at = Q { min: Some(c), max: Some(c), ..Q::new(v) };
                if !sink.case(true, Q { inc: Some(g), ..at.clone() })
                    || !sink.case(false, Q { exc: Some(g), ..at.clone() })
                    || !sink.case(true, Q { inc: Some(g | 1 << ((c as usize + 7) % NCAT)), ..at.clone() })
                {
                    return;
                }
                let Some(ch) = char::from_u32(c).map(String::from) else { continue };
                if !sink.case(true, Q { inc: Some(0), inch: Some(ch.clone()), ..Q::new(v) })
                    || !sink.case(true, Q { exch: Some(ch.clone()), ..Q::new(v) })
                    || !sink.case(true, Q { inc: Some(0), inch: Some(format!("a{ch}")), exch: Some("a".into()), ..at.clone() })
                    || !sink.case(false, Q { exch: Some(ch), ..at })
                {
                    return;
                }
            }
        },
        check,
    );
}

fn canonical(q: &Q) -> Outcome {
    match build(q).intervals() {
        Ok(r) => match model::not_canonical(&r) {
            None => Ok(()),
            Some(why) => Err(format!("{}: {why}", show(q))),
        },
        Err(e) => Err(format!("{}: unexpected error {e:?}", show(q))),
    }
}

/// Strings made of runs of neighbouring characters, next to the base intervals.
fn adjacency() -> impl Strategy<Value = Q> {
    (gen::plain_query(), proptest::collection::vec((gen::any_cp(), 1u32..12, any::<bool>()), 1..8)).prop_map(
        |(mut q, runs)| {
            let (mut inc, mut exc) = (String::new(), String::new());
            for (start, len, which) in runs {
                for k in 0..len {
                    let c = if k % 2 == 0 { start + k } else { start.saturating_sub(k) };
                    if let Some(c) = char::from_u32(c) {
                        if which { &mut inc } else { &mut exc }.push(c);
                    }
                }
            }
            q.inch = Some(inc);
            q.exch = Some(exc);
            q
        },
    )
}

fn several(q: &Q) -> Tags {
    let n = model::query(q).map_or(0, |r| r.len());
    tags(q).tag(n == 0, "empty result").tag(n > 1, "several intervals").tag(n > 100, "over 100 intervals")
}
fn several_nt(q: &Q) -> Tags {
    let mut t = several(q);
    t.nontrivial = t.labels.contains(&"several intervals");
    t
}

fn c02(s: &mut Session) {
    s.campaign("random", 1_000_000, gen::query, several_nt, canonical);
    s.campaign("low", 500_000, gen::low_query, several_nt, canonical);
    s.campaign("long strings", 4_000, gen::big, big_tags, |b| canonical(&b.query()));
    s.campaign("neighbouring characters", 600_000, adjacency, several_nt, canonical);
    s.sweep(
        "category pairs",
        NVER * NCAT,
        |i, sink| {
            let (v, a) = (i / NCAT, i % NCAT);
            for b in 0..NCAT {
                let m = 1 << a | 1 << b;
                for q in [
                    Q { inc: Some(m), ..Q::new(v) },
                    Q { exc: Some(m), ..Q::new(v) },
                    Q { inc: Some(m), max: Some(255), ..Q::new(v) },
                    Q { exc: Some(m), min: Some(1), ..Q::new(v) },
                    Q { inc: Some(m), min: Some(255), max: Some(0xFFFF), ..Q::new(v) },
                ] {
                    let nt = model::query(&q).is_ok_and(|r| r.len() > 1);
                    if !sink.case(nt, q) {
                        return;
                    }
                }
            }
        },
        canonical,
    );
    s.sweep(
        "low windows",
        NVER * NCAT,
        |i, sink| {
            windows(i / NCAT, Some(ALL_MASK & !(1 << (i % NCAT))), 260, |q| {
                let nt = q.max > q.min;
                sink.case(nt, q)
            });
        },
        canonical,
    );
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Bounds {
    pub q: Q,
}

fn bounds_ok(q: &Q) -> Outcome {
    let (lo, hi) = (q.lo(), q.hi());
    let b = build(q);
    let want = model::expected_error(lo, hi);
    for (what, got) in [("intervals", b.intervals().err()), ("interval_set", b.interval_set().err())] {
        if got != want {
            return Err(format!("{}: {what}() error {got:?}, expected {want:?}", show(q)));
        }
        if let Some(e) = got {
            let text = e.to_string();
            for n in [lo, hi] {
                if !text.contains(&n.to_string()) {
                    return Err(format!("{}: the message {text:?} does not show {n}", show(q)));
                }
            }
            let distinct = match e {
                Error::CodepointNotInRange(a, b) | Error::InvalidCodepoints(a, b) => (a, b) == (lo, hi),
                _ => false,
            };
            if !distinct {
                return Err(format!("{}: wrong error {e:?}", show(q)));
            }
        }
    }
    // A valid pair also bounds the result (custom characters aside).
    if want.is_none() && q.is_plain() {
        let r = b.intervals().map_err(|e| format!("{e:?}"))?;
        if let Some(i) = r.iter().find(|i| i.0 < lo || i.1 > hi) {
            return Err(format!("{}: {i:?} is outside [{lo}, {hi}]", show(q)));
        }
    }
    Ok(())
}

fn bounds_nt(q: &Q) -> bool {
    let (lo, hi) = (q.lo(), q.hi());
    let near = |a: u32, b: u32| a.abs_diff(b) <= 2;
    model::expected_error(lo, hi).is_some() || near(lo, hi) || near(hi, MAX) || near(lo, 0) || near(lo, MAX) || near(hi, 0)
}

fn c04(s: &mut Session) {
    let strat = || {
        let side = || prop_oneof![1 => Just(None), 6 => gen::any_u32().prop_map(Some)];
        let pair = prop_oneof![
            4 => (side(), side()),
            2 => (gen::any_u32(), -2i64..=2).prop_map(|(a, d)| {
                let b = (i64::from(a) + d).clamp(0, i64::from(u32::MAX)) as u32;
                (Some(a), Some(b))
            }),
        ];
        (gen::query(), pair).prop_map(|(mut q, (min, max))| {
            q.min = min;
            q.max = max;
            q
        })
    };
    let classify = |q: &Q| {
        let e = model::expected_error(q.lo(), q.hi());
        Tags::new(bounds_nt(q))
            .tag(e.is_none(), "valid")
            .tag(matches!(e, Some(Error::CodepointNotInRange(..))), "out of range")
            .tag(matches!(e, Some(Error::InvalidCodepoints(..))), "reversed")
            .tag(q.lo() > MAX && q.hi() > MAX, "both out of range")
            .tag(q.lo() > q.hi() && q.lo() > MAX, "reversed and out of range")
    };
    s.campaign("random", 800_000, strat, classify, bounds_ok);
    let mut values: Vec<u32> = gen::SPECIAL.to_vec();
    for x in [MAX + 1, MAX + 2, 0x11_FFFF, 0x1F_FFFF, 0x20_0000, 1 << 24, 1 << 31, u32::MAX - 1, u32::MAX] {
        values.push(x);
    }
    values.extend(crate::mined::mined().numbers.iter().copied().filter(|n| *n > 300));
    values.extend((0..32).flat_map(|b| [1u32 << b, (1u32 << b) - 1]));
    values.sort_unstable();
    values.dedup();
    s.sweep(
        "boundary pairs",
        values.len(),
        |i, sink| {
            for &hi in &values {
                for k in 0..4u32 {
                    let q = Q {
                        min: Some(values[i]),
                        max: Some(hi),
                        inc: if k & 1 == 1 { Some(0) } else { None },
                        exc: if k == 2 { Some(1 << (i % NCAT)) } else { None },
                        inch: if k >= 2 { Some("a\u{10FFFF}".into()) } else { None },
                        ..Q::new(i % NVER)
                    };
                    if !sink.case(bounds_nt(&q), q) {
                        return;
                    }
                }
            }
        },
        bounds_ok,
    );
}
