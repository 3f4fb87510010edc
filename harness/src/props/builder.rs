//! C05 builder behaviour, C06 purity.
use super::query::show;
use super::Prop;
use crate::engine::{Outcome, Session, Tags};
use crate::gen;
use crate::model::{self, build, Q};
use crate::refdata::{CATS, MAX, NVER, VERS};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use unicode_intervals::{Error, Interval, IntervalQuery, UnicodeCategorySet};

pub const PROPS: [Prop; 2] = [
    Prop {
        id: "C05",
        run: c05,
        rule: "Sequences of up to 25 builder operations (set a filter, clear one, clone, swap with a clone, run) \
               against a record of the last value of each filter. Non-trivial: a filter is set more than once, or a \
               clone is used after its original changed.",
        exhaustive: false,
    },
    Prop {
        id: "C06",
        run: c06,
        rule: "Histories of up to 14 near-identical queries, run in order, again in reverse, with their strings in one \
               reused buffer, and from several threads at once; long histories that return to a few queries among \
               hundreds; and calls of every kind mixed, with interval sets and iterators kept alive between them. Each \
               result is compared with the reference. Non-trivial: two queries of the history differ in one field only \
               and have different results; for mixed calls, a kept set or iterator is used after another call.",
        exhaustive: false,
    },
];

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub enum Op {
    /// `form` picks among the equivalent argument types.
    Inc(Option<u32>, u8),
    Exc(Option<u32>, u8),
    InChars(String),
    ExChars(String),
    Min(u32),
    Max(u32),
    /// Remember a clone.
    Save,
    /// Continue from the remembered clone, keeping the current one as the remembered one.
    Swap,
    Run,
    RunSet,
}
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Script {
    pub v: u8,
    pub top: bool,
    pub ops: Vec<Op>,
}

fn set_arg(m: Option<u32>, form: u8) -> Option<UnicodeCategorySet> {
    let m = m?;
    Some(match form % 3 {
        0 => model::set_of(m),
        1 => (0..30).filter(|i| m >> i & 1 == 1).fold(UnicodeCategorySet::new(), |s, i| s | CATS[i].0),
        _ => (0..30).rev().filter(|i| m >> i & 1 == 1).fold(UnicodeCategorySet::default(), |s, i| CATS[i].0 | s),
    })
}

fn cats<'a>(b: IntervalQuery<'a>, include: bool, m: Option<u32>, form: u8) -> IntervalQuery<'a> {
    let single = m.filter(|m| m.count_ones() == 1).map(|m| CATS[m.trailing_zeros() as usize].0);
    match (include, single, set_arg(m, form), form & 4 != 0) {
        (true, Some(c), _, true) => b.include_categories(c),
        (false, Some(c), _, true) => b.exclude_categories(c),
        (true, _, Some(s), false) => b.include_categories(s),
        (false, _, Some(s), false) => b.exclude_categories(s),
        (true, _, s, _) => b.include_categories(s),
        (false, _, s, _) => b.exclude_categories(s),
    }
}

fn run_one(b: &IntervalQuery<'_>, q: &Q) -> Outcome {
    let want = model::query(q);
    let got = b.intervals();
    if got != want {
        return Err(match (got, want) {
            (Ok(g), Ok(w)) => format!("{}: {}", show(q), model::describe_diff(&g, &w)),
            (g, w) => format!("{}: got {g:?}, expected {w:?}", show(q)),
        });
    }
    Ok(())
}

fn script(s: &Script) -> Outcome {
    let mut b = if s.top { unicode_intervals::query() } else { VERS[s.v as usize].0.query() };
    let start = if s.top { NVER - 1 } else { s.v as usize };
    let mut q = Q::new(start);
    let mut saved = (b.clone(), q.clone());
    for op in &s.ops {
        match op {
            Op::Inc(m, f) => {
                b = cats(b, true, *m, *f);
                q.inc = *m;
            }
            Op::Exc(m, f) => {
                b = cats(b, false, *m, *f);
                q.exc = *m;
            }
            Op::InChars(t) => {
                b = b.include_characters(t);
                q.inch = Some(t.clone());
            }
            Op::ExChars(t) => {
                b = b.exclude_characters(t);
                q.exch = Some(t.clone());
            }
            Op::Min(c) => {
                b = b.min_codepoint(*c);
                q.min = Some(*c);
            }
            Op::Max(c) => {
                b = b.max_codepoint(*c);
                q.max = Some(*c);
            }
            Op::Save => saved = (b.clone(), q.clone()),
            Op::Swap => {
                let current = (b.clone(), q.clone());
                b = saved.0.clone();
                q = saved.1.clone();
                saved = current;
            }
            Op::Run => {
                let before = b.clone();
                run_one(&b, &q)?;
                run_one(&b, &q)?;
                if b != before {
                    return Err("running a query changed its builder".into());
                }
            }
            Op::RunSet => {
                let got = b.interval_set().map(|s| s.iter().take(50).collect::<Vec<_>>());
                let want = model::query(&q).map(|r| r.iter().flat_map(|i| i.0..=i.1).take(50).collect::<Vec<_>>());
                if got != want {
                    return Err(format!("{}: interval_set() starts {got:?}, expected {want:?}", show(&q)));
                }
            }
        }
    }
    run_one(&b, &q)?;
    run_one(&saved.0, &saved.1)?;
    // Same settings, set once each in a fixed order: an equal builder.
    let fresh = build(&q);
    if fresh != b || b != fresh {
        return Err(format!("{}: not equal to a builder with the same settings", show(&q)));
    }
    if fresh.intervals() != b.intervals() {
        return Err(format!("{}: differs from a builder with the same settings", show(&q)));
    }
    if b == saved.0 && model::query(&q) != model::query(&saved.1) {
        return Err(format!("builders with different results compare equal: {} and {}", show(&q), show(&saved.1)));
    }
    Ok(())
}

fn op() -> impl Strategy<Value = Op> {
    let text = || {
        vec(prop_oneof![2 => 0u32..300, 3 => gen::any_cp()], 0..5)
            .prop_map(|v| v.into_iter().filter_map(char::from_u32).collect::<String>())
    };
    let edge = || prop_oneof![6 => gen::any_cp(), 3 => 0u32..300, 1 => Just(MAX + 1), 1 => Just(MAX)];
    prop_oneof![
        3 => (gen::opt_mask_include(), any::<u8>()).prop_map(|(m, f)| Op::Inc(m, f)),
        3 => (gen::opt_mask_exclude(), any::<u8>()).prop_map(|(m, f)| Op::Exc(m, f)),
        2 => text().prop_map(Op::InChars),
        2 => text().prop_map(Op::ExChars),
        3 => edge().prop_map(Op::Min),
        3 => edge().prop_map(Op::Max),
        1 => Just(Op::Save),
        1 => Just(Op::Swap),
        2 => Just(Op::Run),
        1 => Just(Op::RunSet),
    ]
}

fn c05(s: &mut Session) {
    let strat = || {
        (0..NVER as u8, any::<bool>(), vec(op(), 1..25)).prop_map(|(v, top, ops)| Script { v, top: top && v % 2 == 0, ops })
    };
    let classify = |s: &Script| {
        let count = |f: fn(&Op) -> bool| s.ops.iter().filter(|o| f(o)).count();
        let again = [
            count(|o| matches!(o, Op::Inc(..))),
            count(|o| matches!(o, Op::Exc(..))),
            count(|o| matches!(o, Op::InChars(..))),
            count(|o| matches!(o, Op::ExChars(..))),
            count(|o| matches!(o, Op::Min(..))),
            count(|o| matches!(o, Op::Max(..))),
        ]
        .iter()
        .any(|n| *n > 1);
        let swaps = count(|o| matches!(o, Op::Swap));
        Tags::new(again || swaps > 0)
            .tag(again, "a filter set twice")
            .tag(swaps > 0, "clone resumed")
            .tag(s.ops.iter().any(|o| matches!(o, Op::Inc(None, _) | Op::Exc(None, _))), "categories cleared")
            .tag(count(|o| matches!(o, Op::Run | Op::RunSet)) > 0, "run midway")
    };
    s.campaign("builder scripts", 500_000, strat, classify, script);
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct History {
    pub qs: Vec<Q>,
    pub threads: u8,
}

pub(crate) fn mutate(base: &Q, kind: u8, a: u32, other: &Q) -> Q {
    let mut q = base.clone();
    match kind {
        0 => q.v = (a % NVER as u32) as u8,
        1 => q.inc = other.inc,
        2 => q.exc = other.exc,
        3 => q.inch = other.inch.clone(),
        4 => q.exch = other.exch.clone(),
        5 => q.min = Some(a % (q.hi().min(MAX) + 1)),
        6 => q.max = Some(q.lo() + a % (MAX - q.lo() + 1)),
        7 => std::mem::swap(&mut q.inch, &mut q.exch),
        8 => std::mem::swap(&mut q.inc, &mut q.exc),
        9 => q.inc = Some(q.inc.unwrap_or(0) ^ gen::single(a)),
        10 => q.exc = Some(q.exc.unwrap_or(0) ^ gen::single(a)),
        11 => {
            // same length, one character different
            if let Some(s) = &q.inch {
                let mut c: Vec<char> = s.chars().collect();
                if !c.is_empty() {
                    let i = a as usize % c.len();
                    c[i] = char::from_u32(c[i] as u32 ^ 1).unwrap_or('a');
                    q.inch = Some(c.into_iter().collect());
                }
            }
        }
        _ => {}
    }
    q
}

/// The strings of every query at the same addresses: neither place nor length identifies a string.
fn reused_buffer(qs: &[Q], want: &[Result<Vec<Interval>, Error>]) -> Outcome {
    let len = |s: &Option<String>| s.as_ref().map_or(0, String::len);
    let room = qs.iter().map(|q| len(&q.inch) + len(&q.exch)).max().unwrap_or(0);
    let mut buf = String::with_capacity(room);
    for (i, q) in qs.iter().enumerate() {
        for split in [true, false] {
            buf.clear();
            // Include first, or exclude first: the second one's place depends on the first one's length.
            let (a, b) = if split { (&q.inch, &q.exch) } else { (&q.exch, &q.inch) };
            buf.push_str(a.as_deref().unwrap_or(""));
            let cut = buf.len();
            buf.push_str(b.as_deref().unwrap_or(""));
            let (x, y) = buf.split_at(cut);
            let (inc, exc) = if split { (x, y) } else { (y, x) };
            let plain = Q { inch: None, exch: None, ..q.clone() };
            let mut builder = build(&plain);
            if q.inch.is_some() {
                builder = builder.include_characters(inc);
            }
            if q.exch.is_some() {
                builder = builder.exclude_characters(exc);
            }
            let got = builder.intervals();
            if got != want[i] {
                let why = match (&got, &want[i]) {
                    (Ok(g), Ok(w)) => model::describe_diff(g, w),
                    (g, w) => format!("got {g:?}, expected {w:?}"),
                };
                return Err(format!("strings in a reused buffer, query #{i}: {}: {why}", show(q)));
            }
        }
    }
    Ok(())
}

fn history(h: &History) -> Outcome {
    let want: Vec<_> = h.qs.iter().map(model::query).collect();
    let check = |i: usize, pass: &str| -> Outcome {
        let got = build(&h.qs[i]).intervals();
        if got == want[i] {
            return Ok(());
        }
        let why = match (&got, &want[i]) {
            (Ok(g), Ok(w)) => model::describe_diff(g, w),
            (g, w) => format!("got {g:?}, expected {w:?}"),
        };
        Err(format!("{pass}, query #{i}: {}: {why}", show(&h.qs[i])))
    };
    let n = h.qs.len();
    for i in 0..n {
        check(i, "in order")?;
    }
    for i in (0..n).rev() {
        check(i, "in reverse")?;
        check(i, "repeated")?;
    }
    reused_buffer(&h.qs, &want)?;
    if h.threads > 0 {
        let results: Vec<Outcome> = std::thread::scope(|sc| {
            let handles: Vec<_> = (0..h.threads as usize)
                .map(|t| {
                    let check = &check;
                    sc.spawn(move || {
                        for round in 0..3 {
                            for k in 0..n {
                                check((k * (t + 1) + round) % n, "concurrently")?;
                            }
                        }
                        Ok(())
                    })
                })
                .collect();
            handles.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked in a thread".into()))).collect()
        });
        results.into_iter().collect::<Result<(), String>>()?;
    }
    Ok(())
}

fn c06(s: &mut Session) {
    let strat = |threads: bool| {
        move || {
            (
                gen::query(),
                vec((0u8..13, any::<u32>(), gen::query(), any::<bool>()), 1..13),
                if threads { 2u8..5 } else { 0u8..1 },
            )
                .prop_map(|(base, steps, threads)| {
                    let mut qs = vec![base];
                    for (kind, a, other, from_last) in steps {
                        let from = if from_last { qs.len() - 1 } else { a as usize % qs.len() };
                        let q = mutate(&qs[from], kind, a, &other);
                        qs.push(q);
                    }
                    History { qs, threads }
                })
        }
    };
    let classify = |h: &History| {
        let mut one_field = false;
        for (i, a) in h.qs.iter().enumerate() {
            for b in &h.qs[i + 1..] {
                let d = [
                    a.v != b.v,
                    a.inc != b.inc,
                    a.exc != b.exc,
                    a.inch != b.inch,
                    a.exch != b.exch,
                    a.min != b.min,
                    a.max != b.max,
                ];
                if d.iter().filter(|x| **x).count() == 1 && model::query(a) != model::query(b) {
                    one_field = true;
                }
            }
        }
        Tags::new(one_field).tag(h.threads > 0, "concurrent")
    };
    s.campaign("histories", 80_000, strat(false), classify, history);
    s.campaign("threads", 5_000, strat(true), classify, history);
    let small = || {
        let few = prop_oneof![
            3 => gen::low_query(),
            2 => gen::plain_query(),
            1 => gen::query(),
        ];
        (vec(few, 1..40), vec(any::<u32>(), 100..600)).prop_map(|(qs, visits)| Visits { qs, visits })
    };
    s.campaign("long histories", 600, small, |v: &Visits| Tags::new(v.qs.len() > 1).tag(v.visits.len() > 400, "over 400 calls"), visits);
    let mixed = || {
        (vec(call(), 2..40), prop_oneof![3 => Just(0u8), 1 => 2u8..4]).prop_map(|(calls, threads)| Mixed { calls, threads })
    };
    let kept = |m: &Mixed| {
        let mut sets = 0;
        let mut later = false;
        for c in &m.calls {
            match c {
                Call::Keep(..) => sets += 1,
                Call::Probe(..) | Call::Step(..) => later |= sets > 0,
                _ => {}
            }
        }
        Tags::new(later).tag(m.threads > 0, "concurrent").tag(sets > 1, "several sets kept")
    };
    s.campaign("mixed calls", 40_000, mixed, kept, mixed_calls);
    crate::interleave::campaign(s);
}

/// Some queries, and the order in which to run them.
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Visits {
    pub qs: Vec<Q>,
    pub visits: Vec<u32>,
}

fn visits(v: &Visits) -> Outcome {
    let want: Vec<_> = v.qs.iter().map(model::query).collect();
    for (n, sel) in v.visits.iter().enumerate() {
        let i = gen::index(*sel, v.qs.len());
        let got = build(&v.qs[i]).intervals();
        if got != want[i] {
            let why = match (&got, &want[i]) {
                (Ok(g), Ok(w)) => model::describe_diff(g, w),
                (g, w) => format!("got {g:?}, expected {w:?}"),
            };
            return Err(format!("call {n}, query #{i}: {}: {why}", show(&v.qs[i])));
        }
    }
    Ok(())
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub enum Call {
    Query(Q),
    /// Keep an interval set, and an iterator over it.
    Keep(Q),
    /// Look a code point and a position up in a kept set.
    Probe(u8, u32),
    /// Advance a kept set's iterator, from the front or the back.
    Step(u8, bool, u8),
    Parse(String),
    Expand(super::names::Expand),
    Table(u8, u8),
    Order(u8),
    Sets(u32, u32),
}
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Mixed {
    pub calls: Vec<Call>,
    pub threads: u8,
}

pub(crate) fn call() -> impl Strategy<Value = Call> {
    let q = || prop_oneof![2 => gen::query(), 1 => gen::low_query()];
    let bad = (gen::plain_query(), any::<bool>()).prop_map(|(mut q, over)| {
        if over {
            q.max = Some(MAX + 1);
        } else {
            q.min = Some(q.hi().min(MAX - 1) + 1);
        }
        q
    });
    prop_oneof![
        6 => q().prop_map(Call::Query),
        1 => bad.prop_map(Call::Query),
        4 => q().prop_map(Call::Keep),
        6 => (any::<u8>(), gen::any_u32()).prop_map(|(i, c)| Call::Probe(i, c)),
        6 => (any::<u8>(), any::<bool>(), 1u8..20).prop_map(|(i, back, n)| Call::Step(i, back, n)),
        2 => super::names::any_name().prop_map(Call::Parse),
        2 => super::names::any_list().prop_map(Call::Expand),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(v, c)| Call::Table(v % NVER as u8, c % 30)),
        1 => (0..NVER as u8).prop_map(Call::Order),
        1 => (gen::mask(), gen::mask()).prop_map(|(a, b)| Call::Sets(a, b)),
    ]
}

fn mixed_calls(m: &Mixed) -> Outcome {
    if m.threads == 0 {
        return calls_in_order(&m.calls, 0);
    }
    let results: Vec<Outcome> = std::thread::scope(|sc| {
        let handles: Vec<_> = (0..m.threads as usize).map(|t| sc.spawn(move || calls_in_order(&m.calls, t * 7))).collect();
        handles.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked in a thread".into()))).collect()
    });
    results.into_iter().collect()
}

fn calls_in_order(calls: &[Call], from: usize) -> Outcome {
    use super::sets::{probe, Ranked};
    // The sets first, so that the iterators can borrow from them while other calls are made.
    let n = calls.len();
    let order: Vec<&Call> = (0..n).map(|i| &calls[(i + from) % n]).collect();
    let mut sets = Vec::new();
    for c in &order {
        if let Call::Keep(q) = c {
            let set = build(q).interval_set().map_err(|e| format!("{}: {e:?}", show(q)))?;
            sets.push((set, Ranked::new(model::query(q).map_err(|e| format!("{e:?}"))?), q));
        }
    }
    let mut iters: Vec<_> = sets.iter().map(|(s, r, _)| (s.iter(), 0u64, r.total)).collect();
    for (k, c) in order.iter().enumerate() {
        let at = |m: String| format!("call {k}: {m}");
        match c {
            Call::Query(q) => {
                let (got, want) = (build(q).intervals(), model::query(q));
                if got != want {
                    return Err(at(match (&got, &want) {
                        (Ok(g), Ok(w)) => format!("{}: {}", show(q), model::describe_diff(g, w)),
                        (g, w) => format!("{}: got {g:?}, expected {w:?}", show(q)),
                    }));
                }
            }
            // Made already; asking for it again gives the same.
            Call::Keep(q) => {
                let (got, want) = (build(q).interval_set(), model::query(q));
                if got.as_ref().map(|s| u64::from(s.len() as u32)) != want.as_ref().map(|w| model::size(w)) {
                    return Err(at(format!("{}: interval_set() has the wrong size", show(q))));
                }
            }
            Call::Probe(i, c) => {
                if let Some((s, r, q)) = sets.get(*i as usize % sets.len().max(1)) {
                    probe(s, r, *c).map_err(|m| at(format!("{}: {m}", show(q))))?;
                    let want = r.select(u64::from(*c));
                    if s.codepoint_at(*c) != want {
                        return Err(at(format!("{}: codepoint_at({c}) = {:?}, expected {want:?}", show(q), s.codepoint_at(*c))));
                    }
                }
            }
            Call::Step(i, back, steps) => {
                let i = *i as usize % iters.len().max(1);
                let Some((it, lo, hi)) = iters.get_mut(i) else { continue };
                let (_, r, q) = &sets[i];
                for _ in 0..*steps {
                    let (got, want) = if *back {
                        let want = (*lo < *hi).then(|| r.select(*hi - 1)).flatten();
                        *hi = hi.saturating_sub(1).max(*lo);
                        (it.next_back(), want)
                    } else {
                        let want = (*lo < *hi).then(|| r.select(*lo)).flatten();
                        *lo = (*lo + 1).min(*hi);
                        (it.next(), want)
                    };
                    if got != want {
                        return Err(at(format!("{}: the kept iterator gives {got:?}, expected {want:?}", show(q))));
                    }
                }
            }
            other => stateless(other).map_err(at)?,
        }
    }
    Ok(())
}

/// The calls that need nothing but themselves.
pub(crate) fn stateless(c: &Call) -> Outcome {
    match c {
        Call::Parse(s) => super::names::parse(s),
        Call::Expand(e) => super::names::expand(e),
        Call::Table(v, c) => super::tables::entry(&super::tables::Entry { v: *v, c: *c }),
        Call::Order(v) => {
            let order = VERS[*v as usize].0.normalized_categories();
            let mut seen: Vec<_> = order.iter().map(|c| crate::refdata::cat_of(*c)).collect();
            seen.sort_unstable();
            if seen != (0..30).collect::<Vec<_>>() || order != VERS[*v as usize].0.normalized_categories() {
                return Err(format!("normalized_categories() = {order:?}"));
            }
            Ok(())
        }
        Call::Sets(a, b) => {
            let (x, y) = (model::set_of(*a), model::set_of(*b));
            if model::mask_of(x | y) != a | b || model::mask_of(x) != *a || x.len() != a.count_ones() as usize {
                return Err(format!("{x} | {y} = {}", x | y));
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
