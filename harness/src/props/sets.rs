//! C07 indexing, C08 iteration, C11 category sets.
use super::query::show;
use super::Prop;
use crate::engine::{Outcome, Session, Tags};
use crate::gen;
use crate::model::{self, build, Q};
use crate::refdata::{self, Interval, ALL_MASK, CATS, GROUPS, MAX, NCAT, NVER};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use unicode_intervals::{IntervalSet, UnicodeCategory, UnicodeCategorySet};

pub const PROPS: [Prop; 3] = [
    Prop {
        id: "C07",
        run: c07,
        rule: "Interval sets from random queries, probed at any u32 (boundaries of the set favoured), plus every \
               position and every code point of every category of every version. Non-trivial: the set has at least two \
               intervals and the probes hit both members and gaps.",
        exhaustive: false,
    },
    Prop {
        id: "C08",
        run: c08,
        rule: "Interval sets from random queries, walked by up to 30 mixed operations from both ends, then finished by \
               a consuming operation. Non-trivial: the set has at least two intervals and operations ran at both ends.",
        exhaustive: false,
    },
    Prop {
        id: "C11",
        run: c11,
        rule: "Operation sequences over three category sets against bit sets kept by the harness; plus every pair of \
               categories. Non-trivial: some set gains and loses members, or a union is neither operand.",
        exhaustive: false,
    },
];

/// k-th element and rank in a canonical interval list.
pub struct Ranked {
    pub items: Vec<Interval>,
    pub before: Vec<u64>,
    pub total: u64,
}
impl Ranked {
    pub fn new(items: Vec<Interval>) -> Ranked {
        let mut before = Vec::with_capacity(items.len());
        let mut total = 0;
        for i in &items {
            before.push(total);
            total += u64::from(i.1 - i.0) + 1;
        }
        Ranked { items, before, total }
    }
    pub fn select(&self, k: u64) -> Option<u32> {
        if k >= self.total {
            return None;
        }
        let i = self.before.partition_point(|b| *b <= k) - 1;
        Some(self.items[i].0 + (k - self.before[i]) as u32)
    }
    /// Members below `c`, and whether `c` is one.
    pub fn rank(&self, c: u32) -> (u64, bool) {
        let i = self.items.partition_point(|x| x.1 < c);
        match self.items.get(i) {
            None => (self.total, false),
            Some(x) if x.0 <= c => (self.before[i] + u64::from(c - x.0), true),
            Some(_) => (self.before[i], false),
        }
    }
}

pub(crate) fn probe(set: &IntervalSet, r: &Ranked, c: u32) -> Outcome {
    let (rank, member) = r.rank(c);
    let want = member.then_some(rank as u32);
    let got = uvh_calls::index_of(set, c);
    if got != want {
        return Err(format!("index_of({c}) = {got:?}, expected {want:?}"));
    }
    if uvh_calls::contains(set, c) != member {
        return Err(format!("contains({c}) = {}, expected {member}", !member));
    }
    let above = uvh_calls::index_above(set, c);
    if u64::from(above) != rank {
        return Err(format!("index_above({c}) = {above}, expected {rank}"));
    }
    Ok(())
}

fn at(set: &IntervalSet, r: &Ranked, k: u32) -> Outcome {
    let (got, want) = (uvh_calls::codepoint_at(set, k), r.select(u64::from(k)));
    if got != want {
        return Err(format!("codepoint_at({k}) = {got:?}, expected {want:?}"));
    }
    Ok(())
}

fn narrow(set: &IntervalSet, r: &Ranked, c: u32) -> Outcome {
    let (rank, member) = r.rank(c);
    let want = member.then_some(rank as u32);
    let same = |got: (Option<u32>, bool, u32), what: &str| {
        if got == (want, member, rank as u32) {
            Ok(())
        } else {
            Err(format!("as {what}, {c}: {got:?}, expected {:?}", (want, member, rank)))
        }
    };
    if let Some(ch) = char::from_u32(c) {
        same((set.index_of(ch), set.contains(ch), set.index_above(ch)), "char")?;
    }
    if let Ok(b) = u8::try_from(c) {
        same((set.index_of(b), set.contains(b), set.index_above(b)), "u8")?;
    }
    if let Ok(b) = u16::try_from(c) {
        same((set.index_of(b), set.contains(b), set.index_above(b)), "u16")?;
    }
    Ok(())
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Probes {
    pub q: Q,
    pub at: Vec<u32>,
    /// Selects an interval of the set and an offset from its ends.
    pub near: Vec<(u32, i8)>,
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct BigProbes {
    pub b: gen::Big,
    pub at: Vec<u32>,
    pub near: Vec<(u32, i8)>,
}

fn sets_of(q: &Q) -> Result<(IntervalSet, Ranked), String> {
    let b = build(q);
    let items = b.intervals().map_err(|e| format!("{}: {e:?}", show(q)))?;
    let set = b.interval_set().map_err(|e| format!("{}: {e:?}", show(q)))?;
    if items.iter().any(|i| i.0 > i.1 || i.1 > MAX) {
        return Err(format!("{}: malformed intervals", show(q)));
    }
    Ok((set, Ranked::new(model::canon(&items))))
}

fn points(p: &Probes, r: &Ranked) -> Vec<u32> {
    let mut v = p.at.clone();
    for &(sel, d) in &p.near {
        if r.items.is_empty() {
            continue;
        }
        let i = r.items[gen::index(sel, r.items.len())];
        for e in [i.0, i.1] {
            v.push((i64::from(e) + i64::from(d)).clamp(0, i64::from(u32::MAX)) as u32);
        }
    }
    v
}

fn indexing(p: &Probes) -> Outcome {
    let (set, r) = sets_of(&p.q)?;
    let ctx = |m: String| format!("{}: {m}", show(&p.q));
    if set.len() as u64 != r.total || set.is_empty() != (r.total == 0) {
        return Err(ctx(format!("len() = {}, is_empty() = {}, expected {}", set.len(), set.is_empty(), r.total)));
    }
    for c in points(p, &r) {
        probe(&set, &r, c).map_err(ctx)?;
        narrow(&set, &r, c).map_err(ctx)?;
        at(&set, &r, c).map_err(ctx)?;
        let (rank, member) = r.rank(c);
        for k in [rank, rank.saturating_sub(1), rank + 1] {
            at(&set, &r, k as u32).map_err(ctx)?;
        }
        // The two directions invert each other.
        if member && set.index_of(c).and_then(|k| set.codepoint_at(k)) != Some(c) {
            return Err(ctx(format!("codepoint_at(index_of({c})) is not {c}")));
        }
    }
    for k in [r.total, r.total.saturating_sub(1), r.total + 1, u64::from(u32::MAX), 1 << 31] {
        at(&set, &r, k as u32).map_err(ctx)?;
    }
    Ok(())
}

fn index_everything(q: &Q) -> Outcome {
    let (set, r) = sets_of(q)?;
    let ctx = |m: String| format!("{}: {m}", show(q));
    if set.len() as u64 != r.total || set.is_empty() != (r.total == 0) {
        return Err(ctx(format!("len() = {}, expected {}", set.len(), r.total)));
    }
    for c in 0..=MAX + 3 {
        probe(&set, &r, c).map_err(ctx)?;
    }
    for k in 0..r.total as u32 + 3 {
        at(&set, &r, k).map_err(ctx)?;
    }
    Ok(())
}

fn c07(s: &mut Session) {
    let strat = || {
        (gen::query(), vec(gen::any_u32(), 0..10), vec((any::<u32>(), -2i8..=2), 0..10))
            .prop_map(|(q, at, near)| Probes { q, at, near })
    };
    let classify = |p: &Probes| {
        let r = Ranked::new(model::query(&p.q).unwrap_or_default());
        let pts = points(p, &r);
        let hits = pts.iter().filter(|c| r.rank(**c).1).count();
        Tags::new(r.items.len() >= 2 && hits > 0 && hits < pts.len())
            .tag(r.items.is_empty(), "empty set")
            .tag(r.items.len() > 30, "over 30 intervals")
            .tag(pts.iter().any(|c| *c > MAX), "probe beyond the code space")
    };
    s.campaign("probes", 600_000, strat, classify, indexing);
    let big = || (gen::big(), vec(gen::any_u32(), 0..40), vec((any::<u32>(), -2i8..=2), 10..60));
    s.campaign(
        "long strings",
        3_000,
        move || big().prop_map(|(b, at, near)| BigProbes { b, at, near }),
        |p| super::query::big_tags(&p.b),
        |p| indexing(&Probes { q: p.b.query(), at: p.at.clone(), near: p.near.clone() }),
    );
    s.sweep(
        "every position",
        NVER * NCAT,
        |i, sink| {
            let (v, c) = (i / NCAT, i % NCAT);
            sink.case(true, Q { inc: Some(1 << c), ..Q::new(v) });
            if v == NVER - 1 {
                sink.case(true, Q { exc: Some(1 << c), ..Q::new(v) });
            }
        },
        index_everything,
    );
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub enum Step {
    Next,
    NextBack,
    Nth(u64),
    NthBack(u64),
    SizeHint,
    /// Keep a clone aside, or go on with the one kept.
    Save,
    Restore,
    TakeFrom(u8),
    TakeBack(u8),
    Find(u32),
    RFind(u32),
}
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Walk {
    pub q: Q,
    pub steps: Vec<Step>,
    pub end: u8,
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct BigWalk {
    pub b: gen::Big,
    pub steps: Vec<Step>,
    pub end: u8,
}

fn walk(w: &Walk) -> Outcome {
    let (set, r) = sets_of(&w.q)?;
    let ctx = |m: String| format!("{}: {m}", show(&w.q));
    let mut it = if w.end & 0x80 != 0 { (&set).into_iter() } else { set.iter() };
    // The model: positions `lo..hi` remain.
    let (mut lo, mut hi) = (0u64, r.total);
    let mut kept = (it.clone(), lo, hi);
    let pos = |k: u64| r.select(k).expect("position in range");
    for (i, s) in w.steps.iter().enumerate() {
        let (got, want) = match s {
            Step::Next => {
                let want = (lo < hi).then(|| pos(lo));
                lo = (lo + 1).min(hi);
                (uvh_calls::next(&mut it), want)
            }
            Step::NextBack => {
                let want = (lo < hi).then(|| pos(hi - 1));
                hi = hi.saturating_sub(1).max(lo);
                (uvh_calls::next_back(&mut it), want)
            }
            Step::Nth(n) => {
                let n = *n;
                let want = (n < hi - lo).then(|| pos(lo + n));
                lo = lo.saturating_add(n).saturating_add(1).min(hi);
                (uvh_calls::nth(&mut it, n as usize), want)
            }
            Step::NthBack(n) => {
                let n = *n;
                let want = (n < hi - lo).then(|| pos(hi - 1 - n));
                hi = hi.saturating_sub(n.saturating_add(1)).max(lo);
                (uvh_calls::nth_back(&mut it, n as usize), want)
            }
            Step::SizeHint => {
                let (a, b) = uvh_calls::size_hint(&it);
                let left = (hi - lo) as usize;
                if a > left || b.is_some_and(|b| b < left) {
                    return Err(ctx(format!("step {i}: size_hint() = {:?} with {left} left", (a, b))));
                }
                continue;
            }
            Step::Save => {
                kept = (it.clone(), lo, hi);
                continue;
            }
            Step::Restore => {
                let now = (it.clone(), lo, hi);
                (it, lo, hi) = kept;
                kept = now;
                continue;
            }
            Step::TakeFrom(n) => {
                let n = u64::from(*n).min(hi - lo);
                let got: Vec<u32> = it.by_ref().take(n as usize).collect();
                let want: Vec<u32> = (lo..lo + n).map(pos).collect();
                lo += n;
                if got != want {
                    return Err(ctx(format!("step {i}: took {got:?}, expected {want:?}")));
                }
                continue;
            }
            Step::TakeBack(n) => {
                let n = u64::from(*n).min(hi - lo);
                let got: Vec<u32> = it.by_ref().rev().take(n as usize).collect();
                let want: Vec<u32> = (hi - n..hi).rev().map(pos).collect();
                hi -= n;
                if got != want {
                    return Err(ctx(format!("step {i}: took {got:?} from the back, expected {want:?}")));
                }
                continue;
            }
            Step::Find(c) => {
                let at = r.rank(*c).0.clamp(lo, hi);
                let want = (at < hi).then(|| pos(at));
                lo = (at + 1).min(hi);
                (it.find(|x| x >= c), want)
            }
            Step::RFind(c) => {
                let (rank, member) = r.rank(*c);
                let end = (rank + u64::from(member)).clamp(lo, hi);
                let want = (end > lo).then(|| pos(end - 1));
                hi = end.saturating_sub(1).max(lo);
                (it.rfind(|x| x <= c), want)
            }
        };
        if got != want {
            return Err(ctx(format!("step {i} {s:?}: got {got:?}, expected {want:?} ({lo}..{hi} of {} left)", r.total)));
        }
    }
    let left = hi - lo;
    let total = |k: u64| -> u64 { (0..k).fold(0u64, |a, i| a.wrapping_mul(31).wrapping_add(u64::from(pos(lo + i)))) };
    let ok = match w.end & 0x0F {
        0 => it.by_ref().count() as u64 == left && it.next().is_none() && it.next_back().is_none(),
        1 => it.last() == (left > 0).then(|| pos(hi - 1)),
        2 => it.collect::<Vec<_>>() == (lo..hi).map(pos).collect::<Vec<_>>(),
        3 => it.rev().collect::<Vec<_>>() == (lo..hi).rev().map(pos).collect::<Vec<_>>(),
        4 => it.fold(0u64, |a, c| a.wrapping_mul(31).wrapping_add(u64::from(c))) == total(left),
        5 => {
            let want = (0..left).fold(0u64, |a, i| a.wrapping_mul(31).wrapping_add(u64::from(pos(hi - 1 - i))));
            it.rfold(0u64, |a, c| a.wrapping_mul(31).wrapping_add(u64::from(c))) == want
        }
        6 => it.clone().min() == (left > 0).then(|| pos(lo)) && it.max() == (left > 0).then(|| pos(hi - 1)),
        7 => it.map(u64::from).sum::<u64>() == (lo..hi).map(|k| u64::from(pos(k))).sum::<u64>(),
        8 => {
            // As many skipped as the last jump made, and as many as are left, give or take.
            let jump = w.steps.iter().rev().find_map(|s| if let Step::Nth(n) = s { Some(*n) } else { None }).unwrap_or(3);
            let near = left.saturating_sub(1);
            [jump, near, near + 1, near + 2].into_iter().all(|n| {
                let from = lo.saturating_add(n).min(hi);
                it.clone().skip(n as usize).step_by(7).eq((from..hi).map(pos).step_by(7))
                    && it.clone().rev().skip(n as usize).eq((lo..hi.saturating_sub(n).max(lo)).rev().map(pos))
            })
        }
        9 => {
            // drain to the end: stays at the end, from both sides
            let mut n = 0u64;
            loop {
                let x = if n % 2 == 0 { it.next() } else { it.next_back() };
                if x.is_none() {
                    break;
                }
                n += 1;
            }
            n == left && (0..3).all(|_| it.next().is_none() && it.next_back().is_none())
        }
        10 => it.position(|c| c == u32::MAX).is_none() && it.next().is_none(),
        11 => it.zip(lo..hi).all(|(c, k)| c == pos(k)),
        12 => {
            let mut seen = 0u64;
            let mut good = true;
            for c in it {
                good &= lo + seen < hi && c == pos(lo + seen);
                seen += 1;
            }
            good && seen == left
        }
        13 => it.is_sorted_by(|a, b| a < b),
        14 => it.partition::<Vec<u32>, _>(|c| c % 2 == 0).0 == (lo..hi).map(pos).filter(|c| c % 2 == 0).collect::<Vec<_>>(),
        _ => it.clone().eq(kept.0.clone()) == ((lo, hi) == (kept.1, kept.2) || (lo == hi && kept.1 == kept.2)),
    };
    if ok {
        Ok(())
    } else {
        Err(ctx(format!("finisher {} is wrong with {lo}..{hi} of {} left", w.end & 0x0F, r.total)))
    }
}

fn step() -> impl Strategy<Value = Step> {
    let small = || {
        prop_oneof![
            120 => 0u64..4,
            60 => 0u64..40,
            20 => 0u64..2000,
            1 => 0u64..0x11_0100,
            1 => (0u64..3, select(vec![0x10_FFFF, 0x11_0000, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 33, 1 << 63, u64::MAX - 2]))
                .prop_map(|(d, n)| n + d),
            1 => (0u64..200).prop_map(|n| n + (1 << 32)),
        ]
    };
    prop_oneof![
        4 => Just(Step::Next),
        4 => Just(Step::NextBack),
        2 => small().prop_map(Step::Nth),
        2 => small().prop_map(Step::NthBack),
        2 => Just(Step::SizeHint),
        1 => Just(Step::Save),
        1 => Just(Step::Restore),
        1 => any::<u8>().prop_map(Step::TakeFrom),
        1 => any::<u8>().prop_map(Step::TakeBack),
        1 => gen::any_cp().prop_map(Step::Find),
        1 => gen::any_cp().prop_map(Step::RFind),
    ]
}

fn c08(s: &mut Session) {
    // Mostly small sets (so that walks reach the middle and the end), some of any size.
    let strat = |small: bool| {
        move || {
            (gen::query(), 0u32..120, any::<u8>(), vec(step(), 0..30)).prop_map(move |(mut q, width, end, steps)| {
                if small {
                    let lo = q.lo();
                    q.min = Some(lo);
                    q.max = Some(q.hi().min(lo + width));
                }
                Walk { q, steps, end }
            })
        }
    };
    let classify = |w: &Walk| {
        let r = model::query(&w.q).unwrap_or_default();
        let front = w.steps.iter().any(|s| matches!(s, Step::Next | Step::Nth(_) | Step::TakeFrom(_) | Step::Find(_)));
        let back = w.steps.iter().any(|s| matches!(s, Step::NextBack | Step::NthBack(_) | Step::TakeBack(_) | Step::RFind(_)));
        let steps = w.steps.len() as u64;
        Tags::new(r.len() >= 2 && front && back)
            .tag(r.is_empty(), "empty set")
            .tag(model::size(&r) < steps, "walk longer than the set")
            .tag(w.steps.iter().any(|s| matches!(s, Step::Restore)), "clone resumed")
    };
    s.campaign("small sets", 1_500_000, strat(true), classify, walk);
    s.campaign("any set", 4_000, strat(false), classify, walk);
    let big = || {
        (gen::big(), any::<u8>(), vec(step(), 0..20)).prop_map(|(b, end, steps)| BigWalk { b, steps, end })
    };
    s.campaign("long strings", 1_500, big, |w| super::query::big_tags(&w.b), |w| {
        walk(&Walk { q: w.b.query(), steps: w.steps.clone(), end: w.end })
    });
    // Every category of every version, walked once from each end and once from both.
    s.sweep(
        "whole categories",
        NVER * NCAT * 3,
        |i, sink| {
            let (k, c) = (i / 3, i % 3);
            let q = Q { inc: Some(1 << (k % NCAT)), ..Q::new(k / NCAT) };
            sink.case(true, Walk { q, steps: Vec::new(), end: [2, 3, 9][c] });
        },
        walk,
    );
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub enum SetOp {
    Add(u8, u8),
    Remove(u8, u8),
    OrCat(u8, u8),
    CatOr(u8, u8),
    OrAssignCat(u8, u8),
    OrSet(u8, u8),
    OrAssignSet(u8, u8),
    Pair(u8, u8, u8),
    From(u8, u8),
    Clear(u8),
    All(u8),
    Group(u8, u8),
    Copy(u8, u8),
    OptionFrom(u8, u8),
}

fn hash_of(s: UnicodeCategorySet) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub fn group_const(i: usize) -> UnicodeCategorySet {
    [
        UnicodeCategory::L,
        UnicodeCategory::M,
        UnicodeCategory::N,
        UnicodeCategory::P,
        UnicodeCategory::S,
        UnicodeCategory::Z,
        UnicodeCategory::C,
    ][i]
}

/// Everything observable of one set.
fn observe(s: UnicodeCategorySet, m: u32) -> Outcome {
    let members: Vec<usize> = (0..NCAT).filter(|i| m >> i & 1 == 1).collect();
    let what = || format!("{{{}}}", members.iter().map(|i| CATS[*i].1).collect::<Vec<_>>().join(", "));
    if s.len() != members.len() || s.is_empty() != members.is_empty() {
        return Err(format!("{}: len() = {}, is_empty() = {}", what(), s.len(), s.is_empty()));
    }
    for (i, c) in CATS.iter().enumerate() {
        if s.contains(c.0) != (m >> i & 1 == 1) {
            return Err(format!("{}: contains({}) = {}", what(), c.1, s.contains(c.0)));
        }
    }
    // Iteration yields each member once, with exact sizes all along.
    let mut it = s.iter();
    let mut seen = Vec::new();
    loop {
        let left = members.len().checked_sub(seen.len()).ok_or_else(|| format!("{}: yields too many", what()))?;
        if it.len() != left || it.size_hint() != (left, Some(left)) {
            return Err(format!("{}: len() = {}, size_hint() = {:?} with {left} left", what(), it.len(), it.size_hint()));
        }
        match it.next() {
            Some(c) => seen.push(refdata::cat_of(c)),
            None => break,
        }
    }
    if it.next().is_some() || it.next().is_some() {
        return Err(format!("{}: yields after the end", what()));
    }
    let mut sorted = seen.clone();
    sorted.sort_unstable();
    if sorted != members {
        return Err(format!("{}: iterates over {seen:?}", what()));
    }
    // Two iterations agree, adaptors see the same items, and Display lists them in that order.
    let names: Vec<&str> = s.iter().map(|c| c.as_str()).collect();
    if s.to_string() != names.join(", ") {
        return Err(format!("{}: displays as {:?}, iterates as {names:?}", what(), s.to_string()));
    }
    if s.iter().count() != members.len()
        || s.iter().map(refdata::cat_of).collect::<Vec<_>>() != seen
        || s.iter().nth(1).map(refdata::cat_of) != seen.get(1).copied()
        || s.iter().last().map(refdata::cat_of) != seen.last().copied()
        || s.iter().skip(2).len() != members.len().saturating_sub(2)
        || s.iter().take(2).len() != members.len().min(2)
    {
        return Err(format!("{}: iterator adaptors disagree", what()));
    }
    // Jumps of any length, and what is left after them.
    for k in 0..3u32 {
        let n = gen::index(m.wrapping_mul(0x9E37_79B9).wrapping_add(k.wrapping_mul(0x85EB_CA6B)), members.len() + 2);
        let of = |it: &mut dyn Iterator<Item = UnicodeCategory>| it.map(refdata::cat_of).collect::<Vec<_>>();
        let mut jumped = s.iter();
        let landed = jumped.nth(n).map(refdata::cat_of);
        let rest = n.saturating_add(1).min(seen.len());
        let left = jumped.len();
        let mut by_ref = s.iter();
        let first = of(&mut by_ref.by_ref().take(n));
        let folded = by_ref.fold(Vec::new(), |mut v, c| {
            v.push(refdata::cat_of(c));
            v
        });
        let cut = n.min(seen.len());
        if landed != seen.get(n).copied()
            || left != seen.len() - rest
            || of(&mut jumped) != seen[rest..]
            || of(&mut s.iter().skip(n)) != seen[cut..]
            || s.iter().skip(n).count() != seen.len() - cut
            || s.iter().skip(n).last().map(refdata::cat_of) != seen[cut..].last().copied()
            || of(&mut s.iter().step_by(n + 1)) != seen.iter().copied().step_by(n + 1).collect::<Vec<_>>()
            || first != seen[..cut]
            || folded != seen[cut..]
            || s.iter().position(|c| Some(refdata::cat_of(c)) == landed) != landed.map(|_| n)
        {
            return Err(format!("{}: iterator adaptors disagree on jumps of {n}", what()));
        }
    }
    let rebuilt = model::set_of(m);
    if rebuilt != s || hash_of(rebuilt) != hash_of(s) || rebuilt.into_value() != s.into_value() {
        return Err(format!("{}: not equal to the same members added one by one", what()));
    }
    Ok(())
}

fn algebra(ops: &Vec<SetOp>) -> Outcome {
    let mut sets = [UnicodeCategorySet::new(), UnicodeCategorySet::default(), UnicodeCategorySet::all()];
    let mut masks = [0u32, 0, ALL_MASK];
    for (i, op) in ops.iter().enumerate() {
        let slot = |s: &u8| *s as usize % 3;
        let cat = |c: &u8| CATS[*c as usize % NCAT].0;
        let bit = |c: &u8| 1u32 << (*c as usize % NCAT);
        let t;
        match op {
            SetOp::Add(s, c) => {
                t = slot(s);
                sets[t].add(cat(c));
                masks[t] |= bit(c);
            }
            SetOp::Remove(s, c) => {
                t = slot(s);
                sets[t].remove(cat(c));
                masks[t] &= !bit(c);
            }
            SetOp::OrCat(s, c) => {
                t = slot(s);
                sets[t] = sets[t] | cat(c);
                masks[t] |= bit(c);
            }
            SetOp::CatOr(s, c) => {
                t = slot(s);
                sets[t] = cat(c) | sets[t];
                masks[t] |= bit(c);
            }
            SetOp::OrAssignCat(s, c) => {
                t = slot(s);
                sets[t] |= cat(c);
                masks[t] |= bit(c);
            }
            SetOp::OrSet(s, o) => {
                t = slot(s);
                sets[t] = sets[t] | sets[slot(o)];
                masks[t] |= masks[slot(o)];
            }
            SetOp::OrAssignSet(s, o) => {
                t = slot(s);
                let other = sets[slot(o)];
                sets[t] |= other;
                masks[t] |= masks[slot(o)];
            }
            SetOp::Pair(s, a, b) => {
                t = slot(s);
                sets[t] = cat(a) | cat(b);
                masks[t] = bit(a) | bit(b);
            }
            SetOp::From(s, c) => {
                t = slot(s);
                sets[t] = cat(c).into();
                masks[t] = bit(c);
            }
            SetOp::OptionFrom(s, c) => {
                t = slot(s);
                let o: Option<UnicodeCategorySet> = cat(c).into();
                sets[t] = o.ok_or("a category became no set")?;
                masks[t] = bit(c);
            }
            SetOp::Clear(s) => {
                t = slot(s);
                sets[t] = UnicodeCategorySet::new();
                masks[t] = 0;
            }
            SetOp::All(s) => {
                t = slot(s);
                sets[t] = UnicodeCategorySet::all();
                masks[t] = ALL_MASK;
            }
            SetOp::Group(s, g) => {
                t = slot(s);
                let g = *g as usize % 7;
                sets[t] = sets[t] | group_const(g);
                masks[t] |= refdata::group_mask(GROUPS[g]);
            }
            SetOp::Copy(s, o) => {
                t = slot(s);
                sets[t] = sets[slot(o)];
                masks[t] = masks[slot(o)];
            }
        }
        observe(sets[t], masks[t]).map_err(|m| format!("after step {i} {op:?}: {m}"))?;
    }
    for a in 0..3 {
        observe(sets[a], masks[a])?;
        for b in 0..3 {
            let equal = masks[a] == masks[b];
            if (sets[a] == sets[b]) != equal || (sets[a].into_value() == sets[b].into_value()) != equal {
                return Err(format!("sets {a} and {b}: equality does not follow the members"));
            }
            if (sets[a] | sets[b]) != (sets[b] | sets[a]) {
                return Err(format!("sets {a} and {b}: union is not commutative"));
            }
            observe(sets[a] | sets[b], masks[a] | masks[b])?;
        }
    }
    Ok(())
}

fn set_op() -> impl Strategy<Value = SetOp> {
    let s = || 0u8..3;
    let c = || 0u8..NCAT as u8;
    prop_oneof![
        4 => (s(), c()).prop_map(|(a, b)| SetOp::Add(a, b)),
        4 => (s(), c()).prop_map(|(a, b)| SetOp::Remove(a, b)),
        2 => (s(), c()).prop_map(|(a, b)| SetOp::OrCat(a, b)),
        2 => (s(), c()).prop_map(|(a, b)| SetOp::CatOr(a, b)),
        2 => (s(), c()).prop_map(|(a, b)| SetOp::OrAssignCat(a, b)),
        2 => (s(), s()).prop_map(|(a, b)| SetOp::OrSet(a, b)),
        2 => (s(), s()).prop_map(|(a, b)| SetOp::OrAssignSet(a, b)),
        2 => (s(), c(), c()).prop_map(|(a, b, x)| SetOp::Pair(a, b, x)),
        1 => (s(), c()).prop_map(|(a, b)| SetOp::From(a, b)),
        1 => (s(), c()).prop_map(|(a, b)| SetOp::OptionFrom(a, b)),
        1 => s().prop_map(SetOp::Clear),
        1 => s().prop_map(SetOp::All),
        1 => (s(), 0u8..7).prop_map(|(a, b)| SetOp::Group(a, b)),
        1 => (s(), s()).prop_map(|(a, b)| SetOp::Copy(a, b)),
    ]
}

fn c11(s: &mut Session) {
    let classify = |ops: &Vec<SetOp>| {
        let adds = ops.iter().any(|o| matches!(o, SetOp::Add(..) | SetOp::OrCat(..) | SetOp::CatOr(..) | SetOp::OrAssignCat(..)));
        let removes = ops.iter().any(|o| matches!(o, SetOp::Remove(..)));
        let unions = ops.iter().any(|o| matches!(o, SetOp::OrSet(a, b) | SetOp::OrAssignSet(a, b) if a % 3 != b % 3));
        Tags::new((adds && removes) || unions).tag(unions, "union of sets").tag(removes, "removal")
    };
    s.campaign("operation sequences", 250_000, || vec(set_op(), 1..30), classify, algebra);
    s.campaign(
        "any subset",
        400_000,
        gen::mask,
        |m: &u32| Tags::new(m.count_ones() > 1).tag(*m == 0, "empty").tag(*m == ALL_MASK, "all"),
        |m: &u32| observe(model::set_of(*m), *m),
    );
    s.sweep(
        "every pair of categories",
        NCAT,
        |i, sink| {
            for j in 0..NCAT as u8 {
                let i = i as u8;
                if !sink.case(i != j, vec![SetOp::Pair(0, i, j), SetOp::Remove(0, i), SetOp::Add(1, i), SetOp::CatOr(1, j)])
                    || !sink.case(i != j, vec![SetOp::Remove(2, i), SetOp::Remove(2, j), SetOp::Add(2, i), SetOp::Remove(2, i), SetOp::Remove(2, i)])
                    || !sink.case(true, vec![SetOp::From(0, i), SetOp::OptionFrom(1, j), SetOp::OrSet(0, 1), SetOp::Group(1, j)])
                {
                    return;
                }
            }
        },
        algebra,
    );
    // Distinct sets have distinct values: all pairs differing in up to two members.
    s.sweep(
        "distinct sets stay distinct",
        NCAT,
        |i, sink| {
            sink.case(true, i as u8);
        },
        |i: &u8| {
            let mut seen = HashSet::new();
            for b in 0..NCAT {
                for base in [0, ALL_MASK, 0x2AAA_AAAA] {
                    let m = base ^ (1u32 << *i) ^ if b == *i as usize { 0 } else { 1 << b };
                    if !seen.insert(model::set_of(m).into_value()) {
                        return Err(format!("two different sets share a value (around {} and {})", CATS[*i as usize].1, CATS[b].1));
                    }
                }
            }
            Ok(())
        },
    );
}
