//! C03: relations between queries that need no reference data.
use super::query::show;
use super::Prop;
use crate::engine::{Outcome, Session, Tags};
use crate::gen;
use crate::model::{self, build, canon, clip, difference, size, union, Q};
use crate::refdata::{Interval, ALL_MASK, MAX, NVER, VERS};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const PROPS: [Prop; 1] = [Prop {
    id: "C03",
    run: c03,
    rule: "A random query plus a split point, a second category set and a permutation; 12 relations between it and \
           derived queries. Non-trivial: the base query's result is neither empty nor everything in its range.",
    exhaustive: false,
}];

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct M {
    pub q: Q,
    pub cut: u32,
    pub other: u32,
    pub extra: String,
    pub order: u8,
}

fn run(q: &Q) -> Result<Vec<Interval>, String> {
    let r = build(q).intervals().map_err(|e| format!("{}: {e:?}", show(q)))?;
    if r.iter().any(|i| i.0 > i.1 || i.1 > MAX) {
        return Err(format!("{}: malformed result", show(q)));
    }
    Ok(canon(&r))
}

fn same(what: &str, q: &Q, left: &[Interval], right: &[Interval]) -> Outcome {
    if left == right {
        Ok(())
    } else {
        Err(format!("{what}; base {}: {}", show(q), model::describe_diff(left, right)))
    }
}
fn subset(what: &str, q: &Q, small: &[Interval], big: &[Interval]) -> Outcome {
    let d = difference(small, big);
    if d.is_empty() {
        Ok(())
    } else {
        Err(format!("{what}; base {}: {:?} is in the smaller one only", show(q), &d[..d.len().min(5)]))
    }
}

fn split(m: &M) -> Outcome {
    let q = &m.q;
    let (lo, hi) = (q.lo(), q.hi());
    if lo == hi {
        return Ok(());
    }
    let cut = lo + m.cut % (hi - lo);
    let left = run(&Q { max: Some(cut), ..q.clone() })?;
    let right = run(&Q { min: Some(cut + 1), ..q.clone() })?;
    same("splitting the range changes the union", q, &union(&left, &right), &run(q)?)
}

fn complement(m: &M) -> Outcome {
    let q = &m.q;
    let mask = q.mask();
    let base = run(q)?;
    let a = run(&Q { inc: Some(mask), exc: None, ..q.clone() })?;
    same("include+exclude differs from including the difference", q, &base, &a)?;
    let b = run(&Q { inc: None, exc: Some(ALL_MASK & !mask), ..q.clone() })?;
    same("excluding the complement differs from including", q, &base, &b)?;
    let c = run(&Q { inc: Some(mask | m.other), exc: Some(m.other & !mask), ..q.clone() })?;
    same("adding a category to both sides changes the result", q, &base, &c)
}

fn partition(m: &M) -> Outcome {
    let q = Q { inch: None, exch: None, ..m.q.clone() };
    let mask = q.mask();
    let a = run(&Q { inc: Some(mask), exc: None, ..q.clone() })?;
    let b = run(&Q { inc: Some(ALL_MASK & !mask), exc: None, ..q.clone() })?;
    same("a set and its complement do not cover the range", &q, &union(&a, &b), &[(q.lo(), q.hi())])?;
    let total = u64::from(q.hi() - q.lo()) + 1;
    if size(&a) + size(&b) != total {
        return Err(format!("{}: a set and its complement overlap", show(&q)));
    }
    Ok(())
}

fn distribute(m: &M) -> Outcome {
    let q = &m.q;
    let a = q.mask();
    let at = |mask| run(&Q { inc: Some(mask), exc: None, ..q.clone() });
    let (x, y, both) = (at(a)?, at(m.other)?, at(a | m.other)?);
    same("the union of two category sets", q, &both, &union(&x, &y))
}

fn permuted(s: &str, order: u8, salt: u32) -> String {
    let mut c: Vec<char> = s.chars().collect();
    match order % 4 {
        0 => c.reverse(),
        1 => c.sort_unstable(),
        2 => {
            let again = c.clone();
            c.extend(again);
        }
        _ => {
            let mut x = salt | 1;
            for i in (1..c.len()).rev() {
                x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
                c.swap(i, gen::index(x, i + 1));
            }
        }
    }
    c.into_iter().collect()
}

fn reorder(m: &M) -> Outcome {
    let q = &m.q;
    let p = Q {
        inch: q.inch.as_ref().map(|s| permuted(s, m.order, m.cut)),
        exch: q.exch.as_ref().map(|s| permuted(s, m.order.wrapping_add(1), m.other)),
        ..q.clone()
    };
    same("reordering or repeating the characters", q, &run(&p)?, &run(q)?)
}

fn monotone(m: &M) -> Outcome {
    let q = &m.q;
    let base = run(q)?;
    let wider = Q { min: Some(q.lo().min(m.cut % (MAX + 1))), max: Some(q.hi().max(m.cut % (MAX + 1))), ..q.clone() };
    subset("widening the range", q, &base, &run(&wider)?)?;
    let more = Q { inc: Some(q.mask() | m.other), exc: None, ..q.clone() };
    subset("adding categories", q, &base, &run(&more)?)?;
    let more = Q { exc: Some(q.exc.unwrap_or(0) | m.other), ..q.clone() };
    subset("excluding categories", q, &run(&more)?, &base)?;
    let add = Q { inch: Some(q.inch.clone().unwrap_or_default() + &m.extra), ..q.clone() };
    subset("including characters", q, &base, &run(&add)?)?;
    let drop = Q { exch: Some(q.exch.clone().unwrap_or_default() + &m.extra), ..q.clone() };
    subset("excluding characters", q, &run(&drop)?, &base)
}

fn defaults(m: &M) -> Outcome {
    let q = &m.q;
    let base = run(q)?;
    let full = Q {
        inc: Some(q.inc.unwrap_or(ALL_MASK)),
        exc: Some(q.exc.unwrap_or(0)),
        inch: Some(q.inch.clone().unwrap_or_default()),
        exch: Some(q.exch.clone().unwrap_or_default()),
        min: Some(q.lo()),
        max: Some(q.hi()),
        ..q.clone()
    };
    same("writing the defaults out", q, &run(&full)?, &base)?;
    let bare = Q {
        inc: q.inc.filter(|m| *m != ALL_MASK),
        exc: q.exc.filter(|m| *m != 0),
        inch: q.inch.clone().filter(|s| !s.is_empty()),
        exch: q.exch.clone().filter(|s| !s.is_empty()),
        min: q.min.filter(|c| *c != 0),
        max: q.max.filter(|c| *c != MAX),
        ..q.clone()
    };
    same("leaving the defaults out", q, &run(&bare)?, &base)
}

fn chars_of(s: &Option<String>) -> Vec<Interval> {
    canon(&s.as_deref().unwrap_or("").chars().map(|c| (c as u32, c as u32)).collect::<Vec<_>>())
}

fn characters(m: &M) -> Outcome {
    let q = &m.q;
    let plain = run(&Q { inch: None, exch: None, ..q.clone() })?;
    let (i, e) = (chars_of(&q.inch), chars_of(&q.exch));
    let want = difference(&union(&plain, &i), &e);
    same("characters are added to, then removed from, the plain result", q, &run(q)?, &want)?;
    if plain.iter().any(|x| x.0 < q.lo() || x.1 > q.hi()) {
        return Err(format!("{}: the plain result leaves the range", show(q)));
    }
    Ok(())
}

fn clipped(m: &M) -> Outcome {
    let q = Q { inch: None, exch: None, ..m.q.clone() };
    let whole = run(&Q { min: None, max: None, ..q.clone() })?;
    same("restricting the range differs from clipping the unrestricted result", &q, &run(&q)?, &clip(&whole, q.lo(), q.hi()))
}

/// The answer below 256 must not depend on whether something above 256 is involved.
fn boundary(m: &M) -> Outcome {
    let top = m.cut % 256;
    let lo = m.other % (top + 1);
    let low = |s: &Option<String>| s.as_ref().map(|s| s.chars().map(|c| char::from(c as u32 as u8)).collect::<String>());
    let q = Q { min: Some(lo), max: Some(top), inch: low(&m.q.inch), exch: low(&m.q.exch), ..m.q.clone() };
    let base = run(&q)?;
    let far = m.extra.chars().filter(|c| *c as u32 > 255).collect::<String>() + "\u{1F600}";
    let with_far_excluded = Q { exch: Some(q.exch.clone().unwrap_or_default() + &far), ..q.clone() };
    same("excluding a far character", &q, &run(&with_far_excluded)?, &base)?;
    let with_far_included = Q { inch: Some(q.inch.clone().unwrap_or_default() + &far), ..q.clone() };
    same("including a far character", &q, &clip(&run(&with_far_included)?, 0, 255), &base)?;
    let plain = Q { inch: None, exch: None, ..q.clone() };
    let taller = Q { max: Some(256 + m.other % 1000), ..plain.clone() };
    same("raising the upper bound", &q, &clip(&run(&taller)?, 0, top), &run(&plain)?)
}

fn member(m: &M) -> Outcome {
    let q = Q { inch: None, exch: None, ..m.q.clone() };
    let span = q.hi() - q.lo();
    let c = q.lo() + if span == 0 { 0 } else { m.cut % (span + 1) };
    let here = !run(&Q { min: Some(c), max: Some(c), ..q.clone() })?.is_empty();
    let there = !clip(&run(&q)?, c, c).is_empty();
    if here == there {
        Ok(())
    } else {
        Err(format!("{}: U+{c:04X} in the result: {there}; in the result for that point alone: {here}", show(&q)))
    }
}

fn latest(m: &M) -> Outcome {
    let q = Q { v: (NVER - 1) as u8, ..m.q.clone() };
    let mut b = unicode_intervals::query();
    if let Some(x) = q.inc {
        b = b.include_categories(model::set_of(x));
    }
    if let Some(x) = q.exc {
        b = b.exclude_categories(model::set_of(x));
    }
    if let Some(x) = &q.inch {
        b = b.include_characters(x);
    }
    if let Some(x) = &q.exch {
        b = b.exclude_characters(x);
    }
    if let Some(x) = q.min {
        b = b.min_codepoint(x);
    }
    if let Some(x) = q.max {
        b = b.max_codepoint(x);
    }
    let r = b.intervals().map_err(|e| format!("{e:?}"))?;
    assert_eq!(VERS[NVER - 1].1, "17.0.0");
    same("the default version is the latest", &q, &canon(&r), &run(&q)?)
}

fn strategy() -> impl Strategy<Value = M> {
    let extra = proptest::collection::vec(gen::any_cp(), 0..6)
        .prop_map(|v| v.into_iter().filter_map(char::from_u32).collect::<String>());
    let cut = prop_oneof![2 => any::<u32>(), 2 => gen::any_cp(), 1 => 0u32..600];
    (gen::query(), cut, gen::mask(), extra, any::<u8>())
        .prop_map(|(q, cut, other, extra, order)| M { q, cut, other, extra, order })
}

fn tags(m: &M) -> Tags {
    let q = &m.q;
    let r = model::query(q).unwrap_or_default();
    let nt = !r.is_empty() && r != [(q.lo(), q.hi())];
    Tags::new(nt).tag(!q.is_plain(), "custom characters").tag(q.hi() < 256, "below 256").tag(r.is_empty(), "empty")
}

fn c03(s: &mut Session) {
    let n = 130_000;
    s.campaign("split range", n, strategy, tags, split);
    s.campaign("include or exclude", n, strategy, tags, complement);
    s.campaign("complement partitions", n, strategy, tags, partition);
    s.campaign("union of categories", n, strategy, tags, distribute);
    s.campaign("reordered characters", n, strategy, tags, reorder);
    s.campaign("monotone", n, strategy, tags, monotone);
    s.campaign("explicit defaults", n, strategy, tags, defaults);
    s.campaign("characters last", n, strategy, tags, characters);
    s.campaign("clipping", n, strategy, tags, clipped);
    s.campaign("low and high paths", 2 * n, strategy, tags, boundary);
    s.campaign("point membership", n, strategy, tags, member);
    s.campaign("default version", n, strategy, tags, latest);
}
