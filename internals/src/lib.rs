//! C20: the interval building blocks, reached through the crate's `__benchmark_internals` feature.
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use unicode_intervals::internals;
use uvh_calls::internals as calls;
use uvh::engine::{Outcome, Session, Tags};
use uvh::gen;
use uvh::model::{self, canon, describe_diff, difference, mask_of, set_of, Q};
use uvh::props::Prop;
use uvh::refdata::{self, Interval, ALL_MASK, MAX, NCAT, NVER, VERS};

pub const C20: Prop = Prop {
    id: "C20",
    run: c20,
    rule: "Lists of intervals in the code space (overlapping, nested, adjacent, equal starts, any order), pairs of \
           canonical lists, strings, category sets and queries; plus every list of three intervals and every pair of \
           sets in small universes. Non-trivial: the answer differs from every operand.",
    exhaustive: false,
};

fn merge(v: &Vec<Interval>) -> Outcome {
    let mut got = v.clone();
    calls::merge(&mut got);
    let want = canon(v);
    if got == want {
        Ok(())
    } else {
        Err(format!("merge({v:?}): {}", describe_diff(&got, &want)))
    }
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
struct Two {
    left: Vec<Interval>,
    right: Vec<Interval>,
}

fn subtract(t: &Two) -> Outcome {
    let got = calls::subtract(t.left.clone(), &t.right);
    let want = difference(&t.left, &t.right);
    if got == want {
        Ok(())
    } else {
        Err(format!("subtract({:?}, {:?}): {}", t.left, t.right, describe_diff(&got, &want)))
    }
}

fn from_str(s: &String) -> Outcome {
    let got = calls::from_str(s);
    let want = canon(&s.chars().map(|c| (c as u32, c as u32)).collect::<Vec<_>>());
    if got == want {
        Ok(())
    } else {
        Err(format!("from_str({s:?}): {}", describe_diff(&got, &want)))
    }
}

fn categories(c: &(Option<u32>, u32)) -> Outcome {
    let got = mask_of(calls::effective(c.0.map(set_of), set_of(c.1)));
    let want = model::effective(c.0, Some(c.1));
    if got == want {
        Ok(())
    } else {
        Err(format!("include {:?}, exclude {{{}}}: got {{{}}}", c.0.map(|m| set_of(m).to_string()), set_of(c.1), set_of(got)))
    }
}

fn table_slices(c: &(u8, u32)) -> Outcome {
    let (v, m) = (c.0 as usize, c.1);
    let got = calls::intervals_for_set(VERS[v].0, set_of(m));
    let want = model::base(v, m, 0, MAX);
    if let Some(i) = got.iter().find(|i| i.0 > i.1 || i.1 > MAX) {
        return Err(format!("{} {{{}}}: malformed interval {i:?}", VERS[v].1, set_of(m)));
    }
    // Only the set is promised to callers, who merge it.
    if canon(&got) != want {
        return Err(format!("{} {{{}}}: {}", VERS[v].1, set_of(m), describe_diff(&got, &want)));
    }
    Ok(())
}

fn direct_query(q: &Q) -> Outcome {
    let got = internals::query::query(
        VERS[q.v as usize].0,
        q.inc.map(set_of),
        set_of(q.exc.unwrap_or(0)),
        q.inch.as_deref().unwrap_or(""),
        q.exch.as_deref().unwrap_or(""),
        q.lo(),
        q.hi(),
    );
    let public = model::build(q).intervals().map_err(|e| format!("{q:?}: {e:?}"))?;
    if got != public {
        return Err(format!("{q:?}: differs from the public query: {}", describe_diff(&got, &public)));
    }
    let want = model::query(q).map_err(|e| format!("{e:?}"))?;
    if got != want {
        return Err(format!("{q:?}: {}", describe_diff(&got, &want)));
    }
    Ok(())
}

/// Intervals around a few centres so that they touch, nest and overlap.
fn raw(n: usize) -> impl Strategy<Value = Vec<Interval>> {
    let start = prop_oneof![4 => 0u32..60, 2 => gen::any_cp(), 1 => (0u32..40).prop_map(|d| MAX - d), 2 => (0u32..12).prop_map(|k| 250 + k)];
    let len = prop_oneof![4 => 0u32..4, 3 => 0u32..20, 1 => 0u32..5000, 1 => Just(MAX)];
    vec((start, len).prop_map(|(s, l)| (s, s.saturating_add(l).min(MAX))), 0..n)
}

/// Many intervals over the whole code space, in any order, some sharing an edge.
fn sparse() -> impl Strategy<Value = Vec<Interval>> {
    let item = (0u32..=MAX, 0u32..2_000, 0u8..4);
    vec(item, 30..300).prop_map(|items| {
        let mut out: Vec<Interval> = Vec::new();
        for (s, l, k) in items {
            let start = match (k, out.last()) {
                (0, Some(p)) => p.1.saturating_add(1).min(MAX),
                (1, Some(p)) => p.0,
                _ => s,
            };
            out.push((start, (start + l).min(MAX)));
        }
        out
    })
}

/// A canonical list built from gaps and lengths.
fn canonical(n: usize) -> impl Strategy<Value = Vec<Interval>> {
    let gap = prop_oneof![5 => 1u32..4, 2 => 1u32..40, 1 => 1u32..40_000];
    let len = prop_oneof![5 => 0u32..4, 2 => 0u32..40, 1 => 0u32..40_000];
    let items = prop_oneof![7 => vec((gap.clone(), len.clone()), 0..n), 1 => vec((gap, len), 0..n * 6)];
    (any::<bool>(), items).prop_map(|(zero, items)| {
        let mut at = 0u32;
        let mut out: Vec<Interval> = Vec::new();
        for (gap, len) in items {
            let lo = if out.is_empty() && zero { 0 } else { at + gap };
            let hi = lo + len;
            if hi > MAX {
                break;
            }
            out.push((lo, hi));
            at = hi + 1;
        }
        out
    })
}

/// `right` reuses the edges of `left`.
fn related() -> impl Strategy<Value = Two> {
    (canonical(14), vec((any::<prop::sample::Index>(), -2i64..=2, 0u32..8), 0..12)).prop_map(|(left, picks)| {
        let mut pts = Vec::new();
        for (i, d, len) in picks {
            if left.is_empty() {
                break;
            }
            let k = i.index(left.len() * 2);
            let e = if k % 2 == 0 { left[k / 2].0 } else { left[k / 2].1 };
            let lo = (i64::from(e) + d).clamp(0, i64::from(MAX)) as u32;
            pts.push((lo, (lo + len).min(MAX)));
        }
        Two { right: canon(&pts), left }
    })
}

fn bits_to_list(bits: u32, n: u32) -> Vec<Interval> {
    canon(&(0..n).filter(|i| bits >> i & 1 == 1).map(|i| (i, i)).collect::<Vec<_>>())
}

fn c20(s: &mut Session) {
    let mtags = |v: &Vec<Interval>| {
        let c = canon(v);
        Tags::new(c != *v && c.len() > 1).tag(c.len() < v.len(), "something merges").tag(v.is_empty(), "empty")
    };
    s.campaign("merge", 800_000, || raw(14), mtags, merge);
    s.campaign("merge long", 20_000, sparse, mtags, merge);
    s.campaign("merge canonical", 100_000, || canonical(30), mtags, merge);
    let stags = |t: &Two| {
        let d = difference(&t.left, &t.right);
        Tags::new(!d.is_empty() && d != t.left)
            .tag(d.len() > t.left.len(), "splits an interval")
            .tag(d.is_empty() && !t.left.is_empty(), "nothing left")
            .tag(t.right.is_empty() || t.left.is_empty(), "an empty operand")
    };
    s.campaign("subtract", 600_000, || (canonical(16), canonical(16)).prop_map(|(left, right)| Two { left, right }), stags, subtract);
    s.campaign("subtract related", 800_000, related, stags, subtract);
    s.campaign(
        "subtract tables",
        6_000,
        || {
            (0..NVER, 0..NCAT, 0..NCAT, any::<bool>()).prop_map(|(v, a, b, swap)| {
                let d = &refdata::data()[v];
                let m = model::base(v, 1 << a | 1 << b, 0, MAX);
                if swap {
                    Two { left: d.by_cat[a].clone(), right: m }
                } else {
                    Two { left: m, right: d.by_cat[b].clone() }
                }
            })
        },
        stags,
        subtract,
    );
    let text = || {
        gen::query().prop_map(|q| q.inch.unwrap_or_default() + &q.exch.unwrap_or_default())
    };
    s.campaign(
        "string intervals",
        400_000,
        text,
        |t: &String| Tags::new(t.chars().count() > 1).tag(t.is_empty(), "empty"),
        from_str,
    );
    s.campaign("long strings", 1_500, gen::big, |b: &gen::Big| uvh::props::query::big_tags(b), |b: &gen::Big| {
        let q = b.query();
        let (inc, exc) = (q.inch.unwrap_or_default(), q.exch.unwrap_or_default());
        let short = |m: String| m.chars().take(300).collect::<String>();
        from_str(&inc).map_err(short)?;
        from_str(&exc).map_err(short)?;
        let points = |s: &str, w: u32| s.chars().map(|c| (c as u32, (c as u32 + w).min(MAX))).collect::<Vec<_>>();
        for w in 0..3 {
            merge(&points(&inc, w)).map_err(short)?;
            subtract(&Two { left: canon(&points(&inc, w)), right: canon(&points(&exc, w)) }).map_err(short)?;
            subtract(&Two { left: model::base(q.v as usize, ALL_MASK, 0, MAX), right: canon(&points(&exc, w)) }).map_err(short)?;
        }
        Ok(())
    });
    s.campaign(
        "category sets",
        400_000,
        || (gen::opt_mask_include(), gen::mask()),
        |c: &(Option<u32>, u32)| {
            let e = model::effective(c.0, Some(c.1));
            Tags::new(e != 0 && e != ALL_MASK && Some(e) != c.0).tag(c.0.is_none(), "no include list")
        },
        categories,
    );
    s.campaign(
        "table slices",
        60_000,
        || (0..NVER as u8, gen::mask()),
        |c: &(u8, u32)| Tags::new(c.1 != 0 && c.1 != ALL_MASK),
        table_slices,
    );
    s.campaign(
        "direct query",
        300_000,
        gen::query,
        |q: &Q| Tags::new(!q.is_plain() || q.mask() != ALL_MASK).tag(q.hi() < 256, "below 256"),
        direct_query,
    );
    // Every list of three intervals with ends below 7, in every order.
    s.sweep(
        "all triples",
        28 * 28,
        |i, sink| {
            let all: Vec<Interval> = (0..7u32).flat_map(|a| (a..7).map(move |b| (a, b))).collect();
            for z in &all {
                for shift in [0, MAX - 6] {
                    let v: Vec<Interval> = [all[i / 28], all[i % 28], *z].iter().map(|x| (x.0 + shift, x.1 + shift)).collect();
                    let c = canon(&v);
                    if !sink.case(c != v && c.len() > 1, v) {
                        return;
                    }
                }
            }
        },
        merge,
    );
    // Every pair of subsets of ten points.
    s.sweep(
        "all small pairs",
        1 << 10,
        |a, sink| {
            let left = bits_to_list(a as u32, 10);
            for b in 0..1u32 << 10 {
                let right = bits_to_list(b, 10);
                let d = a as u32 & !b;
                if !sink.case(d != 0 && d != a as u32, Two { left: left.clone(), right }) {
                    return;
                }
            }
        },
        subtract,
    );
    s.sweep(
        "category pairs",
        NCAT,
        |i, sink| {
            for j in 0..NCAT {
                for c in [
                    (Some(1 << i), 1 << j),
                    (Some(1 << i | 1 << j), 1 << j),
                    (None, 1 << i | 1 << j),
                    (Some(ALL_MASK), 1 << i | 1 << j),
                    (Some(0), 1 << i),
                    (Some(1 << i), ALL_MASK & !(1 << j)),
                ] {
                    if !sink.case(true, c) {
                        return;
                    }
                }
            }
        },
        categories,
    );
}
