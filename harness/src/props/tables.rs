//! C09 tables partition the code space, C10 data is the published data, C14 orders.
use super::Prop;
use crate::engine::{Outcome, Session, Tags};
use crate::gen;
use crate::model::{self, Q};
use crate::refdata::{self, data, CATS, MAX, NCAT, NVER, VERS};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;
use unicode_intervals::{UnicodeCategory, UnicodeVersion};

pub const PROPS: [Prop; 3] = [
    Prop {
        id: "C09",
        run: c09,
        rule: "Every (version, category) table, every (version, code point), and random (version, code point, category) \
               lookups through all three public routes. Non-trivial: the code point is an end of an interval of its \
               category, or the table is not empty.",
        exhaustive: true,
    },
    Prop {
        id: "C10",
        run: c10,
        rule: "Every (version, code point) pair against the published category, and every pair of versions for the \
               stability rules. Non-trivial: the code point is assigned in that version.",
        exhaustive: true,
    },
    Prop {
        id: "C14",
        run: c14,
        rule: "Every (version, category, category) triple for the category order and every pair of versions for the \
               version order. Non-trivial: the two differ.",
        exhaustive: true,
    },
];

fn ver(v: u8) -> UnicodeVersion {
    VERS[v as usize].0
}

/// Category of every code point by the library's tables; `255` none, `254` more than one.
fn lib_gc() -> &'static Vec<Vec<u8>> {
    static L: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    L.get_or_init(|| {
        (0..NVER)
            .map(|v| {
                let mut gc = vec![255u8; MAX as usize + 1];
                for (i, c) in CATS.iter().enumerate() {
                    for &(a, b) in VERS[v].0.intervals_for(c.0) {
                        for cp in a..=b.min(MAX) {
                            let x = &mut gc[cp as usize];
                            *x = if *x == 255 { i as u8 } else { 254 };
                        }
                    }
                }
                gc
            })
            .collect()
    })
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Entry {
    pub v: u8,
    pub c: u8,
}

pub(super) fn entry(e: &Entry) -> Outcome {
    let (v, cat) = (ver(e.v), CATS[e.c as usize].0);
    let at = |m: String| format!("{} {}: {m}", VERS[e.v as usize].1, CATS[e.c as usize].1);
    let table = v.table();
    if table.len() != NCAT {
        return Err(at(format!("the table has {} entries", table.len())));
    }
    let one = v.intervals_for(cat);
    if let Some(why) = model::not_canonical(one) {
        return Err(at(why));
    }
    if table[e.c as usize] != one {
        return Err(at(format!("the category's intervals are not the table entry at its place in full-name order: {}", model::describe_diff(table[e.c as usize], one))));
    }
    let q = v.query().include_categories(cat).intervals().map_err(|x| at(format!("{x:?}")))?;
    if q != one {
        return Err(at(format!("query differs from the table: {}", model::describe_diff(&q, one))));
    }
    let s = v.query().include_categories(cat).interval_set().map_err(|x| at(format!("{x:?}")))?;
    if s.len() as u64 != model::size(one) {
        return Err(at(format!("interval_set has {} code points, the table {}", s.len(), model::size(one))));
    }
    Ok(())
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Block {
    pub v: u8,
    pub from: u32,
    pub to: u32,
}

fn covered(b: &Block) -> Outcome {
    for c in b.from..=b.to {
        match lib_gc()[b.v as usize][c as usize] {
            255 => return Err(format!("{}: U+{c:04X} is in no category", VERS[b.v as usize].1)),
            254 => return Err(format!("{}: U+{c:04X} is in more than one category", VERS[b.v as usize].1)),
            _ => {}
        }
    }
    Ok(())
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Lookup {
    pub v: u8,
    pub cp: u32,
    pub cat: u8,
}

fn lookup(l: &Lookup) -> Outcome {
    let v = ver(l.v);
    let inside = |list: &[(u32, u32)]| list.iter().any(|i| i.0 <= l.cp && l.cp <= i.1);
    let holders: Vec<&str> = CATS.iter().filter(|c| inside(v.intervals_for(c.0))).map(|c| c.1).collect();
    if holders.len() != 1 {
        return Err(format!("{}: U+{:04X} is in {holders:?}", VERS[l.v as usize].1, l.cp));
    }
    let cat = CATS[l.cat as usize];
    let by_query = v
        .query()
        .include_categories(cat.0)
        .min_codepoint(l.cp)
        .max_codepoint(l.cp)
        .intervals()
        .map_err(|e| format!("{e:?}"))?;
    let by_set = v.query().include_categories(cat.0).interval_set().map_err(|e| format!("{e:?}"))?.contains(l.cp);
    let routes = [inside(v.intervals_for(cat.0)), inside(v.table()[l.cat as usize]), inside(&by_query), by_set, holders[0] == cat.1];
    if routes.iter().any(|r| *r != routes[0]) {
        return Err(format!("{} {} U+{:04X}: the routes disagree: {routes:?}", VERS[l.v as usize].1, cat.1, l.cp));
    }
    Ok(())
}

const STEP: u32 = 0x1000;

fn c09(s: &mut Session) {
    s.sweep(
        "entries",
        NVER * NCAT,
        |i, sink| {
            let e = Entry { v: (i / NCAT) as u8, c: (i % NCAT) as u8 };
            let nt = !ver(e.v).intervals_for(CATS[e.c as usize].0).is_empty();
            sink.case(nt, e);
        },
        entry,
    );
    s.sweep(
        "every code point",
        NVER * 0x110,
        |i, sink| {
            let (v, k) = ((i / 0x110) as u8, (i % 0x110) as u32);
            for from in (k * STEP..(k + 1) * STEP).step_by(16) {
                if !sink.case(true, Block { v, from, to: from + 15 }) {
                    return;
                }
            }
        },
        covered,
    );
    let strat = || {
        (0..NVER, gen::cp(), any::<u32>(), any::<bool>()).prop_map(|(v, c, a, own)| {
            let cp = gen::resolve(c, v, refdata::ALL_MASK);
            let cat = if own { data()[v].gc[cp as usize] } else { (a as usize % NCAT) as u8 };
            Lookup { v: v as u8, cp, cat }
        })
    };
    let classify = |l: &Lookup| {
        let gc = &data()[l.v as usize].gc;
        let here = gc[l.cp as usize];
        let edge = l.cp == 0 || l.cp == MAX || gc[l.cp as usize - 1] != here || gc[l.cp as usize + 1] != here;
        Tags::new(edge).tag(here == l.cat, "own category").tag(edge, "edge")
    };
    s.campaign("lookups", 60_000, strat, classify, lookup);
}

fn published(b: &Block) -> Outcome {
    let (lib, want) = (&lib_gc()[b.v as usize], &data()[b.v as usize].gc);
    for c in b.from..=b.to {
        let (g, w) = (lib[c as usize], want[c as usize]);
        if g != w {
            let name = |x: u8| CATS.get(x as usize).map_or(if x == 254 { "several" } else { "none" }, |c| c.1);
            return Err(format!("{}: U+{c:04X} is {}, published as {}", VERS[b.v as usize].1, name(g), name(w)));
        }
    }
    // The query route too: one category, over this block only.
    if b.to - b.from > 0 {
        let here: std::collections::BTreeSet<u8> = want[b.from as usize..=b.to as usize].iter().copied().collect();
        for cat in here {
            let q = Q { inc: Some(1 << cat), min: Some(b.from), max: Some(b.to), ..Q::new(b.v as usize) };
            super::query::check(&q)?;
        }
    }
    Ok(())
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Pair {
    pub old: u8,
    pub new: u8,
}

fn stability(p: &Pair) -> Outcome {
    let (old, new) = (&lib_gc()[p.old as usize], &lib_gc()[p.new as usize]);
    let cn = refdata::cat_index("Cn").unwrap_or(0) as u8;
    let fixed: Vec<u8> = ["Cc", "Co", "Cs"].iter().filter_map(|n| refdata::cat_index(n)).map(|i| i as u8).collect();
    let names = (VERS[p.old as usize].1, VERS[p.new as usize].1);
    for c in 0..=MAX as usize {
        if old[c] != cn && new[c] == cn {
            return Err(format!("U+{c:04X} is assigned in {} but not in {}", names.0, names.1));
        }
        if old[c] != new[c] && (fixed.contains(&old[c]) || fixed.contains(&new[c])) {
            return Err(format!("U+{c:04X} changes an immutable category between {} and {}", names.0, names.1));
        }
    }
    Ok(())
}

fn c10(s: &mut Session) {
    s.sweep(
        "published category",
        NVER * 0x110,
        |i, sink| {
            let (v, k) = ((i / 0x110) as u8, (i % 0x110) as u32);
            let gc = &data()[v as usize].gc;
            let cn = refdata::cat_index("Cn").unwrap_or(0) as u8;
            for from in (k * STEP..(k + 1) * STEP).step_by(64) {
                if !sink.case(false, Block { v, from, to: from + 63 }) {
                    return;
                }
            }
            for c in k * STEP..(k + 1) * STEP {
                if !sink.case(gc[c as usize] != cn, Block { v, from: c, to: c }) {
                    return;
                }
            }
        },
        published,
    );
    s.sweep(
        "stability",
        NVER * NVER,
        |i, sink| {
            let (old, new) = ((i / NVER) as u8, (i % NVER) as u8);
            if old < new {
                sink.case(true, Pair { old, new });
            }
        },
        stability,
    );
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Order {
    pub v: u8,
    pub a: u8,
    pub b: u8,
}

fn category_order(o: &Order) -> Outcome {
    let v = ver(o.v);
    let order = v.normalized_categories();
    let place = |c: usize| {
        let at: Vec<usize> = (0..NCAT).filter(|i| order[*i] == CATS[c].0).collect();
        match at[..] {
            [p] => Ok(p),
            _ => Err(format!("{}: {} occurs {} times", VERS[o.v as usize].1, CATS[c].1, at.len())),
        }
    };
    let (pa, pb) = (place(o.a as usize)?, place(o.b as usize)?);
    // Control second to last, surrogate last; the rest by number of intervals, then by name.
    let key = |c: usize| {
        let name = CATS[c].1;
        let late = match name {
            "Cc" => 1,
            "Cs" => 2,
            _ => 0,
        };
        (late, v.intervals_for(CATS[c].0).len(), name)
    };
    let (ka, kb) = (key(o.a as usize), key(o.b as usize));
    if (pa < pb) != (ka < kb) {
        return Err(format!(
            "{}: {} ({} intervals) is at {pa}, {} ({} intervals) at {pb}",
            VERS[o.v as usize].1, ka.2, ka.1, kb.2, kb.1
        ));
    }
    if v.normalized_categories() != order {
        return Err("two calls disagree".into());
    }
    Ok(())
}

fn number(v: UnicodeVersion) -> Vec<u32> {
    v.as_str().split('.').map(|p| p.parse().unwrap_or(u32::MAX)).collect()
}

fn version_order(p: &Pair) -> Outcome {
    let all = UnicodeVersion::ALL;
    if all.len() != NVER {
        return Err(format!("{} versions listed", all.len()));
    }
    let (a, b) = (p.old as usize, p.new as usize);
    if all[a].as_str() != VERS[a].1 || all[a] != VERS[a].0 {
        return Err(format!("version #{a} is {}, expected {}", all[a], VERS[a].1));
    }
    if (a < b) != (number(all[a]) < number(all[b])) {
        return Err(format!("{} and {} are out of order", all[a], all[b]));
    }
    if (a == b) != (all[a] == all[b]) {
        return Err(format!("{} and {}: equality", all[a], all[b]));
    }
    let latest = UnicodeVersion::latest();
    if number(latest) < number(all[a]) || !all.contains(&latest) || latest != all[NVER - 1] {
        return Err(format!("latest() is {latest}, but {} is bundled", all[a]));
    }
    if unicode_intervals::query() != latest.query() || unicode_intervals::query().intervals() != latest.query().intervals() {
        return Err("the default query is not for the latest version".into());
    }
    // What an older version assigns is assigned in every later one, and later ones add something.
    if a < b {
        let size = |v: UnicodeVersion| model::size(v.intervals_for(UnicodeCategory::UNASSIGNED));
        let grows = number(all[a])[..2] != number(all[b])[..2] || a != b;
        if grows && size(all[a]) <= size(all[b]) {
            return Err(format!("{} does not assign more than {}", all[b], all[a]));
        }
    }
    Ok(())
}

fn c14(s: &mut Session) {
    s.sweep(
        "category order",
        NVER * NCAT,
        |i, sink| {
            for b in 0..NCAT as u8 {
                let a = (i % NCAT) as u8;
                if !sink.case(a != b, Order { v: (i / NCAT) as u8, a, b }) {
                    return;
                }
            }
        },
        category_order,
    );
    s.sweep(
        "version order",
        NVER * NVER,
        |i, sink| {
            let p = Pair { old: (i / NVER) as u8, new: (i % NVER) as u8 };
            sink.case(p.old != p.new, p);
        },
        version_order,
    );
}
