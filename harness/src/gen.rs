//! Generators. Raw selectors are independent random values (so they shrink well); they are
//! resolved to concrete code points, masks and strings afterwards.
use crate::mined::mined;
use crate::model::Q;
use crate::refdata::{self, data, ALL_MASK, GROUPS, MAX, NCAT, NVER};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

/// A selector for one code point.
#[derive(Debug, Clone, Copy)]
pub struct Cp {
    pub kind: u8,
    pub a: u32,
    pub d: i8,
}

pub const SPECIAL: &[u32] = &[
    0, 1, 31, 32, 47, 48, 57, 62, 63, 64, 65, 90, 95, 97, 122, 126, 127, 128, 129, 159, 160, 190, 191, 192, 193, 223,
    253, 254, 255, 256, 257, 258, 511, 512, 0x7FE, 0x7FF, 0x800, 0xFFF, 0x1000, 0x1FFF, 0x2000, 0xD7FE, 0xD7FF, 0xD800,
    0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xF8FF, 0xF900, 0xFDD0, 0xFDEF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x1FFFF,
    0x20000, 0x2FFFF, 0xE0000, 0xEFFFF, 0xF0000, 0xFFFFF, 0x100000, 0x10FFFD, 0x10FFFE, 0x10FFFF,
];

/// One of the values, with weights; shrinks towards the first. Much cheaper than a union.
pub fn weighted<T: Copy + std::fmt::Debug + 'static>(items: &'static [(u32, T)]) -> impl Strategy<Value = T> + Clone {
    let total: u32 = items.iter().map(|i| i.0).sum();
    (0..total).prop_map(move |mut k| {
        for (w, x) in items {
            if k < *w {
                return *x;
            }
            k -= w;
        }
        unreachable!("below the sum of the weights")
    })
}

pub fn cp() -> impl Strategy<Value = Cp> + Clone {
    let kind = weighted(&[
        (2, 0u8), // 0..=300
        (3, 1u8), // run boundary of the version
        (3, 2u8), // run boundary of a selected category
        (2, 3u8), // special values
        (2, 4u8), // anywhere
        (1, 5u8), // mined constant
        (1, 6u8), // anywhere in the BMP
        (1, 7u8), // just the number, which a fuzzer can set
    ]);
    (kind, any::<u32>(), -2i8..=2).prop_map(|(kind, a, d)| Cp { kind, a, d })
}

pub fn index(a: u32, n: usize) -> usize {
    ((u64::from(a) * n as u64) >> 32) as usize
}

fn shift(x: u32, d: i8) -> u32 {
    let y = i64::from(x) + i64::from(d);
    y.clamp(0, i64::from(MAX)) as u32
}

pub fn resolve(c: Cp, v: usize, mask: u32) -> u32 {
    let x = match c.kind {
        0 => return c.a % 301,
        1 => {
            let r = &data()[v].runs;
            let run = r[index(c.a, r.len())];
            if c.a & 1 == 0 {
                run.0
            } else {
                run.1
            }
        }
        2 => {
            let m = if mask & ALL_MASK == 0 { ALL_MASK } else { mask & ALL_MASK };
            let members: Vec<usize> = (0..NCAT).filter(|i| m >> i & 1 == 1).collect();
            let runs = &data()[v].by_cat[members[c.a as usize % members.len()]];
            let run = runs[index(c.a, runs.len())];
            if c.a >> 8 & 1 == 0 {
                run.0
            } else {
                run.1
            }
        }
        3 => SPECIAL[index(c.a, SPECIAL.len())],
        5 => {
            let m = &mined().numbers;
            m[index(c.a, m.len())].min(MAX)
        }
        6 => return index(c.a, 0x10000) as u32,
        7 => return if c.a <= MAX { c.a } else { c.a & 0xF_FFFF },
        _ => return index(c.a, MAX as usize + 1) as u32,
    };
    shift(x, c.d)
}

/// A code point for a fixed version, all categories.
pub fn any_cp() -> impl Strategy<Value = u32> + Clone {
    (0..NVER, cp()).prop_map(|(v, c)| resolve(c, v, ALL_MASK))
}
/// Any `u32`: mostly code points, otherwise beyond the code space.
pub fn any_u32() -> impl Strategy<Value = u32> + Clone {
    prop_oneof![
        6 => any_cp(),
        1 => any::<u32>(),
        1 => select(vec![MAX + 1, MAX + 2, 0x11_FFFF, 0x20_0000, 1 << 24, 1 << 31, (1 << 31) - 1, u32::MAX, u32::MAX - 1, MAX]),
        1 => (0usize..4096, -2i64..=2).prop_map(|(i, d)| {
            let m = &mined().numbers;
            (i64::from(m[i % m.len()]) + d).clamp(0, i64::from(u32::MAX)) as u32
        }),
    ]
}

pub fn single(a: u32) -> u32 {
    1 << (a as usize % NCAT)
}

/// Category masks of every shape.
pub fn mask() -> impl Strategy<Value = u32> + Clone {
    let kind = weighted(&[
        (4, 3u8), // single
        (2, 0u8), // empty
        (2, 1u8), // all
        (2, 4u8), // major class
        (3, 5u8), // pair
        (3, 6u8), // a few
        (3, 7u8), // arbitrary
        (1, 8u8), // all but one
        (1, 9u8), // all but two
    ]);
    (kind, any::<u32>(), any::<u32>()).prop_map(|(k, a, b)| make_mask(k, a, b))
}
fn make_mask(kind: u8, a: u32, b: u32) -> u32 {
    match kind {
        0 => 0,
        1 => ALL_MASK,
        3 => single(a),
        4 => refdata::group_mask(GROUPS[index(a, 7)]),
        5 => single(a) | single(b),
        6 => single(a) | single(a >> 8) | single(b) | single(b >> 8) | single(b >> 16),
        7 => a & ALL_MASK,
        8 => ALL_MASK & !single(a),
        _ => ALL_MASK & !single(a) & !single(b),
    }
}
pub fn opt_mask_include() -> impl Strategy<Value = Option<u32>> + Clone {
    (0u8..9, mask()).prop_map(|(k, m)| (k > 1).then_some(m))
}
pub fn opt_mask_exclude() -> impl Strategy<Value = Option<u32>> + Clone {
    let small = |(a, b, k): (u32, u32, u8)| match k {
        0 => 0,
        1 | 2 => single(a),
        3 => single(a) | single(b),
        4 => refdata::group_mask(GROUPS[index(a, 7)]),
        _ => a & b & ALL_MASK,
    };
    (0u8..10, (any::<u32>(), any::<u32>(), 0u8..6), mask()).prop_map(move |(k, s, m)| match k {
        0..5 => None,
        5..9 => Some(small(s)),
        _ => Some(m),
    })
}

#[derive(Debug, Clone, Copy)]
pub struct Seg {
    pub anchor: u8,
    pub cp: Cp,
    pub len: u16,
    pub step: u8,
}
#[derive(Debug, Clone)]
pub struct Chars {
    pub segs: Vec<Seg>,
    pub order: u8,
    pub salt: u32,
    /// A string of the source under test, in place of the segments or after them.
    pub word: Option<(u32, bool)>,
}

fn seg() -> impl Strategy<Value = Seg> + Clone {
    (
        weighted(&[(6, 0u8), (1, 1u8), (1, 2u8), (1, 3u8)]),
        cp(),
        (0u8..17, 0u16..84).prop_map(|(k, x)| match k {
            0..12 => 1,
            12..16 => 2 + x % 4,
            _ => 6 + x,
        }),
        weighted(&[(10, 1u8), (1, 2u8), (1, 3u8)]),
    )
        .prop_map(|(anchor, cp, len, step)| Seg { anchor, cp, len, step })
}

pub fn chars() -> impl Strategy<Value = Option<Chars>> + Clone {
    let body = |n: std::ops::Range<usize>| {
        let word = (0u8..16, any::<(u32, bool)>()).prop_map(|(k, w)| (k == 15).then_some(w));
        (vec(seg(), n), 0u8..5, any::<u32>(), word)
            .prop_map(|(segs, order, salt, word)| Some(Chars { segs, order, salt, word }))
    };
    prop_oneof![
        4 => Just(None),
        5 => body(0..5),
        2 => body(0..14),
        1 => body(10..60),
    ]
}

/// `others`: characters chosen from or next to (the other string, when there is one).
pub fn resolve_chars(c: &Chars, v: usize, mask: u32, lo: u32, hi: u32, others: &str) -> String {
    let pool: Vec<u32> = others.chars().map(u32::from).collect();
    let mut pts: Vec<u32> = Vec::new();
    for s in &c.segs {
        let start = match s.anchor {
            1 => shift(lo, s.cp.d),
            2 => shift(hi, s.cp.d),
            3 if !pool.is_empty() => shift(pool[index(s.cp.a, pool.len())], s.cp.d),
            _ => resolve(s.cp, v, mask),
        };
        for k in 0..u32::from(s.len) {
            pts.push(start.saturating_add(k * u32::from(s.step)));
        }
    }
    match c.order {
        1 => pts.reverse(),
        2 => {
            scramble(&mut pts, c.salt);
        }
        3 => {
            let again = pts.clone();
            pts.extend(again);
        }
        4 => pts.sort_unstable(),
        _ => {}
    }
    let mut text: String = pts.into_iter().filter_map(char::from_u32).collect();
    if let Some((k, alone)) = c.word {
        let words = &mined().strings;
        if alone {
            text.clear();
        }
        text.push_str(&words[index(k, words.len())]);
    }
    text
}

#[derive(Debug, Clone)]
pub struct Range {
    pub kind: u8,
    pub a: Cp,
    pub b: Cp,
    pub w: u16,
}
pub fn range() -> impl Strategy<Value = Range> + Clone {
    let kind = weighted(&[
        (3, 0u8), // not set
        (1, 1u8), // explicit full range
        (3, 2u8), // min only
        (3, 3u8), // max only
        (5, 4u8), // both
        (3, 5u8), // narrow window
        (1, 6u8), // single point
        (3, 7u8), // within 0..=300
    ]);
    (kind, cp(), cp(), any::<u16>()).prop_map(|(kind, a, b, w)| Range { kind, a, b, w })
}
pub fn resolve_range(r: &Range, v: usize, mask: u32) -> (Option<u32>, Option<u32>) {
    let (a, b) = (resolve(r.a, v, mask), resolve(r.b, v, mask));
    match r.kind {
        0 => (None, None),
        1 => (Some(0), Some(MAX)),
        2 => (Some(a), None),
        3 => (None, Some(a)),
        4 => (Some(a.min(b)), Some(a.max(b))),
        // As wide as a number of the source under test, or one more or less.
        5 if r.w % 8 == 7 => {
            let m = &mined().numbers;
            let w = m[usize::from(r.w) / 24 % m.len()].saturating_add(u32::from(r.w) / 8 % 3).saturating_sub(1);
            (Some(a), Some(a.saturating_add(w).min(MAX)))
        }
        5 if r.w % 8 == 6 => (Some(a), Some((a + u32::from(r.w)).min(MAX))),
        5 => (Some(a), Some((a + u32::from(r.w) % 600).min(MAX))),
        6 => (Some(a), Some(a)),
        _ => {
            let (x, y) = (a % 301, b % 301);
            (Some(x.min(y)), Some(x.max(y)))
        }
    }
}

/// Valid queries.
pub fn query() -> impl Strategy<Value = Q> + Clone {
    (0..NVER, opt_mask_include(), opt_mask_exclude(), range(), chars(), chars()).prop_map(
        |(v, inc, exc, r, ic, ec)| {
            let m = crate::model::effective(inc, exc);
            let (min, max) = resolve_range(&r, v, m);
            let (lo, hi) = (min.unwrap_or(0), max.unwrap_or(MAX));
            let inch = ic.map(|c| resolve_chars(&c, v, m, lo, hi, ""));
            let exch = ec.map(|c| resolve_chars(&c, v, m, lo, hi, inch.as_deref().unwrap_or("")));
            Q { v: v as u8, inc, exc, inch, exch, min, max }
        },
    )
}

/// Valid queries without custom characters.
pub fn plain_query() -> impl Strategy<Value = Q> + Clone {
    (0..NVER, opt_mask_include(), opt_mask_exclude(), range()).prop_map(|(v, inc, exc, r)| {
        let m = crate::model::effective(inc, exc);
        let (min, max) = resolve_range(&r, v, m);
        Q { v: v as u8, inc, exc, inch: None, exch: None, min, max }
    })
}

/// Queries around the first 256 code points: bounds and characters mostly below, sometimes at the
/// edge, rarely far above.
pub fn low_query() -> impl Strategy<Value = Q> + Clone {
    let near = || prop_oneof![12 => 0u32..256, 2 => 250u32..262, 1 => select(SPECIAL.to_vec())];
    let text = move || {
        prop_oneof![
            2 => Just(None),
            6 => vec((near(), prop_oneof![5 => Just(1u32), 2 => 2u32..20, 1 => 20u32..130]), 0..6).prop_map(|runs| {
                Some(runs.into_iter().flat_map(|(c, n)| c..c + n).filter(|c| *c < 256 || c % 8 != 0).filter_map(char::from_u32).collect::<String>())
            }),
        ]
    };
    let bound = || prop_oneof![1 => Just(None), 8 => (0u32..256).prop_map(Some), 1 => (250u32..262).prop_map(Some)];
    let kind = weighted(&[(9, true), (1, false)]);
    (0..NVER, opt_mask_include(), opt_mask_exclude(), text(), text(), (bound(), bound(), kind)).prop_map(
        |(v, inc, exc, inch, exch, (a, b, both))| {
            let (min, max) = match (a, b) {
                (Some(a), Some(b)) => (Some(a.min(b)), Some(a.max(b))),
                (None, Some(b)) => (None, Some(b)),
                (Some(a), None) if both => (None, Some(a)),
                other => other,
            };
            Q { v: v as u8, inc, exc, inch, exch, min, max }
        },
    )
}

/// A query with long character strings, kept as a plan: a replay file should not hold 100,000
/// characters.
#[derive(Debug, Clone, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub struct Big {
    pub q: Q,
    pub inc: Vec<Block>,
    pub exc: Vec<Block>,
    pub order: u8,
}
/// `count` characters from `start`, `step` apart (wrapping round at the end of the code space).
#[derive(Debug, Clone, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub struct Block {
    pub start: u32,
    pub count: u32,
    pub step: u32,
}

impl Big {
    pub fn query(&self) -> Q {
        let text = |blocks: &[Block], salt: u32| {
            if blocks.is_empty() {
                return None;
            }
            let mut pts: Vec<u32> = Vec::new();
            for b in blocks {
                let n = MAX as u64 + 1;
                pts.extend((0..u64::from(b.count)).map(|k| ((u64::from(b.start) + k * u64::from(b.step)) % n) as u32));
            }
            match self.order % 5 {
                1 => pts.reverse(),
                2 => scramble(&mut pts, salt),
                3 => {
                    let again = pts.clone();
                    pts.extend(again);
                }
                4 => pts.sort_unstable(),
                _ => {}
            }
            Some(pts.into_iter().filter_map(char::from_u32).collect::<String>())
        };
        Q { inch: text(&self.inc, 0x5EED), exch: text(&self.exc, 0xFACE), ..self.q.clone() }
    }
}

fn scramble(pts: &mut [u32], salt: u32) {
    let mut x = salt | 1;
    for i in (1..pts.len()).rev() {
        x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
        pts.swap(i, index(x, i + 1));
    }
}

/// Long strings: hundreds to a hundred thousand characters, so that the string, its intervals or
/// the result pass every counter narrower than 32 bits.
pub fn big() -> impl Strategy<Value = Big> + Clone {
    let count = prop_oneof![
        2 => 1u32..20,
        6 => 200u32..600,
        6 => 600u32..9000,
        2 => 9000u32..70_000,
        1 => (any::<u32>(), -1i64..=1).prop_map(|(a, d)| {
            // A number of the source under test, as a number of characters.
            let m = &mined().numbers;
            (i64::from(m[index(a, m.len())]) + d).clamp(1, 70_000) as u32
        }),
        1 => select(vec![127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32768, 32769, 65535, 65536, 65537]),
    ];
    let block = (any_cp(), count, prop_oneof![2 => Just(1u32), 5 => Just(2u32), 2 => 3u32..40])
        .prop_map(|(start, count, step)| Block { start, count, step });
    let side = move || prop_oneof![1 => Just(Vec::new()), 5 => vec(block.clone(), 1..4)];
    (plain_query(), side(), side(), 0u8..5).prop_map(|(q, inc, exc, order)| Big { q, inc, exc, order })
}
