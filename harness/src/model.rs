//! The reference semantics: what a query means, computed from the reference data.
use crate::refdata::{self, Interval, ALL_MASK, CATS, MAX, NCAT, VERS};
use serde::{Deserialize, Serialize};
use unicode_intervals::{Error, IntervalQuery, UnicodeCategorySet};

/// One query, written out. `None` = the setter is not called.
#[derive(Debug, Clone, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub struct Q {
    pub v: u8,
    pub inc: Option<u32>,
    pub exc: Option<u32>,
    pub inch: Option<String>,
    pub exch: Option<String>,
    pub min: Option<u32>,
    pub max: Option<u32>,
}

impl Q {
    pub fn new(v: usize) -> Q {
        Q { v: v as u8, inc: None, exc: None, inch: None, exch: None, min: None, max: None }
    }
    pub fn lo(&self) -> u32 {
        self.min.unwrap_or(0)
    }
    pub fn hi(&self) -> u32 {
        self.max.unwrap_or(MAX)
    }
    pub fn mask(&self) -> u32 {
        effective(self.inc, self.exc)
    }
    pub fn is_plain(&self) -> bool {
        self.inch.as_deref().unwrap_or("").is_empty() && self.exch.as_deref().unwrap_or("").is_empty()
    }
}

/// Category-set from a mask in *this* harness's numbering, through the public API.
pub fn set_of(mask: u32) -> UnicodeCategorySet {
    let mut s = UnicodeCategorySet::new();
    for (i, c) in CATS.iter().enumerate() {
        if mask >> i & 1 == 1 {
            s.add(c.0);
        }
    }
    s
}
pub fn mask_of(set: UnicodeCategorySet) -> u32 {
    (0..NCAT).filter(|&i| set.contains(CATS[i].0)).fold(0, |m, i| m | 1 << i)
}

/// The builder for `q`, setters called in a fixed order.
pub fn build(q: &Q) -> IntervalQuery<'_> {
    let mut b = VERS[q.v as usize].0.query();
    if let Some(m) = q.inc {
        b = b.include_categories(set_of(m));
    }
    if let Some(m) = q.exc {
        b = b.exclude_categories(set_of(m));
    }
    if let Some(s) = &q.inch {
        b = b.include_characters(s);
    }
    if let Some(s) = &q.exch {
        b = b.exclude_characters(s);
    }
    if let Some(c) = q.min {
        b = b.min_codepoint(c);
    }
    if let Some(c) = q.max {
        b = b.max_codepoint(c);
    }
    b
}

pub fn effective(inc: Option<u32>, exc: Option<u32>) -> u32 {
    inc.unwrap_or(ALL_MASK) & !exc.unwrap_or(0) & ALL_MASK
}

pub fn expected_error(lo: u32, hi: u32) -> Option<Error> {
    if lo > MAX || hi > MAX {
        Some(Error::CodepointNotInRange(lo, hi))
    } else if lo > hi {
        Some(Error::InvalidCodepoints(lo, hi))
    } else {
        None
    }
}

fn push(out: &mut Vec<Interval>, lo: u32, hi: u32) {
    match out.last_mut() {
        Some(last) if last.1 + 1 >= lo => last.1 = last.1.max(hi),
        _ => out.push((lo, hi)),
    }
}

/// Code points of `mask`'s categories within `[lo, hi]`.
pub fn base(v: usize, mask: u32, lo: u32, hi: u32) -> Vec<Interval> {
    let mut out = Vec::new();
    if mask == ALL_MASK {
        return vec![(lo, hi)];
    }
    if mask == 0 {
        return out;
    }
    let runs = &refdata::data()[v].runs;
    // Runs partition 0..=MAX, so the one holding `lo` is the last that starts at or below it.
    let mut i = runs.partition_point(|r| r.0 <= lo) - 1;
    while i < runs.len() && runs[i].0 <= hi {
        let (s, e, c) = runs[i];
        if mask >> c & 1 == 1 {
            push(&mut out, s.max(lo), e.min(hi));
        }
        i += 1;
    }
    out
}

/// `(base U include) \ exclude` in canonical form.
pub fn with_chars(base: &[Interval], include: &str, exclude: &str) -> Vec<Interval> {
    if include.is_empty() && exclude.is_empty() {
        return base.to_vec();
    }
    let mut inc: Vec<u32> = include.chars().map(u32::from).collect();
    let mut exc: Vec<u32> = exclude.chars().map(u32::from).collect();
    inc.sort_unstable();
    inc.dedup();
    exc.sort_unstable();
    exc.dedup();
    let mut out = Vec::with_capacity(base.len() + inc.len() + exc.len());
    let mut ei = 0;
    // Emits [lo, hi] minus the excluded points; calls come with non-decreasing `lo`.
    let mut emit = |out: &mut Vec<Interval>, lo: u32, hi: u32| {
        let mut from = lo;
        while ei < exc.len() && exc[ei] < lo {
            ei += 1;
        }
        let mut k = ei;
        while k < exc.len() && exc[k] <= hi {
            if exc[k] > from {
                push(out, from, exc[k] - 1);
            }
            from = exc[k] + 1;
            k += 1;
        }
        if from <= hi {
            push(out, from, hi);
        }
    };
    let (mut i, mut j) = (0, 0);
    while i < base.len() || j < inc.len() {
        if j == inc.len() || (i < base.len() && base[i].0 <= inc[j]) {
            emit(&mut out, base[i].0, base[i].1);
            // Included characters inside this interval are already members (or excluded).
            while j < inc.len() && inc[j] <= base[i].1 {
                j += 1;
            }
            i += 1;
        } else {
            emit(&mut out, inc[j], inc[j]);
            j += 1;
        }
    }
    out
}

pub fn query(q: &Q) -> Result<Vec<Interval>, Error> {
    if let Some(e) = expected_error(q.lo(), q.hi()) {
        return Err(e);
    }
    Ok(with_chars(
        &base(q.v as usize, q.mask(), q.lo(), q.hi()),
        q.inch.as_deref().unwrap_or(""),
        q.exch.as_deref().unwrap_or(""),
    ))
}

/// Slow, per-code-point version of `query`; the fast one above is checked against it.
pub fn query_slow(q: &Q) -> Vec<Interval> {
    let gc = &refdata::data()[q.v as usize].gc;
    let mask = q.mask();
    let mut member: Vec<bool> = (0..=MAX)
        .map(|c| c >= q.lo() && c <= q.hi() && mask >> gc[c as usize] & 1 == 1)
        .collect();
    for c in q.inch.as_deref().unwrap_or("").chars() {
        member[c as usize] = true;
    }
    for c in q.exch.as_deref().unwrap_or("").chars() {
        member[c as usize] = false;
    }
    let mut out: Vec<Interval> = Vec::new();
    for c in 0..=MAX {
        if member[c as usize] {
            push(&mut out, c, c);
        }
    }
    out
}

/// Canonical form of any list of intervals.
pub fn canon(items: &[Interval]) -> Vec<Interval> {
    let mut v = items.to_vec();
    v.sort_unstable();
    let mut out = Vec::with_capacity(v.len());
    for (lo, hi) in v {
        push(&mut out, lo, hi);
    }
    out
}
pub fn union(a: &[Interval], b: &[Interval]) -> Vec<Interval> {
    let mut v = a.to_vec();
    v.extend_from_slice(b);
    canon(&v)
}
pub fn clip(a: &[Interval], lo: u32, hi: u32) -> Vec<Interval> {
    a.iter()
        .filter(|i| i.1 >= lo && i.0 <= hi)
        .map(|i| (i.0.max(lo), i.1.min(hi)))
        .collect()
}
/// Set difference of canonical lists.
pub fn difference(a: &[Interval], b: &[Interval]) -> Vec<Interval> {
    let mut out = Vec::new();
    let mut j = 0;
    for &(lo, hi) in a {
        let mut from = u64::from(lo);
        while j < b.len() && b[j].1 < lo {
            j += 1;
        }
        let mut k = j;
        while k < b.len() && b[k].0 <= hi {
            if u64::from(b[k].0) > from {
                out.push((from as u32, b[k].0 - 1));
            }
            from = u64::from(b[k].1) + 1;
            k += 1;
        }
        if from <= u64::from(hi) {
            out.push((from as u32, hi));
        }
    }
    out
}
pub fn size(a: &[Interval]) -> u64 {
    a.iter().map(|i| u64::from(i.1 - i.0) + 1).sum()
}

/// Why `r` is not in canonical form, if it is not.
pub fn not_canonical(r: &[Interval]) -> Option<String> {
    for (i, &(lo, hi)) in r.iter().enumerate() {
        if lo > hi {
            return Some(format!("interval #{i} ({lo}, {hi}) is reversed"));
        }
        if hi > MAX {
            return Some(format!("interval #{i} ({lo}, {hi}) leaves the code space"));
        }
        if i > 0 {
            let p = r[i - 1];
            if p.1 >= lo {
                return Some(format!("intervals {p:?} and ({lo}, {hi}) overlap or are out of order"));
            }
            if p.1 + 1 == lo {
                return Some(format!("intervals {p:?} and ({lo}, {hi}) touch and should be one"));
            }
        }
    }
    None
}

/// A short description of how two interval lists differ.
pub fn describe_diff(got: &[Interval], want: &[Interval]) -> String {
    let cut = |v: &[Interval]| {
        if v.len() > 8 {
            format!("{:?}... ({} intervals)", &v[..8], v.len())
        } else {
            format!("{v:?}")
        }
    };
    let (g, w) = (canon_safe(got), canon_safe(want));
    let missing = difference(&w, &g);
    let extra = difference(&g, &w);
    format!(
        "missing {}; extra {}; got {}; expected {}",
        cut(&missing),
        cut(&extra),
        cut(got),
        cut(want)
    )
}
fn canon_safe(v: &[Interval]) -> Vec<Interval> {
    let ok: Vec<Interval> = v.iter().copied().filter(|i| i.0 <= i.1 && i.1 <= MAX).collect();
    canon(&ok)
}
