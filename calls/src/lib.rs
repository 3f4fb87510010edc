//! Calls of the generic and inline functions under test. Such code is compiled where it is used;
//! here it is used in a crate that the fuzzing build instruments.
use unicode_intervals::{as_general_categories, Codepoints, Error, IntervalSet, UnicodeCategory, UnicodeVersion};

#[inline(never)]
pub fn index_of(set: &IntervalSet, c: u32) -> Option<u32> {
    set.index_of(c)
}

#[inline(never)]
pub fn contains(set: &IntervalSet, c: u32) -> bool {
    set.contains(c)
}

#[inline(never)]
pub fn index_above(set: &IntervalSet, c: u32) -> u32 {
    set.index_above(c)
}

#[inline(never)]
pub fn codepoint_at(set: &IntervalSet, k: u32) -> Option<u32> {
    set.codepoint_at(k)
}

#[inline(never)]
pub fn next(it: &mut Codepoints<'_>) -> Option<u32> {
    it.next()
}

#[inline(never)]
pub fn next_back(it: &mut Codepoints<'_>) -> Option<u32> {
    it.next_back()
}

#[inline(never)]
pub fn nth(it: &mut Codepoints<'_>, n: usize) -> Option<u32> {
    it.nth(n)
}

#[inline(never)]
pub fn nth_back(it: &mut Codepoints<'_>, n: usize) -> Option<u32> {
    it.nth_back(n)
}

#[inline(never)]
pub fn size_hint(it: &Codepoints<'_>) -> (usize, Option<usize>) {
    it.size_hint()
}

#[inline(never)]
pub fn expand(names: &[String], version: UnicodeVersion) -> Result<Vec<UnicodeCategory>, Error> {
    as_general_categories(names, version)
}

#[cfg(feature = "internals")]
pub mod internals {
    use unicode_intervals::internals::{categories, intervals, query};
    use unicode_intervals::{Interval, UnicodeCategorySet, UnicodeVersion};

    #[inline(never)]
    pub fn merge(v: &mut Vec<Interval>) {
        intervals::merge(v);
    }

    #[inline(never)]
    pub fn subtract(left: Vec<Interval>, right: &[Interval]) -> Vec<Interval> {
        intervals::subtract(left, right)
    }

    #[inline(never)]
    pub fn from_str(s: &str) -> Vec<Interval> {
        intervals::from_str(s)
    }

    #[inline(never)]
    pub fn effective(include: Option<UnicodeCategorySet>, exclude: UnicodeCategorySet) -> UnicodeCategorySet {
        categories::merge(include, exclude)
    }

    #[inline(never)]
    pub fn intervals_for_set(version: UnicodeVersion, set: UnicodeCategorySet) -> Vec<Interval> {
        query::intervals_for_set(version, set).into_owned()
    }
}
