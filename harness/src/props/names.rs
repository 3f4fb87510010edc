//! C12 names round-trip, C13 expansion of major classes.
use super::sets::group_const;
use super::Prop;
use crate::engine::{Outcome, Session, Tags};
use crate::mined::mined;
use crate::refdata::{self, CATS, GROUPS, NCAT, NVER, VERS};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use unicode_intervals::{as_general_categories, Error, UnicodeCategory, UnicodeVersion};

pub const PROPS: [Prop; 2] = [
    Prop {
        id: "C12",
        run: c12,
        rule: "Strings: every ASCII string of up to three characters, every 'a.b.c' with small numbers, random strings, \
               mutations of valid names and strings found in the source. Non-trivial: the string is a valid name or \
               within two edits of one.",
        exhaustive: false,
    },
    Prop {
        id: "C13",
        run: c13,
        rule: "Lists of up to 12 entries (categories, major classes, duplicates, near-misses) and every subset of major \
               classes with every category, for every version. Non-trivial: the list mixes a major class with something \
               else, repeats an entry, or has an invalid entry after a valid one.",
        exhaustive: false,
    },
];

fn constant(i: usize) -> UnicodeCategory {
    // In full-name order, like CATS.
    [
        UnicodeCategory::CLOSE_PUNCTUATION,
        UnicodeCategory::CONNECTOR_PUNCTUATION,
        UnicodeCategory::CONTROL,
        UnicodeCategory::CURRENCY_SYMBOL,
        UnicodeCategory::DASH_PUNCTUATION,
        UnicodeCategory::DECIMAL_NUMBER,
        UnicodeCategory::ENCLOSING_MARK,
        UnicodeCategory::FINAL_PUNCTUATION,
        UnicodeCategory::FORMAT,
        UnicodeCategory::INITIAL_PUNCTUATION,
        UnicodeCategory::LETTER_NUMBER,
        UnicodeCategory::LINE_SEPARATOR,
        UnicodeCategory::LOWERCASE_LETTER,
        UnicodeCategory::MATH_SYMBOL,
        UnicodeCategory::MODIFIER_LETTER,
        UnicodeCategory::MODIFIER_SYMBOL,
        UnicodeCategory::NONSPACING_MARK,
        UnicodeCategory::OPEN_PUNCTUATION,
        UnicodeCategory::OTHER_LETTER,
        UnicodeCategory::OTHER_NUMBER,
        UnicodeCategory::OTHER_PUNCTUATION,
        UnicodeCategory::OTHER_SYMBOL,
        UnicodeCategory::PARAGRAPH_SEPARATOR,
        UnicodeCategory::PRIVATE_USE,
        UnicodeCategory::SPACE_SEPARATOR,
        UnicodeCategory::SPACING_MARK,
        UnicodeCategory::SURROGATE,
        UnicodeCategory::TITLECASE_LETTER,
        UnicodeCategory::UNASSIGNED,
        UnicodeCategory::UPPERCASE_LETTER,
    ][i]
}

pub(super) fn parse(s: &String) -> Outcome {
    let want = CATS.iter().find(|c| c.1 == s.as_str()).map(|c| c.0);
    match (s.parse::<UnicodeCategory>(), want) {
        (Ok(g), Some(w)) if g == w => {}
        (Err(e), None) => {
            if e != Error::InvalidCategory(s.as_str().into()) {
                return Err(format!("category {s:?}: error {e:?}"));
            }
            if !e.to_string().contains(s.as_str()) {
                return Err(format!("category {s:?}: the message {:?} does not show it", e.to_string()));
            }
        }
        (g, w) => return Err(format!("category {s:?}: got {g:?}, expected {w:?}")),
    }
    let want = VERS.iter().find(|v| v.1 == s.as_str()).map(|v| v.0);
    match (s.parse::<UnicodeVersion>(), want) {
        (Ok(g), Some(w)) if g == w => {}
        (Err(e), None) => {
            if e != Error::InvalidVersion(s.as_str().into()) {
                return Err(format!("version {s:?}: error {e:?}"));
            }
            if !e.to_string().contains(s.as_str()) {
                return Err(format!("version {s:?}: the message {:?} does not show it", e.to_string()));
            }
        }
        (g, w) => return Err(format!("version {s:?}: got {g:?}, expected {w:?}")),
    }
    Ok(())
}

fn named(i: &usize) -> Outcome {
    if *i < NCAT {
        let (c, abbrev, full) = CATS[*i];
        if c.as_str() != abbrev || c.to_string() != abbrev || abbrev.parse() != Ok(c) {
            return Err(format!("{full}: as_str {:?}, Display {:?}, parses as {:?}", c.as_str(), c.to_string(), abbrev.parse::<UnicodeCategory>()));
        }
        if constant(*i) != c {
            return Err(format!("the constant for {full} is {:?}", constant(*i)));
        }
        for (j, d) in CATS.iter().enumerate() {
            if (c == d.0) != (*i == j) || (c.as_str() == d.0.as_str()) != (*i == j) {
                return Err(format!("{} and {}: equality", c, d.0));
            }
        }
    } else {
        let (v, name) = VERS[*i - NCAT];
        if v.as_str() != name || v.to_string() != name || name.parse() != Ok(v) {
            return Err(format!("{name}: as_str {:?}, Display {:?}, parses as {:?}", v.as_str(), v.to_string(), name.parse::<UnicodeVersion>()));
        }
    }
    Ok(())
}

fn names() -> Vec<String> {
    let mut v: Vec<String> = CATS.iter().flat_map(|c| [c.1.to_string(), c.2.to_string()]).collect();
    v.extend(VERS.iter().map(|x| x.1.to_string()));
    v.extend(GROUPS.iter().map(|g| g.to_string()));
    v.extend(["LC", "Any", "Assigned", "17.0", "9.0", "15.1", "latest", "17.0.1", "18.0.0", "8.0.0", "12.1"].map(String::from));
    v
}

fn mutated() -> impl Strategy<Value = String> + Clone {
    (select(names()), vec((0u8..12, any::<prop::sample::Index>(), any::<char>(), any::<u8>()), 0..3)).prop_map(|(s, edits)| {
        let mut c: Vec<char> = s.chars().collect();
        for (kind, at, ch, b) in edits {
            let i = if c.is_empty() { 0 } else { at.index(c.len()) };
            match kind {
                0 => c = c.iter().flat_map(|x| x.to_lowercase()).collect(),
                1 => c = c.iter().flat_map(|x| x.to_uppercase()).collect(),
                2 => c.insert(0, ' '),
                3 => c.push([' ', '\n', '\0', '\t', '.', '0', '\u{a0}', '\u{feff}'][b as usize % 8]),
                4 => c.insert(i, ch),
                5 if !c.is_empty() => {
                    c.remove(i);
                }
                6 if !c.is_empty() => c[i] = ch,
                7 if !c.is_empty() => c[i] = (b & 0x7F) as char,
                8 if c.len() > 1 => c.swap(0, 1),
                9 if !c.is_empty() => c[i] = if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() },
                10 if !c.is_empty() => c[i] = char::from_u32(c[i] as u32 + 0xFEE0).unwrap_or('x'),
                _ => c.insert(i, (b & 0x7F) as char),
            }
        }
        c.into_iter().collect()
    })
}

/// Long strings, with characters of every encoded length at every offset.
fn long() -> impl Strategy<Value = String> + Clone {
    let unit = prop_oneof![
        select(names()),
        any::<char>().prop_map(String::from),
        select(vec!["a", "\u{e9}", "\u{20ac}", "\u{1f600}", "{}", "%s", "\\", "\"", "'", "\n"]).prop_map(String::from),
    ];
    (vec((unit, prop_oneof![4 => 1usize..4, 2 => 1usize..24, 1 => 1usize..300]), 1..7))
        .prop_map(|v| v.into_iter().map(|(s, n)| s.repeat(n)).collect::<String>())
}

const SEPARATORS: [&str; 40] = [
    " ", ";", " ; ", ",", ", ", "|", "&", "/", ":", "=", "==", "gc=", "General_Category=", "\\p{", "}", "[", "]", "(", ")", "#", " # ", "\n", "\r\n",
    "\t", "\0", ".", "-", "_", "'", "\"", "V", "v", "Unicode ", "Is", "^", "!", "~", "*", "+", "\u{feff}",
];

/// Names and literals of the source put together: "Lu ; Uppercase_Letter", "gc=Lu", "[Lu]".
fn composed() -> impl Strategy<Value = String> + Clone {
    let part = prop_oneof![
        3 => select(CATS.iter().map(|c| c.1.to_string()).collect::<Vec<_>>()),
        2 => select(names()),
        2 => select(mined().strings.clone()),
        3 => select(SEPARATORS.to_vec()).prop_map(String::from),
    ];
    vec(part, 2..6).prop_map(|v| v.concat())
}

pub(super) fn any_name() -> impl Strategy<Value = String> + Clone {
    prop_oneof![
        3 => composed(),
        1 => long(),
        6 => mutated(),
        2 => select(mined().strings.clone()),
        1 => vec(any::<char>(), 0..6).prop_map(|v| v.into_iter().collect::<String>()),
        1 => (0u32..99, 0u32..12, 0u32..9).prop_map(|(a, b, c)| format!("{a}.{b}.{c}")),
    ]
}

fn near(s: &str) -> bool {
    names().iter().any(|n| n.len().abs_diff(s.len()) <= 2 && edits(n, s) <= 2)
}
fn edits(a: &str, b: &str) -> usize {
    let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let mut row: Vec<usize> = (0..=b.len()).collect();
    for i in 1..=a.len() {
        let mut diag = row[0];
        row[0] = i;
        for j in 1..=b.len() {
            let old = row[j];
            row[j] = (diag + usize::from(a[i - 1] != b[j - 1])).min(old + 1).min(row[j - 1] + 1);
            diag = old;
        }
    }
    row[b.len()]
}

fn c12(s: &mut Session) {
    s.sweep("valid names", NCAT + NVER, |i, sink| { sink.case(true, i); }, named);
    s.campaign(
        "strings",
        400_000,
        any_name,
        |t: &String| {
            let valid = CATS.iter().any(|c| c.1 == t) || VERS.iter().any(|v| v.1 == t);
            Tags::new(near(t)).tag(valid, "valid").tag(!valid, "invalid")
        },
        parse,
    );
    // All ASCII strings of length 0..=3, and two-character strings with a wider second half.
    s.sweep(
        "short strings",
        128,
        |a, sink| {
            let a = char::from(a as u8);
            if a == '\0' {
                sink.case(true, String::new());
            }
            let letter = |c: char| c.is_ascii_alphabetic();
            if !sink.case(letter(a), a.to_string()) {
                return;
            }
            for b in (0u32..0x500).filter_map(char::from_u32) {
                if !sink.case(letter(a) && letter(b), format!("{a}{b}")) {
                    return;
                }
                if !b.is_ascii() {
                    continue;
                }
                for c in (0u8..128).map(char::from) {
                    let known = CATS.iter().any(|k| k.1.chars().eq([a, b]) || k.1.chars().eq([b, c]));
                    if !sink.case(known, format!("{a}{b}{c}")) {
                        return;
                    }
                }
            }
        },
        parse,
    );
    s.sweep(
        "version numbers",
        41,
        |a, sink| {
            for b in 0..13 {
                for c in 0..8 {
                    for t in [
                        format!("{a}.{b}.{c}"),
                        format!("{a:02}.{b}.{c}"),
                        format!("{a}.{b}.{c:02}"),
                        format!("{a}.{b}"),
                        format!("{a}_{b}_{c}"),
                        format!("V{a}_{b}_{c}"),
                        format!("v{a}.{b}.{c}"),
                        format!("{a}.{b}.{c}.0"),
                        format!("{a}.{b}.{c}."),
                        format!(" {a}.{b}.{c}"),
                        format!("+{a}.{b}.{c}"),
                        format!("{a},{b},{c}"),
                    ] {
                        if !sink.case((9..=17).contains(&a), t) {
                            return;
                        }
                    }
                }
            }
        },
        parse,
    );
    // Numbers that are the right ones only to a narrower integer.
    s.sweep(
        "wrapped version numbers",
        NVER * 3,
        |i, sink| {
            let parts: Vec<u128> = VERS[i / 3].1.split('.').map(|p| p.parse().expect("a number")).collect();
            for shift in 1..=64 {
                for k in [1u128, 2, 3, 255] {
                    let mut p = parts.clone();
                    p[i % 3] += k << shift;
                    if !sink.case(shift % 8 == 0, format!("{}.{}.{}", p[0], p[1], p[2])) {
                        return;
                    }
                    for q in 0..3 {
                        p[q] = parts[q] + (k << shift);
                    }
                    sink.case(shift % 8 == 0, format!("{}.{}.{}", p[0], p[1], p[2]));
                }
            }
        },
        parse,
    );
    // Any character of the first plane in place of any in a name, and alone.
    s.sweep(
        "one other character",
        256,
        |block, sink| {
            let known: Vec<&str> = CATS.iter().map(|c| c.1).chain(VERS.iter().map(|v| v.1)).collect();
            for c in (0..0x100).filter_map(|k| char::from_u32((block * 0x100 + k) as u32)) {
                for (n, name) in known.iter().enumerate() {
                    let last = n < NCAT || !(c.is_numeric() || c.is_ascii_punctuation() || c == '\u{ff0e}' || c == '\u{2024}');
                    for i in 0..if n < NCAT { 2 } else if last { 1 } else { name.len() } {
                        let t: String = name.chars().enumerate().map(|(j, x)| if i == j { c } else { x }).collect();
                        if !sink.case(c.to_lowercase().any(|l| l.is_ascii()) || c.is_numeric(), t) {
                            return;
                        }
                    }
                }
            }
        },
        parse,
    );
    s.sweep(
        "one character",
        0x110,
        |block, sink| {
            for c in (0..0x1000).filter_map(|k| char::from_u32((block * 0x1000 + k) as u32)) {
                if !sink.case(c.is_ascii(), c.to_string()) {
                    return;
                }
            }
        },
        parse,
    );
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Expand {
    pub v: u8,
    pub names: Vec<String>,
    /// How many times over the list is given, when more than once.
    #[serde(default)]
    pub times: u32,
}

fn meaning(n: &str) -> Option<u32> {
    if let Some(i) = refdata::cat_index(n) {
        return Some(1 << i);
    }
    let mut c = n.chars();
    match (c.next(), c.next()) {
        (Some(l), None) if GROUPS.contains(&l) => Some(refdata::group_mask(l)),
        _ => None,
    }
}

pub(super) fn expand(e: &Expand) -> Outcome {
    let v = VERS[e.v as usize].0;
    let bad: Vec<&String> = e.names.iter().filter(|n| meaning(n).is_none()).collect();
    let want: u32 = e.names.iter().filter_map(|n| meaning(n)).fold(0, |a, b| a | b);
    let given: Vec<String> = (0..e.times.max(1)).flat_map(|_| e.names.iter().cloned()).collect();
    let got = uvh_calls::expand(&given, v);
    let slices: Vec<&str> = given.iter().map(String::as_str).collect();
    if as_general_categories(slices.iter(), v) != got
        || as_general_categories(slices.clone(), v) != got
        || as_general_categories(given.iter().map(|s| s.clone().into_boxed_str()), v) != got
    {
        return Err(format!("{:?}: the result depends on the argument's type", e.names));
    }
    match got {
        Err(Error::InvalidCategory(n)) if bad.iter().any(|b| b.as_str() == &*n) => Ok(()),
        Err(x) => Err(format!("{:?}: error {x:?}, invalid entries {bad:?}", e.names)),
        Ok(g) if !bad.is_empty() => Err(format!("{:?}: accepted as {g:?}, but {bad:?} are invalid", e.names)),
        Ok(g) => {
            let order: Vec<UnicodeCategory> =
                v.normalized_categories().into_iter().filter(|c| want >> refdata::cat_of(*c) & 1 == 1).collect();
            if g != order || g.len() != want.count_ones() as usize {
                return Err(format!("{:?}: got {g:?}, expected {order:?}", e.names));
            }
            // Expanding the result again changes nothing.
            if as_general_categories(g.iter().map(|c| c.as_str()), v) != Ok(order) {
                return Err(format!("{:?}: expanding twice differs", e.names));
            }
            Ok(())
        }
    }
}

pub(super) fn any_list() -> impl Strategy<Value = Expand> {
    let good = || {
        let mut v: Vec<String> = CATS.iter().map(|c| c.1.to_string()).collect();
        v.extend(GROUPS.iter().map(|g| g.to_string()));
        v.extend(GROUPS.iter().map(|g| g.to_string()));
        select(v)
    };
    let entry = prop_oneof![30 => good(), 1 => mutated(), 1 => any_name()];
    // Lists that name everything (by class, by category, or shuffled), with a few entries put in anywhere.
    let all = prop_oneof![
        Just(GROUPS.iter().map(|g| g.to_string()).collect::<Vec<_>>()),
        Just(CATS.iter().map(|c| c.1.to_string()).collect::<Vec<_>>()),
        Just(CATS.iter().map(|c| c.1.to_string()).chain(GROUPS.iter().map(|g| g.to_string())).collect::<Vec<_>>()),
    ]
    .prop_shuffle();
    let odd = prop_oneof![2 => good(), 2 => mutated(), 1 => any_name()];
    let full = (all, vec((any::<prop::sample::Index>(), odd), 0..3), 0usize..3, any::<bool>()).prop_map(|(mut v, put, drop, last)| {
        v.truncate(v.len() - drop);
        for (at, n) in put {
            let i = if last { v.len() } else { at.index(v.len() + 1) };
            v.insert(i, n);
        }
        v
    });
    let names = prop_oneof![8 => vec(entry, 0..12).boxed(), 1 => full.boxed()];
    let times = prop_oneof![60 => 1u32..2, 1 => 2u32..40, 1 => select(vec![64u32, 127, 128, 255, 256, 257, 512])];
    let times = (times, 0u32..400).prop_map(|(t, k)| if k == 0 { 65_536 } else { t });
    (0..NVER as u8, names, any::<bool>(), times).prop_map(|(v, mut names, again, times)| {
        if again && !names.is_empty() {
            names.push(names[0].clone());
        }
        let times = if times > 300 { times.min(70_000 / names.len().max(1) as u32) } else { times };
        Expand { v, names, times }
    })
}

fn c13(s: &mut Session) {
    let classify = |e: &Expand| {
        let bad = e.names.iter().position(|n| meaning(n).is_none());
        let groups = e.names.iter().filter(|n| n.len() == 1 && meaning(n).is_some()).count();
        let mut d = e.names.clone();
        d.sort();
        d.dedup();
        let repeated = d.len() < e.names.len();
        Tags::new((groups > 0 && groups < e.names.len()) || repeated || bad.is_some_and(|i| i > 0))
            .tag(bad.is_some(), "invalid entry")
            .tag(groups > 0, "major class")
            .tag(repeated, "repeated entry")
            .tag(e.names.is_empty(), "empty list")
            .tag(e.times as usize * e.names.len() > 255, "over 255 entries")
            .tag(bad.is_some_and(|i| e.names[..i].iter().filter_map(|n| meaning(n)).fold(0, |a, b| a | b) == (1 << NCAT) - 1), "invalid after all")
    };
    s.campaign("lists", 300_000, any_list, classify, expand);
    s.sweep(
        "major classes",
        NVER * 128,
        |i, sink| {
            let (v, subset) = ((i / 128) as u8, i % 128);
            let classes: Vec<String> = (0..7).filter(|k| subset >> k & 1 == 1).map(|k| GROUPS[k].to_string()).collect();
            for c in CATS {
                let mut names = classes.clone();
                names.push(c.1.to_string());
                if !sink.case(!classes.is_empty(), Expand { v, names, times: 1 }) {
                    return;
                }
            }
            sink.case(true, Expand { v, names: classes, times: 1 });
        },
        expand,
    );
    s.sweep(
        "class constants",
        7,
        |i, sink| {
            sink.case(true, i);
        },
        |i: &usize| {
            let set = group_const(*i);
            let m = crate::model::mask_of(set);
            if m != refdata::group_mask(GROUPS[*i]) {
                return Err(format!("the constant for {} is {{{set}}}", GROUPS[*i]));
            }
            for (v, _) in VERS {
                let got = as_general_categories([GROUPS[*i].to_string()], v).map_err(|e| format!("{e:?}"))?;
                let mut cats: Vec<usize> = got.iter().map(|c| refdata::cat_of(*c)).collect();
                cats.sort_unstable();
                if cats != (0..NCAT).filter(|k| m >> k & 1 == 1).collect::<Vec<_>>() {
                    return Err(format!("{} expands to {got:?}", GROUPS[*i]));
                }
            }
            Ok(())
        },
    );
}
