//! Constants mined from the source under test, used only to aim the generators: a branch on a
//! magic value is a place where a random generator would never look.
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Mined {
    pub numbers: Vec<u32>,
    pub strings: Vec<String>,
}

pub fn repo() -> PathBuf {
    PathBuf::from(std::env::var("UVH_REPO").unwrap_or_else(|_| "/repo".into()))
}

static MINED: OnceLock<Mined> = OnceLock::new();

pub fn mined() -> &'static Mined {
    MINED.get_or_init(|| {
        let mut m = Mined::default();
        for dir in ["crates/unicode-intervals/src", "crates/unicode-intervals-py/src"] {
            walk(&repo().join(dir), &mut m);
        }
        m.numbers.sort_unstable();
        m.numbers.dedup();
        m.strings.sort();
        m.strings.dedup();
        m.strings.retain(|s| s.len() <= 64);
        if m.numbers.is_empty() {
            m.numbers.push(0);
        }
        if m.strings.is_empty() {
            m.strings.push(String::new());
        }
        m
    })
}

fn walk(dir: &Path, m: &mut Mined) {
    let Ok(entries) = std::fs::read_dir(dir) else { return };
    let mut paths: Vec<PathBuf> = entries.flatten().map(|e| e.path()).collect();
    paths.sort();
    for p in paths {
        if p.is_dir() {
            // The generated tables are data, not logic; their boundaries are generated from
            // the reference data instead.
            if p.file_name().is_some_and(|n| n != "tables") {
                walk(&p, m);
            }
        } else if p.extension().is_some_and(|e| e == "rs") {
            if let Ok(text) = std::fs::read_to_string(&p) {
                scan(&text, m);
            }
        }
    }
}

/// Numbers, character literals and string literals of a piece of Rust. Approximate on purpose.
pub fn scan(text: &str, m: &mut Mined) {
    let text: &str = text.split("#[cfg(test)]\nmod ").next().unwrap_or(text);
    let b = text.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let word_before = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
        if c.is_ascii_digit() && !word_before {
            let mut j = i;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                j += 1;
            }
            number(&text[i..j], m);
            i = j;
        } else if c == b'"' {
            let mut j = i + 1;
            while j < b.len() && b[j] != b'"' {
                if b[j] == b'\\' {
                    j += 1;
                }
                j += 1;
            }
            if j <= b.len() {
                if let Some(raw) = text.get(i + 1..j.min(b.len())) {
                    let s = unescape(raw);
                    for ch in s.chars().take(64) {
                        if !ch.is_ascii_alphabetic() && ch != ' ' {
                            m.numbers.push(ch as u32);
                        }
                    }
                    m.strings.push(s);
                }
            }
            i = j + 1;
        } else if c == b'\'' {
            // A char literal closes within a few bytes; a lifetime does not.
            if let Some(end) = text[i + 1..].char_indices().take(12).find(|(k, ch)| *k > 0 && *ch == '\'') {
                let s = unescape(&text[i + 1..i + 1 + end.0]);
                if s.chars().count() == 1 {
                    m.numbers.extend(s.chars().map(u32::from));
                    i += end.0 + 2;
                    continue;
                }
            }
            i += 1;
        } else if c == b'/' && b.get(i + 1) == Some(&b'/') {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}

fn number(tok: &str, m: &mut Mined) {
    let t: String = tok.chars().filter(|c| *c != '_').collect();
    let t = t.to_ascii_lowercase();
    let strip = |s: &str| {
        for suf in ["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "i8"] {
            if let Some(r) = s.strip_suffix(suf) {
                return r.to_string();
            }
        }
        s.to_string()
    };
    let v = if let Some(h) = t.strip_prefix("0x") {
        u64::from_str_radix(&strip(h), 16).ok()
    } else if let Some(h) = t.strip_prefix("0b") {
        u64::from_str_radix(&strip(h), 2).ok()
    } else {
        let s = strip(&t);
        s.strip_suffix("u8").unwrap_or(&s).parse::<u64>().ok()
    };
    if let Some(v) = v.and_then(|v| u32::try_from(v).ok()) {
        m.numbers.push(v);
        if v < 21 {
            m.numbers.push(1 << v);
        }
    }
}

fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('t') => out.push('\t'),
            Some('r') => out.push('\r'),
            Some('0') => out.push('\0'),
            Some('u') => {
                let mut hex = String::new();
                if it.peek() == Some(&'{') {
                    it.next();
                    for h in it.by_ref() {
                        if h == '}' {
                            break;
                        }
                        hex.push(h);
                    }
                }
                if let Some(ch) = u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32) {
                    out.push(ch);
                }
            }
            Some('x') => {
                let hex: String = it.by_ref().take(2).collect();
                if let Some(ch) = u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32) {
                    out.push(ch);
                }
            }
            Some(other) => out.push(other),
            None => {}
        }
    }
    out
}
