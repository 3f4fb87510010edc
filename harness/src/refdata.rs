//! Reference Unicode data (`/verif/refdata/gc.txt`), built without looking at /repo.
use std::sync::OnceLock;
use unicode_intervals::{UnicodeCategory, UnicodeVersion};
use UnicodeCategory::*;

pub type Interval = (u32, u32);
pub const MAX: u32 = 0x10FFFF;

/// Every category: variant, abbreviation, full name; sorted by full name (documented table order).
pub const CATS: [(UnicodeCategory, &str, &str); 30] = [
    (Pe, "Pe", "Close_Punctuation"),
    (Pc, "Pc", "Connector_Punctuation"),
    (Cc, "Cc", "Control"),
    (Sc, "Sc", "Currency_Symbol"),
    (Pd, "Pd", "Dash_Punctuation"),
    (Nd, "Nd", "Decimal_Number"),
    (Me, "Me", "Enclosing_Mark"),
    (Pf, "Pf", "Final_Punctuation"),
    (Cf, "Cf", "Format"),
    (Pi, "Pi", "Initial_Punctuation"),
    (Nl, "Nl", "Letter_Number"),
    (Zl, "Zl", "Line_Separator"),
    (Ll, "Ll", "Lowercase_Letter"),
    (Sm, "Sm", "Math_Symbol"),
    (Lm, "Lm", "Modifier_Letter"),
    (Sk, "Sk", "Modifier_Symbol"),
    (Mn, "Mn", "Nonspacing_Mark"),
    (Ps, "Ps", "Open_Punctuation"),
    (Lo, "Lo", "Other_Letter"),
    (No, "No", "Other_Number"),
    (Po, "Po", "Other_Punctuation"),
    (So, "So", "Other_Symbol"),
    (Zp, "Zp", "Paragraph_Separator"),
    (Co, "Co", "Private_Use"),
    (Zs, "Zs", "Space_Separator"),
    (Mc, "Mc", "Spacing_Mark"),
    (Cs, "Cs", "Surrogate"),
    (Lt, "Lt", "Titlecase_Letter"),
    (Cn, "Cn", "Unassigned"),
    (Lu, "Lu", "Uppercase_Letter"),
];
pub const NCAT: usize = 30;
pub const ALL_MASK: u32 = (1 << 30) - 1;

/// Every bundled version: variant, number. Oldest to newest.
pub const VERS: [(UnicodeVersion, &str); 11] = [
    (UnicodeVersion::V9_0_0, "9.0.0"),
    (UnicodeVersion::V10_0_0, "10.0.0"),
    (UnicodeVersion::V11_0_0, "11.0.0"),
    (UnicodeVersion::V12_0_0, "12.0.0"),
    (UnicodeVersion::V12_1_0, "12.1.0"),
    (UnicodeVersion::V13_0_0, "13.0.0"),
    (UnicodeVersion::V14_0_0, "14.0.0"),
    (UnicodeVersion::V15_0_0, "15.0.0"),
    (UnicodeVersion::V15_1_0, "15.1.0"),
    (UnicodeVersion::V16_0_0, "16.0.0"),
    (UnicodeVersion::V17_0_0, "17.0.0"),
];
pub const NVER: usize = 11;

pub fn cat_index(abbrev: &str) -> Option<usize> {
    CATS.iter().position(|c| c.1 == abbrev)
}
pub fn cat_of(c: UnicodeCategory) -> usize {
    CATS.iter().position(|x| x.0 == c).expect("known category")
}
/// Members of a one-letter major class, by the first letter of the abbreviation.
pub fn group_mask(letter: char) -> u32 {
    (0..NCAT)
        .filter(|&i| CATS[i].1.starts_with(letter))
        .fold(0, |m, i| m | 1 << i)
}
pub const GROUPS: [char; 7] = ['L', 'M', 'N', 'P', 'S', 'Z', 'C'];

pub struct VerRef {
    /// Maximal runs of equal category, covering 0..=MAX: (start, end, category index).
    pub runs: Vec<(u32, u32, u8)>,
    pub gc: Vec<u8>,
    pub by_cat: Vec<Vec<Interval>>,
}

static DATA: OnceLock<Vec<VerRef>> = OnceLock::new();

pub fn data() -> &'static [VerRef] {
    DATA.get_or_init(|| {
        let text = include_str!("../../refdata/gc.txt");
        let mut starts: Vec<Vec<(u32, u8)>> = Vec::new();
        for line in text.lines() {
            if line.starts_with('#') || line.is_empty() {
                continue;
            }
            if let Some(v) = line.strip_prefix('@') {
                assert_eq!(v, VERS[starts.len()].1);
                starts.push(Vec::new());
                continue;
            }
            let (a, b) = line.split_once(' ').expect("start and category");
            let start = u32::from_str_radix(a, 16).expect("hex");
            let cat = cat_index(b).expect("category") as u8;
            starts.last_mut().expect("version").push((start, cat));
        }
        assert_eq!(starts.len(), NVER);
        starts
            .into_iter()
            .map(|s| {
                let mut runs = Vec::with_capacity(s.len());
                let mut gc = vec![0u8; MAX as usize + 1];
                let mut by_cat = vec![Vec::new(); NCAT];
                for (i, &(start, cat)) in s.iter().enumerate() {
                    let end = s.get(i + 1).map_or(MAX, |n| n.0 - 1);
                    runs.push((start, end, cat));
                    by_cat[cat as usize].push((start, end));
                    for c in start..=end {
                        gc[c as usize] = cat;
                    }
                }
                VerRef { runs, gc, by_cat }
            })
            .collect()
    })
}

/// Category order the library documents: by number of intervals, ties by abbreviation, with
/// control and surrogate moved to the end.
pub fn normalized(ver: usize) -> Vec<usize> {
    let d = &data()[ver];
    let mut order: Vec<usize> = (0..NCAT).filter(|&i| CATS[i].1 != "Cc" && CATS[i].1 != "Cs").collect();
    order.sort_by(|&a, &b| {
        (d.by_cat[a].len(), CATS[a].1).cmp(&(d.by_cat[b].len(), CATS[b].1))
    });
    order.push(cat_index("Cc").expect("Cc"));
    order.push(cat_index("Cs").expect("Cs"));
    order
}
