//! One module per group of properties.
use crate::engine::Session;

pub mod builder;
pub mod memory;
pub mod metamorphic;
pub mod names;
pub mod query;
pub mod sets;
pub mod tables;
pub mod work;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Session),
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    /// The domain is finite and was enumerated completely.
    pub exhaustive: bool,
}

pub const REF: &str = "refdata/gc.txt is the published general category of every code point in every bundled version \
     (built from sources independent of /repo, see DESIGN.md)";

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(query::PROPS);
    v.extend(metamorphic::PROPS);
    v.extend(builder::PROPS);
    v.extend(sets::PROPS);
    v.extend(tables::PROPS);
    v.extend(names::PROPS);
    v.extend(memory::PROPS);
    v.extend(work::PROPS);
    v
}
