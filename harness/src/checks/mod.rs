use crate::run::Def;

pub mod common;
mod addr;
mod anon;
mod decode;
mod edit;
mod feature;
mod numbers;
mod pure;
mod robust;
mod serial;
pub mod cost;
mod text;
mod values;

pub fn all() -> Vec<Def> {
    let mut v = vec![];
    v.extend(decode::defs());
    v.extend(text::defs());
    v.extend(anon::defs());
    v.extend(edit::defs());
    v.extend(numbers::defs());
    v.extend(robust::defs());
    v.extend(cost::defs());
    v.extend(addr::defs());
    v.extend(serial::defs());
    v.extend(feature::defs());
    v.extend(pure::defs());
    v.extend(values::defs());
    v
}

/// Commands that are no ordinary checks.
pub fn special(_id: &str, _args: &[String], _seed: u64, _tier: &str) -> bool {
    false
}
