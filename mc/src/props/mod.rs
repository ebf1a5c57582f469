mod compose;
mod config;
mod custom;
mod defaults;
mod edited;
mod empty;
mod endure;
mod extreme;
mod filter;
mod logits;
mod penalty;
mod select;
mod sweeps;

use crate::engine::Harness;

pub fn all() -> Vec<Harness> {
    let mut v = vec![];
    v.extend(logits::list());
    v.extend(filter::list());
    v.extend(select::list());
    v.extend(penalty::list());
    v.extend(compose::list());
    v.extend(config::list());
    v.extend(custom::list());
    v.extend(edited::list());
    v.extend(defaults::list());
    v.extend(empty::list());
    v.extend(extreme::list());
    v.extend(sweeps::list());
    v.extend(endure::list());
    v
}
