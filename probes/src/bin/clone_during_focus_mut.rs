#![allow(unused)]
//! Must not compile with the feature `bad`: a vector cloned while a mutable focus is in use.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut v = vector();
    let mut f = v.focus_mut();
    **f.get(3).unwrap() = 1;
    good! { drop(f); }
    let c = v.clone();
    bad! { **f.get(3).unwrap() = 6; }
    use_it(&c.get(3));
}
