#![allow(unused)]
//! Must not compile with the feature `bad`: an iter_mut used after the vector shrank.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut v = vector();
    let mut it = v.iter_mut();
    **it.next().unwrap() = 1;
    good! { drop(it); }
    v.slice_from_start(1);
    bad! { **it.next_back().unwrap() = 2; }
    use_it(&v);
}
