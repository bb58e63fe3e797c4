#![allow(unused)]
//! Must not compile with the feature `bad`: an element of iter_mut used after its vector changed.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut v = vector();
    let all: Vec<&mut Box<u64>> = v.iter_mut().collect();
    good! { use_it(&all); }
    v.slice_from_start(1);
    bad! { use_it(&all); }
}
