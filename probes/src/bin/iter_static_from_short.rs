#![allow(unused)]
//! Must not compile with the feature `bad`: an iterator's elements taken to live longer than the borrow.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut v = vector();
    let all: Vec<&Box<u64>> = v.iter().collect();
    good! { use_it(&all); }
    v.slice_from_start(1);
    bad! { use_it(&all); }
}
