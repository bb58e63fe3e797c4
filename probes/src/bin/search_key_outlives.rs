#![allow(unused)]
//! Must not compile with the feature `bad`: a key reference kept over a write.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut v = vector();
    let x = v.front().unwrap();
    let y = v.back().unwrap();
    good! { use_it(&(x, y)); }
    v.pop_front();
    v.pop_back();
    bad! { use_it(&(x, y)); }
}
