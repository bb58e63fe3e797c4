#![allow(unused)]
//! Must not compile with the feature `bad`: mutable references to the front of a singleton through both ends.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut v = vector();
    v.slice_from_start(1);
    let x = v.front_mut().unwrap();
    good! { **x = 1; }
    let y = v.back_mut().unwrap();
    bad! { **x = 1; }
    *y = Box::new(2);
    bad! { use_it(x); }
    use_it(&v);
}
