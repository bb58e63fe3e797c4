#![allow(unused)]
//! Must not compile with the feature `bad`: a shared reference kept over a write.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut v = vector();
    let x = v.get(3).unwrap();
    good! { use_it(x); }
    *v.get_mut(3).unwrap() = Box::new(7);
    bad! { use_it(x); }
}
