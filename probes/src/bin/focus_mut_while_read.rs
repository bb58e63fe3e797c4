#![allow(unused)]
//! Must not compile with the feature `bad`: an element read from the vector while a mutable focus may write it.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut v = vector();
    let mut f = v.focus_mut();
    **f.get(3).unwrap() = 1;
    good! { drop(f); }
    let x = v.get(3).unwrap();
    bad! { *f.get(3).unwrap() = Box::new(6); }
    use_it(x);
}
