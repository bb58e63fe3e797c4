#![allow(unused)]
//! Must not compile with the feature `bad`: two mutable references to one element through index of a focus.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut v = vector();
    let mut f = v.focus_mut();
    let x = f.index(3);
    good! { **x = 1; }
    let y = f.index(3);
    bad! { **x = 1; }
    *y = Box::new(2);
    bad! { use_it(x); }
}
