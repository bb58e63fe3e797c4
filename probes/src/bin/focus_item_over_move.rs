#![allow(unused)]
//! Must not compile with the feature `bad`: an element read through a focus used after the focus moved on and the vector changed.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut v = vector();
    let mut f = v.focus();
    let x = f.get(3).unwrap();
    good! { use_it(x); }
    f = v.focus();
    use_it(&f.get(50));
    *v.get_mut(3).unwrap() = Box::new(4);
    bad! { use_it(x); }
}
