#![allow(unused)]
//! Must not compile with the feature `bad`: an element read while a guard may write it.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut v = vector();
    {
        let mut g = v.get_mut_guarded(3).unwrap();
    good! { *g = Box::new(9); }
    bad! { let x = v.get(3).unwrap(); }
    bad! { *g = Box::new(9); }
    bad! { use_it(x); }
    }
    use_it(&v);
}
