#![allow(unused)]
//! Must not compile with the feature `bad`: a reference from a guard used after another guard wrote.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut v = vector();
    {
        let g = v.get_mut_guarded(3).unwrap();
        let x: &Box<u64> = &g;
    good! { use_it(x); }
    bad! { drop(g); }
    good! { drop(g); }
        *v.get_mut(3).unwrap() = Box::new(9);
    bad! { use_it(x); }
    }
    use_it(&v);
}
