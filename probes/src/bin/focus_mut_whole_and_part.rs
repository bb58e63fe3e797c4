#![allow(unused)]
//! Must not compile with the feature `bad`: an element through a focus and through a part of it.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut v = vector();
    let mut f = v.focus_mut();
    {
        let (mut a, _b) = f.split_at(40);
        let x = a.get(3).unwrap();
    good! { **x = 1; }
    bad! { let y = f.get(3).unwrap(); }
    good! { let y = a.get(3).unwrap(); }
    bad! { **x = 1; }
        *y = Box::new(2);
    bad! { use_it(x); }
    }
}
