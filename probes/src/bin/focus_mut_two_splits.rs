#![allow(unused)]
//! Must not compile with the feature `bad`: the same elements through two splits of a focus.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut v = vector();
    let mut f = v.focus_mut();
    {
        let (mut a, _) = f.split_at(40);
    good! { **a.get(3).unwrap() = 1; drop(a); }
        let (mut b, _) = f.split_at(60);
    bad! { let x = a.get(3).unwrap(); }
        let y = b.get(3).unwrap();
        *y = Box::new(2);
    bad! { use_it(x); }
    }
}
