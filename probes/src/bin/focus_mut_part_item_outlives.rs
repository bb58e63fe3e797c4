#![allow(unused)]
//! Must not compile with the feature `bad`: an element got from a part kept while the whole is used again.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut v = vector();
    let mut f = v.focus_mut();
    let x = {
        let (mut a, _) = f.split_at(40);
    bad! { let x = a.get(3).unwrap(); }
    good! { let mut b = a.get(3).unwrap().clone(); }
    good! { let x = &mut b; }
        **x = 3;
    bad! { x }
    good! { **x }
    };
    let y = f.get(3).unwrap();
    *y = Box::new(2);
    use_it(&x);
}
