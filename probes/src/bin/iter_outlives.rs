#![allow(unused)]
//! Must not compile with the feature `bad`: an iterator used after its vector is gone.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut it = None;
    {
        let v = vector();
        let mut x = v.iter();
    good! { assert_eq!(x.next().map(|x| **x), Some(0)); }
    bad! { x.next(); }
    bad! { it = Some(x); }
    good! { it = Some([Box::new(1)].into_iter()); }
    }
    good! { drop(it); }
    bad! { use_it(&it.as_mut().unwrap().next().map(|x| x.clone())); }
}
