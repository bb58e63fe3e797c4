#![allow(unused)]
//! Must not compile with the feature `bad`: an element read through an iterator used after its vector is gone.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut kept = None;
    {
        let v = vector();
        let x = v.iter().nth(3).unwrap();
        assert_eq!(**x, 3);
    bad! { kept = Some(x); }
    good! { kept = Some(&FOUR); }
    }
    use_it(&kept);
}
