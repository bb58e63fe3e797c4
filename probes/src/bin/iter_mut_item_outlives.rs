#![allow(unused)]
//! Must not compile with the feature `bad`: an element got from iter_mut used after its vector is gone.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut kept = None;
    {
        let mut v = vector();
        let x = v.iter_mut().nth(3).unwrap();
        **x = 5;
    bad! { kept = Some(x); }
    good! { kept = Some(&FOUR); }
    }
    use_it(&kept);
}
