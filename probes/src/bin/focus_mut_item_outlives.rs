#![allow(unused)]
//! Must not compile with the feature `bad`: an element got from a mutable focus used after the vector is gone.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut kept = None;
    {
        let mut v = vector();
        let mut f = v.focus_mut();
        let x = f.get(3).unwrap();
        **x = 4;
    bad! { kept = Some(x); }
    good! { kept = Some(&FOUR); }
    }
    use_it(&kept);
}
