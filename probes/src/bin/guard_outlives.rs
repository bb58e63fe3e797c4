#![allow(unused)]
//! Must not compile with the feature `bad`: a guard used after its vector is gone.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut kept = None;
    {
        let mut v = vector();
        let mut g = v.get_mut_guarded(3).unwrap();
        **g = 4;
    bad! { kept = Some(g); }
    good! { kept = Some(Box::new(FOUR.clone())); }
    }
    use_it(&**kept.as_ref().unwrap());
}
