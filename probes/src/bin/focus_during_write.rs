#![allow(unused)]
//! Must not compile with the feature `bad`: a focus used after a write to the vector.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut v = vector();
    let mut f = v.focus();
    use_it(&f.get(3));
    good! { drop(f); }
    v.slice_to_end(70);
    bad! { use_it(&f.get(3)); }
}
