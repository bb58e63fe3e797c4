#![allow(unused)]
//! Must not compile with the feature `bad`: half of a split focus used after the vector is gone.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut kept = None;
    {
        let v = vector();
        let (mut a, b) = v.focus().split_at(40);
        use_it(&a.get(3));
    good! { drop(b); }
    bad! { kept = Some(b); }
    good! { kept = Some(vec![Box::new(1u64); 9]); }
    }
    good! { use_it(&kept.as_ref().unwrap().get(7)); }
    bad! { use_it(&kept.as_mut().unwrap().get(7)); }
}
