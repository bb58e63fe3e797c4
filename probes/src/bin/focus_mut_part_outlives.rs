#![allow(unused)]
//! Must not compile with the feature `bad`: a part of a mutable focus used after the whole is gone.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut kept = None;
    {
        let mut v = vector();
        let mut f = v.focus_mut();
        let (mut a, _) = f.split_at(40);
        **a.get(3).unwrap() = 4;
    bad! { kept = Some(a); }
    good! { kept = Some(vec![Box::new(1u64); 9]); }
    }
    bad! { use_it(&kept.as_mut().unwrap().get(3)); }
    good! { use_it(&kept.as_mut().unwrap().get(3)); }
}
