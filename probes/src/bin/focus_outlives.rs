#![allow(unused)]
//! Must not compile with the feature `bad`: a focus used after its vector is gone.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut kept = None;
    {
        let v = vector();
        let mut f = v.focus();
        use_it(&f.get(3));
    bad! { kept = Some(f); }
    good! { kept = Some(vec![Box::new(1u64); 9]); }
    }
    good! { use_it(&kept.as_ref().unwrap().get(7)); }
    bad! { use_it(&kept.as_mut().unwrap().get(97)); }
}
