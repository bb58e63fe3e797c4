#![allow(unused)]
//! Must not compile with the feature `bad`, or be harmless: the inside of a mutable focus, got
//! through its public fields, used after the vector is gone.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut v = vector();
    let mut escaped = None;
    {
        let mut f = v.focus_mut();
        bad! { if let librrb::FocusMut::Rooted { focus, .. } = &f { escaped = Some(focus.clone()); } }
        good! { escaped = Some(vec![f.get(3).unwrap().clone(); 4]); }
    }
    drop(v);
    bad! { use_it(&escaped.as_mut().unwrap().get(3)); }
    good! { use_it(&escaped.as_mut().unwrap().get(3)); }
}
