#![allow(unused)]
//! Must not compile with the feature `bad`: a shorter-lived element written through a mutable focus.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let one = String::from("one");
    let mut v: librrb::Vector<&str> = (0..100).map(|_| "static").collect();
    {
        let two = String::from("two");
        let mut f = v.focus_mut();
        fn write<'s>(f: &mut librrb::RegularFocusMut<'_, &'s str>, s: &'s str) { *f.get(3).unwrap() = s; }
    bad! { write(&mut f, &two); }
    good! { drop((two, f)); }
    good! { write(&mut v.focus_mut(), &one); }
    }
    bad! { drop(one); }
    use_it(&v.get(3));
}
