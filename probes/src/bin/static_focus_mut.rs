#![allow(unused)]
//! Must not compile with the feature `bad`: a mutable focus of static elements taken for one of shorter-lived elements.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    static S: &str = "static";
    let mut v: librrb::Vector<&'static str> = (0..100).map(|_| S).collect();
    {
        let two = String::from("two");
        let f = v.focus_mut();
    bad! { fn shrink<'a, 's>(f: librrb::RegularFocusMut<'a, &'static str>, _: &'s str) -> librrb::RegularFocusMut<'a, &'s str> { f } }
    good! { fn shrink<'a, 's>(f: librrb::RegularFocusMut<'a, &'static str>, _: &'s str) -> librrb::RegularFocusMut<'a, &'static str> { f } }
        let mut f = shrink(f, &two);
    bad! { *f.get(3).unwrap() = &two; }
    good! { *f.get(3).unwrap() = "three"; }
    }
    use_it(&v.get(3));
}
