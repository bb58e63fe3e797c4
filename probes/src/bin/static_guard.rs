#![allow(unused)]
//! Must not compile with the feature `bad`: a guard of static elements taken for one of shorter-lived elements.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    static S: &str = "static";
    let mut v: librrb::Vector<&'static str> = (0..100).map(|_| S).collect();
    {
        let two = String::from("two");
        let mut g = v.get_mut_guarded(3).unwrap();
    bad! { fn put<'g, 's>(g: &mut (impl std::ops::DerefMut<Target = &'s str> + 'g), s: &'s str) { **g = s; } }
    good! { fn put<'g, 's>(g: &mut (impl std::ops::DerefMut<Target = &'s str> + 'g), s: &'s str) { **g = s; } }
    bad! { put(&mut g, &two); }
    good! { put(&mut g, "three"); }
    good! { drop((g, two)); }
    }
    use_it(&v.get(3));
}
