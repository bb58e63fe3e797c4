#![allow(unused)]
//! Must not compile with the feature `bad`: an iter_mut of static elements taken for one of shorter-lived elements.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    static S: &str = "static";
    let mut v: librrb::Vector<&'static str> = (0..100).map(|_| S).collect();
    {
        let two = String::from("two");
    bad! { fn shrink<'a, 's>(f: librrb::RegularIterMut<'a, &'static str>, _: &'s str) -> librrb::RegularIterMut<'a, &'s str> { f } }
    good! { fn shrink<'a, 's>(f: librrb::RegularIterMut<'a, &'static str>, _: &'s str) -> librrb::RegularIterMut<'a, &'static str> { f } }
        let mut f = shrink(v.iter_mut(), &two);
    bad! { *f.next().unwrap() = &two; }
    good! { *f.next().unwrap() = "three"; }
    }
    use_it(&v.get(0));
}
