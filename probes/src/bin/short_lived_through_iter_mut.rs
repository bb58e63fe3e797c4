#![allow(unused)]
//! Must not compile with the feature `bad`: a shorter-lived element written through iter_mut.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let one = String::from("one");
    let mut v: librrb::Vector<&str> = (0..100).map(|_| "static").collect();
    {
        let two = String::from("two");
        fn write<'a, 's>(it: &mut librrb::RegularIterMut<'a, &'s str>, s: &'s str) { *it.next().unwrap() = s; }
    bad! { write(&mut v.iter_mut(), &two); }
    good! { drop(two); }
    good! { write(&mut v.iter_mut(), &one); }
    }
    bad! { drop(one); }
    use_it(&v.get(0));
}
