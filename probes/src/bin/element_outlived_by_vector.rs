#![allow(unused)]
//! Must not compile with the feature `bad`: elements that refer to something dropped before the vector.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    struct Loud<'a>(&'a String);
    impl<'a> Clone for Loud<'a> { fn clone(&self) -> Self { Loud(self.0) } }
    impl<'a> std::fmt::Debug for Loud<'a> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }
    impl<'a> Drop for Loud<'a> { fn drop(&mut self) { use_it(self.0); } }
    good! { let s = String::from("short"); }
    let mut v: librrb::Vector<Loud> = librrb::Vector::new();
    bad! { let s = String::from("short"); }
    for _ in 0..70 { v.push_back(Loud(&s)); }
}
