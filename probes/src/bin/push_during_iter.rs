#![allow(unused)]
//! Must not compile with the feature `bad`: an iterator used after a push.
#[macro_use]
#[path = "../common.rs"]
mod common;
use common::*;

fn main() {
    let mut v = vector();
    let mut it = v.iter();
    use_it(&it.next());
    good! { drop(it); }
    v.pop_front();
    v.pop_back();
    bad! { use_it(&it.next()); }
    bad! { use_it(&it.next_back()); }
}
