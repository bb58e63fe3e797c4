#![allow(dead_code, unused_macros)]
/// What is only there in the form that must not compile.
#[cfg(feature = "bad")]
macro_rules! bad { ($($t:tt)*) => { $($t)* } }
#[cfg(not(feature = "bad"))]
macro_rules! bad { ($($t:tt)*) => {} }
/// What is only there in the form that must compile.
#[cfg(not(feature = "bad"))]
macro_rules! good { ($($t:tt)*) => { $($t)* } }
#[cfg(feature = "bad")]
macro_rules! good { ($($t:tt)*) => {} }

pub static FOUR: u64 = 4;

pub fn vector() -> librrb::Vector<Box<u64>> {
    (0..100u64).map(Box::new).collect()
}

/// Reads what it is given.
pub fn use_it<T: std::fmt::Debug + ?Sized>(x: &T) {
    assert!(format!("{:?}", x).len() < 1 << 20);
}
