//! A promise of a value that is not Send.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness() {
    let (p, f) = promise::<u8>();
}

#[cfg(feature = "bad")]
pub fn witness() {
    let (p, f) = promise::<Rc<u8>>(); //~ BAD
}
