//! A promise is fulfilled with a value of the wrong type.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(p: KPromise<String>, x: String, m: u8) {
    let _ = p.fulfil(x);
}

#[cfg(feature = "bad")]
pub fn witness(p: KPromise<String>, x: String, m: u8) {
    let _ = p.fulfil(m); //~ BAD
}
