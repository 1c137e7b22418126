//! A promise is fulfilled twice.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(p: KPromise<String>, x: String, y: String) {
    let _ = p.fulfil(x);
}

#[cfg(feature = "bad")]
pub fn witness(p: KPromise<String>, x: String, y: String) {
    let _ = p.fulfil(x);
    let _ = p.fulfil(y); //~ BAD
}
