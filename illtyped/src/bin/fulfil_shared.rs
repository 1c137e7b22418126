//! A promise is fulfilled through a shared reference.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(p: &KPromise<String>, q: KPromise<String>, x: String) {
    let _ = q.fulfil(x);
}

#[cfg(feature = "bad")]
pub fn witness(p: &KPromise<String>, q: KPromise<String>, x: String) {
    let _ = p.fulfil(x); //~ BAD
}
