//! An indication is sent as a request.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(s: &KompactSystem, p: &ProvidedRef<PA>, i: u32, r: String) {
    s.trigger_r(r, p);
}

#[cfg(feature = "bad")]
pub fn witness(s: &KompactSystem, p: &ProvidedRef<PA>, i: u32, r: String) {
    s.trigger_r(i, p); //~ BAD
}
