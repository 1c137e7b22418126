//! A request is sent as an indication.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(s: &KompactSystem, p: &RequiredRef<PA>, i: u32, r: String) {
    s.trigger_i(i, p);
}

#[cfg(feature = "bad")]
pub fn witness(s: &KompactSystem, p: &RequiredRef<PA>, i: u32, r: String) {
    s.trigger_i(r, p); //~ BAD
}
