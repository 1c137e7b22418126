//! A request is triggered on a provided port.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: &mut Prov, i: u32, r: String) {
    a.pa.trigger(i);
}

#[cfg(feature = "bad")]
pub fn witness(a: &mut Prov, i: u32, r: String) {
    a.pa.trigger(r); //~ BAD
}
