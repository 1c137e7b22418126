//! An indication is triggered on a required port.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(n: &mut Need, i: u32, r: String) {
    n.pa.trigger(r);
}

#[cfg(feature = "bad")]
pub fn witness(n: &mut Need, i: u32, r: String) {
    n.pa.trigger(i); //~ BAD
}
