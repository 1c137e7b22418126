//! A channel is taken down twice.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(c: TwoWayChannel<PA, Prov, Need>) {
    let _ = c.disconnect();
}

#[cfg(feature = "bad")]
pub fn witness(c: TwoWayChannel<PA, Prov, Need>) {
    let _ = c.disconnect();
    let _ = c.disconnect(); //~ BAD
}
