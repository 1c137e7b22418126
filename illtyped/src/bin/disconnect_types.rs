//! A connection of another port type is taken down.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: &mut Prov, x: RequiredRef<PA>, y: RequiredRef<PB>) {
    a.pa.disconnect_port(x);
}

#[cfg(feature = "bad")]
pub fn witness(a: &mut Prov, x: RequiredRef<PA>, y: RequiredRef<PB>) {
    a.pa.disconnect_port(y); //~ BAD
}
