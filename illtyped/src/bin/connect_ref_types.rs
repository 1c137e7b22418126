//! A provided port is connected to the reference of another port.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: &mut Prov, x: RequiredRef<PA>, y: RequiredRef<PB>) {
    a.pa.connect(x);
    a.pb.connect(y);
}

#[cfg(feature = "bad")]
pub fn witness(a: &mut Prov, x: RequiredRef<PA>, y: RequiredRef<PB>) {
    a.pa.connect(y); //~ BAD
}
