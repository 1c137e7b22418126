//! A provided port is connected to a provided port.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: &mut Prov, x: RequiredRef<PA>, y: ProvidedRef<PA>) {
    a.pa.connect(x);
}

#[cfg(feature = "bad")]
pub fn witness(a: &mut Prov, x: RequiredRef<PA>, y: ProvidedRef<PA>) {
    a.pa.connect(y); //~ BAD
}
