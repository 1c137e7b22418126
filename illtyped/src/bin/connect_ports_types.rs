//! Ports of different types are connected.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: &mut Prov, n: &mut Need) {
    biconnect_ports(&mut a.pa, &mut n.pa);
}

#[cfg(feature = "bad")]
pub fn witness(a: &mut Prov, n: &mut Need) {
    biconnect_ports(&mut a.pb, &mut n.pa); //~ BAD
}
