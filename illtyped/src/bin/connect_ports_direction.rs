//! Two provided ports are connected.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: &mut Prov, n: &mut Prov, r: &mut Need) {
    biconnect_ports(&mut a.pa, &mut r.pa);
}

#[cfg(feature = "bad")]
pub fn witness(a: &mut Prov, n: &mut Prov, r: &mut Need) {
    biconnect_ports(&mut a.pa, &mut n.pa); //~ BAD
}
