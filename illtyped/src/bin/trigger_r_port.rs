//! A request is sent to a required port.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(s: &KompactSystem, p: &ProvidedRef<PA>, q: &RequiredRef<PA>, r: String) {
    s.trigger_r(r, p);
}

#[cfg(feature = "bad")]
pub fn witness(s: &KompactSystem, p: &ProvidedRef<PA>, q: &RequiredRef<PA>, r: String) {
    s.trigger_r(r, q); //~ BAD
}
