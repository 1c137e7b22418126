//! An indication is sent to a provided port.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(s: &KompactSystem, p: &RequiredRef<PA>, q: &ProvidedRef<PA>, i: u32) {
    s.trigger_i(i, p);
}

#[cfg(feature = "bad")]
pub fn witness(s: &KompactSystem, p: &RequiredRef<PA>, q: &ProvidedRef<PA>, i: u32) {
    s.trigger_i(i, q); //~ BAD
}
