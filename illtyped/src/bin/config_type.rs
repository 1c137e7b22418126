//! A setting is given a value of another type.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(c: &mut KompactConfig, n: usize, x: String) {
    c.set_config_value(&kompact::config_keys::system::THREADS, n);
}

#[cfg(feature = "bad")]
pub fn witness(c: &mut KompactConfig, n: usize, x: String) {
    c.set_config_value(&kompact::config_keys::system::THREADS, x); //~ BAD
}
