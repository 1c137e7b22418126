//! A message is read as a type its deserialiser does not produce.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(m: NetMessage) {
    let r = m.try_deserialise::<u64, u64>();
}

#[cfg(feature = "bad")]
pub fn witness(m: NetMessage) {
    let r = m.try_deserialise::<String, u64>(); //~ BAD
}
