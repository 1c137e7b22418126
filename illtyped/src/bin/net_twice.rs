//! The content of a network message is taken twice.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(m: NetMessage) {
    let _ = m.try_deserialise::<u64, u64>();
}

#[cfg(feature = "bad")]
pub fn witness(m: NetMessage) {
    let _ = m.try_deserialise::<u64, u64>();
    let _ = m.try_deserialise::<u64, u64>(); //~ BAD
}
