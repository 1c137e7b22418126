//! A message of the wrong type is sent to a strong reference.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: &ActorRef<u8>, m: u8, x: String) {
    a.hold().unwrap().tell(m);
}

#[cfg(feature = "bad")]
pub fn witness(a: &ActorRef<u8>, m: u8, x: String) {
    a.hold().unwrap().tell(x); //~ BAD
}
