//! A number that may not fit is sent to a reference.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: &ActorRef<u8>, m: u8, x: u16) {
    a.tell(m);
}

#[cfg(feature = "bad")]
pub fn witness(a: &ActorRef<u8>, m: u8, x: u16) {
    a.tell(x); //~ BAD
}
