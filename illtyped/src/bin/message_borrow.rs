//! A message borrows what may be gone when it arrives.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: &ActorRef<&'static str>, m: &'static str, x: &str) {
    a.tell(m);
}

#[cfg(feature = "bad")]
pub fn witness(a: &ActorRef<&'static str>, m: &'static str, x: &str) {
    a.tell(x); //~ BAD
}
