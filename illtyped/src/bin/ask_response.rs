//! An answer of the wrong type is expected.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: &ActorRef<Ask<u8, String>>, m: u8) {
    let f: KFuture<String> = a.ask(m);
}

#[cfg(feature = "bad")]
pub fn witness(a: &ActorRef<Ask<u8, String>>, m: u8) {
    let f: KFuture<u8> = a.ask(m); //~ BAD
}
