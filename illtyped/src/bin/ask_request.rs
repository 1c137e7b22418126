//! A request of the wrong type is asked.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: &ActorRef<Ask<u8, String>>, m: u8, x: String) {
    let f: KFuture<String> = a.ask(m);
}

#[cfg(feature = "bad")]
pub fn witness(a: &ActorRef<Ask<u8, String>>, m: u8, x: String) {
    let f = a.ask(x); //~ BAD
}
