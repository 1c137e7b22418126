//! A message is asked whose promise is of another type.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: &ActorRef<Ask<u8, String>>, b: &ActorRef<u8>, m: u8) {
    let f: KFuture<String> = a.ask_with(|p| Ask::new(p, m));
}

#[cfg(feature = "bad")]
pub fn witness(a: &ActorRef<Ask<u8, String>>, b: &ActorRef<u8>, m: u8) {
    let f: KFuture<u8> = a.ask_with(|p: KPromise<u8>| Ask::new(p, m)); //~ BAD
}
