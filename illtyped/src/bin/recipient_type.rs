//! A recipient is made for messages that cannot be converted.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: &ActorRef<u32>) {
    let r: Recipient<u8> = a.recipient();
}

#[cfg(feature = "bad")]
pub fn witness(a: &ActorRef<u32>) {
    let r: Recipient<String> = a.recipient(); //~ BAD
}
