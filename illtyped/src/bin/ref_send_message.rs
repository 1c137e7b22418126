//! A reference for messages that are not Send.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness() {
    fn f(_: ActorRef<Arc<u8>>) {}
}

#[cfg(feature = "bad")]
pub fn witness() {
    fn f(_: ActorRef<Rc<u8>>) {} //~ BAD
}
