//! A request names a sender that does not take the answer.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(m: u8, a: ActorRef<String>, b: ActorRef<u8>) {
    let r: WithSender<u8, String> = WithSender::new(m, a);
}

#[cfg(feature = "bad")]
pub fn witness(m: u8, a: ActorRef<String>, b: ActorRef<u8>) {
    let r: WithSender<u8, String> = WithSender::new(m, b); //~ BAD
}
