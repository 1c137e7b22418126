//! A reference of another message type is taken of a component.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: &Arc<Component<Prov>>) {
    let r: ActorRef<u8> = a.actor_ref();
}

#[cfg(feature = "bad")]
pub fn witness(a: &Arc<Component<Prov>>) {
    let r: ActorRef<u16> = a.actor_ref(); //~ BAD
}
