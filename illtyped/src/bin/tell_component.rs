//! A message of the wrong type is sent to the reference of a component.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: &Arc<Component<Prov>>, m: u8, x: String) {
    a.actor_ref().tell(m);
}

#[cfg(feature = "bad")]
pub fn witness(a: &Arc<Component<Prov>>, m: u8, x: String) {
    a.actor_ref().tell(x); //~ BAD
}
