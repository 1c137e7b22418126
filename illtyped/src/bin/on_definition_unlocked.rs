//! The state of a component is accessed without its lock.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(c: &Arc<Component<Prov>>) {
    c.on_definition(|d| d.state = 1);
}

#[cfg(feature = "bad")]
pub fn witness(c: &Arc<Component<Prov>>) {
    c.state = 1; //~ BAD
}
