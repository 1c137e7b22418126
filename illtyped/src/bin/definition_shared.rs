//! The state of a shared component is changed without its lock.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(c: &Arc<Component<Prov>>, mut d: Component<Prov>) {
    d.definition_mut().state = 1;
}

#[cfg(feature = "bad")]
pub fn witness(c: &Arc<Component<Prov>>, mut d: Component<Prov>) {
    c.definition_mut().state = 1; //~ BAD
}
