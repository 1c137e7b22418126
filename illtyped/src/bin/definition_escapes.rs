//! The state of a component escapes its lock.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(c: &Arc<Component<Prov>>) {
    let r: u64 = c.on_definition(|d| d.state);
}

#[cfg(feature = "bad")]
pub fn witness(c: &Arc<Component<Prov>>) {
    let r: &mut u64 = c.on_definition(|d| &mut d.state); //~ BAD
}
