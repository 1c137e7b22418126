//! The state of a component is accessed as that of another.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(c: &Arc<Component<Prov>>) {
    c.on_definition(|d: &mut Prov| d.state = 1);
}

#[cfg(feature = "bad")]
pub fn witness(c: &Arc<Component<Prov>>) {
    c.on_definition(|d: &mut Need| {}); //~ BAD
}
