//! A component escapes its lock.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(c: &Arc<Component<Prov>>) {
    let mut o: Option<u64> = None;
    c.on_definition(|d| o = Some(d.state));
}

#[cfg(feature = "bad")]
pub fn witness(c: &Arc<Component<Prov>>) {
    let mut o: Option<&mut Prov> = None;
    c.on_definition(|d| o = Some(d)); //~ BAD
}
