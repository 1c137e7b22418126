//! A value that cannot be serialised is sent to a path.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(c: &Prov, p: &ActorPath, m: u64, x: Rc<u8>) {
    p.tell(m, c);
}

#[cfg(feature = "bad")]
pub fn witness(c: &Prov, p: &ActorPath, m: u64, x: Rc<u8>) {
    p.tell(x, c); //~ BAD
}
