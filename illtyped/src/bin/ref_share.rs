//! A component is created as one of another type.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(c: &KompactSystem, f: fn() -> Prov, n: fn() -> Need) {
    let x: Arc<Component<Prov>> = c.create(f);
}

#[cfg(feature = "bad")]
pub fn witness(c: &KompactSystem, f: fn() -> Prov, n: fn() -> Need) {
    let x: Arc<Component<Prov>> = c.create(n); //~ BAD
}
