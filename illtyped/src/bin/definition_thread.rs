//! The state of a component is handed to another thread.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(d: &mut Prov) {
    let v = d.state;
    std::thread::spawn(move || v);
}

#[cfg(feature = "bad")]
pub fn witness(d: &mut Prov) {
    std::thread::spawn(move || d.state = 1); //~ BAD
}
