//! A future that is not Send is handed to another thread.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(s: &KompactSystem, x: Rc<u8>, y: u8) {
    let _ = s.spawn(async move { y });
}

#[cfg(feature = "bad")]
pub fn witness(s: &KompactSystem, x: Rc<u8>, y: u8) {
    let _ = s.spawn(async move { *x }); //~ BAD
}
