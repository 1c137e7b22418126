//! An answer is taken twice.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(f: KFuture<String>) {
    let _ = f.wait();
}

#[cfg(feature = "bad")]
pub fn witness(f: KFuture<String>) {
    let _ = f.wait();
    let _ = f.wait(); //~ BAD
}
