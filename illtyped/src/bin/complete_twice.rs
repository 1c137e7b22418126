//! An ask is completed and answered.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: Ask<u8, String>, x: String, y: String) {
    let _ = a.complete(|_| x);
}

#[cfg(feature = "bad")]
pub fn witness(a: Ask<u8, String>, x: String, y: String) {
    let _ = a.complete(|_| x);
    let _ = a.reply(y); //~ BAD
}
