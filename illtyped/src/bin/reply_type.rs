//! An ask is answered with a value of the wrong type.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: Ask<u8, String>, m: u8, x: String) {
    let _ = a.reply(x);
}

#[cfg(feature = "bad")]
pub fn witness(a: Ask<u8, String>, m: u8, x: String) {
    let _ = a.reply(m); //~ BAD
}
