//! An ask is answered through a shared reference.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: &Ask<u8, String>, b: Ask<u8, String>, x: String) {
    let _ = b.reply(x);
}

#[cfg(feature = "bad")]
pub fn witness(a: &Ask<u8, String>, b: Ask<u8, String>, x: String) {
    let _ = a.reply(x); //~ BAD
}
