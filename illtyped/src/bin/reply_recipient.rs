//! A request is answered with a value of the wrong type.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: &WithRecipient<u8, String>, m: u8, x: String) {
    a.reply(x);
}

#[cfg(feature = "bad")]
pub fn witness(a: &WithRecipient<u8, String>, m: u8, x: String) {
    a.reply(m); //~ BAD
}
