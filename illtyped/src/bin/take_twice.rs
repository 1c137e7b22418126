//! The promise is taken out of an ask that is then answered.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: Ask<u8, String>, y: String) {
    let (p, c) = a.take();
    let _ = p.fulfil(y);
}

#[cfg(feature = "bad")]
pub fn witness(a: Ask<u8, String>, y: String) {
    let (p, c) = a.take();
    let _ = a.reply(y); //~ BAD
}
