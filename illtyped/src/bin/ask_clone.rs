//! An ask is copied.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: Ask<u8, String>, p: std::marker::PhantomData<u8>) {
    let _ = p.clone();
    drop(a);
}

#[cfg(feature = "bad")]
pub fn witness(a: Ask<u8, String>, p: std::marker::PhantomData<u8>) {
    let b: Ask<u8, String> = a.clone(); //~ BAD
}
