//! A promise is copied.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(p: KPromise<String>, x: std::marker::PhantomData<u8>) {
    let _ = x.clone();
    drop(p);
}

#[cfg(feature = "bad")]
pub fn witness(p: KPromise<String>, x: std::marker::PhantomData<u8>) {
    let q: KPromise<String> = p.clone(); //~ BAD
}
