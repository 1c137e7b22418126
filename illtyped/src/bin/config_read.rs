//! A setting is read as another type.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(c: &kompact::prelude::KompactSystem) {
    let n: usize = c.config()[kompact::config_keys::system::THREADS.key].as_i64().unwrap() as usize;
    let m: usize = kompact::config_keys::system::THREADS.read(c.config()).unwrap();
}

#[cfg(feature = "bad")]
pub fn witness(c: &kompact::prelude::KompactSystem) {
    let m: String = kompact::config_keys::system::THREADS.read(c.config()).unwrap(); //~ BAD
}
