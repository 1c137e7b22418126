//! A timeout handler of another component is scheduled.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(c: &mut Prov, d: std::time::Duration) {
    c.schedule_once(d, |me: &mut Prov, _| Handled::OK);
}

#[cfg(feature = "bad")]
pub fn witness(c: &mut Prov, d: std::time::Duration) {
    c.schedule_once(d, |me: &mut Need, _| Handled::OK); //~ BAD
}
