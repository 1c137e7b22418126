//! A required port is connected to the reference of another port.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(n: &mut Need, x: ProvidedRef<PA>, y: ProvidedRef<PB>) {
    n.pa.connect(x);
}

#[cfg(feature = "bad")]
pub fn witness(n: &mut Need, x: ProvidedRef<PA>, y: ProvidedRef<PB>) {
    n.pa.connect(y); //~ BAD
}
