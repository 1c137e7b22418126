//! A periodic timeout handler keeps state that may not be moved to another thread.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(c: &mut Prov, d: std::time::Duration, a: Arc<u8>, r: Rc<u8>) {
    c.schedule_periodic(d, d, move |_, _| {
        let x = &a;
        Handled::OK
    });
}

#[cfg(feature = "bad")]
pub fn witness(c: &mut Prov, d: std::time::Duration, a: Arc<u8>, r: Rc<u8>) {
    c.schedule_periodic(d, d, move |_, _| { //~ BAD
        let x = &r; //~ BAD
        Handled::OK
    });
}
