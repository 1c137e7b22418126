//! A local future keeps state that may not be moved to another thread.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(c: &mut Prov, a: Arc<u8>, r: Rc<u8>) {
    c.spawn_local(|_| async move {
        let x = a;
        Handled::OK
    });
}

#[cfg(feature = "bad")]
pub fn witness(c: &mut Prov, a: Arc<u8>, r: Rc<u8>) {
    c.spawn_local(|_| async move { //~ BAD
        let x = r; //~ BAD
        Handled::OK
    });
}
