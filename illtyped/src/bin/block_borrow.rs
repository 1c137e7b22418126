//! A blocking future borrows what may be gone when it runs.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(c: &mut Prov, a: Arc<u8>, r: &u8) {
    let _ = Handled::block_on(c, move |_| async move {
        let x = a;
        Handled::OK
    });
}

#[cfg(feature = "bad")]
pub fn witness(c: &mut Prov, a: Arc<u8>, r: &u8) {
    let _ = Handled::block_on(c, move |_| async move { //~ BAD
        let x = r; //~ BAD
        Handled::OK
    });
}
