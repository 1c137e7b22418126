//! A future keeps a reference to the state beyond its access.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(c: &mut Prov) {
    let _ = Handled::block_on(c, |mut me| async move {
        me.state = 1;
        std::future::ready(()).await;
        me.state = 2;
        Handled::OK
    });
}

#[cfg(feature = "bad")]
pub fn witness(c: &mut Prov) {
    let _ = Handled::block_on(c, |mut me| async move { //~ BAD
        let s: &'static mut u64 = &mut me.state; //~ BAD
        std::future::ready(()).await;
        *s = 2;
        Handled::OK
    });
}
