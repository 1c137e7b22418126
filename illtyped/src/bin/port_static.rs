//! An event that borrows.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
mod witness {
    use super::*;
    pub struct P;
    impl Port for P {
        type Indication = &'static str;
        type Request = u8;
    }
}

#[cfg(feature = "bad")]
mod witness {
    use super::*;
    pub struct P<'a>(&'a str);
    impl<'a> Port for P<'a> {
        type Indication = &'a str; //~ BAD
        type Request = u8;
    }
}
