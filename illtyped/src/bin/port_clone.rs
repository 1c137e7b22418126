//! An event that cannot be copied to every connection.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
mod witness {
    use super::*;
    #[derive(Debug, Clone)]
    pub struct Ev;
    pub struct P;
    impl Port for P {
        type Indication = Ev;
        type Request = u8;
    }
}

#[cfg(feature = "bad")]
mod witness {
    use super::*;
    #[derive(Debug)]
    pub struct Ev;
    pub struct P;
    impl Port for P {
        type Indication = Ev; //~ BAD
        type Request = u8;
    }
}
