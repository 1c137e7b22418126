//! An event that is not Send.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
mod witness {
    use super::*;
    pub struct P;
    impl Port for P {
        type Indication = Arc<u8>;
        type Request = u8;
    }
}

#[cfg(feature = "bad")]
mod witness {
    use super::*;
    pub struct P;
    impl Port for P {
        type Indication = Rc<u8>; //~ BAD
        type Request = u8;
    }
}
