//! A component without a context.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
mod witness {
    use super::*;
    #[derive(ComponentDefinition)]
    pub struct C {
        ctx: ComponentContext<Self>,
        state: u8,
    }
    ignore_lifecycle!(C);
    impl Actor for C {
        type Message = u8;
        fn receive_local(&mut self, _msg: u8) -> HandlerResult {
            Handled::OK
        }
        fn receive_network(&mut self, _msg: NetMessage) -> HandlerResult {
            Handled::OK
        }
    }

}

#[cfg(feature = "bad")]
mod witness {
    use super::*;
    #[derive(ComponentDefinition)] //~ BAD
    pub struct C {
        state: u8,
    }
    ignore_lifecycle!(C);
    impl Actor for C {
        type Message = u8;
        fn receive_local(&mut self, _msg: u8) -> HandlerResult {
            Handled::OK
        }
        fn receive_network(&mut self, _msg: NetMessage) -> HandlerResult {
            Handled::OK
        }
    }

}
