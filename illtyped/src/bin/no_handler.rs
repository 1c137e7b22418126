//! A port without a handler.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
mod witness {
    use super::*;
    #[derive(ComponentDefinition)]
    pub struct C {
        ctx: ComponentContext<Self>,
        pa: ProvidedPort<PA>,
    }
    ignore_lifecycle!(C);
    impl Actor for C {
        type Message = u8;
        fn receive_local(&mut self, _msg: u8) -> HandlerResult {
            Handled::OK
        }
        fn receive_network(&mut self, _msg: NetMessage) -> HandlerResult {
            Handled::OK
        }
    }
    impl Provide<PA> for C {
        fn handle(&mut self, _event: String) -> HandlerResult {
            Handled::OK
        }
    }

}

#[cfg(feature = "bad")]
mod witness {
    use super::*;
    #[derive(ComponentDefinition)] //~ BAD
    pub struct C {
        ctx: ComponentContext<Self>,
        pa: ProvidedPort<PA>, //~ BAD
    }
    ignore_lifecycle!(C);
    impl Actor for C {
        type Message = u8;
        fn receive_local(&mut self, _msg: u8) -> HandlerResult {
            Handled::OK
        }
        fn receive_network(&mut self, _msg: NetMessage) -> HandlerResult {
            Handled::OK
        }
    }

}
