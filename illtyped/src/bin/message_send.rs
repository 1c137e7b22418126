//! A message that is not Send.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
mod witness {
    use super::*;
    #[derive(ComponentDefinition)]
    pub struct C {
        ctx: ComponentContext<Self>,
    }
    ignore_lifecycle!(C);
    impl Actor for C {
        type Message = Arc<u8>;
        fn receive_local(&mut self, _msg: Arc<u8>) -> HandlerResult {
            Handled::OK
        }
        fn receive_network(&mut self, _msg: NetMessage) -> HandlerResult {
            Handled::OK
        }
    }

}

#[cfg(feature = "bad")]
mod witness {
    use super::*;
    #[derive(ComponentDefinition)]
    pub struct C {
        ctx: ComponentContext<Self>,
    }
    ignore_lifecycle!(C);
    impl Actor for C {
        type Message = Rc<u8>; //~ BAD
        fn receive_local(&mut self, _msg: Rc<u8>) -> HandlerResult {
            Handled::OK
        }
        fn receive_network(&mut self, _msg: NetMessage) -> HandlerResult {
            Handled::OK
        }
    }

}
