//! A component whose state may not be moved to another thread.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
mod witness {
    use super::*;
    #[derive(ComponentDefinition)]
    pub struct C {
        ctx: ComponentContext<Self>,
        state: Arc<u8>,
    }
    ignore_lifecycle!(C);
    impl Actor for C {
        type Message = u8;
        fn receive_local(&mut self, _msg: u8) -> HandlerResult {
            Handled::OK
        }
        fn receive_network(&mut self, _msg: NetMessage) -> HandlerResult {
            Handled::OK
        }
    }
    pub fn make(s: &KompactSystem, f: fn() -> C) {
        s.create(f);
    }

}

#[cfg(feature = "bad")]
mod witness {
    use super::*;
    #[derive(ComponentDefinition)] //~ BAD
    pub struct C { //~ BAD
        ctx: ComponentContext<Self>,
        state: Rc<u8>, //~ BAD
    }
    ignore_lifecycle!(C); //~ BAD
    impl Actor for C { //~ BAD
        type Message = u8;
        fn receive_local(&mut self, _msg: u8) -> HandlerResult {
            Handled::OK
        }
        fn receive_network(&mut self, _msg: NetMessage) -> HandlerResult {
            Handled::OK
        }
    }
    pub fn make(s: &KompactSystem, f: fn() -> C) {
        s.create(f); //~ BAD
    }

}
