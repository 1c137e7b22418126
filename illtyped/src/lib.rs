//! What the witness programs in `bin` share. Nothing here is ever executed.
pub use kompact::prelude::*;
pub use std::{rc::Rc, sync::Arc};

pub struct PA;
impl Port for PA {
    type Indication = u32;
    type Request = String;
}
pub struct PB;
impl Port for PB {
    type Indication = u32;
    type Request = String;
}

#[derive(ComponentDefinition)]
pub struct Prov {
    pub ctx: ComponentContext<Self>,
    pub pa: ProvidedPort<PA>,
    pub pb: ProvidedPort<PB>,
    pub state: u64,
}
ignore_lifecycle!(Prov);
impl Provide<PA> for Prov {
    fn handle(&mut self, _event: String) -> HandlerResult {
        Handled::OK
    }
}
impl Provide<PB> for Prov {
    fn handle(&mut self, _event: String) -> HandlerResult {
        Handled::OK
    }
}
impl Actor for Prov {
    type Message = u8;
    fn receive_local(&mut self, _msg: u8) -> HandlerResult {
        Handled::OK
    }
    fn receive_network(&mut self, _msg: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

#[derive(ComponentDefinition)]
pub struct Need {
    pub ctx: ComponentContext<Self>,
    pub pa: RequiredPort<PA>,
}
ignore_lifecycle!(Need);
impl Require<PA> for Need {
    fn handle(&mut self, _event: u32) -> HandlerResult {
        Handled::OK
    }
}
impl Actor for Need {
    type Message = Ask<u8, String>;
    fn receive_local(&mut self, _msg: Ask<u8, String>) -> HandlerResult {
        Handled::OK
    }
    fn receive_network(&mut self, _msg: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

#[derive(ComponentDefinition)]
pub struct Other {
    pub ctx: ComponentContext<Self>,
    pub pb: RequiredPort<PB>,
}
ignore_lifecycle!(Other);
impl Require<PB> for Other {
    fn handle(&mut self, _event: u32) -> HandlerResult {
        Handled::OK
    }
}
impl Actor for Other {
    type Message = Never;
    fn receive_local(&mut self, _msg: Never) -> HandlerResult {
        Handled::OK
    }
    fn receive_network(&mut self, _msg: NetMessage) -> HandlerResult {
        Handled::OK
    }
}
