//! Components whose derive-macro expansions are analysed by the checks (never executed).
use kompact::prelude::*;

pub struct PA;
impl Port for PA {
    type Indication = u32;
    type Request = u64;
}
pub struct PB;
impl Port for PB {
    type Indication = String;
    type Request = i32;
}

#[derive(ComponentDefinition)]
pub struct ThreePorts {
    ctx: ComponentContext<Self>,
    p_one: ProvidedPort<PA>,
    r_two: RequiredPort<PB>,
    p_three: ProvidedPort<PB>,
    plain: u32,
}
ignore_lifecycle!(ThreePorts);
impl Provide<PA> for ThreePorts {
    fn handle(&mut self, event: u64) -> HandlerResult {
        self.plain += event as u32;
        Handled::OK
    }
}
impl Require<PB> for ThreePorts {
    fn handle(&mut self, _event: String) -> HandlerResult {
        Handled::OK
    }
}
impl Provide<PB> for ThreePorts {
    fn handle(&mut self, _event: i32) -> HandlerResult {
        Handled::OK
    }
}
impl Actor for ThreePorts {
    type Message = u8;
    fn receive_local(&mut self, _msg: u8) -> HandlerResult {
        Handled::OK
    }
    fn receive_network(&mut self, _msg: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

#[derive(ComponentDefinition)]
pub struct OnePort {
    ctx: ComponentContext<Self>,
    r_only: RequiredPort<PA>,
}
ignore_lifecycle!(OnePort);
impl Require<PA> for OnePort {
    fn handle(&mut self, _event: u32) -> HandlerResult {
        Handled::OK
    }
}
impl Actor for OnePort {
    type Message = u8;
    fn receive_local(&mut self, _msg: u8) -> HandlerResult {
        Handled::OK
    }
    fn receive_network(&mut self, _msg: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

#[derive(ComponentDefinition, Actor)]
pub struct NoPorts {
    ctx: ComponentContext<Self>,
}
ignore_lifecycle!(NoPorts);

// Reading network messages through the `match_deser!` macro.
#[derive(Debug, Clone)]
pub struct MsgA;
impl Serialisable for MsgA {
    fn ser_id(&self) -> SerId {
        Self::SER_ID
    }
    fn size_hint(&self) -> Option<usize> {
        Some(0)
    }
    fn serialise(&self, _buf: &mut dyn BufMut) -> Result<(), SerError> {
        Ok(())
    }
    fn local(self: Box<Self>) -> Result<Box<dyn std::any::Any + Send>, Box<dyn Serialisable>> {
        Ok(self)
    }
}
impl Deserialiser<MsgA> for MsgA {
    const SER_ID: SerId = 101;
    fn deserialise(_buf: &mut dyn Buf) -> Result<MsgA, SerError> {
        Ok(MsgA)
    }
}
#[derive(Debug, Clone)]
pub struct MsgB;
pub struct SerB;
impl Deserialiser<MsgB> for SerB {
    const SER_ID: SerId = 102;
    fn deserialise(_buf: &mut dyn Buf) -> Result<MsgB, SerError> {
        Ok(MsgB)
    }
}
pub fn took_a(_a: MsgA) {}
pub fn took_b(_b: MsgB) {}
pub fn took_err(_e: UnpackError<NetMessage>) {}
pub fn took_other(_m: u8) {}
pub fn reads_by_id(m: NetMessage) {
    match_deser! {
        (m) {
            msg(a): MsgA => took_a(a),
            msg(b): MsgB [using SerB] => took_b(b),
            err(e) => took_err(e),
            default(_) => took_other(0),
        }
    }
}
