prop = "S05"
needs = "an on_stop hook that blocks on a future"
breaks = "a component whose stop hook blocks becomes active when the future is done and nobody hears that it stopped"
edits = [("core/src/component/actual_component.rs", "ControlEvent::Stop => StateTransition::Passive,", "ControlEvent::Stop => StateTransition::Active,")]
demo = r'''
use kompact::prelude::*;
use std::time::Duration;

#[derive(ComponentDefinition)]
struct Comp {
    ctx: ComponentContext<Self>,
}
impl ComponentLifecycle for Comp {
    fn on_stop(&mut self) -> HandlerResult {
        Handled::block_on(self, |_| async move {
            futures_done().await;
            Handled::OK
        })
    }
}
async fn futures_done() {
    std::future::ready(()).await
}
impl Actor for Comp {
    type Message = Never;
    fn receive_local(&mut self, _m: Never) -> HandlerResult {
        unreachable!()
    }
    fn receive_network(&mut self, _m: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

fn main() {
    let system = KompactConfig::default().build().wait().expect("system");
    let c = system.create(|| Comp { ctx: ComponentContext::uninitialised() });
    system.start_notify(&c).wait_timeout(Duration::from_secs(10)).expect("started");
    if system.stop_notify(&c).wait_timeout(Duration::from_secs(4)).is_err() {
        eprintln!("no notification of the stop");
        std::process::exit(1);
    }
    std::process::exit(0);
}
'''
