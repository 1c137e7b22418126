prop = "S05"
needs = "an on_stop hook that reports a benign error"
breaks = "the supervisor is never told that the component stopped, so whoever waits for it waits forever"
edits = [("core/src/component/actual_component.rs", """                            self.report_benign_error(fault);
                            match event {
                                lifecycle::ControlEvent::Start => self.notify_started(),
                                lifecycle::ControlEvent::Stop => self.set_passive(),
                                lifecycle::ControlEvent::Kill => self.set_destroyed(),
                                lifecycle::ControlEvent::Poll(_) => (),
                            }
""", """                            self.report_benign_error(fault);
                            match event {
                                lifecycle::ControlEvent::Start => self.notify_started(),
                                lifecycle::ControlEvent::Kill => self.set_destroyed(),
                                lifecycle::ControlEvent::Stop => self.set_inactive(),
                                lifecycle::ControlEvent::Poll(_) => (),
                            }
""")]
demo = r'''
use kompact::prelude::*;
use std::time::Duration;

#[derive(ComponentDefinition)]
struct Comp {
    ctx: ComponentContext<Self>,
}
impl ComponentLifecycle for Comp {
    fn on_stop(&mut self) -> HandlerResult {
        Err(HandlerError::benign(std::io::Error::other("nothing serious")))
    }
}
impl Actor for Comp {
    type Message = Never;
    fn receive_local(&mut self, _m: Never) -> HandlerResult {
        unreachable!()
    }
    fn receive_network(&mut self, _m: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

fn main() {
    let system = KompactConfig::default().build().wait().expect("system");
    let c = system.create(|| Comp { ctx: ComponentContext::uninitialised() });
    system.start_notify(&c).wait_timeout(Duration::from_secs(10)).expect("started");
    if system.stop_notify(&c).wait_timeout(Duration::from_secs(5)).is_err() {
        eprintln!("no notification of the stop");
        std::process::exit(1);
    }
    std::process::exit(0);
}
'''
