prop = "T01"
needs = "a periodic timeout whose first delay differs from its period"
breaks = "the first delay and the period change places, so the action is run at the wrong times"
edits = [("core/src/timer/timer_manager.rs", "self.timer.schedule_periodic(delay, period, state);", "self.timer.schedule_periodic(period, delay, state);")]
demo = r'''
use kompact::prelude::*;
use std::time::Duration;

#[derive(ComponentDefinition)]
struct Comp {
    ctx: ComponentContext<Self>,
    fired: Option<KPromise<()>>,
    again: Option<KPromise<()>>,
}
impl ComponentLifecycle for Comp {
    fn on_start(&mut self) -> HandlerResult {
        self.schedule_periodic(Duration::from_millis(50), Duration::from_secs(30), |me, _| {
            match me.fired.take() {
                Some(p) => p.complete().expect("first"),
                None => {
                    if let Some(p) = me.again.take() {
                        p.complete().expect("second");
                    }
                }
            }
            Handled::OK
        });
        Handled::OK
    }
}
impl Actor for Comp {
    type Message = Never;
    fn receive_local(&mut self, _m: Never) -> HandlerResult {
        unreachable!()
    }
    fn receive_network(&mut self, _m: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

fn main() {
    let system = KompactConfig::default().build().wait().expect("system");
    let (p, f) = promise();
    let (p2, f2) = promise();
    let c = system.create(move || Comp { ctx: ComponentContext::uninitialised(), fired: Some(p), again: Some(p2) });
    system.start_notify(&c).wait_timeout(Duration::from_secs(10)).expect("started");
    if f.wait_timeout(Duration::from_secs(10)).is_err() {
        eprintln!("the action did not run after its first delay");
        std::process::exit(1);
    }
    if f2.wait_timeout(Duration::from_secs(3)).is_ok() {
        eprintln!("the action ran again long before its period was over");
        std::process::exit(1);
    }
    std::process::exit(0);
}
'''
