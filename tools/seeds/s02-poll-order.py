prop = "S02"
needs = "a blocking future that completes on its first poll and sends its own component a message while it runs"
breaks = "work that arrives while the blocking future is polled is not seen by the reschedule decision, so the message is stranded"
edits = [("core/src/component/actual_component.rs", """        let run_res = $guard.definition.ctx_mut().run_blocking_task();
        // Keep the old accounting order: poll the blocking future first, then decrement
        // work so messages enqueued during the poll are reflected in the scheduling decision.
        let scheduling_decision = $self.core.decrement_work($count);
""", """        let scheduling_decision = $self.core.decrement_work($count);
        let run_res = $guard.definition.ctx_mut().run_blocking_task();
""")]
demo = r'''
use kompact::prelude::*;
use std::time::Duration;

#[derive(Debug)]
enum Msg {
    Go,
    Done(KPromise<()>),
}

#[derive(ComponentDefinition)]
struct Comp {
    ctx: ComponentContext<Self>,
    promise: Option<KPromise<()>>,
}
ignore_lifecycle!(Comp);
impl Actor for Comp {
    type Message = Msg;
    fn receive_local(&mut self, m: Msg) -> HandlerResult {
        match m {
            Msg::Go => {
                let p = self.promise.take().unwrap();
                Handled::block_on(self, move |me| async move {
                    me.actor_ref().tell(Msg::Done(p));
                    Handled::OK
                })
            }
            Msg::Done(p) => {
                p.complete().expect("complete");
                Handled::OK
            }
        }
    }
    fn receive_network(&mut self, _m: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

fn main() {
    let system = KompactConfig::default().build().wait().expect("system");
    for _ in 0..20 {
        let (p, f) = promise();
        let c = system.create(move || Comp { ctx: ComponentContext::uninitialised(), promise: Some(p) });
        system.start_notify(&c).wait_timeout(Duration::from_secs(10)).expect("started");
        c.actor_ref().tell(Msg::Go);
        if f.wait_timeout(Duration::from_secs(3)).is_err() {
            eprintln!("the message sent while blocking was never handled");
            std::process::exit(1);
        }
    }
    std::process::exit(0);
}
'''
