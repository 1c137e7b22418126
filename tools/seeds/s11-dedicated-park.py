prop = "S11"
needs = "a component on its own thread that gets more messages than one execution handles, and nothing afterwards"
breaks = "the dedicated thread parks although its component has work left, so the messages wait for the next one"
edits = [("core/src/dedicated_scheduler.rs", "                SchedulingDecision::NoWork | SchedulingDecision::Blocked => true,\n                SchedulingDecision::Resume | SchedulingDecision::Schedule => false,", "                SchedulingDecision::NoWork | SchedulingDecision::Blocked | SchedulingDecision::Schedule => true,\n                SchedulingDecision::Resume => false,")]
demo = r'''
use kompact::prelude::*;
use std::sync::{Arc, atomic::{AtomicUsize, Ordering}};
use std::time::Duration;

#[derive(ComponentDefinition)]
struct Comp {
    ctx: ComponentContext<Self>,
    seen: Arc<AtomicUsize>,
}
ignore_lifecycle!(Comp);
impl Actor for Comp {
    type Message = u64;
    fn receive_local(&mut self, m: u64) -> HandlerResult {
        if m == 0 {
            // everything else arrives while this handler runs
            std::thread::sleep(Duration::from_millis(800));
        }
        self.seen.fetch_add(1, Ordering::SeqCst);
        Handled::OK
    }
    fn receive_network(&mut self, _m: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

fn main() {
    let system = KompactConfig::default().build().wait().expect("system");
    let seen = Arc::new(AtomicUsize::new(0));
    let s = seen.clone();
    let c = system.create_dedicated(move || Comp { ctx: ComponentContext::uninitialised(), seen: s });
    system.start_notify(&c).wait_timeout(Duration::from_secs(10)).expect("started");
    let r = c.actor_ref();
    r.tell(0u64);
    std::thread::sleep(Duration::from_millis(200));
    for n in 1..1000u64 {
        r.tell(n);
    }
    for _ in 0..60 {
        if seen.load(Ordering::SeqCst) == 1000 {
            std::process::exit(0);
        }
        std::thread::sleep(Duration::from_millis(100));
    }
    eprintln!("{} of 1000 messages were handled", seen.load(Ordering::SeqCst));
    std::process::exit(1);
}
'''
