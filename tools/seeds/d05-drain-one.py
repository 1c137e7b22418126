prop = "D05"
needs = "several messages sent before the first connection to their system is up, and nothing sent afterwards"
breaks = "only the first of the queued messages is sent when the connection comes up; the rest stays in the queue"
edits = [("network/src/dispatcher.rs", "            while let Some(frame) = self.queue_manager.pop_data(addr) {", "            if let Some(frame) = self.queue_manager.pop_data(addr) {")]
demo = r'''
use kompact_net::prelude::*;
use std::sync::{Arc, atomic::{AtomicUsize, Ordering}};
use std::time::Duration;

#[derive(ComponentDefinition)]
struct Target {
    ctx: ComponentContext<Self>,
    seen: Arc<AtomicUsize>,
}
ignore_lifecycle!(Target);
impl Actor for Target {
    type Message = Never;
    fn receive_local(&mut self, _m: Never) -> HandlerResult {
        unreachable!()
    }
    fn receive_network(&mut self, m: NetMessage) -> HandlerResult {
        let n = m.try_deserialise::<u64, u64>().expect("number");
        // in order, none missing
        if self.seen.load(Ordering::SeqCst) as u64 == n {
            self.seen.fetch_add(1, Ordering::SeqCst);
        }
        Handled::OK
    }
}

#[derive(ComponentDefinition)]
struct Source {
    ctx: ComponentContext<Self>,
    target: ActorPath,
}
impl ComponentLifecycle for Source {
    fn on_start(&mut self) -> HandlerResult {
        for n in 0..20u64 {
            self.target.tell_serialised(n, self).expect("sent");
        }
        Handled::OK
    }
}
impl Actor for Source {
    type Message = Never;
    fn receive_local(&mut self, _m: Never) -> HandlerResult {
        unreachable!()
    }
    fn receive_network(&mut self, _m: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

fn system(addr: &str) -> KompactSystem {
    let mut conf = KompactConfig::default();
    let mut net = NetworkConfig::new(addr.parse().unwrap());
    net.set_connection_retry_interval(1500);
    conf.system_components(DeadletterBox::new, net.build());
    conf.build().wait().expect("system")
}

fn main() {
    let long = Duration::from_secs(10);
    // a port that nobody listens on for now
    let port = {
        let l = std::net::TcpListener::bind("127.0.0.1:0").expect("port");
        l.local_addr().unwrap().port()
    };
    let first = system("127.0.0.1:0");
    let target: ActorPath = format!("tcp://127.0.0.1:{}/target", port).parse().expect("path");
    let source = first.create(move || Source { ctx: ComponentContext::uninitialised(), target });
    first.start_notify(&source).wait_timeout(long).expect("started");
    std::thread::sleep(Duration::from_millis(300));
    let second = system(&format!("127.0.0.1:{}", port));
    let seen = Arc::new(AtomicUsize::new(0));
    let s = seen.clone();
    let (t, r) = second.create_and_register(move || Target { ctx: ComponentContext::uninitialised(), seen: s });
    r.wait_timeout(long).expect("registered").expect("registered");
    second.register_by_alias(&t, "target").wait_timeout(long).expect("alias").expect("alias");
    second.start_notify(&t).wait_timeout(long).expect("started");
    for _ in 0..100 {
        if seen.load(Ordering::SeqCst) == 20 {
            std::process::exit(0);
        }
        std::thread::sleep(Duration::from_millis(100));
    }
    eprintln!("{} of 20 messages arrived", seen.load(Ordering::SeqCst));
    std::process::exit(1);
}
'''
