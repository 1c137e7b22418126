prop = "N04"
needs = "an allowed system that is connected when the network it lies in is blocked"
breaks = "blocking a network also drops the connections to systems in it that are explicitly allowed"
edits = [("network/src/transport/network_thread.rs", """                ip_net.contains(&socket_addr.ip())
                    && self.block_list.socket_addr_is_blocked(socket_addr)
""", """                ip_net.contains(&socket_addr.ip())
""")]
demo = r'''
use kompact_net::{NetworkStatus, NetworkStatusPort, NetworkStatusRequest, NetworkSystemExt, prelude::*};
use std::sync::{Arc, atomic::{AtomicUsize, Ordering}};
use std::time::Duration;

#[derive(Default)]
struct Seen {
    up: AtomicUsize,
    dropped: AtomicUsize,
    allowed: AtomicUsize,
    blocked: AtomicUsize,
}

#[derive(ComponentDefinition)]
struct Watch {
    ctx: ComponentContext<Self>,
    status: RequiredPort<NetworkStatusPort>,
    seen: Arc<Seen>,
    target: ActorPath,
}
impl ComponentLifecycle for Watch {
    fn on_start(&mut self) -> HandlerResult {
        self.target.tell_serialised(1u64, self).expect("sent");
        Handled::OK
    }
}
impl Require<NetworkStatusPort> for Watch {
    fn handle(&mut self, event: NetworkStatus) -> HandlerResult {
        match event {
            NetworkStatus::ConnectionEstablished(..) => {
                self.seen.up.fetch_add(1, Ordering::SeqCst);
            }
            NetworkStatus::ConnectionDropped(..) | NetworkStatus::ConnectionLost(..) | NetworkStatus::ConnectionClosed(..) => {
                self.seen.dropped.fetch_add(1, Ordering::SeqCst);
            }
            NetworkStatus::AllowedSystem(..) => {
                self.seen.allowed.fetch_add(1, Ordering::SeqCst);
            }
            NetworkStatus::BlockedIpNet(..) => {
                self.seen.blocked.fetch_add(1, Ordering::SeqCst);
            }
            _ => (),
        }
        Handled::OK
    }
}
impl Actor for Watch {
    type Message = Never;
    fn receive_local(&mut self, _m: Never) -> HandlerResult {
        unreachable!()
    }
    fn receive_network(&mut self, _m: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

fn system() -> KompactSystem {
    let mut conf = KompactConfig::default();
    conf.system_components(DeadletterBox::new, NetworkConfig::new("127.0.0.1:0".parse().unwrap()).build());
    conf.build().wait().expect("system")
}

fn wait(n: &AtomicUsize, what: &str) {
    for _ in 0..100 {
        if n.load(Ordering::SeqCst) > 0 {
            return;
        }
        std::thread::sleep(Duration::from_millis(100));
    }
    eprintln!("no report: {}", what);
    std::process::exit(2);
}

fn main() {
    let first = system();
    let second = system();
    let peer = second.system_path();
    let target: ActorPath = format!("{}/nobody", peer).parse().expect("path");
    let seen = Arc::new(Seen::default());
    let s = seen.clone();
    let w = first.create(move || Watch { ctx: ComponentContext::uninitialised(), status: RequiredPort::uninitialised(), seen: s, target });
    w.on_definition(|d| first.connect_network_status_port(&mut d.status));
    first.start_notify(&w).wait_timeout(Duration::from_secs(10)).expect("started");
    wait(&seen.up, "connected");
    w.on_definition(|d| d.status.trigger(NetworkStatusRequest::AllowSystem(peer.clone())));
    std::thread::sleep(Duration::from_millis(500));
    w.on_definition(|d| d.status.trigger(NetworkStatusRequest::BlockIpNet("127.0.0.0/8".parse().unwrap())));
    wait(&seen.blocked, "blocked");
    std::thread::sleep(Duration::from_millis(1000));
    if seen.dropped.load(Ordering::SeqCst) > 0 {
        eprintln!("the connection to the allowed system was dropped");
        std::process::exit(1);
    }
    std::process::exit(0);
}
'''
