prop = "S07"
needs = "a handler of a provided port that returns Handled::Shutdown"
breaks = "the shutdown request of a provided-port handler is dropped, so the component lives on and goes on handling events"
edits = [("macros/component-definition-derive/src/lib.rs", """                                    Ok(Handled::Shutdown) => {
                                        return ExecuteResult::shutdown(count, #i);
                                    }
""", """                                    Ok(Handled::Shutdown) => (),
""")]
demo = r'''
use kompact::prelude::*;
use std::{thread, time::Duration};

#[derive(Clone, Debug)]
struct Quit;
struct QuitPort;
impl Port for QuitPort {
    type Indication = Never;
    type Request = Quit;
}

#[derive(ComponentDefinition)]
struct Server {
    ctx: ComponentContext<Self>,
    port: ProvidedPort<QuitPort>,
}
ignore_lifecycle!(Server);
impl Provide<QuitPort> for Server {
    fn handle(&mut self, _e: Quit) -> HandlerResult {
        Ok(Handled::Shutdown)
    }
}
impl Actor for Server {
    type Message = Never;
    fn receive_local(&mut self, _m: Never) -> HandlerResult {
        unreachable!()
    }
    fn receive_network(&mut self, _m: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

fn main() {
    let system = KompactConfig::default().build().wait().expect("system");
    let c = system.create(|| Server { ctx: ComponentContext::uninitialised(), port: ProvidedPort::uninitialised() });
    let port: ProvidedRef<QuitPort> = c.provided_ref();
    system.start_notify(&c).wait_timeout(Duration::from_secs(10)).expect("started");
    system.trigger_r(Quit, &port);
    for _ in 0..100 {
        if c.is_destroyed() {
            std::process::exit(0);
        }
        thread::sleep(Duration::from_millis(50));
    }
    eprintln!("component did not shut down");
    std::process::exit(1);
}
'''
