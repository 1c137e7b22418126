prop = "X01"
needs = "a timeout handler that keeps an Rc, in a component that moves between scheduler threads"
breaks = "timeout handlers no longer have to be Send, which the unsafe Send of the timer handles relies on"
T = "core/src/timer/timer_manager.rs"
A = "core/src/component/actual_component.rs"
ONCE = "FnOnce(&mut C, ScheduledTimer) -> HandlerResult + Send + 'static"
PER = "        F: Fn(&mut C, ScheduledTimer) -> HandlerResult + Send + 'static"
edits = [(T, ONCE, ONCE.replace(" + Send", ""))] * 2 + [(T, PER, PER.replace(" + Send", ""))] * 2 + [
    (T, "Box<dyn FnOnce(&mut C, Uuid) -> HandlerResult + Send + 'static>", "Box<dyn FnOnce(&mut C, Uuid) -> HandlerResult + 'static>"),
    (T, "Rc<dyn Fn(&mut C, Uuid) -> HandlerResult + Send + 'static>", "Rc<dyn Fn(&mut C, Uuid) -> HandlerResult + 'static>"),
    (A, "F: FnOnce(&mut CD, ScheduledTimer) -> HandlerResult + Send + 'static", "F: FnOnce(&mut CD, ScheduledTimer) -> HandlerResult + 'static"),
    (A, "F: Fn(&mut CD, ScheduledTimer) -> HandlerResult + Send + 'static", "F: Fn(&mut CD, ScheduledTimer) -> HandlerResult + 'static"),
]
demo = r'''
use kompact::prelude::*;
use std::time::Duration;

#[derive(ComponentDefinition, Actor)]
struct Comp {
    ctx: ComponentContext<Self>,
}
impl ComponentLifecycle for Comp {
    fn on_start(&mut self) -> HandlerResult {
        #[cfg(not(bad))]
        let state = std::sync::Arc::new(7);
        #[cfg(bad)]
        let state = std::rc::Rc::new(7);
        self.schedule_once(Duration::from_millis(10), move |_, _| {
            println!("{}", state);
            Handled::OK
        });
        Handled::OK
    }
}

fn main() {
    let system = KompactConfig::default().build().wait().expect("system");
    let c = system.create(|| Comp { ctx: ComponentContext::uninitialised() });
    system.start_notify(&c).wait_timeout(Duration::from_secs(10)).expect("started");
    std::process::exit(0);
}
'''
demo_sh = r'''#!/bin/bash
# Builds main.rs, which lies beside this script, against the crates of the repository in the current directory: as it
# is, and with a timeout handler that keeps an Rc, which the compiler must reject. Exit 0: it does.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
W="$(mktemp -d)" || exit 3
mkdir -p "$W/src"
cp "$D/main.rs" "$W/src/main.rs"
cp "$R/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "kdemo"
version = "0.1.0"
edition = "2024"
[workspace]
[lints.rust]
unexpected_cfgs = { level = "allow" }
[dependencies]
kompact = { path = "$R/core", features = ["distributed"] }
T
cd "$W" || exit 3
export CARGO_TARGET_DIR="$R/target/kdemo" CARGO_NET_OFFLINE=true
timeout 240 cargo check -q --offline || exit 3
if timeout 240 cargo rustc -q --offline --profile check -- --cfg bad > out 2>&1; then
    echo "a timeout handler that is not Send was accepted"
    exit 1
fi
grep -q "cannot be sent between threads" out || { cat out; exit 3; }
exit 0
'''
