prop = "A01"
needs = "a named path with a segment that begins or ends with a blank"
breaks = "the text of the path lacks the blank, so parsing it yields another path"
edits = [("core/src/actors/paths.rs", "acc.push_str(arg);", "acc.push_str(arg.trim());")]
demo = r'''
use kompact::prelude::*;

fn main() {
    let mut bad = 0;
    for text in ["tcp://127.0.0.1:8080/a/b", "tcp://127.0.0.1:8080/worker 1/b", "udp://127.0.0.1:8080/a /b", "tcp://127.0.0.1:8080/a/ b"] {
        let Ok(path) = text.parse::<ActorPath>() else { continue };
        let again: Result<ActorPath, _> = path.to_string().parse();
        if again.as_ref().ok() != Some(&path) {
            eprintln!("{:?} is shown as {:?}", path, path.to_string());
            bad += 1;
        }
    }
    std::process::exit(if bad > 0 { 1 } else { 0 });
}
'''
