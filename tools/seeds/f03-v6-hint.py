prop = "F03"
needs = "a path with an IPv6 address whose declared size is relied on"
breaks = "the size hint of a system path with an IPv6 address is smaller than what is written"
edits = [("core/src/messaging/framing.rs", "IpAddr::V6(_) => 16, // IPv4 uses 16 bytes", "IpAddr::V6(_) => 8, // IPv6 uses 8 words")]
demo = r'''
use kompact::prelude::*;

fn main() {
    let mut bad = 0;
    for text in ["tcp://127.0.0.1:8080/a/b", "tcp://[::1]:8080/a/b", "udp://[fe80::1]:9/x", "tcp://[::1]:8080#1e555f40-de1d-4aee-8202-64fdc27edfa8"] {
        let path: ActorPath = text.parse().expect("path");
        let mut buf: Vec<u8> = Vec::new();
        Serialisable::serialise(&path, &mut buf).expect("serialised");
        let hint = Serialisable::size_hint(&path).expect("hint");
        if hint < buf.len() {
            eprintln!("{}: hint {} but {} bytes", text, hint, buf.len());
            bad += 1;
        }
    }
    std::process::exit(if bad > 0 { 1 } else { 0 });
}
'''
