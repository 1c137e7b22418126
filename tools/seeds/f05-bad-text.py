prop = "F05"
needs = "a string message whose bytes are not valid UTF-8"
breaks = "malformed text from the network panics the receiver instead of being reported as a decoding error"
edits = [("core/src/serialisation/default_serialisers.rs", "let s = String::from_utf8(data).map_err(SerError::from_debug)?;", "let s = String::from_utf8(data).expect(\"UTF-8\");")]
demo = r'''
use kompact::prelude::*;

fn main() {
    // eight bytes of length, then two bytes that are no text
    let mut good: &[u8] = &[0, 0, 0, 0, 0, 0, 0, 2, b'o', b'k'];
    let r = <String as Deserialiser<String>>::deserialise(&mut good);
    if r.ok().as_deref() != Some("ok") {
        eprintln!("valid text was refused");
        std::process::exit(2);
    }
    let r = std::panic::catch_unwind(|| {
        let mut bad: &[u8] = &[0, 0, 0, 0, 0, 0, 0, 2, 0xc3, 0x28];
        <String as Deserialiser<String>>::deserialise(&mut bad).is_err()
    });
    match r {
        Ok(true) => std::process::exit(0),
        Ok(false) => eprintln!("malformed text was accepted"),
        Err(_) => eprintln!("malformed text panics"),
    }
    std::process::exit(1);
}
'''
