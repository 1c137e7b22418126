prop = "C01"
needs = "a negative number for a setting that counts something"
breaks = "a negative number is accepted and wraps around to a huge one instead of failing the build of the system"
edits = [("core/src/config/converters_for_other_types.rs", "let ures: usize = res.try_into()?;", "let ures: usize = res as usize;")]
demo = r'''
use kompact::prelude::*;

fn main() {
    let mut conf = KompactConfig::default();
    conf.load_config_str("kompact.runtime.throughput = 10");
    if conf.build().wait().is_err() {
        eprintln!("a valid setting was refused");
        std::process::exit(2);
    }
    let mut conf = KompactConfig::default();
    conf.load_config_str("kompact.runtime.throughput = -1");
    if conf.build().wait().is_ok() {
        eprintln!("an invalid setting was accepted");
        std::process::exit(1);
    }
    std::process::exit(0);
}
'''
