#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_hir;
extern crate rustc_public_bridge;
extern crate rustc_span;
#[macro_use]
extern crate rustc_public;
mod checks;
mod effects;
mod interp;
mod lower;
mod native;
mod term;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let real = args.remove(1);
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1).cloned()).unwrap_or_default();
    let query = args.iter().any(|a| a.starts_with("--print") || a == "-vV");
    if let (Ok(rec), false) = (std::env::var("LYRA_SA_RECORD"), query) {
        // compiler wrapper: remember how the crate under analysis and the references are compiled
        if krate == "lyra2" || krate == "spec" {
            if let (Ok(x), "lyra2") = (std::env::var("LYRA_SA_EXTRA"), krate.as_str()) { args.extend(x.split('\u{1}').filter(|s| !s.is_empty()).map(|s| s.to_string())); }
            std::fs::write(format!("{rec}.{krate}"), args.join("\u{1}")).unwrap();
        }
    } else if std::env::var("LYRA_SA_JOB").is_ok() {
        let h = std::thread::Builder::new()
            .stack_size(4 << 30)
            .spawn(move || { let _ = run!(&args, checks::go); })
            .unwrap();
        h.join().unwrap();
        return;
    }
    {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(real).args(&args[1..]).exec();
        panic!("{e}");
    }
}
