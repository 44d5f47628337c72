//! Checks that involve the server, the client, or the asynchronous interface.
#![allow(dead_code, unknown_lints, static_mut_refs)]
mod checks;
mod twins;
mod wire;
#[path = "../../mc/src/engine.rs"]
mod engine;
#[path = "../../mc/src/os.rs"]
mod os;
#[path = "../../mc/src/report.rs"]
mod report;
#[path = "../../mc/src/sched.rs"]
mod sched;
#[path = "../../mc/src/seq.rs"]
mod seq;

fn main() {
    engine::capture_panics();
    os::skip_real_sync();
    checks::world::template();
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    if args.get(2).map(String::as_str) == Some("--replay") {
        std::process::exit(checks::replay(&id, &args[3]));
    }
    std::process::exit(checks::run(&id));
}
