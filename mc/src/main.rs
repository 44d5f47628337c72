#![allow(dead_code, unknown_lints, static_mut_refs)]
mod checks;
mod engine;
mod os;
mod report;
mod sched;
mod seq;
mod tour;

fn main() {
    engine::capture_panics();
    // children run one thread at a time: one heap arena is enough
    unsafe { libc::mallopt(libc::M_ARENA_MAX, 1) };
    os::skip_real_sync();
    checks::world::template();
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    if args.get(2).map(String::as_str) == Some("--replay") {
        std::process::exit(checks::replay(&id, &args[3]));
    }
    std::process::exit(checks::run(&id));
}
