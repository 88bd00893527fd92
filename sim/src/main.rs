//! pedsim: deterministic simulation of perf-event-data's sources.
#![allow(dead_code)]

mod alloc;
mod ctx;
mod drive;
mod engine;
mod iso;
mod json;
mod model;
mod names;
mod obs;
mod props;
mod refdec;
mod sched;
mod step;
mod text;
mod transport;

#[cfg(not(miri))]
#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let code = match s.get(1).copied() {
        Some("check") if s.len() == 4 => engine::check(s[2], s[3]),
        Some("worker") if s.len() == 9 => engine::worker(&s[2..]),
        Some("exec") if s.len() == 5 => engine::exec(s[2], s[3], s[4]),
        Some("shrink") if s.len() == 6 => engine::shrink_cmd(s[2], s[3], s[4], s[5]),
        Some("replay") if s.len() == 3 => engine::replay(s[2]),
        Some("determinism") if s.len() == 5 => engine::determinism(s[2], s[3], s[4]),
        Some("trace") if s.len() == 5 => engine::trace(s[2], s[3], s[4]),
        _ => {
            eprintln!(
                "usage: pedsim check ID quick|thorough\n       pedsim replay FILE\n       \
                 pedsim determinism ID SEED RUNS\n       pedsim trace ID SEED RUN"
            );
            2
        }
    };
    std::process::exit(code);
}
