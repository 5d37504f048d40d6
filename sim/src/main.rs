//! Deterministic simulation of unicode-normalization: see /verif/DESIGN.md.
#![feature(alloc_error_hook, thread_local)]
#![allow(dead_code)]

mod adapters;
mod exec;
mod fresh;
mod gen;
mod heap;
mod model;
mod nested;
mod preempt;
mod queries;
mod rng;
mod scenario;
mod sched;
mod session;
mod shrink;
mod stats;
mod supervise;
mod textgen;
mod ucd;
mod worker;
mod world;

#[global_allocator]
static HEAP: heap::Heap = heap::Heap;

/// Room for the library's calls: little, so that recursion that grows with the text does not go unnoticed.
const STACK: usize = 256 << 10;

fn main() {
    let t = std::thread::Builder::new().stack_size(STACK).spawn(run).expect("harness: thread");
    if t.join().is_err() {
        std::process::exit(101)
    }
}
fn run() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s = |i: usize| a.get(i).cloned().unwrap_or_default();
    let n = |i: usize| s(i).parse::<u64>().unwrap_or_else(|_| panic!("harness: argument {} of {:?}", i, a));
    world::install_hooks();
    ucd::ucd();
    nested::init();
    let code = match s(0).as_str() {
        // check <property> <verif dir> <binary 0> <binary 1> <binary 2> <binary 3>
        "check" => supervise::check(&s(1), [&s(3), &s(4), &s(5), &s(6)], &s(2)),
        "answers" => worker::answers(&s(1)),
        "minimise2" => worker::minimise2(n(1), n(2), n(3), n(4), &s(5), n(6), [&s(7), &s(8)]),
        "replay2" => worker::replay2(&s(1), [&s(2), &s(3)]),
        "worker" => worker::work(&s(1), n(2), n(3) as u8, n(4), n(5), n(6), &s(7), n(8), &s(9)),
        "minimise" => worker::minimise(&s(1), n(2), n(3), &s(4), &s(5), n(6)),
        "history" => worker::history(&s(1), n(2), n(3) as u8, n(4), n(5), n(6), n(7), &s(8), &s(9)),
        "replay" => worker::replay(&s(1)),
        "execute" => worker::execute(&s(1)),
        "show" => {
            print!("{}", gen::scenario(&s(1), n(2), n(3)).to_text());
            0
        }
        // digests <property> <seed> <from> <to>: one line per run
        "digests" => {
            for k in n(3)..n(4) {
                let sc = gen::scenario(&s(1), n(2), k);
                let o = exec::run(&sc);
                println!("{} {:016x} {:016x} {} {}", k, sc.hash(), o.digest, o.events, o.res.err().map_or("ok".into(), |e| e.class));
            }
            0
        }
        _ => {
            eprintln!("usage: unsim check|replay|show|digests ...");
            2
        }
    };
    std::process::exit(code)
}
