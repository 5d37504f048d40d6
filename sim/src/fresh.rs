//! Runs in a process of their own: forked from one that has not used the library yet, so that whatever the library sets up on
//! first use is set up during the run, under its schedule and faults.
use crate::exec::{self, Outcome};
use crate::scenario::Scenario;
use crate::session::Viol;
use crate::world;
use std::fs;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn prctl(option: i32, ...) -> i32;
}
const PR_SET_PDEATHSIG: i32 = 1;
const SIGKILL: u64 = 9;

/// How many of a worker's first runs get a process of their own.
pub fn first_runs(prop: &str) -> u64 {
    match prop {
        "C12" => 1_000,
        "C10" | "C16" | "C23" => 60,
        _ => 300,
    }
}

/// Runs `f` in a child and returns its exit code; None if a signal ended it. The caller has one thread.
pub fn in_fork(f: impl FnOnce() -> i32) -> Option<i32> {
    // SAFETY: this process has a single thread whenever no simulation is running, so the child may do as it likes.
    unsafe {
        let p = fork();
        assert!(p >= 0, "harness: fork");
        if p == 0 {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            let code = catch_unwind(AssertUnwindSafe(f)).unwrap_or(101);
            _exit(code)
        }
        let mut st = 0;
        while waitpid(p, &mut st, 0) < 0 {}
        if st & 0x7f == 0 {
            Some(st >> 8 & 0xff)
        } else {
            None
        }
    }
}

/// Executes a scenario in a child. Counters and clock go on from where the child left them.
pub fn run(s: &Scenario, file: &str) -> Outcome {
    let code = in_fork(|| {
        let o = exec::run(s);
        let mut t = format!("{} {} {} {}\n", o.digest, o.events, world::CLOCK.load(Relaxed), exec::WORST.load(Relaxed));
        for c in &world::COUNTS {
            t += &format!("{} ", c.load(Relaxed));
        }
        t += "\n";
        if let Err(v) = &o.res {
            t += &format!("{}\n{}", v.class, v.detail)
        }
        fs::write(file, t).expect("harness: result of a run");
        if o.res.is_ok() {
            0
        } else {
            3
        }
    });
    match code {
        Some(0) | Some(3) => (),
        Some(c) => std::process::exit(c),
        None => std::process::abort(),
    }
    let t = fs::read_to_string(file).expect("harness: result of a run");
    let mut l = t.splitn(4, '\n');
    let head: Vec<u64> = l.next().unwrap().split(' ').map(|x| x.parse().expect("harness: result of a run")).collect();
    for (c, x) in world::COUNTS.iter().zip(l.next().unwrap().split(' ')) {
        c.store(x.parse().expect("harness: result of a run"), Relaxed)
    }
    world::CLOCK.store(head[2], Relaxed);
    exec::WORST.store(head[3], Relaxed);
    let class = l.next().unwrap_or("").to_string();
    let res = if code == Some(3) { Err(Viol { class, detail: l.next().unwrap_or("").into() }) } else { Ok(()) };
    Outcome { res, digest: head[0], events: head[1] }
}
