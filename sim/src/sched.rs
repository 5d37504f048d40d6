//! The thread scheduler: real threads, of which exactly one (the baton holder) runs; the scenario's schedule decides who
//! continues at every seam crossing and after every operation.
use crate::world::{count, ev, K};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::thread::Thread;

thread_local! { static ME: Cell<usize> = const { Cell::new(0) }; }

#[derive(Default)]
struct State {
    /// Choices still to consume.
    sched: Vec<u8>,
    next: usize,
    /// Client each thread is in the middle of serving.
    busy: Vec<Option<usize>>,
    /// Clients that have operations left and are not being served.
    ready: Vec<usize>,
    threads: Vec<Thread>,
    last_thread: Vec<Option<usize>>,
    /// Preemptions inside the library: distance to each << 4 | whom to let run.
    gaps: Vec<u64>,
    next_gap: usize,
    /// Assignment handed over with the baton (client to serve), or None to continue.
    give: Vec<Option<usize>>,
    done: bool,
}

static ON: AtomicBool = AtomicBool::new(false);
/// Grows whenever the scheduler is entered.
static PROGRESS: AtomicUsize = AtomicUsize::new(0);
static TURN: AtomicUsize = AtomicUsize::new(usize::MAX);
/// The last thread to have noticed that it has the baton.
static AWAKE: AtomicUsize = AtomicUsize::new(usize::MAX);
/// Threads that lost the baton while asleep and have not been heard of since.
static BLOCKED: AtomicU64 = AtomicU64::new(0);
static ST: Mutex<Option<State>> = Mutex::new(None);
const MAIN: usize = 1000;

pub fn me() -> usize {
    ME.get()
}

/// Kernel ids of the simulated threads.
static TIDS: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// Is the thread asleep in the kernel?
fn asleep(t: usize) -> bool {
    let path = match TIDS.lock().unwrap().get(t) {
        Some(p) if !p.is_empty() => format!("/proc/{}/stat", p),
        _ => return false,
    };
    std::fs::read_to_string(path).map_or(false, |s| s.rsplit(')').next().map_or(false, |r| r.trim_start().starts_with('S')))
}

/// Waits for the baton. `inside`: the thread was stopped inside the library. Such a thread takes the baton by itself if
/// the holder sleeps without making progress: it is blocked in a lock of the library's that this thread may hold.
fn wait_for(me: usize, inside: bool) {
    BLOCKED.fetch_and(!(1 << me % 64), SeqCst);
    let mut spins = 0;
    let (mut seen, mut still) = (0, 0);
    while TURN.load(SeqCst) != me {
        spins += 1;
        if spins < 200 {
            std::hint::spin_loop();
            continue;
        }
        std::thread::park_timeout(std::time::Duration::from_micros(if inside { 300 } else { 50_000 }));
        if inside {
            let holder = TURN.load(SeqCst);
            let p = PROGRESS.load(SeqCst);
            still = if p == seen && holder < MAIN && holder != me && (AWAKE.load(SeqCst) == holder || BLOCKED.load(SeqCst) & 1 << holder % 64 != 0) && asleep(holder) { still + 1 } else { 0 };
            seen = p;
            if still > 3 && holder < MAIN && holder != me && TURN.compare_exchange(holder, me, SeqCst, SeqCst).is_ok() {
                BLOCKED.fetch_or(1 << holder % 64, SeqCst);
                count(K::Stolen);
            }
        }
    }
    AWAKE.store(me, SeqCst);
    PROGRESS.fetch_add(1, SeqCst);
}
/// A thread that was blocked may have lost the baton meanwhile.
fn hold(me: usize, inside: bool) {
    BLOCKED.fetch_and(!(1 << me % 64), SeqCst);
    PROGRESS.fetch_add(1, SeqCst);
    if TURN.load(SeqCst) == me {
        AWAKE.store(me, SeqCst)
    } else {
        wait_for(me, inside)
    }
}
fn pass(to: usize, t: Option<Thread>) {
    TURN.store(to, SeqCst);
    if let Some(t) = t {
        t.unpark()
    }
}

/// What to do next: continue (thread busy) or serve a client on an idle thread. None: everything is finished.
fn choose(st: &mut State, cur: usize, cur_can_continue: bool) -> Option<(usize, Option<usize>)> {
    let c = st.sched.get(st.next).copied().unwrap_or(0) as usize;
    st.next += 1;
    if c == 0 && cur_can_continue {
        return Some((cur, None));
    }
    // Options: every thread in the middle of a client, and every idle thread with each ready client.
    let mut opts: Vec<(usize, Option<usize>)> = vec![];
    for t in 0..st.busy.len() {
        if st.busy[t].is_some() {
            if t != cur || cur_can_continue {
                opts.push((t, None));
            }
        } else {
            for &cl in &st.ready {
                opts.push((t, Some(cl)));
            }
        }
    }
    if opts.is_empty() {
        return None;
    }
    Some(opts[c % opts.len()])
}

fn hand(mut g: std::sync::MutexGuard<Option<State>>, me: usize, to: (usize, Option<usize>)) {
    let st = g.as_mut().unwrap();
    if let Some(cl) = to.1 {
        st.ready.retain(|x| *x != cl);
        st.busy[to.0] = Some(cl);
        st.give[to.0] = Some(cl);
        if let Some(l) = st.last_thread[cl] {
            if l != to.0 {
                count(K::Migrate);
            }
        }
        st.last_thread[cl] = Some(to.0);
    }
    if to.0 != me {
        count(K::Switch);
        ev("switch", me as u64, to.0 as u64);
        let t = st.threads[to.0].clone();
        drop(g);
        pass(to.0, Some(t));
    }
}

/// A point where another thread may be let run (inside a library call if `inside`).
#[inline]
pub fn yield_point(inside: bool) {
    if !ON.load(SeqCst) {
        return;
    }
    let _h = crate::heap::enter(false);
    let me = ME.get();
    hold(me, inside);
    let mut g = ST.lock().unwrap();
    let to = choose(g.as_mut().unwrap(), me, true).unwrap();
    if to == (me, None) {
        return;
    }
    if inside {
        count(K::Preempt);
    }
    hand(g, me, to);
    wait_for(me, inside);
}

/// Points between two preemptions once the scenario lists no more (a thread waiting for another must not wait for ever).
const FAR: u32 = 50_000;

/// Called inside the library, when the distance to the next preemption has been covered.
pub fn preempt() {
    let _h = crate::heap::enter(false);
    if !ON.load(SeqCst) {
        return;
    }
    let me = ME.get();
    hold(me, true);
    let mut g = ST.lock().unwrap();
    let st = g.as_mut().unwrap();
    let n = st.next_gap;
    st.next_gap += 1;
    let whom = st.gaps.get(n).map_or(n as u64, |x| x & 15) as usize;
    crate::preempt::next_in(st.gaps.get(n + 1).map_or(FAR, |x| (x >> 4) as u32));
    let mut opts: Vec<(usize, Option<usize>)> = vec![];
    for t in (0..st.busy.len()).filter(|t| *t != me) {
        if st.busy[t].is_some() {
            opts.push((t, None));
        } else {
            opts.extend(st.ready.iter().map(|cl| (t, Some(*cl))))
        }
    }
    if opts.is_empty() {
        return;
    }
    count(K::PreemptInside);
    let to = opts[whom % opts.len()];
    hand(g, me, to);
    wait_for(me, true);
}

/// Runs clients `0..n` on `threads` real threads. `serve(client)` performs one operation and says whether more are left.
pub fn run(n: usize, threads: usize, sched: &[u8], gaps: &[u64], serve: &(dyn Fn(usize) -> bool + Sync)) {
    let st = State {
        sched: sched.to_vec(),
        next: 0,
        busy: vec![None; threads],
        ready: (0..n).collect(),
        threads: vec![],
        last_thread: vec![None; n],
        gaps: gaps.to_vec(),
        next_gap: 0,
        give: vec![None; threads],
        done: false,
    };
    *ST.lock().unwrap() = Some(st);
    *TIDS.lock().unwrap() = vec![String::new(); threads];
    TURN.store(MAIN, SeqCst);
    BLOCKED.store(0, SeqCst);
    let preempted = !gaps.is_empty();
    crate::preempt::next_in(gaps.first().map_or(FAR, |x| (x >> 4) as u32));
    std::thread::scope(|s| {
        let main = std::thread::current();
        let mut hs = vec![];
        for t in 0..threads {
            let main = main.clone();
            hs.push(std::thread::Builder::new().stack_size(512 << 10).spawn_scoped(s, move || worker(t, serve, main, preempted)).expect("harness: thread"));
        }
        ST.lock().unwrap().as_mut().unwrap().threads = hs.iter().map(|h| h.thread().clone()).collect();
        ON.store(true, SeqCst);
        let mut g = ST.lock().unwrap();
        match choose(g.as_mut().unwrap(), MAIN, false) {
            Some(to) => {
                hand(g, MAIN, to);
                wait_for(MAIN, false);
            }
            None => drop(g),
        }
        ON.store(false, SeqCst);
        let mut g = ST.lock().unwrap();
        g.as_mut().unwrap().done = true;
        drop(g);
        // let every thread see `done`, one at a time
        for (t, h) in hs.into_iter().enumerate() {
            pass(t, Some(h.thread().clone()));
            h.join().expect("harness: simulated thread");
        }
    });
    *ST.lock().unwrap() = None;
}

/// Calls the library while its thread is being torn down, thread-local values and all.
struct LastWords(u8);
impl Drop for LastWords {
    fn drop(&mut self) {
        count(K::Reenter);
        crate::nested::run(self.0)
    }
}
// Whichever way destructors go, the library's own thread-local values are gone when one of these has its turn.
thread_local! {
    static FIRST: Cell<Option<LastWords>> = const { Cell::new(None) };
    static LAST: Cell<Option<LastWords>> = const { Cell::new(None) };
}
/// Registers the destructors at the start of a thread and at its end.
struct Teardown(u8);
impl Teardown {
    fn new(k: u8) -> Teardown {
        FIRST.set(Some(LastWords(k)));
        Teardown(k)
    }
}
impl Drop for Teardown {
    fn drop(&mut self) {
        LAST.set(Some(LastWords(self.0.wrapping_add(77))))
    }
}

fn worker(me: usize, serve: &(dyn Fn(usize) -> bool + Sync), main: Thread, preempted: bool) {
    ME.set(me);
    let k = ST.lock().unwrap().as_ref().unwrap().sched.iter().fold(me as u8, |a, x| a.wrapping_mul(31).wrapping_add(*x));
    let _t = Teardown::new(k);
    {
        let id = std::fs::read_link("/proc/thread-self").map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
        TIDS.lock().unwrap()[me] = id;
    }
    crate::heap::preempted(preempted);
    loop {
        wait_for(me, false);
        let mut cl = {
            let mut g = ST.lock().unwrap();
            let st = g.as_mut().unwrap();
            if st.done {
                return;
            }
            st.give[me].take().expect("harness: baton without work")
        };
        loop {
            let more = serve(cl);
            hold(me, false);
            let mut g = ST.lock().unwrap();
            let st = g.as_mut().unwrap();
            st.busy[me] = None;
            if more {
                st.ready.push(cl);
                st.ready.sort();
            }
            match choose(st, me, false) {
                None => {
                    drop(g);
                    pass(MAIN, Some(main));
                    wait_for(me, false);
                    return;
                }
                Some(to) => {
                    hand(g, me, to);
                    if to.0 != me {
                        break;
                    }
                    cl = ST.lock().unwrap().as_mut().unwrap().give[me].take().unwrap();
                }
            }
        }
    }
}
