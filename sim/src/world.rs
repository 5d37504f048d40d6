//! The simulated environment: source, sink, clock, event log, fault counters. Everything the library calls out to.
use crate::heap;
use crate::scenario::Ev;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::iter::FusedIterator;
use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

// ---- event log, clock, counters -------------------------------------------------------------------------------------

pub static CLOCK: AtomicU64 = AtomicU64::new(0); // simulated microseconds
static DIGEST: AtomicU64 = AtomicU64::new(0);
static SEQ: AtomicU64 = AtomicU64::new(0);
pub static TRACE_ON: AtomicBool = AtomicBool::new(false);
static TRACE: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub static NESTED: Mutex<Option<(String, String)>> = Mutex::new(None);

macro_rules! counters { ($($id:ident $name:literal),* $(,)?) => {
    #[allow(non_camel_case_types)] #[derive(Clone, Copy)] pub enum K { $($id),*, N }
    pub const KNAMES: &[&str] = &[$($name),*];
} }
counters! {
    Poll "source_polls", Deliver "chars_delivered", Out "outputs_checked",
    Stall "fault_source_stall", Gap "fault_temporary_end", Cut "fault_cut_off", SrcUnwind "fault_source_unwind",
    SinkErr "fault_sink_error", SinkUnwind "fault_sink_unwind", CbUnwind "fault_callback_unwind",
    AllocFail "fault_allocation_failure", Reenter "fault_reentrant_call", Clone "clones", Drop "midstream_drops", Display "displays",
    Switch "thread_switches", Preempt "preemptions_inside_library", PreemptInside "preemptions_between_instructions", Stolen "batons_taken_from_blocked_threads", Migrate "stream_migrations", Crash "fault_crash_restart",
    Commit "checkpoints_committed", Damage "fault_damage_bytes_or_chars", PostEnd "polls_after_end", Verdicts "verdicts_checked",
    Queries "char_queries_checked", Hints "size_hints_checked", Finish "by_value_consumptions", PartialOps "skipping_or_short_circuit_ops",
    HeapFree "calls_with_heap_exhausted", LibAllocs "library_allocations", BoundChecks "memory_bound_checks", Laws "laws_checked",
    Contained "containments_checked", NeedChecks "read_ahead_checks", Steps "steps_inside_library",
}
pub static COUNTS: [AtomicU64; K::N as usize] = [const { AtomicU64::new(0) }; K::N as usize];
#[inline]
pub fn count(k: K) {
    COUNTS[k as usize].fetch_add(1, Relaxed);
}
pub fn count_n(k: K, n: u64) {
    COUNTS[k as usize].fetch_add(n, Relaxed);
}

/// Records an event. The log is a pure function of scenario and code; nothing is drawn or read from outside.
#[inline]
pub fn ev(kind: &'static str, a: u64, b: u64) {
    let n = SEQ.fetch_add(1, Relaxed);
    let d = DIGEST.load(Relaxed);
    let k = kind.as_bytes();
    let tag = (k[0] as u64) << 40 | (k[k.len() - 1] as u64) << 32 | (k.len() as u64) << 48;
    DIGEST.store(crate::rng::mix(d ^ tag ^ a.rotate_left(20) ^ b.wrapping_mul(0x9E37_79B9)), Relaxed);
    if TRACE_ON.load(Relaxed) {
        let _g = heap::enter(false);
        let t = CLOCK.load(Relaxed);
        TRACE.lock().unwrap().push(format!("{:5} t={}us thr={} {} {:x} {:x}", n, t, crate::sched::me(), kind, a, b));
    }
}
pub fn note(s: impl FnOnce() -> String) {
    if TRACE_ON.load(Relaxed) {
        let _g = heap::enter(false);
        let s = s();
        TRACE.lock().unwrap().push(format!("      {}", s));
    }
}
pub fn take_trace() -> Vec<String> {
    std::mem::take(&mut *TRACE.lock().unwrap())
}
pub fn begin_run() {
    DIGEST.store(0, Relaxed);
    SEQ.store(0, Relaxed);
    *NESTED.lock().unwrap() = None;
    take_trace();
    heap::reset();
}
pub fn digest() -> u64 {
    crate::rng::mix(DIGEST.load(Relaxed) ^ SEQ.load(Relaxed))
}
pub fn events() -> u64 {
    SEQ.load(Relaxed)
}

// ---- faults as unwinding --------------------------------------------------------------------------------------------

pub struct SrcFault;
pub struct SinkFault;
pub struct CbFault;
pub struct Runaway;

pub enum Fault {
    Source,
    Sink,
    Callback,
    Alloc,
    Runaway,
    /// A panic of the library itself.
    Panic(String),
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; static IN_CALL: Cell<u32> = const { Cell::new(0) };
    /// Source polls within the current library call.
    static POLLS: Cell<u64> = const { Cell::new(0) }; }

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|i| {
        let _g = heap::enter(false);
        let m = format!("{}", i);
        if IN_CALL.get() == 0 {
            eprintln!("harness: {}", m);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
    std::alloc::set_alloc_error_hook(heap::hook);
}

fn classify(p: Box<dyn Any + Send>) -> Fault {
    if p.is::<SrcFault>() {
        Fault::Source
    } else if p.is::<SinkFault>() {
        Fault::Sink
    } else if p.is::<CbFault>() {
        Fault::Callback
    } else if p.is::<heap::AllocFault>() {
        Fault::Alloc
    } else if p.is::<Runaway>() {
        Fault::Runaway
    } else {
        Fault::Panic(LAST_PANIC.with(|p| p.borrow().clone()))
    }
}

/// One call into the library.
pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, Fault> {
    IN_CALL.set(IN_CALL.get() + 1);
    let polls = POLLS.replace(0);
    let r = {
        let _g = heap::enter(true);
        catch_unwind(AssertUnwindSafe(f))
    };
    IN_CALL.set(IN_CALL.get() - 1);
    POLLS.set(polls);
    r.map_err(|p| {
        let _g = heap::enter(false);
        classify(p)
    })
}

fn unwind<T: Any + Send>(x: T) -> ! {
    resume_unwind(Box::new(x))
}

// ---- source ---------------------------------------------------------------------------------------------------------

#[derive(Default)]
pub struct Probe {
    /// Calls that returned a character or an end.
    pub answered: AtomicU32,
    /// Calls made after the first end was shown.
    pub after_end: AtomicU32,
    /// Calls that unwound.
    pub faults: AtomicU32,
}

thread_local! { pub static LAST_CLONE: RefCell<Option<Arc<Probe>>> = const { RefCell::new(None) }; }

thread_local! {
    /// The n-th copy of a source made from now on unwinds (0: none).
    pub static TEAR: Cell<u32> = const { Cell::new(0) };
}
/// Simulated sources in existence.
pub static LIVE: AtomicI64 = AtomicI64::new(0);

/// `hint` of a source that claims to go on for ever.
pub const ENDLESS: u8 = 7;

pub struct Feed {
    pub evs: Vec<Ev>,
    pub hint: u8,
    pub fused: bool,
}

struct SrcState {
    feed: Arc<Feed>,
    probe: Arc<Probe>,
    pos: usize,
    shown_end: bool,
}
/// The simulated character source.
pub struct Src(ManuallyDrop<SrcState>);

impl Src {
    pub fn new(feed: Arc<Feed>) -> (Src, Arc<Probe>) {
        let probe = Arc::new(Probe::default());
        LIVE.fetch_add(1, Relaxed);
        (Src(ManuallyDrop::new(SrcState { feed, probe: probe.clone(), pos: 0, shown_end: false })), probe)
    }
}
impl Drop for Src {
    fn drop(&mut self) {
        let _g = heap::enter(false);
        LIVE.fetch_sub(1, Relaxed);
        unsafe { ManuallyDrop::drop(&mut self.0) }
    }
}
impl Clone for Src {
    fn clone(&self) -> Src {
        let _g = heap::enter(false);
        let s = &*self.0;
        let left = TEAR.get();
        if left > 0 {
            TEAR.set(left - 1);
            if left == 1 {
                count(K::SrcUnwind);
                ev("copy-unwinds", s.pos as u64, 0);
                unwind(SrcFault);
            }
        }
        LIVE.fetch_add(1, Relaxed);
        let p = Probe { answered: s.probe.answered.load(Relaxed).into(), after_end: s.probe.after_end.load(Relaxed).into(), faults: s.probe.faults.load(Relaxed).into() };
        let p = Arc::new(p);
        LAST_CLONE.with(|l| *l.borrow_mut() = Some(p.clone()));
        Src(ManuallyDrop::new(SrcState { feed: s.feed.clone(), probe: p, pos: s.pos, shown_end: s.shown_end }))
    }
}
impl Iterator for Src {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let _g = heap::enter(false);
        let s = &mut *self.0;
        count(K::Poll);
        CLOCK.fetch_add(1, Relaxed);
        let n = POLLS.get() + 1;
        POLLS.set(n);
        if n > s.feed.evs.len() as u64 * 4 + 4096 {
            ev("runaway", s.pos as u64, 0);
            unwind(Runaway);
        }
        if s.shown_end {
            s.probe.after_end.fetch_add(1, Relaxed);
            count(K::PostEnd);
        }
        crate::sched::yield_point(true);
        loop {
            let e = s.feed.evs.get(s.pos).copied();
            if e.is_some() {
                s.pos += 1;
            }
            let answered = |s: &SrcState| {
                if !(s.feed.fused && s.shown_end) {
                    s.probe.answered.fetch_add(1, Relaxed);
                }
            };
            match e {
                Some(Ev::Ch(c)) => {
                    answered(s);
                    count(K::Deliver);
                    ev("deliver", c as u64, s.pos as u64);
                    return Some(c);
                }
                Some(Ev::Stall(t)) => {
                    CLOCK.fetch_add(t as u64 * 1000, Relaxed);
                    count(K::Stall);
                    ev("stall", t as u64, s.pos as u64);
                    crate::sched::yield_point(true);
                }
                Some(Ev::Reenter(k)) => {
                    count(K::Reenter);
                    ev("reenter", k as u64, s.pos as u64);
                    crate::nested::run(k);
                }
                Some(Ev::Fault) => {
                    s.probe.faults.fetch_add(1, Relaxed);
                    count(K::SrcUnwind);
                    ev("source-unwinds", s.pos as u64, 0);
                    unwind(SrcFault);
                }
                Some(Ev::Gap) => {
                    answered(s);
                    s.shown_end = true;
                    count(K::Gap);
                    ev("gap", s.pos as u64, 0);
                    return None;
                }
                None => {
                    answered(s);
                    s.shown_end = true;
                    ev("end", s.pos as u64, 0);
                    return None;
                }
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let _c = crate::preempt::calm();
        let s = &*self.0;
        let mut n = 0;
        for e in s.feed.evs.get(s.pos..).unwrap_or(&[]) {
            match e {
                Ev::Ch(_) => n += 1,
                Ev::Gap => break,
                _ => (),
            }
        }
        match s.feed.hint % 8 {
            0 => (0, None),
            1 => (n, Some(n)),
            2 => (n / 2, Some(2 * n + 3)),
            3 => (n, None),
            4 => (0, Some(n)),
            5 => (n, Some(usize::MAX)),
            6 => (0, Some(usize::MAX)),
            // `ENDLESS`: nobody reads this source to its end, so it may claim to have none.
            _ => (usize::MAX, None),
        }
    }
}

/// The same, promising to stay ended (used only with feeds without gaps).
#[derive(Clone)]
pub struct FSrc(pub Src);
impl Iterator for FSrc {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl FusedIterator for FSrc {}

// ---- sink -----------------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SinkMode {
    Good,
    /// Refuses one write, then would accept again.
    ErrOnce,
    ErrForever,
    Unwind,
    /// Accepts, calling back into the library at each write.
    Reenter,
}
/// The simulated writer: accepts `cap` bytes (whole characters), then misbehaves.
pub struct Sink {
    pub mode: SinkMode,
    pub cap: usize,
    pub got: String,
    pub failed: bool,
    pub after_failure: bool,
    pub calls: u32,
}
impl Sink {
    pub fn new(mode: SinkMode, cap: usize) -> Sink {
        Sink { mode, cap, got: String::new(), failed: false, after_failure: false, calls: 0 }
    }
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let _g = heap::enter(false);
        self.calls += 1;
        ev("write", s.len() as u64, self.got.len() as u64);
        crate::sched::yield_point(true);
        if self.failed && !s.is_empty() {
            self.after_failure = true;
            if self.mode == SinkMode::ErrForever {
                return Err(std::fmt::Error);
            }
        }
        for c in s.chars() {
            if matches!(self.mode, SinkMode::ErrOnce | SinkMode::ErrForever | SinkMode::Unwind) && !self.failed && self.got.len() + c.len_utf8() > self.cap {
                self.failed = true;
                if self.mode == SinkMode::Unwind {
                    count(K::SinkUnwind);
                    ev("sink-unwinds", self.got.len() as u64, 0);
                    unwind(SinkFault);
                }
                count(K::SinkErr);
                ev("sink-fails", self.got.len() as u64, 0);
                return Err(std::fmt::Error);
            }
            self.got.push(c);
        }
        if self.mode == SinkMode::Reenter {
            count(K::Reenter);
            crate::nested::run(self.calls as u8);
        }
        Ok(())
    }
}

/// Unwinds out of a callback.
pub fn callback_fault() -> ! {
    let _g = heap::enter(false);
    count(K::CbUnwind);
    unwind(CbFault)
}
