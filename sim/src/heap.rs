//! The simulated heap: a global allocator that tells library allocations from the simulator's own, counts live library
//! bytes, and fails library allocations on demand. An allocation failure surfaces as an unwinding `AllocFault`.
use std::alloc::{GlobalAlloc, Layout, System};
use crate::preempt::{arm, calm};
use std::cell::Cell;

pub struct Heap;
pub struct AllocFault;

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    // Fail library allocation number FAIL_AT (1-based) and, if FAIL_LEN > 1, the ones after it.
    static FAIL_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static FAIL_LEN: Cell<u64> = const { Cell::new(0) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    // This thread belongs to a run with preemption inside the library.
    static PREEMPTED: Cell<bool> = const { Cell::new(false) };
}
pub fn preempted(on: bool) {
    PREEMPTED.set(on)
}

const H: usize = 16;
/// Memory the library may hold at once in one worker thread: far above what any scenario needs.
const CAP: i64 = 512 << 20;
const TAG: u64 = 0x5EA1_7A66_0000_0001;
const NOTAG: u64 = 0x5EA1_7A66_0000_0000;

fn wrap(l: Layout) -> (Layout, usize) {
    let off = H.max(l.align());
    (unsafe { Layout::from_size_align_unchecked(l.size() + off, off) }, off)
}

/// True if this library allocation must fail.
fn refuse(size: usize) -> bool {
    if !IN_LIB.get() {
        return false;
    }
    if LIVE.get() + size as i64 > CAP {
        return true; // runaway library: an allocation failure nobody planned, reported as a violation
    }
    let n = COUNT.get() + 1;
    COUNT.set(n);
    let at = FAIL_AT.get();
    if n >= at && n - at < FAIL_LEN.get() {
        FAILED.set(FAILED.get() + 1);
        return true;
    }
    false
}

fn account(d: i64) {
    let l = LIVE.get() + d;
    LIVE.set(l);
    if l > PEAK.get() {
        PEAK.set(l);
    }
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _c = calm();
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        let (w, off) = wrap(l);
        let p = System.alloc(w);
        if p.is_null() {
            return p;
        }
        let tag = if IN_LIB.get() {
            account(l.size() as i64);
            TAG
        } else {
            NOTAG
        };
        let q = p.add(off);
        (q.sub(8) as *mut u64).write(tag);
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let _c = calm();
        let (w, off) = wrap(l);
        if (q.sub(8) as *mut u64).read() == TAG {
            account(-(l.size() as i64));
        }
        System.dealloc(q.sub(off), w)
    }
    unsafe fn realloc(&self, q: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _c = calm();
        if refuse(n) {
            return std::ptr::null_mut();
        }
        let (w, off) = wrap(l);
        let tag = (q.sub(8) as *mut u64).read();
        let p = System.realloc(q.sub(off), w, n + off);
        if p.is_null() {
            return p;
        }
        if tag == TAG {
            account(n as i64 - l.size() as i64);
            crate::preempt::copied(l.size().min(n));
        }
        p.add(off)
    }
}

/// While the guard lives, allocations are the library's (or, with `false`, the simulator's).
pub struct Side(bool);
pub fn enter(lib: bool) -> Side {
    if lib {
        let s = Side(IN_LIB.replace(true));
        arm(PREEMPTED.get());
        s
    } else {
        arm(false);
        Side(IN_LIB.replace(false))
    }
}
impl Drop for Side {
    fn drop(&mut self) {
        if self.0 {
            IN_LIB.set(true);
            arm(PREEMPTED.get())
        } else {
            arm(false);
            IN_LIB.set(false)
        }
    }
}

pub fn in_lib() -> bool {
    IN_LIB.get()
}
pub fn reset() {
    IN_LIB.set(false);
    COUNT.set(0);
    FAIL_AT.set(u64::MAX);
    FAIL_LEN.set(0);
    FAILED.set(0);
    LIVE.set(0);
    PEAK.set(0);
}
/// From now on fail library allocations `at .. at + len` (counting from 1 = the next one).
pub fn plan_failure(at: u64, len: u64) {
    FAIL_AT.set(COUNT.get().saturating_add(at));
    FAIL_LEN.set(len);
}
pub fn no_failure() {
    FAIL_AT.set(u64::MAX);
    FAIL_LEN.set(0);
}
pub fn failed() -> u64 {
    FAILED.get()
}
pub fn allocations() -> u64 {
    COUNT.get()
}
pub fn live() -> i64 {
    LIVE.get()
}
pub fn peak() -> i64 {
    PEAK.get()
}

/// Runs when an allocation failed: the failure becomes an unwinding the simulator can tell from everything else.
pub fn hook(_: Layout) {
    let _g = enter(false);
    std::panic::resume_unwind(Box::new(AllocFault));
}
