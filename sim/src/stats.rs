//! What a worker reached: abstract states, scenarios, code points. Written to files the supervisor merges.
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

const BITS: usize = 1 << 25;
static STATES: [AtomicU64; BITS / 64] = [const { AtomicU64::new(0) }; BITS / 64];
static CPS: [AtomicU64; 0x110000 / 64] = [const { AtomicU64::new(0) }; 0x110000 / 64];
thread_local! { static SCEN: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) }; }

#[inline]
pub fn state(x: u64) {
    let i = (x >> 20) as usize % BITS;
    STATES[i / 64].fetch_or(1 << (i % 64), Relaxed);
}
#[inline]
pub fn cp(c: char) {
    let i = c as usize;
    CPS[i / 64].fetch_or(1 << (i % 64), Relaxed);
}
/// Records a non-trivial scenario.
pub fn scenario(h: u64) {
    let _g = crate::heap::enter(false);
    SCEN.with(|s| {
        let mut s = s.borrow_mut();
        if s.len() < 2_000_000 {
            s.push(h)
        }
    })
}

/// (state bitmap, code point bitmap, scenario hashes), as little-endian words.
pub fn dump() -> [Vec<u8>; 3] {
    let b = |v: &mut dyn Iterator<Item = u64>| v.flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    let mut s = SCEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
    s.sort_unstable();
    s.dedup();
    [b(&mut STATES.iter().map(|x| x.load(Relaxed))), b(&mut CPS.iter().map(|x| x.load(Relaxed))), b(&mut s.into_iter())]
}
