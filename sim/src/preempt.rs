//! Preemption inside library code. The third build instruments every basic block, load and store of the crate (and of the
//! simulator) with a call to one of the symbols below. While the library is running, each such call is a point at which
//! the scenario may have another thread run: the scenario lists how many points apart the preemptions are.
//! In the two other builds nothing calls these symbols and only the seam crossings remain.
use std::cell::Cell;
use std::sync::atomic::{compiler_fence, AtomicBool, AtomicU32, AtomicU64, Ordering::Relaxed, Ordering::SeqCst};

/// 1 while this thread is inside the library in a run with preemption.
#[no_mangle]
#[thread_local]
static UNSIM_ARMED: Cell<u32> = Cell::new(0);
/// Points to go until the next preemption.
#[no_mangle]
static UNSIM_LEFT: AtomicU32 = AtomicU32::new(0);

std::arch::global_asm!(
    ".text",
    ".globl __sanitizer_cov_trace_pc, __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16",
    ".globl __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8, __sanitizer_cov_store16",
    "__sanitizer_cov_trace_pc:",
    "__sanitizer_cov_load1:",
    "__sanitizer_cov_load2:",
    "__sanitizer_cov_load4:",
    "__sanitizer_cov_load8:",
    "__sanitizer_cov_load16:",
    "__sanitizer_cov_store1:",
    "__sanitizer_cov_store2:",
    "__sanitizer_cov_store4:",
    "__sanitizer_cov_store8:",
    "__sanitizer_cov_store16:",
    "cmpl $0, %fs:UNSIM_ARMED@tpoff",
    "jne 2f",
    "ret",
    "2:",
    "subl $1, {left}(%rip)",
    "je 3f",
    "ret",
    "3:",
    "movl $0, %fs:UNSIM_ARMED@tpoff",
    "subq $8, %rsp",
    "callq {handler}",
    "addq $8, %rsp",
    "movl $1, %fs:UNSIM_ARMED@tpoff",
    "ret",
    left = sym UNSIM_LEFT,
    handler = sym unsim_preempt,
    options(att_syntax)
);

extern "C" fn unsim_preempt() {
    if METERING.load(Relaxed) {
        ROUNDS.fetch_add(1, Relaxed);
        next_in(ROUND);
        return;
    }
    crate::sched::preempt()
}

// ---- steps ----------------------------------------------------------------------------------------------------------
// The same points serve as a clock: steps taken inside the library, the same number at every execution.

static METERING: AtomicBool = AtomicBool::new(false);
static ROUNDS: AtomicU64 = AtomicU64::new(0);
const ROUND: u32 = 1 << 31;
/// Bytes copied, moved or filled by the library (these happen in the C library, which is not instrumented).
#[no_mangle]
static UNSIM_BYTES: AtomicU64 = AtomicU64::new(0);

#[cfg(feature = "instrumented")]
std::arch::global_asm!(
    ".text",
    ".globl memcpy, memmove, memset",
    "memcpy:",
    "memmove:",
    "cmpl $0, %fs:UNSIM_ARMED@tpoff",
    "je 2f",
    "addq %rdx, {bytes}(%rip)",
    "2:",
    "movq %rdi, %rax",
    "movq %rdx, %rcx",
    "movq %rdi, %r8",
    "subq %rsi, %r8",
    "cmpq %rdx, %r8",
    "jb 3f",
    "6:", // 16 bytes at a time, forwards
    "cmpq $16, %rcx",
    "jb 7f",
    "movdqu (%rsi), %xmm0",
    "movdqu %xmm0, (%rdi)",
    "addq $16, %rsi",
    "addq $16, %rdi",
    "subq $16, %rcx",
    "jmp 6b",
    "7:",
    "testq %rcx, %rcx",
    "je 5f",
    "8:",
    "movb (%rsi), %r8b",
    "movb %r8b, (%rdi)",
    "incq %rsi",
    "incq %rdi",
    "decq %rcx",
    "jne 8b",
    "ret",
    "3:", // the target begins inside the source: backwards
    "cmpq $16, %rcx",
    "jb 9f",
    "movdqu -16(%rsi,%rcx), %xmm0",
    "movdqu %xmm0, -16(%rdi,%rcx)",
    "subq $16, %rcx",
    "jmp 3b",
    "9:",
    "testq %rcx, %rcx",
    "je 5f",
    "4:",
    "movb -1(%rsi,%rcx), %r8b",
    "movb %r8b, -1(%rdi,%rcx)",
    "decq %rcx",
    "jne 4b",
    "5:",
    "ret",
    "memset:",
    "cmpl $0, %fs:UNSIM_ARMED@tpoff",
    "je 2f",
    "addq %rdx, {bytes}(%rip)",
    "2:",
    "movq %rdi, %r8",
    "movl %esi, %eax",
    "movq %rdx, %rcx",
    "rep stosb",
    "movq %r8, %rax",
    "ret",
    bytes = sym UNSIM_BYTES,
    options(att_syntax)
);

/// Counts from here on, on a single thread; `copied` bytes at a time make a step.
pub fn meter(on: bool) {
    METERING.store(on, Relaxed);
    crate::heap::preempted(on);
    ROUNDS.store(0, Relaxed);
    UNSIM_BYTES.store(0, Relaxed);
    next_in(ROUND);
}
/// Bytes the allocator copied for the library.
pub fn copied(n: usize) {
    UNSIM_BYTES.fetch_add(n as u64, Relaxed);
}
pub fn steps() -> u64 {
    ROUNDS.load(Relaxed) * ROUND as u64 + (ROUND - UNSIM_LEFT.load(Relaxed)) as u64 + UNSIM_BYTES.load(Relaxed) / 8
}

/// Sets the distance to the next preemption.
pub fn next_in(points: u32) {
    UNSIM_LEFT.store(points.max(1), Relaxed)
}
/// Entering (or leaving) library code, in a run with preemption.
#[inline]
pub fn arm(on: bool) {
    UNSIM_ARMED.set(on as u32);
    compiler_fence(SeqCst)
}
/// Until dropped, no preemption.
pub struct Calm(u32);
#[inline]
pub fn calm() -> Calm {
    let a = UNSIM_ARMED.get();
    if a != 0 {
        UNSIM_ARMED.set(0);
    }
    Calm(a)
}
impl Drop for Calm {
    #[inline]
    fn drop(&mut self) {
        if self.0 != 0 {
            UNSIM_ARMED.set(1)
        }
    }
}
