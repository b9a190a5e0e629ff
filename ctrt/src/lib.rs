//! Receives the events of LLVM's SanitizerCoverage instrumentation (every control-flow edge, every load and store
//! address) and folds them into one number per execution. This crate itself is built without instrumentation.
//! Single threaded: one explorer process, one trace.
#![no_std]
#![allow(static_mut_refs)]

static mut ON: bool = false;
static mut H: u64 = 0;
static mut N: u64 = 0;
/// recording of single events, to find the first difference of two executions
static mut REC: bool = false;
pub const CAP: usize = 1 << 16;
static mut EVENTS: [(u8, usize); CAP] = [(0, 0); CAP];
/// stores outside [LO, HI) go to memory that is not the caller's stack frame
static mut SHARED_STORES: u64 = 0;
static mut LAST_SHARED: usize = 0;
static mut LO: usize = 0;
static mut HI: usize = usize::MAX;

#[inline(always)]
fn event(kind: u8, a: usize) {
    unsafe {
        if ON {
            H = (H.rotate_left(7) ^ a as u64 ^ (kind as u64) << 56).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            if REC && (N as usize) < CAP {
                EVENTS[N as usize] = (kind, a);
            }
            N += 1;
            if kind & 0x40 != 0 && (a < LO || a >= HI) {
                SHARED_STORES += 1;
                LAST_SHARED = a;
            }
        }
    }
}

pub fn start(record: bool) {
    unsafe {
        H = 0;
        N = 0;
        SHARED_STORES = 0;
        REC = record;
        ON = true;
    }
}
/// (hash, number of events)
pub fn stop() -> (u64, u64) {
    unsafe {
        ON = false;
        (H, N)
    }
}
/// stores into [lo, hi) are the operation's own; others are counted
pub fn own(lo: usize, hi: usize) {
    unsafe {
        LO = lo;
        HI = hi;
    }
}
pub fn shared_stores() -> (u64, usize) {
    unsafe { (SHARED_STORES, LAST_SHARED) }
}
pub fn recorded(i: usize) -> (u8, usize) {
    unsafe { EVENTS[i] }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    event(0, g as usize)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_div4(_: u32) {
    event(0x20, 0)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_div8(_: u64) {
    event(0x20, 0)
}
macro_rules! mem {
    ($($l:ident $s:ident $n:literal),*) => {$(
        #[no_mangle]
        pub extern "C" fn $l(a: *const u8) { event(0x80 | $n, a as usize) }
        #[no_mangle]
        pub extern "C" fn $s(a: *const u8) { event(0x40 | $n, a as usize) }
    )*};
}
mem!(
    __sanitizer_cov_load1 __sanitizer_cov_store1 1,
    __sanitizer_cov_load2 __sanitizer_cov_store2 2,
    __sanitizer_cov_load4 __sanitizer_cov_store4 4,
    __sanitizer_cov_load8 __sanitizer_cov_store8 8,
    __sanitizer_cov_load16 __sanitizer_cov_store16 16
);
