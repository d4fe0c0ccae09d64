//! Run-time half of the control-flow / memory-address tracer (property C14).
//!
//! The crate under test is compiled with LLVM SanitizerCoverage; the callbacks
//! below fold every executed edge, every load address and every store address
//! into a running hash.  This crate itself is never instrumented.
//!
//! While a trace is being recorded, heap allocations are served from a bump
//! arena that is reset at the start of the trace, so that addresses are a
//! function of the executed code alone.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

static mut ON: bool = false;
static mut H: [u64; 3] = [0; 3];
static mut N: [u64; 3] = [0; 3];


const K: u64 = 0x9E37_79B9_7F4A_7C15;

#[inline(always)]
unsafe fn fold(k: usize, x: u64) {
    if ON {
        H[k] = (H[k].rotate_left(5) ^ x).wrapping_mul(K);
        N[k] = N[k].wrapping_add(1);
    }
}

// Guard-numbered edges: every instrumented edge gets its own index.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    static NEXT: AtomicUsize = AtomicUsize::new(1);
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        *p = NEXT.fetch_add(1, Ordering::Relaxed) as u32;
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    fold(0, *g as u64);
}

macro_rules! acc {
    ($($l:ident $s:ident),*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $l(p: usize) { fold(1, p as u64); }
        #[no_mangle] pub unsafe extern "C" fn $s(p: usize) { fold(2, p as u64); }
    )*}
}
acc!(__sanitizer_cov_load1 __sanitizer_cov_store1, __sanitizer_cov_load2 __sanitizer_cov_store2,
     __sanitizer_cov_load4 __sanitizer_cov_store4, __sanitizer_cov_load8 __sanitizer_cov_store8,
     __sanitizer_cov_load16 __sanitizer_cov_store16);

#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct Trace {
    pub hash: [u64; 3],
    pub count: [u64; 3],
}

pub fn start() {
    ARENA_USED.store(0, Ordering::Relaxed);
    ARENA_ON.store(true, Ordering::Relaxed);
    unsafe {
        H = [0; 3];
        N = [0; 3];
        ON = true;
    }
}

pub fn stop() -> Trace {
    unsafe {
        ON = false;
        ARENA_ON.store(false, Ordering::Relaxed);
        Trace { hash: H, count: N }
    }
}

const ARENA: usize = 8 << 20;
#[repr(align(4096))]
struct Mem(UnsafeCell<[u8; ARENA]>);
unsafe impl Sync for Mem {}
static MEM: Mem = Mem(UnsafeCell::new([0; ARENA]));
static ARENA_ON: AtomicBool = AtomicBool::new(false);
static ARENA_USED: AtomicUsize = AtomicUsize::new(0);

pub struct TraceAlloc;
unsafe impl GlobalAlloc for TraceAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ARENA_ON.load(Ordering::Relaxed) {
            let used = ARENA_USED.load(Ordering::Relaxed);
            let at = (used + l.align() - 1) & !(l.align() - 1);
            if at + l.size() <= ARENA {
                ARENA_USED.store(at + l.size(), Ordering::Relaxed);
                return (MEM.0.get() as *mut u8).add(at);
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let base = MEM.0.get() as usize;
        if (p as usize) < base || (p as usize) >= base + ARENA {
            System.dealloc(p, l)
        }
    }
}
