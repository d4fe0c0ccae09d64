//! Heap and stack used by the operations of one thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::mem::MaybeUninit;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Meter {
    /// bytes allocated and not given back, all operations together
    pub kept: i64,
    /// most bytes in use at a time
    pub peak: i64,
    /// deepest stack, in bytes
    pub stack: u64,
    pub operations: u64,
}
const ZERO: Meter = Meter { kept: 0, peak: 0, stack: 0, operations: 0 };

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static ON: Cell<bool> = const { Cell::new(false) };
    static SUM: Cell<Meter> = const { Cell::new(ZERO) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
}

#[allow(dead_code)]
pub struct CountAlloc;
unsafe impl GlobalAlloc for CountAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

pub fn switch(on: bool) -> Meter {
    ON.with(|x| x.set(on));
    SUM.with(|x| x.replace(ZERO))
}

const WORDS: usize = 1 << 17; // 1 MiB
const MARK: u64 = 0x5ca1_ab1e_0dd5_ba11;

/// Marks the stack below the caller's frame.
#[inline(never)]
fn paint() -> *mut u64 {
    let mut a = MaybeUninit::<[u64; WORDS]>::uninit();
    let p = a.as_mut_ptr() as *mut u64;
    for i in 0..WORDS {
        unsafe { p.add(i).write_volatile(MARK) };
    }
    std::hint::black_box(p)
}
/// Words of the marked region that are no longer marked, or lie above such.
#[inline(never)]
fn used(p: *mut u64) -> usize {
    (0..WORDS).find(|i| unsafe { p.add(*i).read_volatile() } != MARK).map_or(0, |i| WORDS - i)
}

#[inline(never)]
pub fn around(f: impl FnOnce() -> i32) -> i32 {
    if !ON.with(|x| x.get()) {
        return f();
    }
    let before = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(before));
    let p = paint();
    let r = f();
    let stack = 8 * used(p) as u64;
    SUM.with(|s| {
        let mut m = s.get();
        m.kept += LIVE.with(|l| l.get()) - before;
        m.peak = m.peak.max(PEAK.with(|p| p.get()) - before);
        m.stack = m.stack.max(stack);
        m.operations += 1;
        s.set(m);
    });
    r
}
