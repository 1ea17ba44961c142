//! The scheduling points of the interleaving explorer. The crate under test is compiled with
//! sanitizer-coverage call-backs at every basic block and at every load and store; this crate (which
//! is not instrumented) receives them and can stop a thread at the n-th one of a call.
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static STOP: Cell<u64> = const { Cell::new(u64::MAX) };
    static PAUSE: Cell<Option<fn()>> = const { Cell::new(None) };
    static STACK: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}

/// Loads and stores seen, and those of writable static memory and of the heap.
pub static ACCESSES: AtomicU64 = AtomicU64::new(0);
pub static STATIC_LOADS: AtomicU64 = AtomicU64::new(0);
pub static STATIC_STORES: AtomicU64 = AtomicU64::new(0);
pub static HEAP: AtomicU64 = AtomicU64::new(0);

extern "C" {
    static __executable_start: u8;
    static __data_start: u8;
    static _end: u8;
}

/// Tells which addresses belong to this thread alone: its stack, with its thread-local block on top.
pub fn own_stack(size: usize) {
    let x = 0u8;
    let top = &x as *const u8 as usize;
    STACK.with(|s| s.set((top.saturating_sub(size), top + 0x4000)));
}

/// Starts counting the points of a call; `pause` is called at the point `stop`.
pub fn start(stop: u64, pause: fn()) {
    COUNT.with(|c| c.set(0));
    STOP.with(|c| c.set(stop));
    PAUSE.with(|c| c.set(Some(pause)));
}

/// Number of points since `start`.
pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}

pub fn active(on: bool) {
    ACTIVE.with(|a| a.set(on));
}

#[inline]
fn point() {
    let n = COUNT.with(|c| {
        let n = c.get() + 1;
        c.set(n);
        n
    });
    if n == STOP.with(|s| s.get()) {
        ACTIVE.with(|a| a.set(false));
        if let Some(p) = PAUSE.with(|p| p.get()) {
            p();
        }
        ACTIVE.with(|a| a.set(true));
    }
}

#[inline]
fn access(a: usize, store: bool) {
    if !ACTIVE.with(|x| x.get()) {
        return;
    }
    ACCESSES.fetch_add(1, Relaxed);
    let (lo, hi) = STACK.with(|s| s.get());
    if a >= lo && a < hi {
        return;
    }
    let (text, data, end) = unsafe {
        (&__executable_start as *const u8 as usize, &__data_start as *const u8 as usize, &_end as *const u8 as usize)
    };
    if a >= text && a < data {
        return; // code and constants
    }
    if a >= data && a < end {
        if store { &STATIC_STORES } else { &STATIC_LOADS }.fetch_add(1, Relaxed);
    } else {
        HEAP.fetch_add(1, Relaxed);
    }
    point();
}

macro_rules! accesses {
    ($($l:ident $s:ident),*) => { $(
        /// # Safety
        /// Called by instrumented code only.
        #[no_mangle]
        pub unsafe extern "C" fn $l(a: *const u8) {
            access(a as usize, false)
        }
        /// # Safety
        /// Called by instrumented code only.
        #[no_mangle]
        pub unsafe extern "C" fn $s(a: *const u8) {
            access(a as usize, true)
        }
    )* };
}
accesses!(
    __sanitizer_cov_load1 __sanitizer_cov_store1,
    __sanitizer_cov_load2 __sanitizer_cov_store2,
    __sanitizer_cov_load4 __sanitizer_cov_store4,
    __sanitizer_cov_load8 __sanitizer_cov_store8,
    __sanitizer_cov_load16 __sanitizer_cov_store16
);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    if ACTIVE.with(|x| x.get()) {
        point();
    }
}
