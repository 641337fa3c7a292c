//! SanitizerCoverage callbacks: a deterministic count of executed basic-block
//! edges of the crate under test (fuel), and edge coverage. A counting allocator
//! adds the memory that is asked for, and a clock of the thread its CPU time.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

pub const MAP: usize = 1 << 16;

pub struct Shared(UnsafeCell<[u8; MAP]>);
unsafe impl Sync for Shared {}
static HITS: Shared = Shared(UnsafeCell::new([0; MAP]));
static mut NGUARDS: u32 = 0;
static mut STEPS: u64 = 0;
static mut LIMIT: u64 = u64::MAX;

/// Exit code of a worker whose case used up its step budget.
pub const EXIT_FUEL: i32 = 97;

extern "C" {
    fn _exit(code: i32) -> !;
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    unsafe {
        while start < stop {
            if *start == 0 {
                NGUARDS += 1;
                *start = NGUARDS;
            }
            start = start.add(1);
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    unsafe {
        STEPS += 1;
        if STEPS >= LIMIT {
            _exit(EXIT_FUEL);
        }
        let m = HITS.0.get() as *mut u8;
        let p = m.add((*g as usize) & (MAP - 1));
        *p = (*p).saturating_add(1);
    }
}

pub fn guards() -> u32 {
    unsafe { NGUARDS }
}
pub fn start(limit: u64) {
    unsafe {
        STEPS = 0;
        LIMIT = limit;
    }
}
pub fn stop() -> u64 {
    unsafe {
        LIMIT = u64::MAX;
        STEPS
    }
}
pub fn steps() -> u64 {
    unsafe { STEPS }
}

/// Counts the bytes of all allocations.
struct Counting;
static mut BYTES: u64 = 0;
// Workers have one thread; elsewhere nobody reads the count.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BYTES = BYTES.wrapping_add(l.size() as u64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        BYTES = BYTES.wrapping_add(l.size() as u64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        BYTES = BYTES.wrapping_add(n as u64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

/// Steps, and the memory that was asked for in units of 32 bytes: copies made
/// by the standard library are work, too.
pub fn work() -> u64 {
    unsafe { STEPS + BYTES / 32 }
}

/// CPU time of this thread in microseconds.
pub fn cpu_us() -> u64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        ns: i64,
    }
    extern "C" {
        fn clock_gettime(id: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, ns: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000 + t.ns as u64 / 1000
}

pub fn clear_hits() {
    unsafe {
        let n = (NGUARDS as usize + 1).min(MAP);
        std::ptr::write_bytes(HITS.0.get() as *mut u8, 0, n);
    }
}
fn bucket(x: u8) -> u8 {
    match x {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}
/// Folds the hits of the last case into `virgin`; true when it saw an edge
/// (or an edge count bucket) for the first time.
pub fn fold_new(virgin: &mut [u8]) -> bool {
    let n = (guards() as usize + 1).min(MAP);
    let mut new = false;
    unsafe {
        let m = HITS.0.get() as *const u8;
        for (i, v) in virgin.iter_mut().enumerate().take(n) {
            let b = bucket(*m.add(i));
            if b & !*v != 0 {
                *v |= b;
                new = true;
            }
        }
    }
    new
}
pub fn edges(virgin: &[u8]) -> usize {
    virgin.iter().filter(|x| **x != 0).count()
}
