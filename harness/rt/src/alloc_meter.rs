//! Counts the bytes requested from the allocator, and ends the process when a
//! single case asks for an absurd amount.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct Meter;
static CUR: AtomicUsize = AtomicUsize::new(0);
static BASE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicBool = AtomicBool::new(true);
/// Exit code which tells the driver about an absurd allocation
pub const ALLOC_EXIT: i32 = 77;
const CAP: usize = 1 << 30;

fn add(n: usize) {
    let c = CUR.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(c, Relaxed);
    TOTAL.fetch_add(n, Relaxed);
    if c > CAP && ON.load(Relaxed) {
        ON.store(false, Relaxed);
        std::process::exit(ALLOC_EXIT);
    }
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            add(n - l.size());
        } else {
            CUR.fetch_sub(l.size() - n, Relaxed);
        }
        // the content may move
        TOTAL.fetch_add(n.min(l.size()), Relaxed);
        System.realloc(p, l, n)
    }
}

pub fn alloc_reset() {
    let c = CUR.load(Relaxed);
    BASE.store(c, Relaxed);
    PEAK.store(c, Relaxed);
}
pub fn alloc_peak() -> usize {
    PEAK.load(Relaxed).saturating_sub(BASE.load(Relaxed))
}

/// Bytes which have been asked for so far, and moved when something grew or shrank.
pub fn alloc_total() -> usize {
    TOTAL.load(Relaxed)
}
/// Bytes which are allocated now.
pub fn alloc_current() -> usize {
    CUR.load(Relaxed)
}
/// What stays allocated each time `f` runs: one-time initialisations do not count.
pub fn leaks(mut f: impl FnMut()) -> isize {
    let mut d = 0;
    for _ in 0..4 {
        let a = alloc_current();
        f();
        d = alloc_current() as isize - a as isize;
        if d == 0 {
            break;
        }
    }
    d
}
