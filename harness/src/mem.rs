//! A counting allocator: how much memory is held, and the most that was held since a mark.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

struct Counting;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

#[global_allocator]
static ALLOCATOR: Counting = Counting;

// Workers have one thread, so plain loads and stores count right where it matters.
#[inline]
fn grow(n: usize) {
    let now = LIVE.load(Relaxed).wrapping_add(n);
    LIVE.store(now, Relaxed);
    if now > PEAK.load(Relaxed) {
        PEAK.store(now, Relaxed);
    }
}

#[inline]
fn shrink(n: usize) {
    LIVE.store(LIVE.load(Relaxed).wrapping_sub(n), Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc(l)
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        shrink(l.size());
        System.dealloc(p, l)
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        shrink(l.size());
        grow(n);
        System.realloc(p, l, n)
    }
}

/// Bytes held now.
pub fn live() -> usize {
    LIVE.load(Relaxed)
}

/// Forget earlier peaks.
pub fn mark() {
    PEAK.store(live(), Relaxed);
}

/// The most bytes held since the mark.
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}
