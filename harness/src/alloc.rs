//! Counts live heap bytes, so that a check can see how much a call allocated.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

static TOTAL: AtomicUsize = AtomicUsize::new(0);

fn up(n: usize) {
    TOTAL.fetch_add(n, Relaxed);
    let l = LIVE.fetch_add(n, Relaxed) + n;
    if l > PEAK.load(Relaxed) {
        PEAK.fetch_max(l, Relaxed);
    }
}
fn down(n: usize) {
    LIVE.fetch_sub(n, Relaxed);
}
/// While set, memory beyond this many live bytes is not handed out.
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static DENIED: AtomicUsize = AtomicUsize::new(0);

fn denied(n: usize) -> bool {
    let no = LIMIT.load(Relaxed) != usize::MAX && LIVE.load(Relaxed).saturating_add(n) > LIMIT.load(Relaxed);
    if no {
        DENIED.fetch_max(n.max(1), Relaxed);
    }
    no
}
/// Run `f` with at most `more` bytes above what is live now. An allocation beyond fails, which ends a
/// process that does not expect it; the largest that did is returned.
pub fn limited<T>(more: usize, f: impl FnOnce() -> T) -> (T, usize) {
    DENIED.store(0, Relaxed);
    LIMIT.store(LIVE.load(Relaxed).saturating_add(more), Relaxed);
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            LIMIT.store(usize::MAX, Relaxed);
        }
    }
    let off = Off;
    let r = f();
    drop(off);
    (r, DENIED.load(Relaxed))
}
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if denied(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            up(l.size())
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if denied(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            up(l.size())
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        down(l.size())
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && denied(n - l.size()) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            up(n);
            down(l.size());
        }
        q
    }
}
/// Start measuring; returns the bytes live now.
pub fn reset_peak() -> usize {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    l
}
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}
/// Bytes handed out since the start, freed or not.
pub fn total() -> usize {
    TOTAL.load(Relaxed)
}
