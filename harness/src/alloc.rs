//! Counts what is allocated, per process and per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);

thread_local! {
    static MINE: Cell<isize> = const { Cell::new(0) };
    static BLOCKS: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn add(n: isize, blocks: isize) {
    let _ = MINE.try_with(|m| {
        let v = m.get() + n;
        m.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = BLOCKS.try_with(|m| m.set(m.get() + blocks));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if LIVE.fetch_add(l.size(), Relaxed).saturating_add(l.size()) > CAP.load(Relaxed) {
            return std::ptr::null_mut();
        }
        add(l.size() as isize, 1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        add(-(l.size() as isize), -1);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_sub(l.size(), Relaxed);
        if LIVE.fetch_add(n, Relaxed).saturating_add(n) > CAP.load(Relaxed) {
            return std::ptr::null_mut();
        }
        add(n as isize - l.size() as isize, 0);
        System.realloc(p, l, n)
    }
}

/// bytes and blocks this thread holds
pub fn held() -> (isize, isize) {
    (MINE.with(|m| m.get()), BLOCKS.with(|m| m.get()))
}

/// the most this thread held during a call, above what it held before
pub fn peak<R>(f: impl FnOnce() -> R) -> (isize, R) {
    let before = held().0;
    PEAK.with(|p| p.set(before));
    let r = f();
    (PEAK.with(|p| p.get()) - before, r)
}
