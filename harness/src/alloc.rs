//! Counting global allocator: per-thread live/peak/total bytes and an optional cap, so that memory
//! held by the code under test is an observable of every execution.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static CAP: Cell<i64> = const { Cell::new(i64::MAX) };
}

fn add(n: i64) -> bool {
    LIVE.try_with(|l| {
        let v = l.get() + n;
        if n > 0 && v > CAP.with(|c| c.get()) {
            return false;
        }
        l.set(v);
        if n > 0 {
            TOTAL.with(|t| t.set(t.get().wrapping_add(n as u64)));
            CALLS.with(|t| t.set(t.get().wrapping_add(1)));
            PEAK.with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
        true
    })
    .unwrap_or(true)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !add(n as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Snap {
    pub live: i64,
    pub total: u64,
    pub calls: u64,
}

/// starts a measurement: the peak is reset to the current live size
pub fn start() -> Snap {
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    Snap { live, total: TOTAL.with(|t| t.get()), calls: CALLS.with(|t| t.get()) }
}

pub fn peak_since(s: Snap) -> i64 {
    PEAK.with(|p| p.get()) - s.live
}

pub fn live_since(s: Snap) -> i64 {
    LIVE.with(|l| l.get()) - s.live
}

pub fn total_since(s: Snap) -> u64 {
    TOTAL.with(|l| l.get()).wrapping_sub(s.total)
}

/// bytes this thread may hold on top of what it holds now; an allocation beyond it fails
pub fn set_cap(extra: Option<i64>) {
    let v = extra.map_or(i64::MAX, |e| LIVE.with(|l| l.get()) + e);
    CAP.with(|c| c.set(v));
}
