//! A counting allocator: how much each thread holds, and the most it has held.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CAP: Cell<i64> = const { Cell::new(i64::MAX) };
}

#[inline]
fn add(n: i64) -> bool {
    LIVE.try_with(|live| {
        let v = live.get() + n;
        if n > 0 && v > CAP.try_with(|c| c.get()).unwrap_or(i64::MAX) {
            return false;
        }
        live.set(v);
        let _ = PEAK.try_with(|peak| {
            if v > peak.get() {
                peak.set(v);
            }
        });
        true
    })
    .unwrap_or(true)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if !add(layout.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(layout)
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if !add(layout.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(layout)
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        add(-(layout.size() as i64));
        System.dealloc(p, layout)
    }

    unsafe fn realloc(&self, p: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        // Both blocks may exist at the same time.
        if !add(size as i64) {
            return std::ptr::null_mut();
        }
        add(-(layout.size() as i64));
        if size <= 1024 {
            // Served by the thread's own cache, while growing in place takes a lock.
            let next = System.alloc(Layout::from_size_align_unchecked(size, layout.align()));
            if !next.is_null() {
                std::ptr::copy_nonoverlapping(p, next, size.min(layout.size()));
                System.dealloc(p, layout);
            }
            return next;
        }
        System.realloc(p, layout, size)
    }
}

/// Start a measurement: what is held from now on, up to a hard limit.
pub fn start(cap: i64) -> i64 {
    let live = LIVE.with(|v| v.get());
    PEAK.with(|v| v.set(live));
    CAP.with(|v| v.set(live.saturating_add(cap)));
    live
}

/// The most held since `start`.
pub fn peak(base: i64) -> i64 {
    CAP.with(|v| v.set(i64::MAX));
    PEAK.with(|v| v.get()) - base
}
