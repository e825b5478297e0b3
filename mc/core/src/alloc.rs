//! A counting allocator, to observe what operations retain.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

/// The system allocator, counting the bytes this thread holds.
pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + new as i64 - l.size() as i64));
        System.realloc(p, l, new)
    }
}

/// Bytes this thread has allocated and not freed (when `Counting` is the global allocator).
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}
