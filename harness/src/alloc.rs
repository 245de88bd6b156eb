//! Counting allocator: live blocks and bytes per thread, with fresh memory filled with one pattern and
//! freed memory with another, so that stale or uninitialised reads show up as changed contents.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static FREES: Cell<u64> = const { Cell::new(0) };
}
const SMALL: usize = 2048;

fn count(blocks: i64, bytes: i64) {
    let _ = BLOCKS.try_with(|c| c.set(c.get() + blocks));
    let now = BYTES.try_with(|c| {
        c.set(c.get() + bytes);
        c.get()
    });
    if let Ok(now) = now {
        let _ = PEAK.try_with(|c| c.set(c.get().max(now)));
    }
    if blocks < 0 {
        let _ = FREES.try_with(|c| c.set(c.get() + 1));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            if l.size() <= SMALL {
                unsafe { p.write_bytes(0x5A, l.size()) };
            }
            count(1, l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc_zeroed(l) };
        if !p.is_null() {
            count(1, l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() <= SMALL {
            // volatile: writes to memory about to be freed must not be optimised away
            for i in 0..l.size() {
                unsafe { p.add(i).write_volatile(0xA5) };
            }
        }
        count(-1, -(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let r = unsafe { System.realloc(p, l, n) };
        if !r.is_null() {
            count(0, n as i64 - l.size() as i64);
        }
        r
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Live {
    pub blocks: i64,
    pub bytes: i64,
}
/// Memory allocated and not yet freed by this thread.
pub fn live() -> Live {
    Live { blocks: BLOCKS.with(Cell::get), bytes: BYTES.with(Cell::get) }
}
/// The most bytes this thread had allocated since the last reset.
pub fn peak() -> i64 {
    PEAK.with(Cell::get)
}
pub fn reset_peak() {
    PEAK.with(|c| c.set(BYTES.with(Cell::get)));
}
