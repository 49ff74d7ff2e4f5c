//! Counts what each thread has allocated and not freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
}
fn add(blocks: i64, bytes: i64) {
    let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
    let _ = BYTES.try_with(|b| b.set(b.get() + bytes));
}
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(1, l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(1, l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-1, -(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(0, n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
/// Blocks and bytes this thread holds, less what it freed of other threads.
pub fn held() -> (i64, i64) {
    (BLOCKS.with(|b| b.get()), BYTES.with(|b| b.get()))
}
