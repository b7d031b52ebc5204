//! The allocator of the harness: the system's, with a count of the bytes in use per thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static NET: Cell<isize> = const { Cell::new(0) };
}

fn add(n: isize) {
    let _ = NET.try_with(|x| x.set(x.get() + n));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        add(new as isize - l.size() as isize);
        System.realloc(p, l, new)
    }
}

/// Bytes allocated minus bytes freed by this thread (negative when it freed what others allocated).
pub fn net() -> isize {
    NET.with(|x| x.get())
}
