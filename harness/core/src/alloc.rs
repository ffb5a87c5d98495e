//! A global allocator which bounds how much memory one single case may hold.  A case which passes
//! the bound (far above what any generated case needs) makes the allocation fail, so that runaway
//! growth becomes an abort of the child process, attributed to the case by the journal.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

pub struct Capped;

thread_local! {
    static USED: Cell<isize> = const { Cell::new(0) };
    static CAP: Cell<isize> = const { Cell::new(isize::MAX) };
}

/// Start accounting for a new case on this thread
pub fn begin_case(cap: isize) {
    USED.with(|u| u.set(0));
    CAP.with(|c| c.set(cap));
}

/// Stop limiting this thread
pub fn end_case() {
    CAP.with(|c| c.set(isize::MAX));
}

fn charge(n: isize) -> bool {
    USED.try_with(|u| {
        let v = u.get() + n;
        u.set(v);
        n <= 0 || CAP.try_with(|c| v <= c.get()).unwrap_or(true)
    })
    .unwrap_or(true)
}

unsafe impl GlobalAlloc for Capped {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !charge(l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        charge(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new_size: usize) -> *mut u8 {
        if !charge(new_size as isize - l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, new_size)
    }
}

#[global_allocator]
static GLOBAL: Capped = Capped;
