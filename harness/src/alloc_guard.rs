//! Foca asking for gigabytes at once would abort the process (or succeed
//! lazily and hide the problem): turn it into a reported violation.
use std::alloc::{GlobalAlloc, Layout, System};

use crate::inst::IN_FOCA;

pub const LIMIT: usize = 2 << 30;

struct Guard;

fn check(size: usize) {
    if size > LIMIT && IN_FOCA.try_with(|c| c.replace(false)).unwrap_or(false) {
        crate::runner::absurd_allocation(size)
    }
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        check(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        check(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        check(n);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static G: Guard = Guard;
