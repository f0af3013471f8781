//! Every allocation, reallocation and release made by a scheduled thread is a scheduling point.
use std::alloc::{GlobalAlloc, Layout, System};

pub struct Yielding;
unsafe impl GlobalAlloc for Yielding {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        simsched::yield_point();
        System.alloc(l)
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        simsched::yield_point();
        System.dealloc(p, l)
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        simsched::yield_point();
        System.realloc(p, l, n)
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        simsched::yield_point();
        System.alloc_zeroed(l)
    }
}
