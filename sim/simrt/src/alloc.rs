//! The allocator: knows which memory the code under test has allocated and not freed.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

/// Puts a header before each allocation that tells whose it is.
pub struct Counting;

#[global_allocator]
static GLOBAL: Counting = Counting;

static BYTES: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);

/// The bytes and blocks that were allocated within `sut` and are still allocated.
pub fn live() -> (i64, i64) {
    (BYTES.load(Relaxed), BLOCKS.load(Relaxed))
}

fn outer(l: Layout) -> (usize, Layout) {
    let off = l.align().max(16);
    // (The sizes of layouts are far from overflowing.)
    (off, unsafe { Layout::from_size_align_unchecked(l.size() + off, off) })
}

unsafe fn tag(p: *mut u8) -> *mut u64 {
    p.sub(8) as *mut u64
}

unsafe fn given(p: *mut u8, off: usize, size: usize) -> *mut u8 {
    if p.is_null() {
        return p;
    }
    let p = p.add(off);
    let mine = crate::rt::in_sut();
    *tag(p) = mine as u64;
    if mine {
        BYTES.fetch_add(size as i64, Relaxed);
        BLOCKS.fetch_add(1, Relaxed);
    }
    p
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (off, o) = outer(l);
        given(System.alloc(o), off, l.size())
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let (off, o) = outer(l);
        given(System.alloc_zeroed(o), off, l.size())
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let (off, o) = outer(l);
        if *tag(p) == 1 {
            BYTES.fetch_sub(l.size() as i64, Relaxed);
            BLOCKS.fetch_sub(1, Relaxed);
        }
        System.dealloc(p.sub(off), o)
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let (off, o) = outer(l);
        let mine = *tag(p) == 1;
        let q = System.realloc(p.sub(off), o, size + off);
        if q.is_null() {
            return q;
        }
        if mine {
            BYTES.fetch_add(size as i64 - l.size() as i64, Relaxed);
        }
        q.add(off)
    }
}
