//! Counts the memory that the code under test holds: an allocator that tags what is allocated while `inside` is set.
//! The harness's own allocations (also those in sources and sinks called from within) are not tagged.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static EPOCH: Cell<u64> = const { Cell::new(0) };
    static HELD: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

pub struct Tagging;

#[global_allocator]
static ALLOCATOR: Tagging = Tagging;

const HEAD: usize = 16;

fn add(n: isize) {
    let h = HELD.get() + n;
    HELD.set(h);
    if h > PEAK.get() {
        PEAK.set(h);
    }
}

fn padded(l: Layout) -> Option<(Layout, usize)> {
    let head = HEAD.max(l.align());
    let size = l.size().checked_add(head)?;
    Layout::from_size_align(size, head).ok().map(|l| (l, head))
}

unsafe impl GlobalAlloc for Tagging {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some((big, head)) = padded(l) else { return std::ptr::null_mut() };
        let p = unsafe { System.alloc(big) };
        if p.is_null() {
            return p;
        }
        let p = unsafe { p.add(head) };
        let tag = if INSIDE.get() { EPOCH.get() } else { 0 };
        unsafe { p.cast::<u64>().sub(1).write(tag) };
        if tag != 0 {
            add(l.size() as isize);
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let Some((big, head)) = padded(l) else { return };
        let tag = unsafe { p.cast::<u64>().sub(1).read() };
        if tag != 0 && tag == EPOCH.get() {
            add(-(l.size() as isize));
        }
        unsafe { System.dealloc(p.sub(head), big) };
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let Some((big, head)) = padded(l) else { return std::ptr::null_mut() };
        let Some(want) = size.checked_add(head) else { return std::ptr::null_mut() };
        let tag = unsafe { p.cast::<u64>().sub(1).read() };
        let q = unsafe { System.realloc(p.sub(head), big, want) };
        if q.is_null() {
            return q;
        }
        if tag != 0 && tag == EPOCH.get() {
            add(size as isize - l.size() as isize);
        }
        unsafe { q.add(head) }
    }
}

/// While it lives, allocations of this thread belong to the code under test (or not).
pub struct Mark(bool);

impl Mark {
    pub fn inside() -> Mark {
        Mark(INSIDE.replace(true))
    }

    pub fn outside() -> Mark {
        Mark(INSIDE.replace(false))
    }
}

impl Drop for Mark {
    fn drop(&mut self) {
        INSIDE.set(self.0);
    }
}

/// Forgets everything counted so far.
pub fn start() {
    EPOCH.set(EPOCH.get() + 1);
    HELD.set(0);
    PEAK.set(0);
}

/// The peak counts from here on.
pub fn restart_peak() {
    PEAK.set(HELD.get());
}

pub fn held() -> usize {
    HELD.get().max(0) as usize
}

pub fn peak() -> usize {
    PEAK.get().max(0) as usize
}
