//! How much memory the broker holds: every block remembers whose it is.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    /// Is the broker's code running?
    static BROKER: Cell<bool> = const { Cell::new(false) };
    /// Bytes held by the broker (of this thread's execution).
    static HELD: Cell<isize> = const { Cell::new(0) };
}

fn offset(l: &Layout) -> usize {
    l.align().max(16)
}
fn outer(l: &Layout) -> Option<Layout> {
    Layout::from_size_align(l.size().checked_add(offset(l))?, l.align().max(16)).ok()
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some(o) = outer(&l) else { return std::ptr::null_mut() };
        let p = System.alloc(o);
        if p.is_null() {
            return p;
        }
        let p = p.add(offset(&l));
        let mine = BROKER.try_with(|b| b.get()).unwrap_or(false);
        *(p.sub(8) as *mut u64) = mine as u64;
        if mine {
            let _ = HELD.try_with(|h| h.set(h.get() + l.size() as isize));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if *(p.sub(8) as *mut u64) == 1 {
            let _ = HELD.try_with(|h| h.set(h.get() - l.size() as isize));
        }
        System.dealloc(p.sub(offset(&l)), outer(&l).unwrap());
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let Ok(n) = Layout::from_size_align(new, l.align()) else { return std::ptr::null_mut() };
        let Some(on) = outer(&n) else { return std::ptr::null_mut() };
        let mine = *(p.sub(8) as *mut u64) == 1;
        let q = System.realloc(p.sub(offset(&l)), outer(&l).unwrap(), on.size());
        if q.is_null() {
            return q;
        }
        if mine {
            let _ = HELD.try_with(|h| h.set(h.get() + new as isize - l.size() as isize));
        }
        // the header moved along
        q.add(offset(&l))
    }
}

pub fn reset() {
    HELD.with(|h| h.set(0));
}
pub fn held() -> isize {
    HELD.with(|h| h.get())
}
/// From here on, it is the broker's (or not); returns what was.
pub fn broker(v: bool) -> bool {
    BROKER.with(|b| b.replace(v))
}
