//! Allocator seam: every allocation carries a tag telling whether it was made inside a call into the
//! library (tag 1) or by the simulator (tag 0), so the heap held by an encoder can be measured exactly.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static SCOPE: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

pub struct Tagged;

#[inline]
fn hdr(l: &Layout) -> usize {
    l.align().max(16)
}

#[inline]
fn add(n: isize) {
    let _ = LIVE.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

unsafe fn alloc_tag(l: Layout, tag: u64, zero: bool) -> *mut u8 {
    let h = hdr(&l);
    let total = match Layout::from_size_align(l.size() + h, h) {
        Ok(t) => t,
        Err(_) => return std::ptr::null_mut(),
    };
    let p = if zero { System.alloc_zeroed(total) } else { System.alloc(total) };
    if p.is_null() {
        return p;
    }
    *(p.add(h - 8) as *mut u64) = tag;
    if tag == 1 {
        add(l.size() as isize);
    }
    p.add(h)
}

unsafe impl GlobalAlloc for Tagged {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let tag = SCOPE.try_with(|c| c.get()).unwrap_or(0);
        alloc_tag(l, tag, false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let tag = SCOPE.try_with(|c| c.get()).unwrap_or(0);
        alloc_tag(l, tag, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = hdr(&l);
        let tag = *(p.sub(8) as *const u64);
        if tag == 1 {
            add(-(l.size() as isize));
        }
        System.dealloc(p.sub(h), Layout::from_size_align_unchecked(l.size() + h, h));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let h = hdr(&l);
        let tag = *(p.sub(8) as *const u64);
        let total = Layout::from_size_align_unchecked(l.size() + h, h);
        let q = System.realloc(p.sub(h), total, new + h);
        if q.is_null() {
            return q;
        }
        if tag == 1 {
            add(new as isize - l.size() as isize);
        }
        q.add(h)
    }
}

pub struct ScopeGuard(u64);
impl Drop for ScopeGuard {
    fn drop(&mut self) {
        SCOPE.with(|c| c.set(self.0));
    }
}
/// Enter scope 1 (inside the library) or 0 (in the simulator).
pub fn enter(tag: u64) -> ScopeGuard {
    ScopeGuard(SCOPE.with(|c| c.replace(tag)))
}
pub fn live() -> isize {
    LIVE.with(|c| c.get())
}
pub fn reset_peak() {
    let v = live();
    PEAK.with(|c| c.set(v));
}
pub fn peak() -> isize {
    PEAK.with(|c| c.get())
}
