//! A global allocator that counts what the current thread holds, so that a
//! case can be asked how much memory it needed, and that refuses single
//! requests no decoder has a reason to make (they then abort the process,
//! which the driver reports for the case that was running).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

/// a single request above this is refused
pub const REFUSE: usize = 3 << 30;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static NOW: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}

fn add(n: isize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let _ = NOW.try_with(|c| {
                let v = c.get() + n;
                c.set(v);
                let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
            });
            if n > 0 { let _ = BIGGEST.try_with(|b| if n as usize > b.get() { b.set(n as usize) }); }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE { return std::ptr::null_mut() }
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE { return std::ptr::null_mut() }
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > REFUSE { return std::ptr::null_mut() }
        // the old block lives until the new one is filled
        add(n as isize);
        add(-(l.size() as isize));
        System.realloc(p, l, n)
    }
}

/// peak number of bytes held at once by `f` on this thread
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    struct Off;
    impl Drop for Off { fn drop(&mut self) { ON.with(|o| o.set(false)) } }
    NOW.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    BIGGEST.with(|c| c.set(0));
    ON.with(|o| o.set(true));
    let _off = Off;
    let r = f();
    drop(_off);
    (r, PEAK.with(|p| p.get().max(0) as usize))
}
