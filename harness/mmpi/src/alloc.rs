//! A global allocator that notices when memory is freed that a pending send still reads from.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct Tracking;

thread_local! {
    static COUNT: Cell<usize> = const { Cell::new(0) };
    static RANGES: UnsafeCell<[(usize, usize, u64); 256]> = const { UnsafeCell::new([(0, 0, 0); 256]) };
    static FREED: Cell<u64> = const { Cell::new(0) };
}

/// Registers the memory a send reads from. Returns false if the table is full.
pub fn pin(start: usize, len: usize, id: u64) -> bool {
    if len == 0 {
        return true;
    }
    COUNT.with(|c| {
        let n = c.get();
        if n >= 256 {
            return false;
        }
        RANGES.with(|r| unsafe { (*r.get())[n] = (start, start + len, id) });
        c.set(n + 1);
        true
    })
}

pub fn unpin(id: u64) {
    COUNT.with(|c| {
        let n = c.get();
        RANGES.with(|r| unsafe {
            let r = &mut *r.get();
            if let Some(i) = r[..n].iter().position(|x| x.2 == id) {
                r[i] = r[n - 1];
                c.set(n - 1);
            }
        })
    })
}

pub fn clear() {
    COUNT.with(|c| c.set(0));
    FREED.with(|f| f.set(0));
}

/// The id of a pinned send whose memory was freed.
pub fn freed() -> u64 {
    FREED.with(|f| f.get())
}

fn hit(ptr: *mut u8, len: usize) -> bool {
    let n = match COUNT.try_with(|c| c.get()) {
        Ok(n) => n,
        Err(_) => return false,
    };
    if n == 0 {
        return false;
    }
    let (a, b) = (ptr as usize, ptr as usize + len);
    let mut any = false;
    let _ = RANGES.try_with(|r| unsafe {
        for x in (&(*r.get()))[..n].iter() {
            if x.0 < b && a < x.1 {
                FREED.with(|f| f.set(x.2));
                any = true;
            }
        }
    });
    any
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        // Memory that a pending send reads from is leaked, so that what the model reads later is
        // still there; the violation is reported when the scheduler next looks.
        if !hit(ptr, layout.size()) {
            System.dealloc(ptr, layout)
        }
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if hit(ptr, layout.size()) {
            let new = System.alloc(Layout::from_size_align_unchecked(new_size, layout.align()));
            std::ptr::copy_nonoverlapping(ptr, new, layout.size().min(new_size));
            new
        } else {
            System.realloc(ptr, layout, new_size)
        }
    }
}
