//! Thread-local size-class free-list allocator with counters.
//!
//! Two purposes: parsing is allocation bound, so this makes enumeration
//! several times cheaper; and the counters give a deterministic work metric
//! (no wall clock) for the work-bound property.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

const CLASSES: usize = 65; // 16-byte classes up to 1024 bytes
const CHUNK: usize = 256 * 1024;

pub struct Pool;

struct Tls {
    free: [*mut u8; CLASSES],
    bump: *mut u8,
    end: *mut u8,
    count: u64,
    bytes: u64,
}

thread_local! {
    static TLS: UnsafeCell<Tls> = const { UnsafeCell::new(Tls {
        free: [std::ptr::null_mut(); CLASSES],
        bump: std::ptr::null_mut(), end: std::ptr::null_mut(), count: 0, bytes: 0 }) };
}

/// (number of allocations, bytes) requested by this thread so far.
pub fn counters() -> (u64, u64) {
    TLS.with(|t| unsafe { let t = &*t.get(); (t.count, t.bytes) })
}

unsafe impl GlobalAlloc for Pool {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let size = l.size();
        if size > 1024 || l.align() > 16 {
            let _ = TLS.try_with(|t| unsafe { let t = &mut *t.get(); t.count += 1; t.bytes += size as u64; });
            return unsafe { System.alloc(l) };
        }
        let class = (size + 15) / 16;
        match TLS.try_with(|t| unsafe {
            let t = &mut *t.get();
            t.count += 1;
            t.bytes += size as u64;
            let p = t.free[class];
            if !p.is_null() {
                t.free[class] = *(p as *mut *mut u8);
                return p;
            }
            let need = class.max(1) * 16;
            if (t.end as usize) - (t.bump as usize) < need {
                let c = System.alloc(Layout::from_size_align_unchecked(CHUNK, 16));
                if c.is_null() { return c; }
                t.bump = c;
                t.end = c.add(CHUNK);
            }
            let p = t.bump;
            t.bump = p.add(need);
            p
        }) {
            Ok(p) => p,
            // thread teardown: TLS gone; leak-safe fallback of the same shape
            Err(_) => unsafe { System.alloc(Layout::from_size_align_unchecked(class.max(1) * 16, 16)) },
        }
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let size = l.size();
        if size > 1024 || l.align() > 16 {
            return unsafe { System.dealloc(p, l) };
        }
        let class = (size + 15) / 16;
        let _ = TLS.try_with(|t| unsafe {
            let t = &mut *t.get();
            *(p as *mut *mut u8) = t.free[class];
            t.free[class] = p;
        });
    }
}
