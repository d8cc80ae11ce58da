//! Counting allocator, which also looks at watched memory when it is released: live bytes, peak, and a per-process cap (an allocation beyond it fails).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static ALLOCS: AtomicUsize = AtomicUsize::new(0);
const CAP: usize = 1 << 30;

fn add(n: usize) -> bool {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    if n > CAP || l > 2 * CAP {
        LIVE.fetch_sub(n, Relaxed);
        return false;
    }
    ALLOCS.fetch_add(1, Relaxed);
    PEAK.fetch_max(l, Relaxed);
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        inspect(p, l.size());
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !add(new) {
            return std::ptr::null_mut();
        }
        inspect(p, l.size());
        let q = System.realloc(p, l, new);
        LIVE.fetch_sub(if q.is_null() { new } else { l.size() }, Relaxed);
        q
    }
}

// ---- watched memory

const SLOTS: usize = 64;
#[derive(Clone, Copy)]
struct Slot {
    at: usize,
    len: usize,
    released: bool,
    held: [u8; 64],
}
struct Watch {
    n: usize,
    slots: [Slot; SLOTS],
}
thread_local! {
    static ACTIVE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static WATCH: std::cell::UnsafeCell<Watch> = const {
        std::cell::UnsafeCell::new(Watch { n: 0, slots: [Slot { at: 0, len: 0, released: false, held: [0; 64] }; SLOTS] })
    };
}

/// called with memory that is about to be released
#[inline]
fn inspect(p: *mut u8, size: usize) {
    if ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
        let _ = WATCH.try_with(|w| {
            let w = unsafe { &mut *w.get() };
            let (lo, hi) = (p as usize, p as usize + size);
            for s in &mut w.slots[..w.n] {
                if !s.released && s.at >= lo && s.at + s.len <= hi {
                    s.released = true;
                    for i in 0..s.len {
                        s.held[i] = unsafe { std::ptr::read_volatile((s.at + i) as *const u8) };
                    }
                }
            }
        });
    }
}
/// forget earlier watches of this thread
pub fn watch_clear() {
    ACTIVE.with(|a| a.set(false));
    WATCH.with(|w| unsafe { (*w.get()).n = 0 });
}
/// record the content of these heap bytes at the moment their block is released
pub fn watch(b: &[u8]) {
    WATCH.with(|w| {
        let w = unsafe { &mut *w.get() };
        assert!(w.n < SLOTS && b.len() <= 64, "MONITOR: too many watches");
        w.slots[w.n] = Slot { at: b.as_ptr() as usize, len: b.len(), released: false, held: [0; 64] };
        w.n += 1;
    });
    ACTIVE.with(|a| a.set(true));
}
/// what the i-th watched place held when it was released
pub fn watched(i: usize) -> Option<Vec<u8>> {
    ACTIVE.with(|a| a.set(false));
    WATCH.with(|w| {
        let w = unsafe { &*w.get() };
        let s = &w.slots[i];
        if s.released {
            Some(s.held[..s.len].to_vec())
        } else {
            None
        }
    })
}

/// peak of additional live bytes while running `f`
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.load(Relaxed);
    PEAK.store(base, Relaxed);
    let t = f();
    (t, PEAK.load(Relaxed).saturating_sub(base))
}
