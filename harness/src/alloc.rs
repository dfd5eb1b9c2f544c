//! Global allocator that, while tracking is on, remembers the layout of every block, checks that it
//! is given back with the same one, and counts what has not been given back.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

pub struct Tracking;

const CAP: usize = if cfg!(miri) { 16 } else { 1 << 18 };

struct Table(UnsafeCell<[(usize, usize, usize); CAP]>);
unsafe impl Sync for Table {}
static TABLE: Table = Table(UnsafeCell::new([(0, 0, 0); CAP]));
static LOCK: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicUsize = AtomicUsize::new(0);
static BYTES: AtomicUsize = AtomicUsize::new(0);
pub static MISMATCH: AtomicU64 = AtomicU64::new(0);
static MM: [AtomicUsize; 4] = [AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0)];
thread_local! { static ON: Cell<bool> = const { Cell::new(false) }; }

fn locked<R>(f: impl FnOnce(&mut [(usize, usize, usize); CAP]) -> R) -> R {
    while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop()
    }
    let r = f(unsafe { &mut *TABLE.0.get() });
    LOCK.store(false, Release);
    r
}

fn slot(p: usize) -> usize {
    (p.wrapping_mul(0x9e3779b97f4a7c15) >> 40) & (CAP - 1)
}

fn insert(p: usize, l: Layout) {
    locked(|t| {
        if COUNT.load(Relaxed) > CAP / 2 {
            return;
        }
        let mut i = slot(p);
        while t[i].0 != 0 {
            i = (i + 1) & (CAP - 1);
        }
        t[i] = (p, l.size(), l.align());
        COUNT.fetch_add(1, Relaxed);
        BYTES.fetch_add(l.size(), Relaxed);
    })
}

fn erase(p: usize, l: Layout) {
    if COUNT.load(Relaxed) == 0 {
        return;
    }
    locked(|t| {
        let mut i = slot(p);
        while t[i].0 != p {
            if t[i].0 == 0 {
                return;
            }
            i = (i + 1) & (CAP - 1);
        }
        if (t[i].1, t[i].2) != (l.size(), l.align()) && MISMATCH.fetch_add(1, Relaxed) == 0 {
            MM[0].store(t[i].1, Relaxed);
            MM[1].store(t[i].2, Relaxed);
            MM[2].store(l.size(), Relaxed);
            MM[3].store(l.align(), Relaxed);
        }
        COUNT.fetch_sub(1, Relaxed);
        BYTES.fetch_sub(t[i].1, Relaxed);
        // backward shift deletion
        let mut hole = i;
        let mut j = (i + 1) & (CAP - 1);
        while t[j].0 != 0 {
            let home = slot(t[j].0);
            if (j.wrapping_sub(home) & (CAP - 1)) >= (j.wrapping_sub(hole) & (CAP - 1)) {
                t[hole] = t[j];
                hole = j;
            }
            j = (j + 1) & (CAP - 1);
        }
        t[hole] = (0, 0, 0);
    })
}

pub fn start() {
    locked(|t| {
        if COUNT.load(Relaxed) != 0 {
            t.fill((0, 0, 0));
            COUNT.store(0, Relaxed);
        }
    });
    BYTES.store(0, Relaxed);
    MISMATCH.store(0, Relaxed);
    ON.with(|o| o.set(true));
}

/// Number and total size of the blocks that have not been given back.
pub fn stop() -> (usize, usize) {
    ON.with(|o| o.set(false));
    (COUNT.load(Relaxed), BYTES.load(Relaxed))
}

pub fn mismatch() -> Option<String> {
    if MISMATCH.load(Relaxed) == 0 {
        return None;
    }
    Some(format!(
        "memory allocated with size {} align {} was returned with size {} align {}",
        MM[0].load(Relaxed),
        MM[1].load(Relaxed),
        MM[2].load(Relaxed),
        MM[3].load(Relaxed)
    ))
}

fn on() -> bool {
    ON.try_with(|o| o.get()).unwrap_or(false)
}

// Blocks are aligned to what was asked for and to no more: the system's own are often aligned to
// more than that by accident, and then a wrong alignment does not show.
fn shift(l: Layout) -> usize {
    if cfg!(miri) || l.align() > 4096 {
        0
    } else {
        l.align()
    }
}

#[cfg(asan)]
extern "C" {
    fn __asan_poison_memory_region(p: *const u8, n: usize);
}

unsafe fn raw_alloc(l: Layout, zeroed: bool) -> *mut u8 {
    let s = shift(l);
    if s == 0 {
        return if zeroed { System.alloc_zeroed(l) } else { System.alloc(l) };
    }
    let Some(n) = l.size().checked_add(s) else { return std::ptr::null_mut() };
    let Ok(big) = Layout::from_size_align(n, 2 * s) else { return std::ptr::null_mut() };
    let p = if zeroed { System.alloc_zeroed(big) } else { System.alloc(big) };
    if p.is_null() {
        return p;
    }
    #[cfg(asan)]
    if s >= 8 {
        __asan_poison_memory_region(p, s);
    }
    p.add(s)
}

unsafe fn raw_dealloc(p: *mut u8, l: Layout) {
    let s = shift(l);
    if s == 0 {
        System.dealloc(p, l)
    } else {
        System.dealloc(p.sub(s), Layout::from_size_align_unchecked(l.size() + s, 2 * s))
    }
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = raw_alloc(l, false);
        if on() && !p.is_null() {
            // fresh memory does not happen to be zero
            std::ptr::write_bytes(p, 0xA5, l.size().min(4096));
            insert(p as usize, l);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = raw_alloc(l, true);
        if on() && !p.is_null() {
            insert(p as usize, l);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        erase(p as usize, l);
        raw_dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // always moves, so that stale pointers show
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
