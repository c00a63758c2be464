//! Allocation monitor: every request made to the global allocator while a
//! library operation is in progress is counted.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    /// windows this thread has open
    static OPEN: Cell<u64> = const { Cell::new(0) };
}

/// Number of windows opened so far (one per library call) and of those open now.
pub static OPS: AtomicU64 = AtomicU64::new(0);
pub static IN_OP: AtomicU64 = AtomicU64::new(0);

pub struct Counting;

#[inline]
fn note() {
    let _ = DEPTH.try_with(|d| {
        if d.get() > 0 {
            let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        }
    });
}

thread_local! {
    static TICK: Cell<u64> = const { Cell::new(0) };
}
/// Each unit of work meets the same offsets, whatever ran before it.
pub fn reseed(k: u64) {
    TICK.with(|t| t.set(k << 20));
}
/// Byte-aligned blocks (texts, arguments, boxed strings) and u16 ones start anywhere in a
/// 16-byte line rather than always at its start, so that code which looks at addresses meets
/// every kind. Half of them keep the start, with whatever a sanitizer puts before it.
#[cfg(not(miri))]
fn shift(l: Layout) -> usize {
    if l.align() > 2 || l.size() == 0 || l.size() > 1 << 20 {
        return 0;
    }
    TICK.try_with(|t| {
        let n = t.get();
        t.set(n.wrapping_add(1));
        let m = crate::rng::mix(n) >> 32;
        if m & 16 == 0 {
            0
        } else {
            m as usize & 15 & !(l.align() - 1)
        }
    })
    .unwrap_or(0)
}
/// How far a block is from the start of what the system gave. (The system's blocks start at
/// multiples of 16.)
#[cfg(not(miri))]
fn shifted(p: *mut u8, l: Layout) -> usize {
    if l.align() > 2 {
        0
    } else {
        p as usize & 15
    }
}
#[cfg(miri)]
fn shift(_: Layout) -> usize {
    0
}
#[cfg(miri)]
fn shifted(_: *mut u8, _: Layout) -> usize {
    0
}
fn wider(l: Layout, off: usize) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size() + off, l.align()) }
}
fn after(p: *mut u8, off: usize) -> *mut u8 {
    if p.is_null() {
        p
    } else {
        p.wrapping_add(off)
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note();
        let off = shift(l);
        after(System.alloc(wider(l, off)), off)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note();
        let off = shifted(p, l);
        System.dealloc(p.wrapping_sub(off), wider(l, off))
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note();
        let off = shift(l);
        after(System.alloc_zeroed(wider(l, off)), off)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note();
        let off = shifted(p, l);
        after(System.realloc(p.wrapping_sub(off), wider(l, off), n + off), off)
    }
}

#[inline(always)]
pub fn enter() {
    if cfg!(miri) {
        return;
    }
    DEPTH.with(|d| d.set(d.get() + 1));
    OPS.fetch_add(1, Relaxed);
    OPEN.with(|o| o.set(o.get() + 1));
    IN_OP.fetch_add(1, Relaxed);
}
#[inline(always)]
pub fn leave() {
    if cfg!(miri) {
        return;
    }
    if OPEN.with(|o| o.replace(o.get().saturating_sub(1))) > 0 {
        IN_OP.fetch_sub(1, Relaxed);
    }
    DEPTH.with(|d| d.set(d.get().saturating_sub(1)));
}
/// Suspends the count while caller-supplied code runs inside a window.
#[inline(always)]
pub fn pause<R>(f: impl FnOnce() -> R) -> R {
    let old = DEPTH.with(|d| d.replace(0));
    let r = f();
    DEPTH.with(|d| d.set(old));
    r
}
/// After an unwind.
pub fn reset() {
    IN_OP.fetch_sub(OPEN.with(|o| o.replace(0)), Relaxed);
    DEPTH.with(|d| d.set(0));
}
pub fn take() -> u64 {
    COUNT.with(|c| c.replace(0))
}

#[macro_export]
macro_rules! win {
    ($e:expr) => {{
        $crate::alloc::enter();
        let r = $e;
        $crate::alloc::leave();
        r
    }};
}
