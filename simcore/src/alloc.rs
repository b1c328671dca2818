//! Work budget: a run whose live heap exceeds the budget is stopped deterministically.
//! (A traversal that never terminates grows its result without bound.)
//! Allocations made by the code under test itself are also counted separately: each carries a tag
//! saying whether the simulated program or the simulator asked for it.
use crate::sim;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Budget;
static LIVE: AtomicI64 = AtomicI64::new(0);
static LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);
/// Total number of allocations made by simulated code, for work bounds.
static TOTAL: AtomicU64 = AtomicU64::new(0);
pub const EXIT_BUDGET: i32 = 77;

pub fn arm(extra: i64) {
    LIMIT.store(LIVE.load(Relaxed) + extra, Relaxed);
}
pub fn disarm() {
    LIMIT.store(i64::MAX, Relaxed);
}
pub fn total() -> u64 {
    TOTAL.load(Relaxed)
}

extern "C" {
    fn _exit(code: i32) -> !;
}

#[inline]
fn grow(n: usize) {
    TOTAL.fetch_add(n as u64, Relaxed);
    let l = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
    if l > LIMIT.load(Relaxed) {
        unsafe { _exit(EXIT_BUDGET) }
    }
}

/// Live bytes requested by the code under test, and the most since `own_peak_reset`.
static OWN: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
#[inline]
fn own_add(n: i64) {
    let v = OWN.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(v, Relaxed);
}
pub fn own_peak_reset() {
    PEAK.store(OWN.load(Relaxed), Relaxed);
}
pub fn own_peak() -> i64 {
    PEAK.load(Relaxed)
}

/// Whether allocations by simulated threads are scheduling points.
static POINTS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn set_points(v: bool) {
    POINTS.store(v, Relaxed);
}
#[inline]
fn point() {
    if POINTS.load(Relaxed) && mine() {
        crate::sched::quiet_point();
        crate::sched::hold_point();
    }
}

thread_local! {
    static SIMULATOR: Cell<u32> = const { Cell::new(0) };
}
/// While it lives, what this thread allocates is the simulator's.
pub struct Uncounted(());
pub fn uncounted() -> Uncounted {
    SIMULATOR.with(|c| c.set(c.get() + 1));
    Uncounted(())
}
impl Drop for Uncounted {
    fn drop(&mut self) {
        SIMULATOR.with(|c| c.set(c.get() - 1));
    }
}
/// Bytes the simulated program holds.
pub fn own() -> i64 {
    OWN.load(Relaxed)
}
pub fn mine() -> bool {
    sim::in_sim() && SIMULATOR.with(|c| c.get()) == 0
}

const HEADER: usize = 16;
const TAG: u8 = 0xa5;

fn tagged(l: &Layout) -> bool {
    l.align() <= HEADER
}
unsafe fn outer(l: &Layout) -> Layout {
    Layout::from_size_align_unchecked(l.size() + HEADER, HEADER)
}
unsafe fn tag(p: *mut u8, n: usize) -> *mut u8 {
    if p.is_null() {
        return p;
    }
    let m = mine();
    *p = if m { TAG } else { 0 };
    if m {
        own_add(n as i64);
    }
    p.add(HEADER)
}

unsafe impl GlobalAlloc for Budget {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        grow(l.size());
        if !tagged(&l) {
            return System.alloc(l);
        }
        tag(System.alloc(outer(&l)), l.size())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point();
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        if !tagged(&l) {
            return System.dealloc(p, l);
        }
        let q = p.sub(HEADER);
        if *q == TAG {
            OWN.fetch_sub(l.size() as i64, Relaxed);
        }
        System.dealloc(q, outer(&l))
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        grow(l.size());
        if !tagged(&l) {
            return System.alloc_zeroed(l);
        }
        tag(System.alloc_zeroed(outer(&l)), l.size())
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        grow(n);
        if !tagged(&l) {
            return System.realloc(p, l, n);
        }
        let q = p.sub(HEADER);
        if *q == TAG {
            own_add(n as i64 - l.size() as i64);
        }
        let r = System.realloc(q, outer(&l), n + HEADER);
        if r.is_null() {
            r
        } else {
            r.add(HEADER)
        }
    }
}
