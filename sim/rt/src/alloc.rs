//! The simulated allocator: accounts for what the library holds and fails on demand.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    pub(crate) static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
    /// -1: never; n: the allocation after n more fails
    static FAIL_IN: Cell<i64> = const { Cell::new(-1) };
    static PERSIST: Cell<bool> = const { Cell::new(false) };
}

/// Requests larger than this always fail, so no simulated run can eat the machine; nor may one run
/// hold more than four times as much.
const CAP: usize = 1 << 26;
thread_local! { static LIMIT: Cell<usize> = const { Cell::new(CAP) }; }
/// Allow more in this run, for memory that will hardly be touched.
pub fn set_cap(n: usize) { LIMIT.with(|l| l.set(n)) }

pub struct SimAlloc;

fn refuse(size: usize) -> bool {
    // a panic's own bookkeeping is not the library's
    if std::thread::panicking() { return false; }
    COUNT.with(|c| c.set(c.get() + 1));
    let f = FAIL_IN.with(|f| f.get());
    let hit = if f < 0 { false } else if f == 0 {
        if !PERSIST.with(|p| p.get()) { FAIL_IN.with(|f| f.set(-1)); }
        true
    } else { FAIL_IN.with(|x| x.set(f - 1)); false };
    let cap = LIMIT.with(|l| l.get());
    let hit = hit || size > cap || LIVE.with(|l| l.get()) > 4 * cap as i64;
    if hit { FAILED.with(|c| c.set(c.get() + 1)); }
    hit
}

/// What the library holds: a small table, so that blocks crossing between harness and library (a
/// vector moved in, a panic message) are not miscounted.
struct Table { used: usize, slots: [(usize, usize); SLOTS] }
const SLOTS: usize = 4096;
thread_local! { static TABLE: std::cell::UnsafeCell<Table> = const { std::cell::UnsafeCell::new(Table { used: 0, slots: [(0, 0); SLOTS] }) }; }

fn table<R>(f: impl FnOnce(&mut Table) -> R) -> R { TABLE.with(|t| f(unsafe { &mut *t.get() })) }

fn held(p: *mut u8, size: usize) {
    if p.is_null() { return; }
    LIVE.with(|v| v.set(v.get() + size as i64));
    table(|t| if t.used < SLOTS { t.slots[t.used] = (p as usize, size); t.used += 1; });
}
fn released(p: *mut u8) {
    table(|t| {
        for i in (0..t.used).rev() {
            if t.slots[i].0 == p as usize {
                let size = t.slots[i].1;
                t.used -= 1;
                t.slots[i] = t.slots[t.used];
                LIVE.with(|v| v.set(v.get() - size as i64));
                return;
            }
        }
    })
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if IN_SUT.with(|s| s.get()) {
            if refuse(l.size()) { return std::ptr::null_mut(); }
            let p = System.alloc(l);
            held(p, l.size());
            p
        } else { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if IN_SUT.with(|s| s.get()) {
            if refuse(l.size()) { return std::ptr::null_mut(); }
            let p = System.alloc_zeroed(l);
            held(p, l.size());
            p
        } else { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        released(p);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if IN_SUT.with(|s| s.get()) {
            if refuse(n) { return std::ptr::null_mut(); }
            let q = System.realloc(p, l, n);
            if !q.is_null() { released(p); held(q, n); }
            q
        } else {
            let q = System.realloc(p, l, n);
            if !q.is_null() { released(p); }
            q
        }
    }
}

pub fn reset() {
    LIMIT.with(|l| l.set(CAP));
    LIVE.with(|v| v.set(0));
    table(|t| t.used = 0);
    COUNT.with(|v| v.set(0));
    FAILED.with(|v| v.set(0));
    disarm();
}

/// Stop failing.
pub fn disarm() { FAIL_IN.with(|f| f.set(-1)); PERSIST.with(|p| p.set(false)); }

/// Let `n` more allocations of the library on this thread succeed, then fail one (or all).
pub fn fail_in(n: u64, persistent: bool) {
    FAIL_IN.with(|f| f.set(n as i64));
    PERSIST.with(|p| p.set(persistent));
}

/// Bytes the library currently holds on this thread.
pub fn live() -> i64 { LIVE.with(|v| v.get()) }
/// Allocation requests made by the library on this thread so far.
pub fn count() -> u64 { COUNT.with(|v| v.get()) }
/// Allocation requests that were refused so far.
pub fn failed() -> u64 { FAILED.with(|v| v.get()) }
