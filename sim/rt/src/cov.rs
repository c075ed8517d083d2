//! Basic-block callbacks: which blocks of the library ran, and preemption inside library calls.
use crate::alloc::IN_SUT;
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering::Relaxed};

const MAP: usize = 1 << 20;
static HIT: [AtomicU8; MAP] = [const { AtomicU8::new(0) }; MAP];
static NEXT: AtomicU64 = AtomicU64::new(1);

thread_local! {
    static COUNTDOWN: Cell<u64> = const { Cell::new(0) };
    static MEAN: Cell<u64> = const { Cell::new(0) };
    static BLOCKS: Cell<u64> = const { Cell::new(0) };
}
/// Blocks executed inside the library in one run beyond which it is taken to loop forever.
const BLOCK_LIMIT: u64 = 2_000_000_000;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut s: *mut u32, e: *mut u32) {
    if s == e || *s != 0 { return; }
    while s < e {
        *s = NEXT.fetch_add(1, Relaxed) as u32;
        s = s.add(1);
    }
}

extern "C" {
    /// No destructors: this may be any place in the library.
    fn _exit(status: i32) -> !;
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !IN_SUT.with(|s| s.get()) { return; }
    HIT[(*g as usize) & (MAP - 1)].store(1, Relaxed);
    let b = BLOCKS.with(|b| { let v = b.get() + 1; b.set(v); v });
    if b > BLOCK_LIMIT { _exit(86); }
    let c = COUNTDOWN.with(|c| c.get());
    if c == 0 { return; }
    COUNTDOWN.with(|x| x.set(c - 1));
    if c == 1 {
        crate::preempt_from_callback();
        draw();
    }
}

fn draw() {
    let m = MEAN.with(|m| m.get());
    if m == 0 { COUNTDOWN.with(|c| c.set(0)); return; }
    // 0 (the simplest choice) means "far away"
    let d = crate::pick(0, 4 * m, |r| { let x = r.below(2 * m); if x == 0 { 1 } else { x } });
    COUNTDOWN.with(|c| c.set(if d == 0 { 100_000_000 } else { d }));
}

pub(crate) fn arm(mean: u64) {
    MEAN.with(|m| m.set(mean));
    if mean == 0 { COUNTDOWN.with(|c| c.set(0)); } else { draw(); }
}

pub(crate) fn start_run() { BLOCKS.with(|b| b.set(0)); }

/// Whether this build has callbacks at all.
pub fn enabled() -> bool { NEXT.load(Relaxed) > 1 }
/// (blocks of library and instantiated code reached inside library calls, blocks in the build)
pub fn reached() -> (u64, u64) {
    let n = NEXT.load(Relaxed);
    let mut h = 0;
    for i in 1..(n as usize).min(MAP) { h += HIT[i].load(Relaxed) as u64; }
    (h, n - 1)
}
/// The indexes reached, for merging across processes.
pub fn reached_set() -> Vec<u32> {
    let n = NEXT.load(Relaxed) as usize;
    (1..n.min(MAP)).filter(|&i| HIT[i].load(Relaxed) != 0).map(|i| i as u32).collect()
}
