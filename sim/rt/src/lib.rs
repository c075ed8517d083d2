//! Simulator runtime: one seed, one tape of choices, one baton, one clock, one allocator.
//!
//! Nothing in this crate is built with coverage callbacks; everything in the library under test and
//! in the scenarios may be.
#![feature(alloc_error_hook)]

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Mutex, MutexGuard, Once};
use std::thread::Thread;

pub mod alloc;
pub mod cov;
pub mod driver;
pub mod rng;

use rng::Rng;

/// A property violation: `class` identifies the kind (minimisation keeps it), `detail` explains.
#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

pub type Res = Result<(), Violation>;

pub fn viol<T>(class: &str, detail: String) -> Result<T, Violation> {
    Err(Violation { class: class.to_string(), detail })
}

/// Check a condition; on failure return a violation.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($fmt:tt)*) => {
        if !$c { return Err($crate::Violation { class: $class.to_string(), detail: format!($($fmt)*) }); }
    };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status { Runnable, Blocked, Sleeping(u64), Done }

struct Task { name: &'static str, status: Status, thread: Option<Thread> }

pub struct Run {
    replay: Option<Vec<u64>>,
    rng: Rng,
    pub tape: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    open: Vec<usize>,
    pub hash: u64,
    pub log: Option<Vec<String>>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub events: u64,
    pub switches: u64,
    pub steps: u64,
    pub step_limit: u64,
    pub clock: u64,
    stick: u64,
    tasks: Vec<Task>,
    main_thread: Thread,
    abort: Option<Violation>,
    stream: Option<std::fs::File>,
}

const MAIN: usize = usize::MAX;
const MAX_TASKS: usize = 8;

pub struct Shared {
    run: Mutex<Run>,
    /// who holds the baton
    current: AtomicUsize,
}

thread_local! {
    static CUR: Cell<*const Shared> = const { Cell::new(std::ptr::null()) };
    static ME: Cell<usize> = const { Cell::new(MAIN) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

fn shared() -> &'static Shared {
    let p = CUR.with(|c| c.get());
    assert!(!p.is_null(), "simulator used outside a run");
    unsafe { &*p }
}

fn lock() -> MutexGuard<'static, Run> {
    match shared().run.lock() { Ok(g) => g, Err(p) => p.into_inner() }
}

/// Payloads thrown by the simulator.
struct Abort;
pub(crate) struct AllocFail;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct SimFault { pub kind: &'static str, pub id: u64 }

/// What stopped a call into the library.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Caught {
    /// an ordinary panic, with its message
    Panic(String),
    /// an allocation failed
    Alloc,
    /// a fault the simulator threw from a seam
    Fault(SimFault),
}

// ---------------------------------------------------------------------------------------------
// tape

impl Run {
    fn pick(&mut self, span: u64, gen: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let v = match &self.replay {
            Some(t) => t.get(self.tape.len()).copied().unwrap_or(0).min(span),
            None => gen(&mut self.rng).min(span),
        };
        self.tape.push(v);
        if let Some(f) = &mut self.stream {
            use std::io::Write;
            let _ = f.write_all(format!("{} ", v).as_bytes());
        }
        v
    }
    fn mix(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
    }
}

/// A choice in `lo ..= hi`; `gen` proposes a value (clamped) when not replaying.
pub fn pick(lo: u64, hi: u64, gen: impl FnOnce(&mut Rng) -> u64) -> u64 {
    debug_assert!(lo <= hi);
    seam(|| lo + lock().pick(hi - lo, |r| gen(r).clamp(lo, hi) - lo))
}

/// Uniform in `0 .. n`.
pub fn choose(n: u64) -> u64 { pick(0, n.max(1) - 1, |r| r.below(n.max(1))) }

/// Uniform in `lo ..= hi`.
pub fn range(lo: u64, hi: u64) -> u64 { pick(lo, hi, |r| lo + r.below_incl(hi - lo)) }

/// True with probability `num / den`; false is the simplest outcome.
pub fn chance(num: u64, den: u64) -> bool { pick(0, 1, |r| (r.below(den) < num) as u64) == 1 }

/// Index chosen by weight; put the simplest alternative first.
pub fn weighted(w: &[u64]) -> usize {
    let total: u64 = w.iter().sum();
    pick(0, w.len() as u64 - 1, |r| {
        let mut x = r.below(total.max(1));
        for (i, &wi) in w.iter().enumerate() {
            if x < wi { return i as u64; }
            x -= wi;
        }
        0
    }) as usize
}

/// Small numbers are likely, large ones possible: uniform bit length, then uniform.
pub fn skewed(max: u64) -> u64 {
    pick(0, max, |r| {
        let bits = 65 - max.leading_zeros() as u64;
        let b = r.below(bits);
        if b == 0 { 0 } else { (r.next() >> (64 - b)).min(max) }
    })
}

/// A 64-bit value with uniform bit length and a bias to values next to powers of two and to the ends.
pub fn value64() -> u64 { value_below(u64::MAX) }

pub fn value_below(max: u64) -> u64 {
    pick(0, max, |r| {
        let b = r.below(65);
        let v = match r.below(8) {
            0 => (if b == 0 { 0 } else if b == 64 { u64::MAX } else { 1u64 << b }).wrapping_add(r.below(5)).wrapping_sub(2),
            1 => max.wrapping_sub(r.below(4)),
            // few ones, or few zeros
            2 if b > 0 => {
                let v = (1u64 << (b - 1)) | (1u64 << r.below(b)) | (1u64 << r.below(b));
                if r.below(2) == 0 { v } else { !v & (u64::MAX >> (64 - b)) }
            }
            _ => if b == 0 { 0 } else { r.next() >> (64 - b) },
        };
        if v <= max { v } else if max == u64::MAX { v } else { v % (max + 1) }
    })
}

/// Run one operation's worth of choices as a deletable span.
pub fn span<R>(f: impl FnOnce() -> R) -> R {
    let s = seam(|| { let mut g = lock(); let s = g.tape.len(); g.open.push(s); s });
    let r = f();
    seam(|| { let mut g = lock(); g.open.pop(); let e = g.tape.len(); if e > s { g.spans.push((s, e)); } });
    r
}

// ---------------------------------------------------------------------------------------------
// log and counters

pub fn ev(kind: &'static str, args: &[u64]) { ev_tagged("", kind, args) }

fn ev_tagged(tag: &str, kind: &'static str, args: &[u64]) {
    seam(|| {
        let mut g = lock();
        g.events += 1;
        let k = kind.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3));
        g.mix(k);
        for &a in args { g.mix(a); }
        let me = ME.with(|m| m.get());
        g.mix(me as u64);
        if g.log.is_some() {
            let who = if me == MAIN { String::new() } else { format!("[{}] ", g.tasks[me].name) };
            let line = format!("t={} {}{}{} {:?}", g.clock, who, tag, kind, args);
            g.log.as_mut().unwrap().push(line);
        }
    })
}

/// A remark in the log (not hashed, only rendered when logging).
pub fn note(f: impl FnOnce() -> String) {
    seam(|| {
        let on = lock().log.is_some();
        if on { let s = f(); lock().log.as_mut().unwrap().push(format!("    {}", s)); }
    })
}

/// A fault actually fired.
pub fn fault(kind: &'static str) {
    seam(|| {
        { *lock().faults.entry(kind).or_insert(0) += 1; }
        ev_tagged("FAULT ", kind, &[]);
    })
}

/// A rare condition was reached.
pub fn probe(name: &'static str) { seam(|| { *lock().probes.entry(name).or_insert(0) += 1; }) }

pub fn now() -> u64 { seam(|| lock().clock) }

// ---------------------------------------------------------------------------------------------
// crossing between harness and library

/// Run harness code from inside a library call: allocation accounting, allocation failures and
/// preemption are suspended.
pub fn seam<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G { fn drop(&mut self) { alloc::IN_SUT.with(|s| s.set(self.0)); } }
    let _g = G(alloc::IN_SUT.with(|s| s.replace(false)));
    f()
}

/// Like `seam`, for a storage access that may fault: the fault is thrown once back in the library.
pub fn seam_fault<R>(f: impl FnOnce() -> Result<R, SimFault>) -> R {
    match seam(f) {
        Ok(r) => r,
        Err(e) => resume_unwind(Box::new(e)),
    }
}

/// Call into the library: allocations are accounted (and fail as planned), panics are caught.
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    let was = alloc::IN_SUT.with(|s| s.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    let r = match r {
        Ok(v) => { alloc::IN_SUT.with(|s| s.set(was)); Ok(v) }
        Err(p) => {
            let c = seam(|| classify(&*p));
            drop(p); // allocated while accounting was on
            alloc::IN_SUT.with(|s| s.set(was));
            match c { Some(c) => Err(c), None => resume_unwind(Box::new(Abort)) }
        }
    };
    check_abort();
    r
}

fn classify(p: &(dyn Any + Send)) -> Option<Caught> {
    if p.is::<Abort>() { return None; }
    if p.is::<AllocFail>() { return Some(Caught::Alloc); }
    if let Some(f) = p.downcast_ref::<SimFault>() { return Some(Caught::Fault(*f)); }
    Some(Caught::Panic(PANIC_MSG.with(|m| m.borrow().clone())))
}

fn install_hooks() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        std::panic::set_hook(Box::new(|info| {
            alloc::disarm();
            seam(|| {
                let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
                    else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
                    else { "?".into() };
                PANIC_MSG.with(|m| *m.borrow_mut() = format!("{} at {}", msg, loc));
            });
        }));
        std::alloc::set_alloc_error_hook(|_| {
            alloc::disarm();
            resume_unwind(Box::new(AllocFail));
        });
    });
}

fn check_abort() {
    if std::thread::panicking() || CUR.with(|c| c.get()).is_null() { return; }
    let a = seam(|| lock().abort.is_some());
    if a { resume_unwind(Box::new(Abort)); }
}

/// Give up on this run with a violation from a place that cannot return one.
pub fn fail_now(v: Violation) -> ! {
    seam(|| { let mut g = lock(); if g.abort.is_none() { g.abort = Some(v); } });
    resume_unwind(Box::new(Abort));
}

/// One unit of simulated work at a seam; too many without finishing is a progress violation.
pub fn step() {
    let over = seam(|| { let mut g = lock(); g.steps += 1; g.clock += 1; g.steps > g.step_limit });
    if over && !std::thread::panicking() {
        fail_now(Violation { class: "no-progress".into(), detail: "step limit reached at a seam".into() });
    }
}

pub fn set_step_limit(n: u64) { seam(|| lock().step_limit = n) }
pub fn steps() -> u64 { seam(|| lock().steps) }

// ---------------------------------------------------------------------------------------------
// tasks

/// How strongly the scheduler prefers the running task (0: uniform), per run.
pub fn set_stick(n: u64) { seam(|| lock().stick = n) }

fn next_task(g: &mut Run, me: usize) -> Option<usize> {
    if g.abort.is_some() {
        return (0..g.tasks.len()).find(|&i| g.tasks[i].status != Status::Done);
    }
    let mut cand: Vec<usize> = Vec::with_capacity(MAX_TASKS);
    if me != MAIN && g.tasks[me].status == Status::Runnable { cand.push(me); }
    for i in 0..g.tasks.len() {
        if i != me && g.tasks[i].status == Status::Runnable { cand.push(i); }
    }
    if cand.is_empty() {
        let wake = g.tasks.iter().filter_map(|t| if let Status::Sleeping(at) = t.status { Some(at) } else { None }).min();
        match wake {
            Some(at) => {
                g.clock = g.clock.max(at);
                for i in 0..g.tasks.len() {
                    if let Status::Sleeping(a) = g.tasks[i].status {
                        if a <= g.clock { g.tasks[i].status = Status::Runnable; cand.push(i); }
                    }
                }
            }
            None => {
                if g.tasks.iter().all(|t| t.status == Status::Done) { return None; }
                let d: Vec<_> = g.tasks.iter().map(|t| format!("{}={:?}", t.name, t.status)).collect();
                g.abort = Some(Violation { class: "deadlock".into(), detail: format!("every live task waits: {}", d.join(", ")) });
                return next_task(g, me);
            }
        }
    }
    let n = cand.len() as u64;
    let stick = g.stick;
    let has_me = cand[0] == me;
    let i = if n == 1 { 0 } else {
        g.pick(n - 1, |r| if has_me && stick > 0 && r.below(stick + 1) != 0 { 0 } else { r.below(n) })
    };
    Some(cand[i as usize])
}

fn hand_over(mut g: MutexGuard<'static, Run>, me: usize) {
    // wake sleepers whose time has come
    let clock = g.clock;
    for t in g.tasks.iter_mut() {
        if let Status::Sleeping(a) = t.status { if a <= clock { t.status = Status::Runnable; } }
    }
    let sh = shared();
    match next_task(&mut g, me) {
        Some(n) if n == me => {}
        Some(n) => {
            // the lock is released before the baton moves: nobody else runs until it does
            g.switches += 1;
            g.mix(n as u64 + 77);
            let t = g.tasks[n].thread.clone().unwrap();
            let go_on = me != MAIN && g.tasks[me].status != Status::Done;
            drop(g);
            sh.current.store(n, SeqCst);
            t.unpark();
            if go_on { await_baton(sh, me); }
        }
        None => {
            let t = g.main_thread.clone();
            drop(g);
            sh.current.store(MAIN, SeqCst);
            t.unpark();
        }
    }
}

fn await_baton(sh: &Shared, me: usize) {
    while sh.current.load(SeqCst) != me { std::thread::park(); }
}

/// A scheduling point.
pub fn yield_point() {
    let me = ME.with(|m| m.get());
    step();
    if me == MAIN || std::thread::panicking() { return; }
    seam(|| hand_over(lock(), me));
    check_abort();
}

/// Called from the coverage callback: like `yield_point`, but must not throw.
pub(crate) fn preempt_from_callback() {
    let me = ME.with(|m| m.get());
    if me == MAIN || std::thread::panicking() { return; }
    seam(|| {
        let mut g = lock();
        if g.abort.is_some() { return; }
        g.steps += 1;
        g.clock += 1;
        hand_over(g, me);
    });
}

pub fn sleep(ticks: u64) {
    let me = ME.with(|m| m.get());
    if me == MAIN { seam(|| lock().clock += ticks); return; }
    seam(|| { let mut g = lock(); let at = g.clock + ticks; g.tasks[me].status = Status::Sleeping(at); });
    yield_point();
}

/// Block until `pred` holds; anything that may make it true calls `wake_all`.
pub fn wait_until(mut pred: impl FnMut() -> bool) {
    let me = ME.with(|m| m.get());
    loop {
        if pred() { return; }
        if me == MAIN { fail_now(Violation { class: "deadlock".into(), detail: "sole task waits".into() }); }
        if std::thread::panicking() { return; }
        seam(|| lock().tasks[me].status = Status::Blocked);
        yield_point();
    }
}

pub fn wake_all() {
    seam(|| for t in lock().tasks.iter_mut() { if t.status == Status::Blocked { t.status = Status::Runnable; } })
}

/// Arm preemption inside library calls of the current task: every draw picks how many basic blocks
/// run until the next scheduling point (mean about `mean`).
pub fn arm_preemption(mean: u64) { cov::arm(mean); }

pub type Body<'a> = Box<dyn FnOnce() -> Res + Send + 'a>;

/// Run tasks to completion under the simulated scheduler.
pub fn run_tasks<'a>(bodies: Vec<(&'static str, Body<'a>)>) -> Res {
    assert!(bodies.len() <= MAX_TASKS);
    let sh = CUR.with(|c| c.get()) as usize;
    {
        let mut g = lock();
        assert!(g.tasks.is_empty());
        g.tasks = bodies.iter().map(|b| Task { name: b.0, status: Status::Runnable, thread: None }).collect();
        g.main_thread = std::thread::current();
        shared().current.store(MAIN, SeqCst);
    }
    std::thread::scope(|s| {
        for (i, (_, body)) in bodies.into_iter().enumerate() {
            let h = std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(s, move || {
                CUR.with(|c| c.set(sh as *const Shared));
                ME.with(|m| m.set(i));
                await_baton(shared(), i);
                let r = catch_unwind(AssertUnwindSafe(|| { check_abort(); body() }));
                cov::arm(0);
                alloc::IN_SUT.with(|s| s.set(false));
                let mut g = lock();
                let v = match r {
                    Ok(Ok(())) => None,
                    Ok(Err(v)) => Some(v),
                    Err(p) => match classify(&*p) {
                        None => None,
                        Some(c) => Some(Violation { class: "unexpected-panic".into(), detail: format!("task {}: {:?}", i, c) }),
                    },
                };
                if g.abort.is_none() { g.abort = v; }
                g.tasks[i].status = Status::Done;
                hand_over(g, i);
                CUR.with(|c| c.set(std::ptr::null()));
            }).expect("spawn");
            lock().tasks[i].thread = Some(h.thread().clone());
        }
        // start: let the scheduler pick the first task, then wait for the baton to come back
        hand_over(lock(), MAIN);
        await_baton(shared(), MAIN);
    });
    let mut g = lock();
    g.tasks.clear();
    match g.abort.take() { Some(v) => Err(v), None => Ok(()) }
}

// ---------------------------------------------------------------------------------------------
// running one simulation

pub struct Outcome {
    pub violation: Option<Violation>,
    pub tape: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    pub hash: u64,
    pub log: Vec<String>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub events: u64,
    pub switches: u64,
    pub steps: u64,
    pub clock: u64,
}

pub enum Mode { Seed(u64), Tape(Vec<u64>) }

pub fn run_one(scenario: fn() -> Res, mode: Mode, want_log: bool, stream: Option<std::fs::File>) -> Outcome {
    install_hooks();
    let (replay, seed) = match mode { Mode::Seed(s) => (None, s), Mode::Tape(t) => (Some(t), 0) };
    let sh = Shared {
        run: Mutex::new(Run {
            replay, rng: Rng::new(seed), tape: Vec::new(), spans: Vec::new(), open: Vec::new(),
            hash: 0, log: if want_log { Some(Vec::new()) } else { None },
            faults: BTreeMap::new(), probes: BTreeMap::new(), events: 0, switches: 0, steps: 0,
            step_limit: 2_000_000, clock: 0, stick: 0, tasks: Vec::new(), main_thread: std::thread::current(), abort: None, stream,
        }),
        current: AtomicUsize::new(MAIN),
    };
    CUR.with(|c| c.set(&sh));
    ME.with(|m| m.set(MAIN));
    alloc::reset();
    cov::arm(0);
    cov::start_run();
    let r = catch_unwind(AssertUnwindSafe(scenario));
    alloc::IN_SUT.with(|s| s.set(false));
    alloc::disarm();
    cov::arm(0);
    CUR.with(|c| c.set(std::ptr::null()));
    let run = match sh.run.into_inner() { Ok(r) => r, Err(p) => p.into_inner() };
    let violation = match r {
        Ok(Ok(())) => run.abort,
        Ok(Err(v)) => Some(v),
        Err(p) => match classify(&*p) {
            None => run.abort.or(Some(Violation { class: "abort".into(), detail: "aborted".into() })),
            Some(c) => Some(Violation { class: "unexpected-panic".into(), detail: format!("{:?}", c) }),
        },
    };
    Outcome {
        violation, tape: run.tape, spans: run.spans, hash: run.hash, log: run.log.unwrap_or_default(),
        faults: run.faults, probes: run.probes, events: run.events, switches: run.switches,
        steps: run.steps, clock: run.clock,
    }
}
