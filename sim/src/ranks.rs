//! C17 and C18: rank and select structures shared by concurrent readers over storage that fails.
use crate::io::call;
use crate::store::*;
use rt::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use succinct::bit_vec::{BitSlice, BitVec, BitVecPush};
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support, SelectSupport};
use succinct::storage::BlockType;
use succinct::{impl_bit_rank_support_adapter, impl_bit_vec_adapter, impl_rank_support_adapter, impl_select0_support_adapter, impl_select1_support_adapter, impl_select_support_adapter};
use succinct::BitVector;

// ---------------------------------------------------------------------------------------------
// what the answers are

/// The bits, with the number of ones before every 64th.
pub struct Known { pub bits: Vec<bool>, ones: Vec<u64> }

impl Known {
    pub fn new(bits: Vec<bool>) -> Self {
        let mut ones = Vec::with_capacity(bits.len() / 64 + 1);
        let mut c = 0;
        for k in bits.chunks(64) { ones.push(c); c += k.iter().filter(|&&b| b).count() as u64; }
        ones.push(c);
        Known { bits, ones }
    }
    fn len(&self) -> u64 { self.bits.len() as u64 }
    /// ones up to and including `p`
    fn rank(&self, p: u64, b: bool) -> u64 {
        let p = p as usize;
        let r = self.ones[p / 64] + self.bits[p / 64 * 64..=p].iter().filter(|&&b| b).count() as u64;
        if b { r } else { p as u64 + 1 - r }
    }
    fn total(&self, b: bool) -> u64 { let t = *self.ones.last().unwrap(); if b { t } else { self.len() - t } }
    fn select(&self, i: u64, b: bool) -> Option<u64> {
        if i >= self.total(b) { return None; }
        let before = |k: usize| if b { self.ones[k] } else { 64 * k as u64 - self.ones[k] };
        let (mut lo, mut hi) = (0, (self.bits.len() + 63) / 64);
        // the last chunk with at most `i` before it
        while hi - lo > 1 { let mid = (lo + hi) / 2; if before(mid) <= i { lo = mid } else { hi = mid } }
        let mut left = i - before(lo);
        for p in lo * 64..self.bits.len() {
            if self.bits[p] == b { if left == 0 { return Some(p as u64); } left -= 1; }
        }
        unreachable!()
    }
}

/// Bits for rank structures: textures that fill, empty and straddle basic blocks; rarely very long.
pub fn rank_bits() -> Vec<bool> {
    let class = weighted(&[10, 10, 6, 1]);
    let n = match class { 0 => length(150), 1 => length(1600), 2 => length(9000), _ => length(300_000) };
    if class == 3 || chance(1, 4) {
        // chunks of one density each
        let mut v = Vec::with_capacity(n);
        let unit = [64, 512, 1, 576, 4096][choose(5) as usize];
        while v.len() < n {
            let k = (unit * (1 + choose(if class == 3 { 400 } else { 4 }) as usize)).min(n - v.len());
            match choose(4) {
                0 => v.resize(v.len() + k, true),
                1 => v.resize(v.len() + k, false),
                2 => { let w = range(0, u64::MAX); for i in 0..k { v.push(w >> (i % 61) & 1 == 1); } }
                _ => { let p = 1 + choose(130) as usize; let b = chance(1, 2); for i in 0..k { v.push((i % p == 0) != b); } }
            }
        }
        v
    } else { random_bits(n) }
}

/// Somewhere in `0 .. n`, biased to block boundaries and ends.
fn somewhere(n: u64) -> u64 {
    pick(0, n - 1, |r| match r.below(6) {
        0 => n - 1 - r.below(3.min(n)),
        1 => (512 * r.below(n / 512 + 1) + r.below(3)).saturating_sub(1),
        2 => (64 * r.below(n / 64 + 1) + r.below(3)).saturating_sub(1),
        3 => (8 * r.below(n / 8 + 1) + r.below(3)).saturating_sub(1),
        _ => r.below(n),
    })
}

fn beyond(len: u64) -> u64 {
    match choose(6) { 0 => len, 1 => len + choose(70), 2 => u64::MAX, 3 => u64::MAX - choose(600), 4 => 1 << range(40, 63), _ => range(len, u64::MAX) }.max(len)
}

// ---------------------------------------------------------------------------------------------
// lending a storage, so that it can be watched and used again

pub struct Lent<'a, S: ?Sized>(&'a S);
struct Held<'a, S: ?Sized> { s: &'a S }
pub type Any<'d, B> = dyn BitVec<Block = B> + 'd;
impl<'a, S: BitVec + ?Sized> BitVec for Lent<'a, S> {
    type Block = S::Block;
    fn bit_len(&self) -> u64 { self.0.bit_len() }
    fn block_len(&self) -> usize { self.0.block_len() }
    fn get_bit(&self, p: u64) -> bool { self.0.get_bit(p) }
    fn get_block(&self, p: usize) -> S::Block { self.0.get_block(p) }
}
impl<'a, S: BitVec + ?Sized> BitVec for Held<'a, S> { impl_bit_vec_adapter!(S::Block, s); }

/// What a user may build with the exported adapters.
pub struct Adapted<R> { pub inner: R }
impl<R: BitVec> BitVec for Adapted<R> { impl_bit_vec_adapter!(R::Block, inner); }
impl<R: RankSupport> RankSupport for Adapted<R> { impl_rank_support_adapter!(R::Over, inner); }
impl<R: BitRankSupport> BitRankSupport for Adapted<R> { impl_bit_rank_support_adapter!(inner); }
pub struct AdaptedSelect<R> { pub inner: R }
impl<R: Select1Support> Select1Support for AdaptedSelect<R> { impl_select1_support_adapter!(inner); }
impl<R: Select0Support> Select0Support for AdaptedSelect<R> { impl_select0_support_adapter!(inner); }
impl<R: SelectSupport> SelectSupport for AdaptedSelect<R> { impl_select_support_adapter!(R::Over, inner); }

/// Build over storage that may fail: a failure propagates, and building again works.
pub fn build<R>(what: &str, ctl: Option<&Ctl>, reach: u64, make: impl Fn() -> R) -> Result<R, Violation> {
    if chance(1, 3) {
        let armed = match ctl {
            Some(c) => { c.arm(1 + choose(reach + 2), chance(1, 4), false, range(1, u64::MAX)); true }
            None => { alloc::fail_in(choose(6), chance(1, 2)); false }
        };
        let r = sut(&make);
        alloc::disarm();
        let fired = ctl.map_or(0, |c| { c.disarm(); c.fired.load(Relaxed) });
        match r {
            Ok(r) => { ensure!(fired == 0, "swallowed-failure", "{}: the storage failed {} times but construction succeeded", what, fired); return Ok(r); }
            Err(Caught::Alloc) if !armed => fault("allocation failure"),
            Err(Caught::Fault(f)) if fired > 0 && ctl.map(|c| c.id.load(Relaxed)) == Some(f.id) => probe("failed construction"),
            Err(c) => return viol("panic", format!("{}: {:?}", what, c)),
        }
    }
    call(what, make)
}

// ---------------------------------------------------------------------------------------------
// concurrent readers

/// Outcome of one query: the answer, or that it failed as planned.
type Answer = Result<u64, Caught>;

/// `readers` tasks put queries from `ask` to shared structures; each query says what it did through
/// its result. Storage failures reach exactly the readers whose accesses failed.
pub fn readers<'a>(ctls: &'a [&'a Ctl], faulty: bool, ask: &'a (dyn Fn() -> Res + Sync)) -> Res {
    let tasks = 1 + weighted(&[2, 4, 3, 1]);
    set_stick([0, 3, 20][choose(3) as usize]);
    let mean = [0, 3, 20, 150][choose(4) as usize];
    ev("readers", &[tasks as u64, mean]);
    for c in ctls { c.set_yields(); }
    let mut bodies: Vec<(&'static str, Body<'a>)> = vec![];
    for name in ["a", "b", "c", "d"].iter().take(tasks) {
        bodies.push((name, Box::new(move || {
            if mean > 0 { arm_preemption(mean); }
            let k = 1 + choose(6);
            for _ in 0..k {
                span(|| {
                    if faulty && !ctls.is_empty() && chance(1, 4) {
                        let c = ctls[choose(ctls.len() as u64) as usize];
                        c.arm(1 + skewed(20), false, false, range(1, u64::MAX));
                    }
                    ask()
                })?;
                yield_point();
            }
            Ok(())
        })));
    }
    if tasks == 1 { let (_, b) = bodies.pop().unwrap(); b()?; arm_preemption(0); } else { run_tasks(bodies)?; }
    for c in ctls { c.disarm(); }
    Ok(())
}

/// Whether a query met a storage failure (then counted), or gave this answer.
fn settle(what: &str, r: Answer, want: u64, seen: &AtomicU64) -> Res {
    match r {
        Ok(x) => { ensure!(x == want, "wrong-answer", "{} gave {} instead of {}", what, x, want); Ok(()) }
        Err(Caught::Fault(_)) => { seam(|| { seen.fetch_add(1, Relaxed); }); probe("failed query"); Ok(()) }
        Err(c) => viol("panic", format!("{}: {:?}", what, c)),
    }
}

fn must_refuse(what: &str, r: Result<u64, Caught>, seen: &AtomicU64) -> Res {
    match r {
        Err(Caught::Panic(_)) => { probe("refused query"); Ok(()) }
        Err(Caught::Fault(_)) => { seam(|| { seen.fetch_add(1, Relaxed); }); Ok(()) }
        Err(c) => viol("panic", format!("{}: {:?}", what, c)),
        Ok(x) => viol("not-refused", format!("{} was answered with {}", what, x)),
    }
}

// ---------------------------------------------------------------------------------------------
// C17

/// One query about a bit rank structure.
pub fn ask_rank<R: BitRankSupport>(r: &R, k: &Known, seen: &AtomicU64) -> Res {
    let n = k.len();
    match weighted(&[6, 3, 3, 1, 2]) {
        w @ 0..=2 if n > 0 => {
            let p = somewhere(n);
            let b = if w == 2 { chance(1, 2) } else { w == 0 };
            ev("rank", &[w as u64, p, b as u64]);
            let a = match w { 0 => sut(|| r.rank1(p)), 1 => sut(|| r.rank0(p)), _ => sut(|| r.rank(p, b)) };
            settle(&format!("rank of {} at {} of {}", b as u8, p, n), a, k.rank(p, b), seen)
        }
        3 => {
            let l = call("limit", || r.limit())?;
            ensure!(l == n, "wrong-length", "limit {} instead of {}", l, n);
            Ok(())
        }
        _ => {
            let p = beyond(n);
            let w = choose(3);
            ev("rank beyond", &[w, p]);
            let a = match w { 0 => sut(|| r.rank1(p)), 1 => sut(|| r.rank0(p)), _ => sut(|| r.rank(p, true)) };
            must_refuse(&format!("rank at {} of {}", p, n), a, seen)
        }
    }
}

/// The structure still shows the bits.
pub fn ask_bits<R: BitVec>(r: &R, k: &Known, seen: &AtomicU64) -> Res {
    let n = k.len();
    let w = width::<R::Block>() as u64;
    let l = call("bit_len", || (r.bit_len(), r.block_len()))?;
    ensure!(l == (n, ((n + w - 1) / w) as usize), "wrong-length", "{:?} bits and blocks instead of {}", l, n);
    if n == 0 { return Ok(()); }
    let p = somewhere(n);
    match choose(3) {
        0 => { ev("get_bit", &[p]); settle("get_bit", sut(|| r.get_bit(p) as u64), k.bits[p as usize] as u64, seen) }
        1 => {
            let c = choose(w.min(n - p) + 1);
            ev("get_bits", &[p, c]);
            settle("get_bits", sut(|| r.get_bits(p, c as usize)).map(as_u64), as_u64(from_bits::<R::Block>(&k.bits[p as usize..(p + c) as usize])), seen)
        }
        _ => {
            let b = p / w;
            let c = w.min(n - b * w);
            let m = if c == 64 { u64::MAX } else { (1 << c) - 1 };
            ev("get_block", &[b]);
            settle("get_block", sut(|| r.get_block(b as usize)).map(|x| as_u64(x) & m), as_u64(from_bits::<R::Block>(&k.bits[(b * w) as usize..(b * w + c) as usize])), seen)
        }
    }
}

/// All accesses a query makes, on a storage of single bits or of blocks.
fn bounded<R: BitRankSupport>(r: &R, k: &Known, ctl: &Ctl, per_block: u64) -> Res {
    if k.len() == 0 { return Ok(()); }
    for _ in 0..3 {
        let p = somewhere(k.len());
        let before = ctl.calls();
        let w = choose(2);
        ev("count accesses", &[p]);
        call("rank", || if w == 0 { r.rank1(p) } else { r.rank0(p) })?;
        let c = ctl.calls() - before;
        ensure!(c <= 16 * per_block, "unbounded-query", "rank at {} of {} read {} blocks", p, k.len(), c / per_block);
    }
    Ok(())
}

/// Structures over one storage, queried by concurrent readers.
fn rank_run<B: BlockType>(s: &Any<'_, B>, k: &Known, ctl: Option<&Ctl>, single: bool) -> Res {
    let reach = if single { k.len() } else { s.block_len() as u64 };
    let w = width::<B>() as u64;
    let j = build("JacobsonRank::new", ctl, reach, || JacobsonRank::new(Held { s }))?;
    let i = build("JacobsonRank::new", ctl, reach, || Adapted { inner: JacobsonRank::new(Lent(s)) })?;
    let seen = AtomicU64::new(0);
    let before = ctl.map_or(0, |c| c.total.load(Relaxed));
    let ctls: Vec<&Ctl> = ctl.into_iter().collect();
    {
        let (j, i, k) = (Share(&j), Share(&i), Share(k));
        let seen = &seen;
        let ask = move || {
            let (j, i, k) = (&j, &i, &k);
            match weighted(&[5, 3, 1, 1]) {
                0 => ask_rank(j.0, k.0, seen),
                1 => ask_rank(i.0, k.0, seen),
                2 => ask_bits(j.0, k.0, seen),
                _ => ask_bits(i.0, k.0, seen),
            }
        };
        readers(&ctls, chance(1, 2), &ask)?;
    }
    failures_reached(ctl, before, &seen)?;
    if let Some(c) = ctl { bounded(&j, k, c, if single { w } else { 1 })?; }
    // and it is still exact
    for _ in 0..3 { ask_rank(&j, k, &seen)?; ask_rank(&i, k, &seen)?; }
    let x = call("inner", || j.inner().bit_len())?;
    ensure!(x == k.len(), "wrong-length", "inner has {} bits", x);
    let x = call("into_inner", || j.into_inner().bit_len())?;
    ensure!(x == k.len(), "wrong-length", "into_inner has {} bits", x);
    Ok(())
}

pub fn failures_reached(ctl: Option<&Ctl>, before: u64, seen: &AtomicU64) -> Res {
    if let Some(c) = ctl {
        let f = c.total.load(Relaxed) - before;
        let s = seen.load(Relaxed);
        ensure!(f == s, "swallowed-failure", "{} storage failures, {} failed queries", f, s);
    }
    Ok(())
}

fn rank9_run(s: &Any<'_, u64>, k: &Known, ctl: Option<&Ctl>, single: bool) -> Res {
    let reach = if single { k.len() } else { s.block_len() as u64 };
    let r = build("Rank9::new", ctl, reach, || Rank9::new(Held { s }))?;
    let j = build("JacobsonRank::new", ctl, reach, || JacobsonRank::new(Lent(s)))?;
    let seen = AtomicU64::new(0);
    let before = ctl.map_or(0, |c| c.total.load(Relaxed));
    let ctls: Vec<&Ctl> = ctl.into_iter().collect();
    {
        let (r, j, k) = (Share(&r), Share(&j), Share(k));
        let seen = &seen;
        let ask = move || {
            let (r, j, k) = (&r, &j, &k);
            match weighted(&[6, 2, 1]) { 0 => ask_rank(r.0, k.0, seen), 1 => ask_rank(j.0, k.0, seen), _ => ask_bits(r.0, k.0, seen) }
        };
        readers(&ctls, chance(1, 2), &ask)?;
    }
    failures_reached(ctl, before, &seen)?;
    if let Some(c) = ctl { bounded(&r, k, c, if single { 64 } else { 1 })?; }
    for _ in 0..4 { ask_rank(&r, k, &seen)?; }
    let x = call("inner", || r.inner().bit_len())?;
    ensure!(x == k.len(), "wrong-length", "inner has {} bits", x);
    let x = call("into_inner", || r.into_inner().bit_len())?;
    ensure!(x == k.len(), "wrong-length", "into_inner has {} bits", x);
    Ok(())
}

fn vector<B: BlockType>(m: &[bool]) -> BitVector<B> {
    let mut v = BitVector::new();
    for b in to_blocks::<B>(m) { v.push_block(b); }
    v.truncate(m.len() as u64);
    v
}

fn shareable() -> Res {
    let all = [
        is_sync!(JacobsonRank<Vec<u64>>), is_sync!(JacobsonRank<BitVector<u8>>), is_sync!(Rank9<Vec<u64>>), is_sync!(Rank9<BitVector<u64>>),
        is_sync!(JacobsonRank<&'static [u32]>), is_sync!(BinSearchSelect<Rank9<Vec<u64>>>), is_sync!(BinSearchSelect<JacobsonRank<BitVector<u16>>>),
    ];
    ensure!(all.iter().all(|&x| x), "not-shareable", "a rank or select structure cannot be shared between threads: {:?}", all);
    Ok(())
}

pub fn c17() -> Res {
    if crate::far::giant_rank() { return crate::far::c17(); }
    shareable()?;
    match choose(5) { 0 => c17_on::<u8>(), 1 => c17_on::<u16>(), 2 => c17_on::<u32>(), 3 => c17_on::<u64>(), _ => c17_on::<usize>() }
}

fn c17_on<B: BlockType + 'static>() -> Res {
    let w = width::<B>();
    let mut bits = rank_bits();
    let kind = choose(14);
    if let 1 | 2 | 8 = kind { let n = bits.len() / w * w; bits.truncate(n); }
    if let 3 | 10 | 12 = kind { bits.truncate(4000); }
    ev("rank", &[kind, bits.len() as u64]);
    let g: B = from_u64(range(0, u64::MAX));
    let k = Known::new(bits);
    match kind {
        0 => rank_run(&vector::<B>(&k.bits), &k, None, false),
        1 => rank_run(&to_blocks::<B>(&k.bits), &k, None, false),
        2 => { let v = to_blocks::<B>(&k.bits); rank_run(&&v[..], &k, None, false) }
        3 => { let s = BitStore::<B>::new(&k.bits); rank_run(&s, &k, Some(&s.ctl), true) }
        4 | 5 | 6 => { let s = BlockStore::<B>::new(&k.bits, g); rank_run(&s, &k, Some(&s.ctl), false) }
        7 => {
            // a window
            let pre = length(100);
            let mut all = random_bits(pre);
            all.extend_from_slice(&k.bits);
            all.extend(random_bits(length(100)));
            let v = vector::<B>(&all);
            let s = call("slicing", || BitSlice::new(&v, pre as u64..(pre + k.bits.len()) as u64))?;
            rank_run(&s, &k, None, false)
        }
        8 => { let v = to_blocks::<u64>(&k.bits); let n = k.bits.len() / 64 * 64; let k = Known::new(k.bits[..n].to_vec()); rank9_run(&v[..n / 64].to_vec(), &k, None, false) }
        9 => rank9_run(&vector::<u64>(&k.bits), &k, None, false),
        10 => { let s = BitStore::<u64>::new(&k.bits); rank9_run(&s, &k, Some(&s.ctl), true) }
        11 | 12 => { let s = BlockStore::<u64>::new(&k.bits, as_u64(g)); rank9_run(&s, &k, Some(&s.ctl), false) }
        _ => prims(),
    }
}

fn prims() -> Res {
    fn on<B: BlockType>() -> Res {
        let x: B = from_u64(range(0, u64::MAX));
        let k = Known::new(block_bits(x));
        let l = call("limit", || x.limit())?;
        ensure!(l == k.len(), "wrong-length", "limit {} of a block", l);
        for _ in 0..8 {
            let p = choose(k.len());
            let b = chance(1, 2);
            ev("block rank", &[as_u64(x), p]);
            let got = call("rank", || (x.rank(p, b), x.rank1(p), x.rank0(p)))?;
            let want = (k.rank(p, b), k.rank(p, true), k.rank(p, false));
            ensure!(got == want, "wrong-answer", "ranks of {:#x} at {}: {:?} instead of {:?}", as_u64(x), p, got, want);
            if chance(1, 4) {
                let p = beyond(k.len());
                let w = choose(4);
                ev("block rank beyond", &[w, p]);
                crate::views::refuse("rank beyond the end of a block", || match w { 0 => x.rank1(p), 1 => x.rank0(p), 2 => x.rank(p, true), _ => x.rank(p, false) })?;
            }
        }
        Ok(())
    }
    match choose(5) { 0 => on::<u8>(), 1 => on::<u16>(), 2 => on::<u32>(), 3 => on::<u64>(), _ => on::<usize>() }
}

// ---------------------------------------------------------------------------------------------
// C18

/// Rank over symbols, brought by a user; counts queries, refuses positions out of bounds, fails by plan.
pub struct Symbols<T> { all: Vec<T>, ctl: Ctl, oob: AtomicU64 }

impl<T: Copy + Eq> RankSupport for Symbols<T> {
    type Over = T;
    fn rank(&self, p: u64, v: T) -> u64 {
        if p >= self.all.len() as u64 { seam(|| { self.oob.fetch_add(1, Relaxed); }); panic!("rank out of bounds"); }
        self.ctl.access(|| self.all[..=p as usize].iter().filter(|&&x| x == v).count() as u64)
    }
    fn limit(&self) -> u64 { self.all.len() as u64 }
}
/// Only what the trait asks for: rank1 and rank0 are the library's.
impl BitRankSupport for Symbols<bool> {}

/// Bits set at `first`, `first + every`, ...: as long as one likes.
pub struct Comb { first: u64, every: u64, limit: u64, ctl: Ctl, oob: AtomicU64 }
impl Comb {
    fn ones(&self, p: u64) -> u64 { if p < self.first { 0 } else { (p - self.first) / self.every + 1 } }
    fn total(&self) -> u64 { if self.limit == 0 { 0 } else { self.ones(self.limit - 1) } }
}
impl RankSupport for Comb {
    type Over = bool;
    fn rank(&self, p: u64, v: bool) -> u64 {
        if p >= self.limit { seam(|| { self.oob.fetch_add(1, Relaxed); }); panic!("rank out of bounds"); }
        self.ctl.access(|| if v { self.ones(p) } else { p + 1 - self.ones(p) })
    }
    fn limit(&self) -> u64 { self.limit }
}
impl BitRankSupport for Comb { fn rank1(&self, p: u64) -> u64 { self.rank(p, true) } }

fn index(total: u64) -> u64 {
    match weighted(&[6, 2, 1, 1, 1]) {
        0 if total > 0 => pick(0, total - 1, |r| match r.below(4) { 0 => total - 1 - r.below(2.min(total)), 1 => r.below(3.min(total)), _ => r.below(total) }),
        1 | 0 => total.saturating_add(choose(3)),
        2 => u64::MAX,
        3 => u64::MAX - choose(3),
        _ => total.max(range(0, u64::MAX)),
    }
}

fn answer(what: String, r: Result<Option<u64>, Caught>, want: Option<u64>, seen: &AtomicU64) -> Res {
    match r {
        Ok(x) => { ensure!(x == want, "wrong-answer", "{} gave {:?} instead of {:?}", what, x, want); Ok(()) }
        Err(Caught::Fault(_)) => { seam(|| { seen.fetch_add(1, Relaxed); }); probe("failed query"); Ok(()) }
        Err(c) => viol("panic", format!("{}: {:?}", what, c)),
    }
}

pub fn ask_select<S>(s: &S, k: &Known, seen: &AtomicU64) -> Res
where S: Select1Support + Select0Support + SelectSupport<Over = bool> {
    let way = choose(4);
    let b = match way { 0 | 1 => true, 2 => false, _ => chance(1, 2) };
    let i = index(k.total(b));
    ev("select", &[way, b as u64, i]);
    let r = match way { 0 | 1 => sut(|| s.select1(i)), 2 => sut(|| s.select0(i)), _ => sut(|| s.select(i, b)) };
    answer(format!("select of {} number {} of {}", b as u8, i, k.total(b)), r, k.select(i, b), seen)
}

/// Bit selection over the library's rank structures.
fn select_run<R>(what: &str, k: &Known, ctl: Option<&Ctl>, reach: u64, make: impl Fn() -> R) -> Res
where R: BitRankSupport + BitVec {
    let s = build(what, ctl, reach, || BinSearchSelect::new(make()))?;
    let t = build(what, ctl, reach, || AdaptedSelect { inner: BinSearchSelect::new(BinSearchSelect::new(make())) })?;
    let seen = AtomicU64::new(0);
    let before = ctl.map_or(0, |c| c.total.load(Relaxed));
    let ctls: Vec<&Ctl> = ctl.into_iter().collect();
    {
        let (s, t, k) = (Share(&s), Share(&t), Share(k));
        let seen = &seen;
        let ask = move || {
            let (s, t, k) = (&s, &t, &k);
            match weighted(&[5, 3, 1, 1]) {
                0 => ask_select(s.0, k.0, seen),
                1 => ask_select(t.0, k.0, seen),
                2 => ask_rank(s.0, k.0, seen),
                _ => ask_bits(s.0, k.0, seen),
            }
        };
        readers(&ctls, chance(1, 2), &ask)?;
    }
    failures_reached(ctl, before, &seen)?;
    for _ in 0..3 { ask_select(&s, k, &seen)?; }
    let x = call("inner", || s.inner().limit())?;
    ensure!(x == k.len(), "wrong-length", "inner has {} bits", x);
    let x = call("into_inner", || s.into_inner().limit())?;
    ensure!(x == k.len(), "wrong-length", "into_inner has {} bits", x);
    Ok(())
}

/// Queries counted one at a time: at most logarithmically many.
fn count(ctl: &Ctl, limit: u64, what: &str, f: impl FnOnce() -> Res) -> Res {
    let before = ctl.calls();
    f()?;
    let c = ctl.calls() - before;
    let lg = 64 - limit.leading_zeros() as u64;
    ensure!(c <= 4 * lg + 16, "too-many-queries", "{} over {} made {} rank queries", what, limit, c);
    Ok(())
}

fn symbols<T: Copy + Eq + Send + Sync + Into<u64>>(alphabet: &[T]) -> Res {
    let n = length(scale(8) * if chance(1, 2) { 60 } else { 500 });
    let all: Vec<T> = {
        let mut v = Vec::with_capacity(n);
        let runs = chance(1, 2);
        let mut x = alphabet[0];
        for i in 0..n { if !runs || i == 0 || chance(1, 12) { x = alphabet[choose(alphabet.len() as u64) as usize]; } v.push(x); }
        v
    };
    ev("symbols", &[n as u64, alphabet.len() as u64]);
    let s = BinSearchSelect::new(Symbols { all, ctl: Ctl::default(), oob: AtomicU64::new(0) });
    let seen = AtomicU64::new(0);
    let rank = s.inner();
    let query = |s: &BinSearchSelect<Symbols<T>>| {
        let v = alphabet[choose(alphabet.len() as u64) as usize];
        let where_: Vec<u64> = seam(|| (0..n).filter(|&p| s.inner().all[p] == v).map(|p| p as u64).collect());
        let i = index(where_.len() as u64);
        ev("select", &[v.into(), i]);
        let want = if i < where_.len() as u64 { Some(where_[i as usize]) } else { None };
        answer(format!("select of symbol {} number {} of {}", v.into(), i, where_.len()), sut(|| s.select(i, v)), want, &seen)
    };
    {
        let sh = Share(&s);
        let q = Share(&query);
        let ask = move || { let (s, q) = (&sh, &q); (q.0)(s.0) };
        readers(&[&rank.ctl], chance(1, 2), &ask)?;
    }
    failures_reached(Some(&rank.ctl), 0, &seen)?;
    for _ in 0..3 { count(&rank.ctl, n as u64, "select", || query(&s))?; }
    ensure!(rank.oob.load(Relaxed) == 0, "query-out-of-bounds", "select asked for ranks out of bounds");
    Ok(())
}

fn user_bits() -> Res {
    let k = Known::new(random_bits(length(400 * scale(8))));
    ev("user bits", &[k.len()]);
    let s = BinSearchSelect::new(Symbols { all: k.bits.clone(), ctl: Ctl::default(), oob: AtomicU64::new(0) });
    let seen = AtomicU64::new(0);
    {
        let (sh, k, seen) = (Share(&s), Share(&k), &seen);
        let ask = move || { let (s, k) = (&sh, &k); if chance(1, 4) { if k.0.len() == 0 { Ok(()) } else { let p = somewhere(k.0.len()); settle("rank0", sut(|| s.0.rank0(p)), k.0.rank(p, false), seen) } } else { ask_select(s.0, k.0, seen) } };
        readers(&[&s.inner().ctl], chance(1, 2), &ask)?;
    }
    failures_reached(Some(&s.inner().ctl), 0, &seen)?;
    for _ in 0..3 { count(&s.inner().ctl, k.len(), "select", || ask_select(&s, &k, &seen))?; }
    ensure!(s.inner().oob.load(Relaxed) == 0, "query-out-of-bounds", "select asked for ranks out of bounds");
    Ok(())
}

fn comb() -> Res {
    let limit = match choose(4) { 0 => u64::MAX, 1 => u64::MAX - choose(3), _ => value64() };
    let every = match choose(3) { 0 => 1, 1 => 1 + choose(10), _ => value64().max(1) };
    let first = match choose(3) { 0 => 0, 1 => choose(every), _ => value64() };
    ev("comb", &[first, every, limit]);
    let s = BinSearchSelect::new(Comb { first, every, limit, ctl: Ctl::default(), oob: AtomicU64::new(0) });
    let seen = AtomicU64::new(0);
    let query = |s: &BinSearchSelect<Comb>| {
        let c = s.inner();
        let b = chance(1, 2);
        let total = if b { c.total() } else { c.limit - c.total() };
        let i = index(total);
        ev("select", &[b as u64, i]);
        let want = if i >= total { None } else if b { Some(first + i * every) }
            else if every == 1 { Some(i) }
            else if i < first { Some(i) }
            // zeros after the first one come in runs of `every - 1`
            else { let j = i - first; Some(first + j / (every - 1) * every + j % (every - 1) + 1) };
        let r = match choose(2) { 0 => sut(|| s.select(i, b)), _ => if b { sut(|| s.select1(i)) } else { sut(|| s.select0(i)) } };
        answer(format!("select of {} number {} of {}", b as u8, i, total), r, want, &seen)
    };
    {
        let sh = Share(&s);
        let q = Share(&query);
        let ask = move || { let (s, q) = (&sh, &q); (q.0)(s.0) };
        readers(&[&s.inner().ctl], chance(1, 2), &ask)?;
    }
    failures_reached(Some(&s.inner().ctl), 0, &seen)?;
    for _ in 0..3 { count(&s.inner().ctl, limit, "select", || query(&s))?; }
    ensure!(s.inner().oob.load(Relaxed) == 0, "query-out-of-bounds", "select asked for ranks out of bounds");
    Ok(())
}

pub fn c18() -> Res {
    shareable()?;
    match choose(5) { 0 => c18_on::<u8>(), 1 => c18_on::<u16>(), 2 => c18_on::<u32>(), 3 => c18_on::<u64>(), _ => c18_on::<usize>() }
}

fn c18_on<B: BlockType>() -> Res {
    let kind = choose(14);
    match kind {
        0 | 1 => return symbols::<u8>(&[0, 1, 2, 7, 200, 255]),
        2 => return symbols::<u8>(&[42]),
        3 => return symbols::<bool>(&[false, true]),
        4 => return user_bits(),
        5 | 6 => return comb(),
        7 => return blocks::<B>(),
        _ => {}
    }
    let mut bits = rank_bits();
    if kind == 13 { bits.truncate(1500); }
    ev("select", &[kind, bits.len() as u64]);
    let k = Known::new(bits);
    let g = range(0, u64::MAX);
    match kind {
        8 => { let v = vector::<B>(&k.bits); select_run("select over JacobsonRank", &k, None, 0, || JacobsonRank::new(Lent(&v as &Any<'_, B>))) }
        9 => { let v = vector::<u64>(&k.bits); select_run("select over Rank9", &k, None, 0, || Rank9::new(Lent(&v as &Any<'_, u64>))) }
        10 | 11 => { let s = BlockStore::<B>::new(&k.bits, from_u64(g)); select_run("select over JacobsonRank", &k, Some(&s.ctl), s.blocks.len() as u64, || JacobsonRank::new(Lent(&s as &Any<'_, B>))) }
        12 => { let s = BlockStore::<u64>::new(&k.bits, g); select_run("select over Rank9", &k, Some(&s.ctl), s.blocks.len() as u64, || Rank9::new(Lent(&s as &Any<'_, u64>))) }
        _ => { let s = BitStore::<B>::new(&k.bits); select_run("select over JacobsonRank", &k, Some(&s.ctl), k.len(), || JacobsonRank::new(Lent(&s as &Any<'_, B>))) }
    }
}

/// Selection in a single block.
fn blocks<B: BlockType>() -> Res {
    let x: B = from_u64(range(0, u64::MAX) & if chance(1, 3) { range(0, u64::MAX) } else { u64::MAX });
    let k = Known::new(block_bits(x));
    ev("block", &[as_u64(x)]);
    let s = BinSearchSelect::new(x);
    let seen = AtomicU64::new(0);
    for _ in 0..8 { ask_select(&s, &k, &seen)?; }
    Ok(())
}
