//! C24: wrappers of bit storage, stacked to any depth, show what they wrap.
use crate::io::call;
use crate::ranks::{ask_bits, ask_rank, ask_select, build, failures_reached, readers, Adapted, AdaptedSelect, Known};
use crate::store::*;
use crate::views::{all_bits, lens, look, poke, same};
use rt::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use succinct::bit_vec::{BitSlice, BitSliceMut, BitVec, BitVecMut, BitVecPush};
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support, SelectSupport};
use succinct::storage::BlockType;
use succinct::stream::{BitBuffer, BitRead};
use succinct::{impl_bit_vec_adapter, BitVector, IntVector};

/// Any storage, owned or lent, with nothing of its own.
struct Dyn<'a, B: BlockType>(Box<dyn BitVec<Block = B> + 'a>);
impl<'a, B: BlockType> BitVec for Dyn<'a, B> {
    type Block = B;
    fn bit_len(&self) -> u64 { self.0.bit_len() }
    fn block_len(&self) -> usize { self.0.block_len() }
    fn get_bit(&self, p: u64) -> bool { self.0.get_bit(p) }
    fn get_block(&self, p: usize) -> B { self.0.get_block(p) }
    fn get_bits(&self, p: u64, c: usize) -> B { self.0.get_bits(p, c) }
}
struct Loan<'a, S: 'a>(&'a S);
impl<'a, S: BitVec> BitVec for Loan<'a, S> {
    type Block = S::Block;
    fn bit_len(&self) -> u64 { self.0.bit_len() }
    fn block_len(&self) -> usize { self.0.block_len() }
    fn get_bit(&self, p: u64) -> bool { self.0.get_bit(p) }
    fn get_block(&self, p: usize) -> S::Block { self.0.get_block(p) }
    fn get_bits(&self, p: u64, c: usize) -> S::Block { self.0.get_bits(p, c) }
}
fn lend<'a, S: BitVec>(s: &'a S) -> Dyn<'a, S::Block> { Dyn(Box::new(Loan(s))) }

/// What a user may build with the exported adapter.
struct User<S> { inner: S }
impl<S: BitVec> BitVec for User<S> { impl_bit_vec_adapter!(S::Block, inner); }

struct Cx<'a> { ctl: Option<&'a Ctl>, k: &'a Known, reach: u64, faulty: bool }

/// Questions put to one wrapper, by one or several readers.
fn exam(cx: &Cx<'_>, most: u64, ask: &(dyn Fn(&AtomicU64) -> Res + Sync)) -> Res {
    let seen = AtomicU64::new(0);
    let before = cx.ctl.map_or(0, |c| c.total.load(Relaxed));
    if chance(1, 6) {
        let ctls: Vec<&Ctl> = cx.ctl.into_iter().collect();
        let seen = &seen;
        readers(&ctls, cx.faulty, &move || ask(seen))?;
    } else {
        for _ in 0..1 + choose(most) {
            span(|| {
                if cx.faulty && chance(1, 4) { if let Some(c) = cx.ctl { c.arm(1 + skewed(20), chance(1, 3), chance(1, 3), range(1, u64::MAX)); } }
                let r = ask(&seen);
                if let Some(c) = cx.ctl { c.disarm(); }
                r
            })?;
        }
    }
    failures_reached(cx.ctl, before, &seen)
}

fn as_bits<W: BitVec>(cx: &Cx<'_>, w: &W) -> Res {
    let (w, k) = (Share(w), Share(cx.k));
    exam(cx, 5, &move |seen| { let (w, k) = (&w, &k); ask_bits(w.0, k.0, seen) })
}
fn as_rank<W: BitVec + BitRankSupport>(cx: &Cx<'_>, w: &W) -> Res {
    let (w, k) = (Share(w), Share(cx.k));
    exam(cx, 6, &move |seen| { let (w, k) = (&w, &k); if chance(1, 2) { ask_bits(w.0, k.0, seen) } else { ask_rank(w.0, k.0, seen) } })
}
fn as_select<W>(cx: &Cx<'_>, w: &W) -> Res
where W: BitVec + BitRankSupport + Select1Support + Select0Support + SelectSupport<Over = bool> {
    let (w, k) = (Share(w), Share(cx.k));
    exam(cx, 7, &move |seen| { let (w, k) = (&w, &k); match choose(3) { 0 => ask_bits(w.0, k.0, seen), 1 => ask_rank(w.0, k.0, seen), _ => ask_select(w.0, k.0, seen) } })
}

fn adapted<W>(cx: &Cx<'_>, w: &W) -> Res where W: Select1Support + Select0Support + SelectSupport<Over = bool> {
    let (w, k) = (Share(w), Share(cx.k));
    exam(cx, 7, &move |seen| { let (w, k) = (&w, &k); ask_select(w.0, k.0, seen) })
}

/// One wrapper on `d`, examined, wrapped again, examined, and taken off.
fn level<'a, B: Nine, W: BitVec<Block = B>>(
    cx: &Cx<'_>, d: Dyn<'a, B>, depth: u64, name: &'static str,
    trial: impl Fn(Dyn<'_, B>) -> Result<(), Violation>, make: impl FnOnce(Dyn<'a, B>) -> W,
    check: impl Fn(&Cx<'_>, &W) -> Res, inner: impl Fn(&W) -> Option<&Dyn<'a, B>>, off: impl FnOnce(W) -> Dyn<'a, B>,
) -> Result<Dyn<'a, B>, Violation> {
    if cx.faulty && chance(1, 4) { trial(lend(&d))?; }
    let w = call(name, || make(d))?;
    check(cx, &w)?;
    look(&w, &cx.k.bits, cx.ctl, cx.faulty)?;
    if let Some(i) = call("inner", || inner(&w))? { as_bits(cx, i)?; }
    if depth > 0 {
        let t = tower(cx, lend(&w), depth - 1)?;
        as_bits(cx, &t)?;
        drop(t);
        check(cx, &w)?;
    }
    let d = call("taking the wrapper off", || off(w))?;
    as_bits(cx, &d)?;
    Ok(d)
}

/// Rank9 where it can be had.
trait Nine: BlockType + 'static {
    fn nine<'a>(cx: &Cx<'_>, d: Dyn<'a, Self>, depth: u64) -> Result<Dyn<'a, Self>, Violation> { jacobson(cx, d, depth) }
    fn nine_copy(_cx: &Cx<'_>) -> Res { Ok(()) }
}
impl Nine for u8 {}
impl Nine for u16 {}
impl Nine for u32 {}
impl Nine for usize {}
impl Nine for u64 {
    fn nine<'a>(cx: &Cx<'_>, d: Dyn<'a, u64>, depth: u64) -> Result<Dyn<'a, u64>, Violation> {
        let trial = |l: Dyn<'_, u64>| build("Rank9::new", cx.ctl, cx.reach, || Rank9::new(Loan(&l))).and_then(|r| as_rank(cx, &r));
        match choose(3) {
            0 | 1 => level(cx, d, depth, "Rank9::new", trial, Rank9::new, |c, w| as_rank(c, w), |w| Some(w.inner()), |w| w.into_inner()),
            _ => level(cx, d, depth, "select over Rank9", trial, |d| BinSearchSelect::new(Rank9::new(d)), |c, w| as_select(c, w), |w| Some(w.inner().inner()), |w| w.into_inner().into_inner()),
        }
    }
    fn nine_copy(cx: &Cx<'_>) -> Res {
        let v = BitVector::<u64>::collect(&cx.k.bits);
        let r = call("Rank9::new", || Rank9::new(v))?;
        copy_of(cx, r, |c, w| as_rank(c, w))
    }
}

fn jacobson<'a, B: Nine>(cx: &Cx<'_>, d: Dyn<'a, B>, depth: u64) -> Result<Dyn<'a, B>, Violation> {
    let trial = |l: Dyn<'_, B>| build("JacobsonRank::new", cx.ctl, cx.reach, || JacobsonRank::new(Loan(&l))).and_then(|r| as_rank(cx, &r));
    match choose(5) {
        0 | 1 => level(cx, d, depth, "JacobsonRank::new", trial, JacobsonRank::new, |c, w| as_rank(c, w), |w| Some(w.inner()), |w| w.into_inner()),
        2 => level(cx, d, depth, "an adapted JacobsonRank", trial, |d| Adapted { inner: JacobsonRank::new(d) }, |c, w| as_rank(c, w), |w| Some(w.inner.inner()), |w| w.inner.into_inner()),
        3 => level(cx, d, depth, "select over JacobsonRank", trial, |d| BinSearchSelect::new(JacobsonRank::new(d)), |c, w| as_select(c, w), |w| Some(w.inner().inner()), |w| w.into_inner().into_inner()),
        _ => level(cx, d, depth, "select over select over JacobsonRank", trial, |d| BinSearchSelect::new(BinSearchSelect::new(Adapted { inner: JacobsonRank::new(d) })), |c, w| as_select(c, w), |w| Some(w.inner().inner().inner.inner()), |w| w.into_inner().into_inner().inner.into_inner()),
    }
}

/// A random wrapper on `d`, with others on top of it.
fn tower<'a, B: Nine>(cx: &Cx<'_>, d: Dyn<'a, B>, depth: u64) -> Result<Dyn<'a, B>, Violation> {
    let kind = choose(8);
    ev("wrapper", &[kind, depth]);
    let n = cx.k.bits.len() as u64;
    match kind {
        0 | 1 => jacobson(cx, d, depth),
        2 | 3 => B::nine(cx, d, depth),
        4 => level(cx, d, depth, "BitBuffer::from", |_| Ok(()), BitBuffer::from, |c, w| { nothing_moved(w, 0)?; as_bits(c, w)?; nothing_moved(w, 0) }, |w| Some(w.inner()), |w| w.into_inner()),
        5 => level(cx, d, depth, "BitBuffer::append", |_| Ok(()), BitBuffer::append, |c, w| { nothing_moved(w, n)?; as_bits(c, w)?; nothing_moved(w, n) }, |w| Some(w.inner()), |w| w.into_inner()),
        6 => level(cx, d, depth, "a user type", |_| Ok(()), |d| User { inner: d }, |c, w| as_bits(c, w), |w| Some(&w.inner), |w| w.inner),
        _ => {
            // a window on all of it
            {
                let s = call("slicing", || match choose(3) { 0 => BitSlice::new(&d, ..), 1 => BitSlice::new(&d, 0..n), _ => BitSlice::new(&d, 0..) })?;
                as_bits(cx, &s)?;
                if depth > 0 { tower(cx, lend(&s), depth - 1)?; }
                as_bits(cx, &s)?;
            }
            Ok(d)
        }
    }
}

fn nothing_moved<I: BitVec>(b: &BitBuffer<I>, at: u64) -> Res {
    let p = call("position", || b.position())?;
    ensure!(p == at, "moved-cursor", "the cursor is at {} instead of {}", p, at);
    Ok(())
}

trait Collect: Sized { fn collect(m: &[bool]) -> Self; }
impl<B: BlockType> Collect for BitVector<B> {
    fn collect(m: &[bool]) -> Self {
        let mut v = BitVector::new();
        for b in to_blocks::<B>(m) { v.push_block(b); }
        v.truncate(m.len() as u64);
        v
    }
}

/// A clone shows the same, and outlives what it was cloned from.
fn copy_of<W: BitVec + Clone>(cx: &Cx<'_>, w: W, check: impl Fn(&Cx<'_>, &W) -> Res) -> Res {
    let c = build("clone", None, 0, || w.clone())?;
    check(cx, &c)?;
    check(cx, &w)?;
    if chance(1, 2) { drop(w); check(cx, &c) } else { drop(c); check(cx, &w) }
}

fn copies<B: Nine>(cx: &Cx<'_>) -> Res {
    let v = BitVector::<B>::collect(&cx.k.bits);
    match choose(5) {
        0 => { let r = call("JacobsonRank::new", || JacobsonRank::new(v))?; copy_of(cx, r, |c, w| as_rank(c, w)) }
        1 => { let r = call("JacobsonRank::new", || AdaptedSelect { inner: BinSearchSelect::new(JacobsonRank::new(v)) })?; adapted(cx, &r)?; as_select(cx, &r.inner)?; as_rank(cx, &r.inner.into_inner()) }
        2 => B::nine_copy(cx),
        3 => {
            let mut b = BitBuffer::from(v);
            let p = choose(cx.k.bits.len() as u64 + 1);
            let r = call("seek", || b.seek(p))?;
            ensure!(r.is_ok(), "not-sought", "seek to {} of {}: {:?}", p, cx.k.bits.len(), r);
            let mut c = call("clone", || b.clone())?;
            nothing_moved(&c, p)?;
            copy_of(cx, b.clone(), |c, w| as_bits(c, w))?;
            // written to, it leaves the other alone
            let mut m = cx.k.bits.clone();
            for _ in 0..1 + choose(4) { poke(&mut c, &mut m, None, false)?; }
            nothing_moved(&c, p)?;
            nothing_moved(&b, p)?;
            let v = b.into_inner();
            same("the original after writing to a clone", &call("reading it all", || all_bits(&v))?, &cx.k.bits)?;
            let v = c.into_inner();
            same("the clone after writing to it", &call("reading it all", || all_bits(&v))?, &m)
        }
        _ => { let s = call("slicing", || BitSlice::new(&v, ..))?; copy_of(cx, s, |c, w| as_bits(c, w)) }
    }
}

// ---------------------------------------------------------------------------------------------
// writing through

struct DynMut<'a, B: BlockType>(&'a mut (dyn BitVecMut<Block = B> + 'a));
impl<'a, B: BlockType> BitVec for DynMut<'a, B> {
    type Block = B;
    fn bit_len(&self) -> u64 { self.0.bit_len() }
    fn block_len(&self) -> usize { self.0.block_len() }
    fn get_bit(&self, p: u64) -> bool { self.0.get_bit(p) }
    fn get_block(&self, p: usize) -> B { self.0.get_block(p) }
    fn get_bits(&self, p: u64, c: usize) -> B { self.0.get_bits(p, c) }
}
impl<'a, B: BlockType> BitVecMut for DynMut<'a, B> {
    fn set_bit(&mut self, p: u64, v: bool) { self.0.set_bit(p, v) }
    fn set_block(&mut self, p: usize, v: B) { self.0.set_block(p, v) }
    fn set_bits(&mut self, p: u64, c: usize, v: B) { self.0.set_bits(p, c, v) }
}
impl<S: BitVecMut> BitVecMut for User<S> {
    fn set_bit(&mut self, p: u64, v: bool) { self.inner.set_bit(p, v) }
    fn set_block(&mut self, p: usize, v: S::Block) { self.inner.set_block(p, v) }
}

fn use_it<B: BlockType>(s: &mut dyn BitVecMut<Block = B>, m: &mut Vec<bool>, ctl: Option<&Ctl>, faulty: bool) -> Res {
    for _ in 0..1 + choose(4) { span(|| if chance(1, 3) { look(s, m, ctl, faulty) } else { poke(s, m, ctl, faulty) })?; }
    Ok(())
}

fn tower_mut<B: Nine>(s: &mut (dyn BitVecMut<Block = B> + '_), m: &mut Vec<bool>, ctl: Option<&Ctl>, faulty: bool, depth: u64) -> Res {
    let kind = choose(6);
    ev("writable wrapper", &[kind, depth]);
    let n = m.len() as u64;
    match kind {
        0..=2 => {
            let mut at = if kind == 0 { n } else { 0 };
            let d = DynMut(&mut *s);
            let mut b = if kind == 0 { BitBuffer::append(d) } else { BitBuffer::from(d) };
            if chance(2, 3) {
                at = choose(n + 1);
                let r = call("seek", || b.seek(at))?;
                ensure!(r.is_ok(), "not-sought", "seek to {} of {}: {:?}", at, n, r);
            }
            use_it(&mut b, m, ctl, faulty)?;
            nothing_moved(&b, at)?;
            if depth > 0 { tower_mut(&mut b, m, ctl, faulty, depth - 1)?; }
            use_it(&mut b, m, ctl, faulty)?;
            nothing_moved(&b, at)?;
            if chance(1, 2) {
                let r = call("read_bit", || b.read_bit())?;
                let want = m.get(at as usize).copied();
                ensure!(matches!(r, Ok(x) if x == want), "wrong-bit", "the bit at {} of {} was read as {:?} instead of {:?}", at, n, r, want);
                nothing_moved(&b, (at + 1).min(n))?;
            }
            lens(b.inner(), m)?;
            let d = call("into_inner", || b.into_inner())?;
            same("after taking the wrapper off", &call("reading it all", || all_bits(&d))?, m)?;
        }
        3 => {
            let mut u = User { inner: DynMut(&mut *s) };
            use_it(&mut u, m, ctl, faulty)?;
            if depth > 0 { tower_mut(&mut u, m, ctl, faulty, depth - 1)?; }
            use_it(&mut u, m, ctl, faulty)?;
        }
        4 => {
            let mut d = DynMut(&mut *s);
            let mut w = call("slicing", || BitSliceMut::new(&mut d, ..))?;
            use_it(&mut w, m, ctl, faulty)?;
            if depth > 0 { tower_mut(&mut w, m, ctl, faulty, depth - 1)?; }
            use_it(&mut w, m, ctl, faulty)?;
        }
        _ => {
            // what has been written shows in wrappers made now
            let k = Known::new(m.clone());
            let cx = Cx { ctl, k: &k, reach: n.min(200), faulty };
            let d = DynMut(&mut *s);
            tower(&cx, lend(&d), depth.min(1))?;
        }
    }
    same("after writing through wrappers", &call("reading it all", || all_bits(&*s))?, m)
}

// ---------------------------------------------------------------------------------------------

fn on<B: Nine>() -> Res {
    let w = width::<B>();
    let garbage: B = from_u64(range(0, u64::MAX));
    let mut m = if chance(1, 3) { random_bits(length(1300)) } else { random_bits(length(200)) };
    set_step_limit(100_000_000);
    let kind = choose(9);
    let depth = weighted(&[2, 4, 3, 1]) as u64;
    let faulty = chance(1, 2);
    if let 5 = kind { m.truncate(m.len() / w * w); }
    let mode = choose(5);
    ev("wrap", &[kind, m.len() as u64, depth, mode]);
    match mode {
        0 => {
            let k = Known::new(m);
            copies::<B>(&Cx { ctl: None, k: &k, reach: 0, faulty })
        }
        1 | 2 => {
            let run = |s: &mut dyn BitVecMut<Block = B>, m: &mut Vec<bool>, ctl: Option<&Ctl>| { tower_mut(&mut *s, m, ctl, faulty, depth)?; tower_mut(&mut *s, m, ctl, faulty, depth) };
            match kind {
                0 | 1 => { let mut s = BitStore::<B>::new(&m); let c = s.ctl.clone(); run(&mut s, &mut m, Some(&c)) }
                2..=4 => { let mut s = BlockStore::<B>::new(&m, garbage); let c = s.ctl.clone(); run(&mut s, &mut m, Some(&c)) }
                5 => { let mut s = to_blocks::<B>(&m); run(&mut s, &mut m, None) }
                6 => {
                    let e = 1 + choose(w as u64) as usize;
                    let n = m.len() / e * e;
                    m.truncate(n);
                    let mut v = ints::<B>(&m, e);
                    run(&mut v, &mut m, None)
                }
                _ => { let mut v = BitVector::<B>::collect(&m); run(&mut v, &mut m, None) }
            }
        }
        _ => {
            let e = 1 + choose(w as u64) as usize;
            if kind == 6 { let n = m.len() / e * e; m.truncate(n); }
            let k = Known::new(m);
            let bits = &k.bits;
            let run = |d: Dyn<'_, B>, ctl: Option<&Ctl>, reach: u64| {
                let d = tower(&Cx { ctl, k: &k, reach, faulty }, d, depth)?;
                // nothing was lost on the way
                lens(&d, &k.bits)?;
                same("after taking every wrapper off", &call("reading it all", || all_bits(&d))?, &k.bits)
            };
            match kind {
                0 | 1 => { let s = BitStore::<B>::new(bits); let c = s.ctl.clone(); run(Dyn(Box::new(s)), Some(&c), bits.len() as u64) }
                2..=4 => { let s = BlockStore::<B>::new(bits, garbage); let c = s.ctl.clone(); let n = s.blocks.len() as u64; run(Dyn(Box::new(s)), Some(&c), n) }
                5 => run(Dyn(Box::new(to_blocks::<B>(bits))), None, 0),
                6 => run(Dyn(Box::new(ints::<B>(bits, e))), None, 0),
                _ => run(Dyn(Box::new(BitVector::<B>::collect(bits))), None, 0),
            }
        }
    }
}

fn ints<B: BlockType>(m: &[bool], e: usize) -> IntVector<B> {
    let mut v = IntVector::<B>::new(e);
    for c in m.chunks_exact(e) { v.push(from_bits(c)); }
    v
}

pub fn c24() -> Res {
    match choose(6) { 0 => on::<u8>(), 1 => on::<u16>(), 2 => on::<u32>(), 3 | 4 => on::<u64>(), _ => on::<usize>() }
}
