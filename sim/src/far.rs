//! Positions that do not fit in 32 bits, up to the ends of the number range: storages that hold only
//! the bits that differ from a rule, and vectors whose memory is never touched.
use crate::codes::Code;
use crate::io::{call, ErrSpec};
use crate::store::*;
use crate::views::{guarded, refuse};
use rt::*;
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;
use std::ops::Range;
use std::sync::{Arc, Mutex};
use succinct::coding::{Unary, UniversalCode};
use succinct::bit_vec::{BitSlice, BitSliceMut, BitVec, BitVecMut, BitVecPush};
use succinct::int_vec::{IntVec, IntVecMut};
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9};
use succinct::storage::BlockType;
use succinct::stream::{BitBuffer, BitRead, BitWrite};
use succinct::{impl_bit_vec_adapter, BitVector, IntVector};

// ---------------------------------------------------------------------------------------------
// the bits

/// Bits that follow a rule, but for a few.
#[derive(Clone)]
struct Sparse { len: u64, rule: u64, over: BTreeMap<u64, bool> }

impl Sparse {
    fn ground(&self, p: u64) -> bool {
        match self.rule {
            0 => false,
            1 => true,
            k => { let x = (p ^ k).wrapping_mul(0x9E37_79B9_7F4A_7C15); (x ^ x >> 31).wrapping_mul(0xBF58_476D_1CE4_E5B9) >> 60 & 1 == 1 }
        }
    }
    fn get(&self, p: u64) -> bool { match self.over.get(&p) { Some(&b) => b, None => self.ground(p) } }
    fn set(&mut self, p: u64, v: bool) { if self.ground(p) == v { self.over.remove(&p); } else { self.over.insert(p, v); } }
    fn push(&mut self, v: bool) { self.len += 1; self.set(self.len - 1, v); }
    fn pop(&mut self) -> Option<bool> {
        if self.len == 0 { return None; }
        let r = self.get(self.len - 1);
        self.len -= 1;
        self.over.remove(&self.len);
        Some(r)
    }
    fn block<B: BlockType>(&self, from: u64, count: u64) -> B {
        let mut b = B::zero();
        for i in 0..count { if self.get(from + i) { b = with(b, i as usize, true); } }
        b
    }
    /// The first place where they differ, outside a range.
    fn differs(&self, other: &Sparse, outside: Range<u64>) -> Option<u64> {
        self.over.keys().chain(other.over.keys()).copied()
            .filter(|p| !outside.contains(p) && *p < self.len.min(other.len)).find(|&p| self.get(p) != other.get(p))
    }
}

type Raw = Arc<Mutex<Sparse>>;

/// Bit by bit.
struct FarBits<B> { raw: Raw, ctl: Arc<Ctl>, _b: PhantomData<fn() -> B> }
/// Block by block, arbitrary bits behind the end.
struct FarBlocks<B> { raw: Raw, ctl: Arc<Ctl>, garbage: B }

impl<B: BlockType> BitVec for FarBits<B> {
    type Block = B;
    fn bit_len(&self) -> u64 { seam(|| self.raw.lock().unwrap().len) }
    fn get_bit(&self, p: u64) -> bool {
        let m = &self.raw;
        self.ctl.bounds(seam(|| p < m.lock().unwrap().len));
        self.ctl.access(|| m.lock().unwrap().get(p))
    }
}
impl<B: BlockType> BitVecMut for FarBits<B> {
    fn set_bit(&mut self, p: u64, v: bool) {
        let m = &self.raw;
        self.ctl.bounds(seam(|| p < m.lock().unwrap().len));
        self.ctl.access(|| m.lock().unwrap().set(p, v))
    }
}
impl<B: BlockType> BitVecPush for FarBits<B> {
    fn push_bit(&mut self, v: bool) { self.ctl.access(|| self.raw.lock().unwrap().push(v)) }
    fn pop_bit(&mut self) -> Option<bool> { self.ctl.access(|| self.raw.lock().unwrap().pop()) }
}

fn blocks<B>(len: u64) -> u64 { let w = width::<B>() as u64; len / w + (len % w != 0) as u64 }
/// Where a block is.
fn extent<B>(len: u64, b: u64) -> Range<u64> { let w = width::<B>() as u64; b * w..b * w + w.min(len - b * w) }

impl<B: BlockType> BitVec for FarBlocks<B> {
    type Block = B;
    fn bit_len(&self) -> u64 { seam(|| self.raw.lock().unwrap().len) }
    fn get_block(&self, b: usize) -> B {
        let m = &self.raw;
        self.ctl.bounds(seam(|| (b as u64) < blocks::<B>(m.lock().unwrap().len)));
        self.ctl.access(|| {
            let m = m.lock().unwrap();
            let e = extent::<B>(m.len, b as u64);
            let mut x = self.garbage;
            for i in 0..e.end - e.start { x = with(x, i as usize, m.get(e.start + i)); }
            x
        })
    }
}
impl<B: BlockType> BitVecMut for FarBlocks<B> {
    fn set_block(&mut self, b: usize, v: B) {
        let m = &self.raw;
        self.ctl.bounds(seam(|| (b as u64) < blocks::<B>(m.lock().unwrap().len)));
        self.ctl.access(|| {
            let mut m = m.lock().unwrap();
            let e = extent::<B>(m.len, b as u64);
            for i in 0..e.end - e.start { m.set(e.start + i, bit(v, i as usize)); }
        })
    }
}
impl<B: BlockType> BitVecPush for FarBlocks<B> {
    fn push_bit(&mut self, v: bool) { self.ctl.access(|| self.raw.lock().unwrap().push(v)) }
    fn pop_bit(&mut self) -> Option<bool> { self.ctl.access(|| self.raw.lock().unwrap().pop()) }
}

struct Wrapped<S> { inner: S }
impl<S: BitVec> BitVec for Wrapped<S> { impl_bit_vec_adapter!(S::Block, inner); }

/// A length that does not fit in 31 bits.
fn far_len(max: u64) -> u64 {
    pick(1 << 31, max, |r| match r.below(4) {
        0 => max - r.below(200),
        1 => r.below_incl(max),
        _ => (1u64 << (31 + r.below(33))).wrapping_add(r.below(400)).wrapping_sub(200),
    })
}

/// A number up to `hi`, near a power of two or an end, often at the same distance.
fn near(hi: u64, home: u64) -> u64 {
    pick(0, hi, |r| {
        let at = match r.below(5) { 0 => 0, 1 => hi, 2 => r.below_incl(hi), _ => (1u64 << r.below(64)).min(hi) };
        let d = if r.below(2) == 0 { home + r.below(3) } else { r.below(260) };
        if r.below(3) == 0 { at.saturating_sub(d) } else { at.saturating_add(d) }
    })
}

fn beyond(len: u64) -> u64 { match choose(4) { 0 => len, 1 => len.saturating_add(choose(130)), 2 => u64::MAX, _ => range(len, u64::MAX) } }

/// A span that ends beyond `len`.
fn span_beyond(len: u64, w: usize) -> (u64, usize) {
    let c = 1 + choose(w as u64);
    let from = len - (c - 1).min(len);
    (match choose(3) { 0 => from, 1 => from.saturating_add(choose(c)), _ => beyond(len) }, c as usize)
}
fn block_beyond(n: u64) -> usize { (match choose(4) { 0 => n, 1 => n + choose(10), 2 => u64::MAX, _ => range(n, u64::MAX) }) as usize }

// ---------------------------------------------------------------------------------------------
// C15 and C16

struct Far<'a> { raw: Option<&'a Raw>, model: Sparse, ctl: &'a Ctl, faulty: bool, home: u64 }

impl<'a> Far<'a> {
    /// What the storage holds, as far as it can be seen from below.
    fn now(&self) -> Option<Sparse> { self.raw.map(|r| r.lock().unwrap().clone()) }

    fn unchanged(&self, what: &str) -> Res {
        let now = match self.now() { Some(n) => n, None => return Ok(()) };
        ensure!(now.len == self.model.len, "wrong-length", "{}: {} bits instead of {}", what, now.len, self.model.len);
        if let Some(p) = now.differs(&self.model, 0..0) { return viol("wrong-contents", format!("{}: bit {} of {} changed", what, p, now.len)); }
        Ok(())
    }

    fn look<B: BlockType>(&self, s: &dyn BitVec<Block = B>, at: u64, len: u64) -> Res {
        let (w, n, m) = (width::<B>() as u64, blocks::<B>(len), &self.model);
        match weighted(&[4, 6, 4, 1, 1, 1, 1]) {
            0 => if len > 0 {
                let i = near(len - 1, self.home);
                ev("get_bit", &[i]);
                for _ in 0..2 { if let Some(b) = guarded(Some(self.ctl), self.faulty, "get_bit", || s.get_bit(i))? { ensure!(b == m.get(at + i), "wrong-bit", "bit {} of {} read as {}", i, len, b); } }
            },
            1 => {
                let c = choose(w.min(len) + 1);
                let i = near(len - c, self.home);
                ev("get_bits", &[i, c]);
                let want: B = m.block(at + i, c);
                for _ in 0..2 { if let Some(x) = guarded(Some(self.ctl), self.faulty, "get_bits", || s.get_bits(i, c as usize))? { ensure!(x == want, "wrong-bits", "bits {}+{} of {} read as {:#x} instead of {:#x}", i, c, len, as_u64(x), as_u64(want)); } }
            }
            2 => if n > 0 {
                let b = near(n - 1, self.home / w);
                ev("get_block", &[b]);
                let e = extent::<B>(len, b);
                let c = (e.end - e.start) as usize;
                let want: B = m.block(at + e.start, c as u64);
                for _ in 0..2 { if let Some(x) = guarded(Some(self.ctl), self.faulty, "get_block", || s.get_block(b as usize))? { ensure!(block_bits(x)[..c] == block_bits(want)[..c], "wrong-block", "block {} of {} bits read as {:#x} instead of {:#x} in its first {} bits", b, len, as_u64(x), as_u64(want), c); } }
            },
            3 => { let i = beyond(len); ev("get_bit beyond", &[i]); refuse("get_bit beyond the end", || s.get_bit(i))?; }
            4 => { let (i, c) = span_beyond(len, w as usize); ev("get_bits beyond", &[i, c as u64]); refuse("get_bits beyond the end", || s.get_bits(i, c))?; }
            5 => { let b = block_beyond(n); ev("get_block beyond", &[b as u64]); refuse("get_block beyond the end", || s.get_block(b))?; }
            _ => {}
        }
        let (l, b) = call("lengths", || (s.bit_len(), s.block_len()))?;
        ensure!(l == len && b as u64 == n, "wrong-length", "{} bits in {} blocks of {} instead of {} in {}", l, b, w, len, n);
        Ok(())
    }

    fn poke<B: BlockType>(&mut self, s: &mut dyn BitVecMut<Block = B>, at: u64, len: u64) -> Res {
        let (w, n) = (width::<B>() as u64, blocks::<B>(len));
        let x: B = from_u64(range(0, u64::MAX));
        let (ctl, faulty) = (Some(self.ctl), self.faulty);
        let (what, r, done) = match weighted(&[4, 6, 4, 1, 1, 1]) {
            0 => {
                if len == 0 { return Ok(()); }
                let i = near(len - 1, self.home);
                ev("set_bit", &[i, bit(x, 0) as u64]);
                ("set_bit", i..i + 1, guarded(ctl, faulty, "set_bit", || s.set_bit(i, bit(x, 0)))?)
            }
            1 => {
                let c = choose(w.min(len) + 1);
                let i = near(len - c, self.home);
                ev("set_bits", &[i, c, as_u64(x)]);
                ("set_bits", i..i + c, guarded(ctl, faulty, "set_bits", || s.set_bits(i, c as usize, x))?)
            }
            2 => {
                if n == 0 { return Ok(()); }
                let b = near(n - 1, self.home / w);
                ev("set_block", &[b, as_u64(x)]);
                ("set_block", extent::<B>(len, b), guarded(ctl, faulty, "set_block", || s.set_block(b as usize, x))?)
            }
            k => {
                match k {
                    3 => { let i = beyond(len); ev("set_bit beyond", &[i]); refuse("set_bit beyond the end", || s.set_bit(i, bit(x, 0)))?; }
                    4 => { let (i, c) = span_beyond(len, w as usize); ev("set_bits beyond", &[i, c as u64]); refuse("set_bits beyond the end", || s.set_bits(i, c, x))?; }
                    _ => { let b = block_beyond(n); ev("set_block beyond", &[b as u64]); refuse("set_block beyond the end", || s.set_block(b, x))?; }
                }
                return self.unchanged("after a refused write");
            }
        };
        let r = at + r.start..at + r.end;
        let now = self.now();
        if let Some(now) = &now {
            ensure!(now.len == self.model.len, "torn-write", "{}: {} bits became {}", what, self.model.len, now.len);
            if let Some(p) = now.differs(&self.model, r.clone()) { return viol("torn-write", format!("{} writing bits {}..{} of {}: bit {} changed", what, r.start, r.end, now.len, p)); }
        }
        if done.is_some() {
            for (k, i) in r.enumerate() { self.model.set(i, bit(x, k)); }
            self.unchanged(what)
        } else { self.model = now.expect("no faults without a view from below"); Ok(()) }
    }

    fn grow<B: BlockType>(&mut self, s: &mut dyn BitVecPush<Block = B>) -> Res {
        let w = width::<B>() as u64;
        let mut want = self.model.clone();
        let (ctl, faulty) = (Some(self.ctl), self.faulty);
        let (what, done) = match weighted(&[3, 4, 2, 2]) {
            0 => {
                let b: B = from_u64(range(0, u64::MAX));
                ev("push_block", &[as_u64(b)]);
                while want.len % w != 0 { want.push(false); }
                for x in block_bits(b) { want.push(x); }
                ("push_block", guarded(ctl, faulty, "push_block", || s.push_block(b))?.is_some())
            }
            1 => {
                let b = chance(1, 2);
                ev("align_block", &[b as u64]);
                while want.len % w != 0 { want.push(b); }
                ("align_block", guarded(ctl, faulty, "align_block", || s.align_block(b))?.is_some())
            }
            2 => { let b = chance(1, 2); ev("push_bit", &[b as u64]); want.push(b); ("push_bit", guarded(ctl, faulty, "push_bit", || s.push_bit(b))?.is_some()) }
            _ => {
                ev("pop_bit", &[]);
                let x = want.pop();
                let r = guarded(ctl, faulty, "pop_bit", || s.pop_bit())?;
                if let Some(r) = r { ensure!(r == x, "wrong-bit", "pop_bit gave {:?} instead of {:?}", r, x); }
                ("pop_bit", r.is_some())
            }
        };
        if done { self.model = want; return self.unchanged(what); }
        let now = self.now().expect("no faults without a view from below");
        ensure!(now.len >= self.model.len.min(want.len) && now.len <= self.model.len.max(want.len), "torn-write", "failed {}: {} bits became {}", what, self.model.len, now.len);
        if let Some(p) = now.differs(&self.model, want.len..u64::MAX) { return viol("torn-write", format!("failed {}: bit {} of {} changed", what, p, self.model.len)); }
        self.model = now;
        Ok(())
    }

    /// A window in `0 .. len`.
    fn window(&self, len: u64) -> Range<u64> {
        let a = near(len, self.home);
        let b = a + match choose(3) { 0 => len - a, 1 => near(len - a, self.home), _ => choose((len - a).min(300) + 1) };
        ev("window", &[a, b]);
        a..b
    }
}

fn world(max: u64) -> (Raw, u64) {
    let len = far_len(max);
    let rule = match choose(4) { 0 => 0, 1 => 1, _ => range(2, u64::MAX) };
    let home = choose(200);
    ev("far", &[len, rule, home]);
    (Arc::new(Mutex::new(Sparse { len, rule, over: BTreeMap::new() })), home)
}

fn bits_on<B: BlockType>(raw: &Raw) -> FarBits<B> { FarBits { raw: raw.clone(), ctl: Arc::default(), _b: PhantomData } }
fn blocks_on<B: BlockType>(raw: &Raw) -> FarBlocks<B> { FarBlocks { raw: raw.clone(), ctl: Arc::default(), garbage: from_u64(range(0, u64::MAX)) } }

pub fn c16<B: BlockType>() -> Res {
    let kind = choose(5);
    // room to grow
    let (raw, home) = world(if kind < 2 { u64::MAX - 100_000 } else { u64::MAX });
    let f = |ctl| Far { raw: Some(&raw), model: raw.lock().unwrap().clone(), ctl, faulty: chance(2, 3), home };
    ev("far storage", &[kind]);
    match kind {
        0 => { let mut s = bits_on::<B>(&raw); let c = s.ctl.clone(); pushing(&mut s, f(&c)) }
        1 => { let mut s = blocks_on::<B>(&raw); let c = s.ctl.clone(); pushing(&mut s, f(&c)) }
        2 => { let mut s = bits_on::<B>(&raw); let c = s.ctl.clone(); writing(&mut s, f(&c)) }
        3 => { let mut s = blocks_on::<B>(&raw); let c = s.ctl.clone(); writing(&mut s, f(&c)) }
        _ => {
            let s = blocks_on::<B>(&raw);
            let c = s.ctl.clone();
            let (s, f) = (Wrapped { inner: s }, f(&c));
            for _ in 0..1 + choose(10) { span(|| f.look(&s, 0, f.model.len))?; }
            Ok(())
        }
    }
}

fn pushing<B: BlockType>(s: &mut dyn BitVecPush<Block = B>, mut f: Far) -> Res {
    for _ in 0..1 + choose(20) {
        span(|| { let n = f.model.len; match choose(4) { 0 | 1 => f.grow(s), 2 => f.look(s, 0, n), _ => f.poke(s, 0, n) } })?;
    }
    Ok(())
}
fn writing<B: BlockType>(s: &mut dyn BitVecMut<Block = B>, mut f: Far) -> Res {
    let n = f.model.len;
    for _ in 0..1 + choose(20) { span(|| if chance(1, 2) { f.look(s, 0, n) } else { f.poke(s, 0, n) })?; }
    Ok(())
}

pub fn c15<B: BlockType>() -> Res {
    let (raw, home) = world(u64::MAX);
    if chance(1, 2) {
        let mut s = bits_on::<B>(&raw);
        let c = s.ctl.clone();
        let f = Far { raw: Some(&raw), model: raw.lock().unwrap().clone(), ctl: &c, faulty: chance(1, 2), home };
        windows(&mut s, f)
    } else {
        let mut s = blocks_on::<B>(&raw);
        let c = s.ctl.clone();
        let f = Far { raw: Some(&raw), model: raw.lock().unwrap().clone(), ctl: &c, faulty: chance(1, 2), home };
        windows(&mut s, f)
    }
}

fn windows<B: BlockType>(base: &mut dyn BitVecMut<Block = B>, mut f: Far) -> Res { windows_on(base, &mut f) }
fn windows_on<B: BlockType>(base: &mut dyn BitVecMut<Block = B>, f: &mut Far) -> Res {
    let n = f.model.len;
    for _ in 0..1 + choose(3) {
        let r = f.window(n);
        let (at, len) = (r.start, r.end - r.start);
        if chance(1, 2) {
            let s = call("slicing", || BitSlice::new(&*base, r))?;
            for _ in 0..1 + choose(4) { span(|| f.look(&s, at, len))?; }
            let r = f.window(len);
            let (at, len) = (at + r.start, r.end - r.start);
            let t = call("slicing a slice", || s.slice(r.clone()))?;
            for _ in 0..1 + choose(3) { span(|| f.look(&t, at, len))?; }
            let t = call("slicing a slice", || BitSlice::new(&s, r))?;
            for _ in 0..1 + choose(3) { span(|| f.look(&t, at, len))?; }
            if len < u64::MAX {
                let e = range(len + 1, u64::MAX);
                let a = range(0, e);
                ev("bad window", &[a, e]);
                refuse("a range beyond a slice", || t.slice(a..e))?;
            }
        } else {
            let mut s = call("slicing", || BitSliceMut::new(&mut *base, r))?;
            for _ in 0..1 + choose(4) { span(|| if chance(1, 3) { f.look(&s, at, len) } else { f.poke(&mut s, at, len) })?; }
            let r = f.window(len);
            let (at, len) = (at + r.start, r.end - r.start);
            {
                let mut t = if chance(1, 2) { call("slicing a slice", || s.slice_mut(r.clone()))? } else {
                    let mut t = call("slicing a slice", || BitSliceMut::new(&mut s, r.clone()))?;
                    for _ in 0..1 + choose(4) { span(|| if chance(1, 3) { f.look(&t, at, len) } else { f.poke(&mut t, at, len) })?; }
                    drop(t);
                    call("slicing a slice", || s.slice_mut(r.clone()))?
                };
                for _ in 0..1 + choose(4) { span(|| if chance(1, 3) { f.look(&t, at, len) } else { f.poke(&mut t, at, len) })?; }
                if len < u64::MAX {
                    let e = range(len + 1, u64::MAX);
                    let a = range(0, e);
                    ev("bad window", &[a, e]);
                    refuse("a range beyond a slice", || { t.slice_mut(a..e); })?;
                    refuse("a range beyond a slice", || { t.slice(a..e); })?;
                }
            }
            let t = call("slicing a slice", || s.slice(r))?;
            f.look(&t, at, len)?;
        }
        f.unchanged("after the windows")?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// the storages the library makes of vectors, slices and its own vectors, with more blocks or bits than 16 or 32 bits count

/// More than 2^16 blocks or, rarely, 2^32.
fn many() -> u64 { near(300, 50) + if giant(40) { alloc::set_cap(1 << 34); 1 << 32 } else { 1 << 16 } }

pub fn plain_c15() -> Res { plain(|b, f| windows_on(b, f), |b, f| windows_on(b, f), |b, f| windows_on(b, f)) }
pub fn plain_c16() -> Res { plain(|b, f| strokes(b, f), |b, f| strokes(b, f), |b, f| strokes(b, f)) }

type Act<B> = fn(&mut dyn BitVecMut<Block = B>, &mut Far) -> Res;

fn strokes<B: BlockType>(s: &mut dyn BitVecMut<Block = B>, f: &mut Far) -> Res {
    let n = f.model.len;
    for _ in 0..1 + choose(6) { span(|| if chance(1, 3) { f.look(s, 0, n) } else { f.poke(s, 0, n) })?; }
    Ok(())
}

fn plain(a8: Act<u8>, a16: Act<u16>, a64: Act<u64>) -> Res {
    let n = many();
    let kind = choose(7);
    ev("plain", &[kind, n]);
    let m = n as usize;
    match kind {
        0 => settle(&mut vec![false; m], n, a8),
        1 => settle(&mut vec![0u8; m], n * 8, a8),
        2 => settle(&mut &mut vec![0u8; m][..], n * 8, a8),
        3 => settle(&mut crate::views::Bare(&mut vec![0u8; m][..]), n * 8, a8),
        4 => settle(&mut vec![0u16; m.min(70_000)], n.min(70_000) * 16, a16),
        5 => settle(&mut call("with_fill", || BitVector::<u64>::with_fill(n, false))?, n, a64),
        _ => {
            let k = 1 + choose(16);
            let b = n * k / 64;
            settle(&mut call("block_with_fill", || IntVector::<u64>::block_with_fill(k as usize, b as usize, 0))?, b * 64 / k * k, a64)
        }
    }
}

fn settle<B: BlockType>(base: &mut dyn BitVecMut<Block = B>, len: u64, act: Act<B>) -> Res {
    let ctl = Ctl::default();
    let home = choose(200);
    let mut f = Far { raw: None, model: Sparse { len, rule: 0, over: BTreeMap::new() }, ctl: &ctl, faulty: false, home };
    for _ in 0..1 + choose(4) {
        act(base, &mut f)?;
        let (l, n) = call("lengths", || (base.bit_len(), base.block_len()))?;
        ensure!(l == len && n as u64 == blocks::<B>(len), "wrong-length", "{} bits in {} blocks instead of {}", l, n, len);
        // around everything ever written, and where truncated positions would lead
        let mut places: BTreeSet<u64> = BTreeSet::new();
        for &p in f.model.over.keys().take(300).chain([near(len - 1, home), len - 1].iter()) {
            for s in [15, 16, 18, 19, 20, 22, 31, 32, 34, 35] { for q in [p, p.wrapping_sub(1), p + 1, p ^ 1 << s, p & ((1 << s) - 1)] { if q < len { places.insert(q); } } }
        }
        let r = call("get_bit", || places.iter().find(|&&p| base.get_bit(p) != f.model.get(p)))?;
        if let Some(p) = r { return viol("wrong-contents", format!("bit {} of {} read as {}", p, len, !f.model.get(*p))); }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C07

pub fn c07() -> Res {
    let (raw, home) = world(u64::MAX - 100_000);
    match choose(4) {
        0 => { let s = bits_on::<u8>(&raw); let c = s.ctl.clone(); file(s, &raw, &c, home) }
        1 => { let s = bits_on::<u64>(&raw); let c = s.ctl.clone(); file(s, &raw, &c, home) }
        2 => { let s = blocks_on::<u32>(&raw); let c = s.ctl.clone(); file(s, &raw, &c, home) }
        _ => { let s = blocks_on::<u64>(&raw); let c = s.ctl.clone(); file(s, &raw, &c, home) }
    }
}

fn file<S: BitVecPush>(s: S, raw: &Raw, ctl: &Ctl, home: u64) -> Res {
    let append = chance(1, 3);
    let mut f = Far { raw: Some(raw), model: raw.lock().unwrap().clone(), ctl, faulty: chance(2, 3), home };
    let mut b = call("making a buffer", || if append { BitBuffer::append(s) } else { BitBuffer::from(s) })?;
    let mut pos = if append { f.model.len } else { 0 };
    for _ in 0..1 + choose(20) { span(|| file_op(&mut b, &mut f, &mut pos))?; }
    Ok(())
}

fn file_op<S: BitVecPush>(b: &mut BitBuffer<S>, f: &mut Far, pos: &mut u64) -> Res {
    let len = f.model.len;
    match choose(5) {
        0 => {
            let to = near(len, f.home);
            ev("seek", &[to]);
            let r = call("seek", || b.seek(to))?;
            ensure!(r.is_ok(), "wrong-seek", "seek to {} of {}: {:?}", to, len, r);
            *pos = to;
        }
        1 => {
            let to = range(len + 1, u64::MAX);
            ev("seek", &[to]);
            let r = call("seek", || b.seek(to))?;
            ensure!(r.is_err(), "wrong-seek", "seek to {} of {}: {:?}", to, len, r);
        }
        2 => {
            let n = 1 + choose(64);
            let be = chance(1, 2);
            ev("read", &[*pos, n, be as u64]);
            let (was, left) = (*pos, len - *pos);
            let r = guarded(Some(f.ctl), f.faulty, "read_int", || if n == 1 { b.read_bit().map(|x| x.map(|x| x as u64)) } else if be { b.read_int_be::<u64>(n as usize) } else { b.read_int::<u64>(n as usize) })?;
            let at = call("position", || b.position())?;
            match r {
                None => { ensure!(at >= was && at <= len && (at < was + n || (n == 1 && at == was)), "cursor-moved", "failed read of {} at {} of {}: cursor at {}", n, was, len, at); *pos = at; }
                Some(r) if n <= left => {
                    let want = (0..n).fold(0u64, |a, i| a | (f.model.get(was + i) as u64) << if be { n - 1 - i } else { i });
                    ensure!(matches!(r, Ok(Some(x)) if x == want), "wrong-read", "read of {} be={} at {}: {:?} instead of {:#x}", n, be, was, r, want);
                    *pos += n;
                }
                Some(r) if left == 0 => ensure!(matches!(r, Ok(None)), "wrong-end", "read of {} at the end: {:?}", n, r),
                Some(r) => {
                    ensure!(r.is_err(), "wrong-end", "read of {} with {} left: {:?}", n, left, r);
                    ensure!(at >= was && at <= len, "cursor-moved", "read past the end: cursor from {} to {}", was, at);
                    *pos = at;
                }
            }
        }
        3 => {
            let n = 1 + choose(64);
            let be = chance(1, 2);
            let v = range(0, u64::MAX);
            ev("write", &[*pos, n, v, be as u64]);
            let was = *pos;
            let want: Vec<bool> = (0..n).map(|i| v >> if be { n - 1 - i } else { i } & 1 == 1).collect();
            let r = guarded(Some(f.ctl), f.faulty, "write_int", || if n == 1 { b.write_bit(v & 1 == 1) } else if be { b.write_int_be(n as usize, v) } else { b.write_int(n as usize, v) })?;
            let end = was + n;
            let put = |m: &mut Sparse, k: u64| for i in 0..k { if was + i < m.len { m.set(was + i, want[i as usize]) } else { m.push(want[i as usize]) } };
            match r {
                Some(r) => {
                    ensure!(r.is_ok(), "write-failed", "write of {} at {}: {:?}", n, was, r);
                    put(&mut f.model, n);
                    *pos = end;
                }
                None => {
                    let now = f.now().expect("storage seen from below");
                    let at = call("position", || b.position())?;
                    ensure!(at >= was && at < end && at <= now.len, "cursor-moved", "failed write of {} at {}: cursor at {}", n, was, at);
                    ensure!(now.len >= len && now.len <= end.max(len), "torn-write", "failed write of {} at {}: {} bits became {}", n, was, len, now.len);
                    if let Some(p) = now.differs(&f.model, was..end) { return viol("torn-write", format!("failed write of {} at {}: bit {} changed", n, was, p)); }
                    for p in was..at { ensure!(now.get(p) == want[(p - was) as usize], "torn-write", "failed write of {} at {}: cursor at {} but bit {} is wrong", n, was, at, p); }
                    f.model = now;
                    *pos = at;
                }
            }
        }
        _ => return f.look(b, 0, len),
    }
    let (l, p) = call("lengths", || (b.bit_len(), b.position()))?;
    ensure!(l == f.model.len, "wrong-length", "length {} instead of {}", l, f.model.len);
    ensure!(p == *pos, "wrong-position", "position {} instead of {}", p, *pos);
    f.unchanged("using the buffer")
}

// ---------------------------------------------------------------------------------------------
// vectors that fill no memory (profile rel only: whatever walks all of it should do so at full speed)

/// Whether this run is about a giant: rare, and only if the library does not take its time over them
/// (by iterating over everything to count it, say), which is its right.
pub fn giant(odds: u64) -> bool { !cfg!(debug_assertions) && chance(1, odds) && brisk() }

fn brisk() -> bool {
    static BRISK: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    const N: u64 = 1 << 22;
    fn quick<R>(mut f: impl FnMut() -> R) -> bool {
        (0..5).any(|_| { let t = std::time::Instant::now(); std::hint::black_box(f()); t.elapsed().as_micros() < 2_000 })
    }
    *BRISK.get_or_init(|| seam(|| {
        // what a worker found is shown again whatever the clock says
        if std::env::args().nth(1).map_or(false, |a| a != "worker") { return true; }
        let r = std::panic::catch_unwind(|| {
            let (b, i) = (BitVector::<u64>::with_fill(N, false), IntVector::<u64>::block_with_fill(3, N as usize / 64, 0));
            let n = N as usize / 4;
            quick(|| BitVector::<u64>::with_fill(N, false)) && quick(|| IntVector::<u64>::block_with_fill(3, N as usize / 64, 0))
                && quick(|| b.iter().count()) && quick(|| b.iter().last()) && quick(|| b.iter().nth(n))
                && quick(|| i.iter().count()) && quick(|| i.iter().last()) && quick(|| i.iter().nth(n))
        });
        r.unwrap_or(true)
    }))
}

// ---------------------------------------------------------------------------------------------
// codewords of more than 2^32 bits (profile rel only), if the library gets through them fast enough

/// Zeros and then a one, and then nothing; or an error on the way.
struct Long { zeros: u64, one: bool, pos: u64, fail: u64, err: ErrSpec, after: u64 }
impl BitRead for Long {
    #[inline]
    fn read_bit(&mut self) -> std::io::Result<Option<bool>> {
        if self.pos == self.fail { return self.failed(); }
        if self.pos < self.zeros { self.pos += 1; return Ok(Some(false)); }
        if self.pos == self.zeros && self.one { self.pos += 1; return Ok(Some(true)); }
        Ok(None)
    }
}
impl Long { #[cold] fn failed<T>(&mut self) -> std::io::Result<T> { self.after += 1; Err(self.err.make()) } }

/// Counts what it gets: zeros, then at most one one.
struct Tally { zeros: u64, ones: u64, fail: u64, err: ErrSpec, after: u64 }
impl BitWrite for Tally {
    #[inline]
    fn write_bit(&mut self, b: bool) -> std::io::Result<()> {
        if self.zeros + self.ones == self.fail { self.after += 1; return Err(self.err.make()); }
        if b { self.ones += 1; } else { self.zeros += 1 + (self.ones << 62); }
        Ok(())
    }
}

pub fn patient(odds: u64) -> bool {
    const N: u64 = 1 << 22;
    if cfg!(debug_assertions) || !chance(1, odds) { return false; }
    seam(|| {
        if std::env::args().nth(1).map_or(false, |a| a != "worker") { return true; }
        let err = ErrSpec::Custom(0, 0);
        let r = std::panic::catch_unwind(|| (0..5).any(|_| {
            let t = std::time::Instant::now();
            let mut s = Long { zeros: N, one: true, pos: 0, fail: u64::MAX, err, after: 0 };
            let a = Unary.decode(&mut s);
            let mut s = Tally { zeros: 0, ones: 0, fail: u64::MAX, err, after: 0 };
            let b = Unary.encode(&mut s, N);
            std::hint::black_box((a.is_ok(), b.is_ok(), s.zeros));
            t.elapsed().as_micros() < 20_000
        }));
        r.unwrap_or(true)
    })
}

/// Codewords of some thousands to some millions of bits.
pub fn lengthy(odds: u64) -> bool { chance(1, odds) }

fn long(giant: bool) -> u64 {
    let k = if giant { 32 } else { range(8, if cfg!(debug_assertions) { 17 } else { 21 }) };
    (1 << k) + if chance(1, 2) { skewed(1000) } else { choose(1 << k.min(31)) * (k < 32) as u64 }
}

fn unary(lifted: bool) -> Code { if lifted { Code::L0Unary } else { Code::Unary } }

/// There and back.
pub fn long_message(giant: bool) -> Res {
    let (v, lifted) = (long(giant), chance(1, 3));
    ev("long message", &[v, lifted as u64]);
    let err = ErrSpec::draw();
    let zeros = v + lifted as u64;
    if chance(1, 2) {
        let mut s = Tally { zeros: 0, ones: 0, fail: u64::MAX, err, after: 0 };
        let r = call("encode", || unary(lifted).encode(&mut s, v))?;
        ensure!(r.is_ok() && s.zeros == zeros && s.ones == 1, "wrong-code", "unary {} (lifted: {}): {:?} after {} zeros and {} ones", v, lifted, r, s.zeros, s.ones);
    } else {
        let mut s = Long { zeros, one: true, pos: 0, fail: u64::MAX, err, after: 0 };
        let r = call("decode", || unary(lifted).decode(&mut s))?;
        ensure!(matches!(r, Ok(Some(x)) if x == v) && s.pos == zeros + 1, "wrong-value", "unary {} (lifted: {}) is decoded as {:?} from {} bits", v, lifted, r, s.pos);
    }
    Ok(())
}

/// The sink fails late.
pub fn long_failure(giant: bool) -> Res {
    let (at, lifted, err) = (long(giant), chance(1, 3), ErrSpec::draw());
    let v = at + skewed(1000);
    ev("long message", &[v, lifted as u64, at]);
    fault("sink error");
    let mut s = Tally { zeros: 0, ones: 0, fail: at, err, after: 0 };
    let r = call("encode into failing sink", || unary(lifted).encode(&mut s, v))?;
    ensure!(matches!(&r, Err(e) if err.is(e)), "error-changed", "unary {}: sink reported {:?}, encode {:?}", v, err, r);
    ensure!(s.zeros == at && s.ones == 0 && s.after == 1, "not-a-prefix", "unary {}: a sink failing at {} holds {} and {} and failed {} times", v, at, s.zeros, s.ones, s.after);
    Ok(())
}

/// The source fails or ends late, or is stuck for long before anything else.
pub fn long_run(what: u64, giant: bool) -> Res {
    let (k, lifted, err) = (long(giant), chance(1, 3), ErrSpec::draw());
    ev("long run", &[what, k, lifted as u64]);
    let mut s = Long { zeros: k, one: what != 1, pos: 0, fail: if what == 0 { k - skewed(k / 2) } else { u64::MAX }, err, after: 0 };
    match what {
        0 => {
            fault("source error");
            let r = call("decode from failing source", || unary(lifted).decode(&mut s))?;
            ensure!(matches!(&r, Err(e) if err.is(e)), "error-changed", "unary: source reported {:?}, decode {:?}", err, r);
            ensure!(s.after == 1, "read-after-error", "unary: {} reads failed", s.after);
        }
        1 => {
            fault("cut");
            let r = call("decode of a cut stream", || unary(lifted).decode(&mut s))?;
            ensure!(matches!(&r, Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof), "truncation-missed", "{} zeros and no one: {:?}", k, r);
        }
        _ => {
            fault("stuck medium");
            if chance(1, 2) {
                let r = call("decode of damaged bits", || unary(lifted).decode(&mut s))?;
                ensure!(matches!(r, Ok(Some(x)) if x == k - lifted as u64), "wrong-value", "{} zeros (lifted: {}): {:?}", k, lifted, r);
            } else {
                // a number of so many bits
                let r = call("decode of damaged bits", || (if lifted { Code::L0Gamma } else { Code::Gamma }).decode(&mut s))?;
                ensure!(matches!(&r, Err(e) if matches!(e.kind(), std::io::ErrorKind::InvalidData | std::io::ErrorKind::UnexpectedEof)), "wrong-value", "a number of {} bits: {:?}", k, r);
            }
        }
    }
    Ok(())
}

fn giant_bits() -> u64 { (1 << 32) + near(1 << 10, choose(64)) + if chance(1, 4) { 1 << 32 } else { 0 } }

pub fn c10() -> Res {
    alloc::set_cap(1 << 33);
    let mut len = giant_bits();
    let home = choose(200);
    ev("giant", &[len, home]);
    let mut v: BitVector<u64> = call("with_fill", || BitVector::with_fill(len, false))?;
    let mut ones: BTreeSet<u64> = BTreeSet::new();
    for _ in 0..1 + choose(30) {
        span(|| {
            match choose(9) {
                0 | 1 => { let p = near(len - 1, home); let b = !chance(1, 4); ev("set_bit", &[p, b as u64]); call("set_bit", || v.set_bit(p, b))?; if b { ones.insert(p); } else { ones.remove(&p); } }
                2 => {
                    let c = choose(65); let p = near(len - c, home); let x = range(0, u64::MAX);
                    ev("set_bits", &[p, c, x]);
                    call("set_bits", || v.set_bits(p, c as usize, x))?;
                    for i in 0..c { if x >> i & 1 == 1 { ones.insert(p + i); } else { ones.remove(&(p + i)); } }
                }
                3 => {
                    let b = near(len / 64 - 1, home / 64); let x = range(0, u64::MAX);
                    ev("set_block", &[b, x]);
                    call("set_block", || v.set_block(b as usize, x))?;
                    for i in 0..64 { if x >> i & 1 == 1 { ones.insert(b * 64 + i); } else { ones.remove(&(b * 64 + i)); } }
                }
                4 => { let b = chance(1, 2); ev("push_bit", &[b as u64]); call("push_bit", || v.push_bit(b))?; if b { ones.insert(len); } len += 1; }
                5 => { ev("pop_bit", &[]); let r = call("pop_bit", || v.pop_bit())?; len -= 1; let want = ones.remove(&len); ensure!(r == Some(want), "wrong-bit", "pop_bit gave {:?} instead of {}", r, want); }
                6 => {
                    let to = len - choose(300);
                    ev("truncate", &[to]);
                    call("truncate", || if to % 2 == 0 { v.truncate(to) } else { v.resize(to, true) })?;
                    len = to;
                    ones.split_off(&to);
                }
                7 => {
                    let (to, b) = (len + choose(300), chance(1, 2));
                    ev("resize", &[to, b as u64]);
                    call("resize", || v.resize(to, b))?;
                    if b { ones.extend(len..to); }
                    len = to;
                }
                _ => { let p = super::vecs::beyond(len); ev("get_bit beyond", &[p]); refuse("get_bit beyond the end", || v.get_bit(p))?; }
            }
            let (l, n) = call("lengths", || (v.bit_len(), v.block_len()))?;
            ensure!(l == len && n as u64 == (len + 63) / 64, "wrong-length", "{} bits in {} blocks instead of {}", l, n, len);
            // around everything ever written and where truncated positions would lead
            let mut places: BTreeSet<u64> = BTreeSet::new();
            for &p in ones.iter().take(200).chain([near(len - 1, home), len - 1].iter()) {
                for q in [p, p ^ 1 << 32, p & 0xffff_ffff, p & 0x7fff_ffff, p ^ 1 << 31] { if q < len { places.insert(q); } }
            }
            for &p in &places {
                let b = call("get_bit", || v.get_bit(p))?;
                ensure!(b == ones.contains(&p), "wrong-bit", "bit {} of {} read as {}", p, len, b);
            }
            for &p in places.iter().step_by(7) {
                let c = 64.min(len - p);
                let x = call("get_bits", || v.get_bits(p, c as usize))?;
                let want = (0..c).fold(0u64, |a, i| a | (ones.contains(&(p + i)) as u64) << i);
                ensure!(x == want, "wrong-bits", "bits {}+{} of {} read as {:#x} instead of {:#x}", p, c, len, x, want);
                let b = p / 64;
                let x = call("get_block", || v.get_block(b as usize))?;
                let want = (0..64).fold(0u64, |a, i| a | (ones.contains(&(b * 64 + i)) as u64) << i);
                ensure!(x == want, "wrong-block", "block {} of {} bits read as {:#x} instead of {:#x}", b, len, x, want);
            }
            Ok(())
        })?;
    }
    Ok(())
}

pub fn c11() -> Res {
    alloc::set_cap(1 << 33);
    let k = match choose(6) { 0 => 1, 1 => 64, 2 => 8, 3 => 63, _ => 1 + choose(64) };
    let blocks = giant_bits() / 64 + 1;
    let mut n = blocks * 64 / k;
    let home = choose(200);
    let mask = u64::MAX >> (64 - k);
    ev("giant", &[k, n, home]);
    let mut v: IntVector<u64> = call("block_with_fill", || IntVector::block_with_fill(k as usize, blocks as usize, 0))?;
    let mut m: BTreeMap<u64, u64> = BTreeMap::new();
    for _ in 0..1 + choose(30) {
        span(|| {
            match choose(9) {
                0 | 1 => { let (p, x) = (near(n - 1, home), range(0, u64::MAX) & mask); ev("set", &[p, x]); call("set", || v.set(p, x))?; m.insert(p, x); }
                2 => { let x = range(0, u64::MAX) & mask; ev("push", &[x]); call("push", || v.push(x))?; m.insert(n, x); n += 1; }
                3 => { ev("pop", &[]); let r = call("pop", || v.pop())?; n -= 1; let want = m.remove(&n).unwrap_or(0); ensure!(r == Some(want), "wrong-element", "pop gave {:?} instead of {}", r, want); }
                4 => { let to = n - choose(300); ev("truncate", &[to]); call("truncate", || if to % 2 == 0 { v.truncate(to) } else { v.resize(to, 0) })?; n = to; m.split_off(&to); }
                5 => { let (to, x) = (n + choose(100), range(0, u64::MAX) & mask); ev("resize", &[to, x]); call("resize", || v.resize(to, x))?; for p in n..to { m.insert(p, x); } n = to; }
                6 => {
                    // the element where it is said to be
                    let p = near(n - 1, home);
                    let x = range(0, u64::MAX) & mask;
                    ev("set_random", &[p, x]);
                    let r = call("get_random", || v.get_random(0, k as usize, p))?;
                    ensure!(r == m.get(&p).copied().unwrap_or(0), "wrong-element", "get_random(0, {}, {}) gave {}", k, p, r);
                    call("set_random", || v.set_random(p * k, k as usize, 0, x))?;
                    m.insert(p, x);
                }
                7 => {
                    let p = near(n - 1, home);
                    let r = call("get_bit", || v.get_bit(p * k))?;
                    ensure!(r == (m.get(&p).copied().unwrap_or(0) & 1 == 1), "wrong-bit", "element {} of {} bits starts with {}", p, k, r);
                }
                _ => { let p = super::vecs::beyond(n); ev("get beyond", &[p]); refuse("get beyond the end", || v.get(p))?; refuse("set beyond the end", || v.set(p, 0))?; }
            }
            let (l, b) = call("lengths", || (v.len(), v.bit_len()))?;
            ensure!(l == n && b == n * k, "wrong-length", "{} elements of {} bits in {} instead of {}", l, k, b, n);
            let mut places: BTreeSet<u64> = BTreeSet::new();
            for &p in m.keys().take(200).chain([near(n - 1, home), n - 1].iter()) {
                places.insert(p);
                for s in [31, 32] { for q in [(p * k ^ 1 << s) / k, (p * k & ((1 << s) - 1)) / k] { for q in [q, q + 1] { if q < n { places.insert(q); } } } }
            }
            for &p in &places {
                let x = call("get", || v.get(p))?;
                ensure!(x == m.get(&p).copied().unwrap_or(0), "wrong-element", "element {} of {} read as {} instead of {:?}", p, n, x, m.get(&p));
            }
            Ok(())
        })?;
    }
    Ok(())
}

pub fn c19() -> Res {
    alloc::set_cap(1 << 33);
    let len = giant_bits();
    let home = choose(200);
    if chance(1, 2) {
        ev("giant", &[len]);
        let mut v: BitVector<u64> = call("with_fill", || BitVector::with_fill(len, false))?;
        let mut m = BTreeMap::new();
        for _ in 0..300 { let p = near(len - 1, home); v.set_bit(p, true); m.insert(p, 1); }
        walk(v.iter(), 0, len, &m, home, |b| b as u64)
    } else {
        let k = 1 + choose(40);
        let blocks = len / 64 + 1;
        let n = blocks * 64 / k;
        ev("giant", &[k, n]);
        let mut v: IntVector<u64> = call("block_with_fill", || IntVector::block_with_fill(k as usize, blocks as usize, 0))?;
        let mut m = BTreeMap::new();
        for _ in 0..300 { let (p, x) = (near(n - 1, home), range(0, u64::MAX) >> (64 - k)); v.set(p, x); m.insert(p, x); }
        walk(v.iter(), 0, n, &m, home, |x| x)
    }
}

fn walk<I, T>(mut it: I, mut a: u64, mut z: u64, m: &BTreeMap<u64, u64>, home: u64, f: impl Fn(T) -> u64) -> Res
where I: DoubleEndedIterator<Item = T> + ExactSizeIterator + Clone {
    let at = |p: u64| m.get(&p).copied().unwrap_or(0);
    for _ in 0..1 + choose(60) {
        span(|| {
            let (what, x, want) = match choose(5) {
                0 => { let w = if a < z { a += 1; Some(at(a - 1)) } else { None }; ("next", call("next", || it.next())?, w) }
                1 => { let w = if a < z { z -= 1; Some(at(z)) } else { None }; ("next_back", call("next_back", || it.next_back())?, w) }
                2 | 3 => {
                    let k = if chance(1, 2) { choose(200) } else { near(z - a, home) };
                    ev("nth", &[k]);
                    let w = if k < z - a { a += k + 1; Some(at(a - 1)) } else { a = z; None };
                    ("nth", call("nth", || it.nth(k as usize))?, w)
                }
                _ => { let w = if a < z { Some(at(z - 1)) } else { None }; ("last", call("last", || it.clone().last())?, w) }
            };
            let x = x.map(&f);
            ev(what, &[x.unwrap_or(u64::MAX)]);
            ensure!(x == want, "wrong-element", "{} gave {:?} instead of {:?} with {}..{} left", what, x, want, a, z);
            let (l, h, c) = call("lengths", || (it.len(), it.size_hint(), it.clone().count()))?;
            let n = (z - a) as usize;
            ensure!(l == n && h == (n, Some(n)) && c == n, "wrong-length", "after {}: {} left, reported {}, {:?} and {}", what, n, l, h, c);
            Ok(())
        })?;
    }
    Ok(())
}

pub fn c13() -> Res {
    alloc::set_cap(1 << 33);
    let len = giant_bits();
    let more = choose(3000);
    ev("giant", &[len, more]);
    let mut v: BitVector<u64> = call("with_fill", || BitVector::with_fill(len, false))?;
    call("reserve", || if more % 2 == 0 { v.reserve(more) } else { v.reserve_exact(more) })?;
    ensure!(v.capacity() >= len + more, "no-capacity", "capacity {} after reserving {} beyond {}", v.capacity(), more, len);
    alloc::fail_in(0, true);
    let r = sut(|| for i in 0..more { v.push_bit(i % 3 == 0) });
    alloc::disarm();
    if let Err(c) = r { return viol("allocated", format!("pushing {} bits onto {} as reserved: {:?}", more, len, c)); }
    ensure!(v.bit_len() == len + more, "wrong-length", "{} bits instead of {}", v.bit_len(), len + more);
    for i in 0..more { let b = call("get_bit", || v.get_bit(len + i))?; ensure!(b == (i % 3 == 0), "wrong-bit", "bit {} read as {}", len + i, b); }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C17: more ones than 32 bits count

/// All ones but for a stretch.
struct Ones { len: u64, gap: Range<u64> }
impl Ones {
    fn rank1(&self, p: u64) -> u64 { let n = p + 1; n - (n.min(self.gap.end) - n.min(self.gap.start)) }
    fn block(&self, b: u64) -> u64 {
        let e = extent::<u64>(self.len, b);
        if e.end <= self.gap.start || e.start >= self.gap.end { u64::MAX >> (64 - (e.end - e.start)) }
        else { (0..e.end - e.start).fold(0, |a, i| a | (!self.gap.contains(&(e.start + i)) as u64) << i) }
    }
}
impl BitVec for Ones {
    type Block = u64;
    fn bit_len(&self) -> u64 { self.len }
    fn get_block(&self, b: usize) -> u64 { if (b as u64) < blocks::<u64>(self.len) { self.block(b as u64) } else { panic!("out of bounds") } }
}

/// Rarer still: these are built bit by bit.
pub fn giant_rank() -> bool { !cfg!(debug_assertions) && chance(1, 40_000) }

pub fn c17() -> Res {
    alloc::set_cap(1 << 33);
    let len = (1 << 32) + 60_000 + near(1 << 10, 60);
    let home = choose(200);
    let gap = near(50_000, home);
    let gap = gap..gap + choose(5000);
    ev("giant", &[len, gap.start, gap.end]);
    let s = Ones { len, gap };
    if chance(1, 3) { counted(call("JacobsonRank::new", || JacobsonRank::new(s))?, JacobsonRank::into_inner, home) }
    else { counted(call("Rank9::new", || Rank9::new(s))?, Rank9::into_inner, home) }
}

fn counted<R: BitRankSupport + BitVec>(r: R, back: impl FnOnce(R) -> Ones, home: u64) -> Res {
    let n = r.bit_len();
    let l = call("limit", || r.limit())?;
    let mut seen = vec![];
    for _ in 0..2000 {
        let p = near(n - 1, home);
        let x = call("rank", || (r.rank1(p), r.rank0(p), r.rank1(p)))?;
        ev("rank1", &[p, x.0]);
        seen.push((p, x));
    }
    let p = beyond(n);
    refuse("rank beyond the end", || r.rank1(p))?;
    let s = back(r);
    ensure!(l == s.len && n == s.len, "wrong-length", "{} bits, limit {} instead of {}", n, l, s.len);
    for (p, x) in seen {
        let ones = s.rank1(p);
        ensure!(x == (ones, p + 1 - ones, ones), "wrong-rank", "ranks at {} of {}: {:?} instead of {} and {}", p, n, x, ones, p + 1 - ones);
    }
    Ok(())
}
