//! C15 and C16: windows into storage, and operations derived from the least a storage offers, over
//! storage that fails part-way.
use crate::io::call;
use crate::store::*;
use rt::*;
use std::ops::{Range, RangeFrom, RangeFull, RangeTo};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;
use succinct::bit_vec::{BitSlice, BitSliceMut, BitVec, BitVecMut, BitVecPush, IntoRange};
use succinct::rank::{JacobsonRank, Rank9};
use succinct::select::BinSearchSelect;
use succinct::storage::BlockType;
use succinct::stream::BitBuffer;
use succinct::{impl_bit_vec_adapter, BitVector, IntVector};

/// One call that may meet a storage failure: `None` if it failed as planned. A failure that the
/// library keeps to itself is a violation.
pub fn guarded<R>(ctl: Option<&Ctl>, faulty: bool, what: &str, f: impl FnOnce() -> R) -> Result<Option<R>, Violation> {
    let armed = match ctl { Some(c) if faulty && chance(1, 3) => { c.arm(1 + skewed(70), chance(1, 3), chance(1, 3), range(1, u64::MAX)); Some(c) } _ => None };
    let r = sut(f);
    let fired = match armed { Some(c) => { c.disarm(); c.fired.load(Relaxed) } None => 0 };
    match r {
        Ok(r) => { ensure!(fired == 0, "swallowed-failure", "{}: the storage failed {} times but the call succeeded", what, fired); Ok(Some(r)) }
        Err(Caught::Fault(f)) if fired > 0 && armed.map(|c| c.id.load(Relaxed)) == Some(f.id) => { probe("failed call"); Ok(None) }
        Err(c) => viol("panic", format!("{}: {:?}", what, c)),
    }
}

/// One call that has to be refused, with the storage unharmed.
pub fn refuse<R>(what: &str, f: impl FnOnce() -> R) -> Res {
    match sut(f) {
        Err(Caught::Panic(_)) => { probe("refused call"); Ok(()) }
        Err(c) => viol("panic", format!("{}: {:?}", what, c)),
        Ok(_) => viol("not-refused", format!("{} was not refused", what)),
    }
}

fn beyond(len: u64) -> u64 {
    match choose(6) { 0 => len, 1 => len + choose(70), 2 => u64::MAX, 3 => u64::MAX - choose(70), 4 => 1 << range(56, 63), _ => range(len, u64::MAX) }.max(len)
}

/// A span with at least one bit beyond `len`.
fn span_beyond(len: u64, w: usize) -> (u64, usize) {
    let c = 1 + choose(w as u64);
    let from = match choose(3) { 0 => (len + 1).saturating_sub(c), 1 => (len + 1).saturating_sub(c) + choose(c), _ => beyond(len) };
    (from, c as usize)
}

fn block_beyond(blocks: usize) -> usize {
    match choose(5) { 0 => blocks, 1 => blocks + choose(10) as usize, 2 => usize::MAX, 3 => (1usize << range(55, 63)) + choose(blocks as u64 + 1) as usize, _ => range(blocks as u64, u64::MAX) as usize }
}

pub fn all_bits<B: BlockType>(s: &dyn BitVec<Block = B>) -> Vec<bool> { (0..s.bit_len()).map(|i| s.get_bit(i)).collect() }

pub fn same(what: &str, got: &[bool], want: &[bool]) -> Res {
    ensure!(got.len() == want.len(), "wrong-length", "{}: {} bits instead of {}", what, got.len(), want.len());
    if let Some(i) = (0..want.len()).find(|&i| got[i] != want[i]) {
        return viol("wrong-contents", format!("{}: bit {} of {} is {}", what, i, want.len(), got[i]));
    }
    Ok(())
}

fn outside(what: &str, got: &[bool], was: &[bool], r: Range<usize>) -> Res {
    ensure!(got.len() == was.len(), "torn-write", "{}: {} bits became {}", what, was.len(), got.len());
    if let Some(i) = (0..was.len()).find(|i| !r.contains(i) && got[*i] != was[*i]) {
        return viol("torn-write", format!("{} writing bits {}..{} of {}: bit {} changed", what, r.start, r.end, was.len(), i));
    }
    Ok(())
}

pub fn lens<B: BlockType>(s: &dyn BitVec<Block = B>, m: &[bool]) -> Res {
    let w = width::<B>();
    let (l, b) = call("lengths", || (s.bit_len(), s.block_len()))?;
    ensure!(l == m.len() as u64 && b == (m.len() + w - 1) / w, "wrong-length", "{} bits in {} blocks of {} instead of {}", l, b, w, m.len());
    Ok(())
}

/// One way of looking.
pub fn look<B: BlockType>(s: &dyn BitVec<Block = B>, m: &[bool], ctl: Option<&Ctl>, faulty: bool) -> Res {
    let w = width::<B>();
    let n = m.len() as u64;
    let blocks = (m.len() + w - 1) / w;
    match weighted(&[4, 6, 4, 2, 2, 2, 2, 1]) {
        0 => if n > 0 {
            let i = choose(n);
            ev("get_bit", &[i]);
            for _ in 0..2 {
                if let Some(b) = guarded(ctl, faulty, "get_bit", || s.get_bit(i))? { ensure!(b == m[i as usize], "wrong-bit", "bit {} of {} read as {}", i, n, b); }
            }
        },
        1 => {
            let c = choose((w as u64).min(n) + 1);
            let i = choose(n - c + 1);
            ev("get_bits", &[i, c]);
            let want: B = from_bits(&m[i as usize..(i + c) as usize]);
            for _ in 0..2 {
                if let Some(x) = guarded(ctl, faulty, "get_bits", || s.get_bits(i, c as usize))? { ensure!(x == want, "wrong-bits", "bits {}+{} of {} read as {:#x} instead of {:#x}", i, c, n, as_u64(x), as_u64(want)); }
            }
        },
        2 => if blocks > 0 {
            let b = choose(blocks as u64) as usize;
            ev("get_block", &[b as u64]);
            let part = &m[b * w..((b + 1) * w).min(m.len())];
            for _ in 0..2 {
                if let Some(x) = guarded(ctl, faulty, "get_block", || s.get_block(b))? {
                    let got = &block_bits(x)[..part.len()];
                    ensure!(got == part, "wrong-block", "block {} of {} bits read as {:#x} instead of {:#x} in its first {} bits", b, n, as_u64(x), as_u64(from_bits::<B>(part)), part.len());
                }
            }
        },
        3 => { lens(s, m)?; let got = call("reading it all", || all_bits(s))?; same("reading it all", &got, m)?; }
        4 => { let i = beyond(n); ev("get_bit beyond", &[i]); refuse("get_bit beyond the end", || s.get_bit(i))?; }
        5 => { let (i, c) = span_beyond(n, w); ev("get_bits beyond", &[i, c as u64]); refuse("get_bits beyond the end", || s.get_bits(i, c))?; }
        6 => { let b = block_beyond(blocks); ev("get_block beyond", &[b as u64]); refuse("get_block beyond the end", || s.get_block(b))?; }
        _ => lens(s, m)?,
    }
    Ok(())
}

/// One way of overwriting.
pub fn poke<B: BlockType>(s: &mut dyn BitVecMut<Block = B>, m: &mut Vec<bool>, ctl: Option<&Ctl>, faulty: bool) -> Res {
    let w = width::<B>();
    let n = m.len() as u64;
    let blocks = (m.len() + w - 1) / w;
    let x: B = from_u64(range(0, u64::MAX));
    let (what, r, done) = match weighted(&[4, 6, 4, 1, 1, 1]) {
        0 => {
            if n == 0 { return Ok(()); }
            let i = choose(n);
            ev("set_bit", &[i, bit(x, 0) as u64]);
            ("set_bit", i as usize..i as usize + 1, guarded(ctl, faulty, "set_bit", || s.set_bit(i, bit(x, 0)))?)
        }
        1 => {
            let c = choose((w as u64).min(n) + 1) as usize;
            let i = choose(n - c as u64 + 1);
            ev("set_bits", &[i, c as u64, as_u64(x)]);
            ("set_bits", i as usize..i as usize + c, guarded(ctl, faulty, "set_bits", || s.set_bits(i, c, x))?)
        }
        2 => {
            if blocks == 0 { return Ok(()); }
            let b = choose(blocks as u64) as usize;
            ev("set_block", &[b as u64, as_u64(x)]);
            ("set_block", b * w..((b + 1) * w).min(m.len()), guarded(ctl, faulty, "set_block", || s.set_block(b, x))?)
        }
        k => {
            match k {
                3 => { let i = beyond(n); ev("set_bit beyond", &[i]); refuse("set_bit beyond the end", || s.set_bit(i, bit(x, 0)))?; }
                4 => { let (i, c) = span_beyond(n, w); ev("set_bits beyond", &[i, c as u64]); refuse("set_bits beyond the end", || s.set_bits(i, c, x))?; }
                _ => { let b = block_beyond(blocks); ev("set_block beyond", &[b as u64]); refuse("set_block beyond the end", || s.set_block(b, x))?; }
            }
            let now = call("reading it all", || all_bits(s))?;
            return same("after a refused write", &now, m);
        }
    };
    let now = call("reading it all", || all_bits(s))?;
    outside(what, &now, m, r.clone())?;
    if done.is_some() {
        for (k, i) in r.enumerate() { m[i] = bit(x, k); }
        same(what, &now, m)
    } else {
        *m = now;
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C15

#[derive(Clone, Debug)]
enum Form { Both(Range<u64>), To(RangeTo<u64>), From(RangeFrom<u64>), Full(RangeFull) }

impl IntoRange<u64> for Form {
    fn into_range(self, a: u64, b: u64) -> Range<u64> {
        match self { Form::Both(r) => r.into_range(a, b), Form::To(r) => r.into_range(a, b), Form::From(r) => r.into_range(a, b), Form::Full(r) => r.into_range(a, b) }
    }
}

/// A range within `len`, in one of its forms, and what it stands for.
fn form(len: u64) -> (Form, Range<usize>) {
    let a = pick(0, len, |r| match r.below(4) { 0 => 0, 1 => (8 * r.below(len / 8 + 1)).min(len), _ => r.below_incl(len) });
    let b = a + pick(0, len - a, |r| match r.below(3) { 0 => len - a, _ => r.below_incl(len - a) });
    let (f, r) = match choose(4) {
        0 => (Form::Full(..), 0..len),
        1 => (Form::From(a..), a..len),
        2 => (Form::To(..b), 0..b),
        _ => (Form::Both(a..b), a..b),
    };
    let r = r.start as usize..r.end as usize;
    ev("window", &[r.start as u64, r.end as u64]);
    (f, r)
}

/// A range that reaches beyond `len`.
fn bad_form(len: u64) -> Form {
    let e = match choose(4) { 0 => len + 1, 1 => len + 1 + choose(70), 2 => u64::MAX, _ => range(len + 1, u64::MAX) };
    if chance(1, 3) { Form::To(..e) } else { let a = match choose(3) { 0 => len, 1 => range(0, e), _ => choose(len + 1) }; Form::Both(a..e) }
}

/// A range that starts after it ends, or at least beyond `len`: refused, or nothing.
fn odd_form(len: u64) -> Form {
    if chance(1, 2) { Form::From(len + 1 + choose(100)..) } else { let b = choose(len + 1); Form::Both(b + 1 + choose(100)..b) }
}

/// Look through every kind of window on `base`.
fn windows<B: BlockType>(base: &dyn BitVec<Block = B>, m: &[bool], ctl: Option<&Ctl>, faulty: bool) -> Res {
    let (f, r) = form(m.len() as u64);
    let mut sub = &m[r];
    let mut s = call("slicing", || BitSlice::new(base, f))?;
    for _ in 0..1 + choose(3) {
        for _ in 0..1 + choose(4) { span(|| look(&s, sub, ctl, faulty))?; }
        match choose(4) {
            0 => {
                // a window on the window
                let (f, r) = form(sub.len() as u64);
                let t = call("slicing a slice", || BitSlice::new(&s, f))?;
                let m2 = &sub[r];
                for _ in 0..1 + choose(3) { span(|| look(&t, m2, ctl, faulty))?; }
                let (f, r) = form(m2.len() as u64);
                let t = call("slicing a slice of a slice", || t.slice(f))?;
                look(&t, &m2[r], ctl, faulty)?;
            }
            1 => {
                let f = bad_form(sub.len() as u64);
                ev("bad window", &[]);
                refuse("a range beyond a slice", || s.slice(f.clone()))?;
                let f = bad_form(m.len() as u64);
                refuse("a range beyond the base", || BitSlice::new(base, f))?;
            }
            2 => {
                let f = odd_form(sub.len() as u64);
                ev("odd window", &[]);
                if let Ok(t) = sut(|| s.slice(f)) { nothing(&t)?; }
                let f = odd_form(m.len() as u64);
                if let Ok(t) = sut(|| BitSlice::new(base, f)) { nothing(&t)?; }
            }
            _ => {
                let (f, r) = form(sub.len() as u64);
                s = call("slicing a slice", || s.slice(f))?;
                sub = &sub[r];
            }
        }
    }
    Ok(())
}

/// An empty window on something that is not.
fn nothing<B: BlockType>(s: &dyn BitVec<Block = B>) -> Res {
    lens(s, &[])?;
    let i = beyond(0);
    refuse("get_bit of an empty slice", || s.get_bit(i))?;
    let (i, c) = span_beyond(0, width::<B>());
    refuse("get_bits of an empty slice", || s.get_bits(i, c))?;
    let b = block_beyond(0);
    refuse("get_block of an empty slice", || s.get_block(b))
}

fn nothing_mut<B: BlockType>(s: &mut dyn BitVecMut<Block = B>) -> Res {
    nothing(&*s)?;
    let i = beyond(0);
    refuse("set_bit in an empty slice", || s.set_bit(i, true))?;
    let (i, c) = span_beyond(0, width::<B>());
    refuse("set_bits in an empty slice", || s.set_bits(i, c, B::zero()))?;
    let b = block_beyond(0);
    refuse("set_block in an empty slice", || s.set_block(b, BlockType::low_mask(3)))
}

/// Write through every kind of window on `base`.
fn windows_mut<B: BlockType>(base: &mut dyn BitVecMut<Block = B>, m: &mut Vec<bool>, ctl: Option<&Ctl>, faulty: bool) -> Res {
    let (f, r) = form(m.len() as u64);
    let mut sub = m[r.clone()].to_vec();
    {
        let mut s = call("slicing", || BitSliceMut::new(base, f))?;
        for _ in 0..1 + choose(3) {
            for _ in 0..1 + choose(4) { span(|| if chance(1, 3) { look(&s, &sub, ctl, faulty) } else { poke(&mut s, &mut sub, ctl, faulty) })?; }
            match choose(6) {
                0 => {
                    let (f, r) = form(sub.len() as u64);
                    let mut m2 = sub[r.clone()].to_vec();
                    {
                        let mut t = call("slicing a slice", || s.slice_mut(f))?;
                        for _ in 0..1 + choose(3) { span(|| poke(&mut t, &mut m2, ctl, faulty))?; }
                        let (f, r) = form(m2.len() as u64);
                        let mut m3 = m2[r.clone()].to_vec();
                        {
                            let mut u = call("slicing a slice of a slice", || t.slice_mut(f))?;
                            for _ in 0..1 + choose(3) { span(|| poke(&mut u, &mut m3, ctl, faulty))?; }
                        }
                        let now = call("reading it all", || all_bits(&t))?;
                        m2[r].copy_from_slice(&m3);
                        same("after writing through a nested window", &now, &m2)?;
                    }
                    let now = call("reading it all", || all_bits(&s))?;
                    sub[r].copy_from_slice(&m2);
                    same("after writing through a nested window", &now, &sub)?;
                }
                1 => {
                    let (f, r) = form(sub.len() as u64);
                    let mut m2 = sub[r.clone()].to_vec();
                    {
                        let mut t = call("slicing a slice", || BitSliceMut::new(&mut s, f))?;
                        for _ in 0..1 + choose(3) { span(|| poke(&mut t, &mut m2, ctl, faulty))?; }
                    }
                    let now = call("reading it all", || all_bits(&s))?;
                    sub[r].copy_from_slice(&m2);
                    same("after writing through a window on a window", &now, &sub)?;
                }
                2 => {
                    let (f, r) = form(sub.len() as u64);
                    let t = call("slicing a slice", || s.slice(f))?;
                    for _ in 0..1 + choose(3) { span(|| look(&t, &sub[r.clone()], ctl, faulty))?; }
                }
                3 => {
                    ev("bad window", &[]);
                    let f = bad_form(sub.len() as u64);
                    refuse("a range beyond a slice", || { s.slice(f); })?;
                    let f = bad_form(sub.len() as u64);
                    refuse("a range beyond a slice", || { s.slice_mut(f); })?;
                    let f = bad_form(sub.len() as u64);
                    refuse("a range beyond a slice", || { BitSliceMut::new(&mut s, f); })?;
                }
                4 => {
                    ev("odd window", &[]);
                    let f = odd_form(sub.len() as u64);
                    match choose(3) {
                        0 => if let Ok(mut t) = sut(|| s.slice_mut(f)) { nothing_mut(&mut t)?; },
                        1 => if let Ok(t) = sut(|| s.slice(f)) { nothing(&t)?; },
                        _ => if let Ok(mut t) = sut(|| BitSliceMut::new(&mut s, f)) { nothing_mut(&mut t)?; },
                    }
                }
                _ => {}
            }
        }
    }
    let now = call("reading the base", || all_bits(base))?;
    outside("writing through a window", &now, m, r.clone())?;
    m[r].copy_from_slice(&sub);
    same("the base after writing through a window", &now, m)
}

fn read_only<B: BlockType>(s: &dyn BitVec<Block = B>, m: &[bool], ctl: Option<&Ctl>) -> Res {
    let faulty = chance(1, 2);
    for _ in 0..1 + choose(3) { span(|| windows(s, m, ctl, faulty))?; }
    Ok(())
}

fn both<B: BlockType>(s: &mut dyn BitVecMut<Block = B>, mut m: Vec<bool>, ctl: Option<Arc<Ctl>>) -> Res {
    let ctl = ctl.as_deref();
    let faulty = chance(2, 3);
    for _ in 0..1 + choose(4) {
        span(|| if chance(1, 3) { windows(s, &m, ctl, faulty) } else { windows_mut(s, &mut m, ctl, faulty) })?;
    }
    Ok(())
}

/// A plain slice of blocks.
pub struct Bare<'a, B>(pub &'a mut [B]);
impl<'a, B: BlockType> BitVec for Bare<'a, B> {
    type Block = B;
    fn bit_len(&self) -> u64 { BitVec::bit_len(&*self.0) }
    fn block_len(&self) -> usize { BitVec::block_len(&*self.0) }
    fn get_bit(&self, p: u64) -> bool { <[B]>::get_bit(self.0, p) }
    fn get_block(&self, p: usize) -> B { <[B]>::get_block(self.0, p) }
    fn get_bits(&self, p: u64, c: usize) -> B { <[B]>::get_bits(self.0, p, c) }
}
impl<'a, B: BlockType> BitVecMut for Bare<'a, B> {
    fn set_bit(&mut self, p: u64, v: bool) { <[B]>::set_bit(self.0, p, v) }
    fn set_block(&mut self, p: usize, v: B) { <[B]>::set_block(self.0, p, v) }
    fn set_bits(&mut self, p: u64, c: usize, v: B) { <[B]>::set_bits(self.0, p, c, v) }
}

fn vector<B: BlockType>(m: &[bool]) -> BitVector<B> { let mut v = BitVector::new(); for &b in m { v.push_bit(b); } v }

pub fn c15() -> Res {
    if chance(1, 8) { return match choose(8) { 7 => crate::far::plain_c15(), 0 | 3 => crate::far::c15::<u64>(), 1 | 4 => crate::far::c15::<u8>(), _ => crate::far::c15::<u32>() }; }
    match choose(5) { 0 => c15_on::<u8>(), 1 => c15_on::<u16>(), 2 => c15_on::<u32>(), 3 => c15_on::<u64>(), _ => c15_on::<usize>() }
}

fn c15_on<B: BlockType>() -> Res {
    let w = width::<B>();
    let m = random_bits(length(6 * w as u64 * scale(64)));
    let kind = choose(16);
    ev("base", &[kind, m.len() as u64]);
    let garbage: B = from_u64(range(0, u64::MAX));
    let full = || { let n = m.len() / w * w; m[..n].to_vec() };
    match kind {
        0 | 1 => both(&mut vector::<B>(&m), m, None),
        2 | 3 => { let mut s = BitStore::<B>::new(&m); let c = s.ctl.clone(); both(&mut s, m, Some(c)) }
        4 | 5 | 6 => { let mut s = BlockStore::<B>::new(&m, garbage); let c = s.ctl.clone(); both(&mut s, m, Some(c)) }
        7 => { let m = full(); both(&mut to_blocks::<B>(&m), m, None) }
        8 => { let m = full(); let mut v = to_blocks::<B>(&m); if chance(1, 2) { both(&mut Bare(&mut v[..]), m, None) } else { both(&mut &mut v[..], m, None) } }
        9 => { let m = full(); let v = to_blocks::<B>(&m); read_only(&&v[..], &m, None) }
        10 => { let mut v = m.clone(); both(&mut v, m, None) }
        11 => { let m = random_bits(w); let mut b: B = from_bits(&m); if m.len() != b.bit_len() as usize { return Ok(()); } both(&mut b, m, None) }
        12 => {
            let k = 1 + choose(w as u64) as usize;
            let mut v = IntVector::<B>::new(k);
            for c in m.chunks_exact(k) { v.push(from_bits(c)); }
            let n = m.len() / k * k;
            both(&mut v, m[..n].to_vec(), None)
        }
        13 => { let mut b = BitBuffer::from(vector::<B>(&m)); both(&mut b, m, None) }
        14 => {
            let s = BlockStore::<B>::new(&m, garbage);
            let c = s.ctl.clone();
            let r = call("JacobsonRank::new", || JacobsonRank::new(s))?;
            if chance(1, 2) { read_only(&r, &m, Some(&c)) } else { read_only(&BinSearchSelect::new(r), &m, Some(&c)) }
        }
        _ => {
            let s = BlockStore::<u64>::new(&m, as_u64(garbage));
            let c = s.ctl.clone();
            let r = call("Rank9::new", || Rank9::new(s))?;
            read_only(&r, &m, Some(&c))
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C16

pub fn c16() -> Res {
    if chance(1, 8) { return match choose(9) { 8 => crate::far::plain_c16(), 0 | 4 => crate::far::c16::<u64>(), 1 | 5 => crate::far::c16::<u8>(), 2 | 6 => crate::far::c16::<u16>(), _ => crate::far::c16::<usize>() }; }
    match choose(5) { 0 => c16_on::<u8>(), 1 => c16_on::<u16>(), 2 => c16_on::<u32>(), 3 => c16_on::<u64>(), _ => c16_on::<usize>() }
}

/// A storage whose first write may also be checked against tail bits it owns.
fn derived<B: BlockType>(s: &mut dyn BitVecMut<Block = B>, m: &mut Vec<bool>, ctl: Option<&Ctl>) -> Res {
    let faulty = chance(2, 3);
    for _ in 0..1 + choose(20) {
        span(|| if chance(1, 2) { look(s, m, ctl, faulty) } else { poke(s, m, ctl, faulty) })?;
    }
    Ok(())
}

fn grow<B: BlockType>(s: &mut dyn BitVecPush<Block = B>, m: &mut Vec<bool>, ctl: Option<&Ctl>, faulty: bool) -> Res {
    let w = width::<B>();
    let mut want = m.clone();
    let (what, done) = match weighted(&[3, 4, 2, 2]) {
        0 => {
            let b: B = from_u64(range(0, u64::MAX));
            ev("push_block", &[as_u64(b)]);
            while want.len() % w != 0 { want.push(false); }
            want.extend(block_bits(b));
            ("push_block", guarded(ctl, faulty, "push_block", || s.push_block(b))?.is_some())
        }
        1 => {
            let b = chance(1, 2);
            ev("align_block", &[b as u64]);
            while want.len() % w != 0 { want.push(b); }
            ("align_block", guarded(ctl, faulty, "align_block", || s.align_block(b))?.is_some())
        }
        2 => { let b = chance(1, 2); ev("push_bit", &[b as u64]); want.push(b); ("push_bit", guarded(ctl, faulty, "push_bit", || s.push_bit(b))?.is_some()) }
        _ => {
            ev("pop_bit", &[]);
            let x = want.pop();
            let r = guarded(ctl, faulty, "pop_bit", || s.pop_bit())?;
            if let Some(r) = r { ensure!(r == x, "wrong-bit", "pop_bit gave {:?} instead of {:?}", r, x); }
            ("pop_bit", r.is_some())
        }
    };
    let now = call("reading it all", || all_bits(s))?;
    if done {
        *m = want;
        same(what, &now, m)
    } else {
        let keep = m.len().min(want.len());
        ensure!(now.len() >= keep && now.len() <= m.len().max(want.len()), "torn-write", "failed {}: {} bits became {}", what, m.len(), now.len());
        if let Some(i) = (0..keep).find(|&i| now[i] != m[i]) { return viol("torn-write", format!("failed {}: bit {} of {} changed", what, i, m.len())); }
        *m = now;
        Ok(())
    }
}

fn derived_push<B: BlockType>(s: &mut dyn BitVecPush<Block = B>, m: &mut Vec<bool>, ctl: Option<&Ctl>) -> Res {
    let faulty = chance(2, 3);
    for _ in 0..1 + choose(20) {
        span(|| match choose(5) {
            0 | 1 => if m.len() > 600 && chance(1, 4) { while m.len() > 40 { s.pop_bit(); m.pop(); } Ok(()) } else { grow(s, m, ctl, faulty) },
            2 => look(s, m, ctl, faulty),
            _ => poke(s, m, ctl, faulty),
        })?;
    }
    lens(s, m)
}

/// What a user may build with the exported adapter: the same bits.
struct Wrapped<S> { inner: S }
impl<S: BitVec> BitVec for Wrapped<S> { impl_bit_vec_adapter!(S::Block, inner); }

fn c16_on<B: BlockType>() -> Res {
    let w = width::<B>();
    let scale = scale(64);
    let mut m = random_bits(length(5 * w as u64 * scale));
    let garbage: B = from_u64(range(0, u64::MAX));
    let kind = choose(12);
    ev("storage", &[kind, m.len() as u64, as_u64(garbage)]);
    match kind {
        0 => { let mut s = BitStore::<B>::new(&m); let c = s.ctl.clone(); derived(&mut s, &mut m, Some(&c)) }
        1 | 2 => { let mut s = BlockStore::<B>::new(&m, garbage); let c = s.ctl.clone(); derived(&mut s, &mut m, Some(&c)) }
        3 | 4 => { let mut s = BitStore::<B>::new(&m); let c = s.ctl.clone(); derived_push(&mut s, &mut m, Some(&c)) }
        5 | 6 => { let mut s = BlockStore::<B>::new(&m, garbage); let c = s.ctl.clone(); derived_push(&mut s, &mut m, Some(&c)) }
        7 => { let mut s = m.clone(); derived_push(&mut s, &mut m, None) }
        8 => {
            m.truncate(m.len() / w * w);
            let mut v = to_blocks::<B>(&m);
            match choose(3) { 0 => derived(&mut v, &mut m, None), 1 => derived(&mut Bare(&mut v[..]), &mut m, None), _ => derived(&mut &mut v[..], &mut m, None) }
        }
        9 => { let mut m = random_bits(w); let mut b: B = from_bits(&m); if m.len() != w { return Ok(()); } derived(&mut b, &mut m, None) }
        10 => {
            let s = BlockStore::<B>::new(&m, garbage);
            let c = s.ctl.clone();
            let s = Wrapped { inner: s };
            for _ in 0..1 + choose(10) { span(|| look(&s, &m, Some(&c), true))?; }
            Ok(())
        }
        _ => {
            let s = BitStore::<B>::new(&m);
            let c = s.ctl.clone();
            let s = Wrapped { inner: s };
            for _ in 0..1 + choose(10) { span(|| look(&s, &m, Some(&c), true))?; }
            Ok(())
        }
    }
}
