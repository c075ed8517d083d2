//! C10-C14 and C19: vectors against plain lists, under failing memory.
use crate::io::call;
use crate::store::*;
use rt::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::VecDeque;
use std::fmt::{Debug, Write};
use std::hash::{Hash, Hasher};
use std::sync::Mutex;
use succinct::bit_vec::{BitVec, BitVecMut, BitVecPush};
use succinct::int_vec::{IntVec, IntVecMut};
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9};
use succinct::select::BinSearchSelect;
use succinct::storage::BlockType;
use succinct::stream::{BitBuffer, BitWrite};
use succinct::{BitVector, IntVector, SpaceUsage};

pub trait Blk: BlockType + Hash + Debug {}
impl<T: BlockType + Hash + Debug> Blk for T {}

macro_rules! any_block {
    ($f:ident) => { match choose(5) { 0 => $f::<u8>(), 1 => $f::<u16>(), 2 => $f::<u32>(), 3 => $f::<u64>(), _ => $f::<usize>() } };
}

/// A request so large that it can only be refused.
fn huge() -> u64 {
    match choose(4) { 0 => u64::MAX, 1 => u64::MAX - choose(70), 2 => range(1 << 33, u64::MAX), _ => 1 << range(33, 63) }
}

/// A position at or beyond `len`.
pub fn beyond(len: u64) -> u64 {
    match choose(5) { 0 => len, 1 => len + choose(70), 2 => u64::MAX, 3 => u64::MAX - choose(70), _ => range(len, u64::MAX) }.max(len)
}

/// What a call did that was to be refused: `changed` may look at the state for a partial effect of a
/// request that ran out of memory.
fn refused<R>(what: &str, r: Result<R, Caught>) -> Result<bool, Violation> {
    match r {
        Err(Caught::Panic(_)) => { probe("refused call"); Ok(false) }
        Err(Caught::Alloc) => { probe("request beyond memory"); Ok(true) }
        Err(c) => viol("panic", format!("{}: {:?}", what, c)),
        Ok(_) => viol("not-refused", format!("{} was not refused", what)),
    }
}

fn blocks_of(n: usize, w: usize) -> usize { (n + w - 1) / w }
fn cut(m: &[bool], n: usize, fill: bool) -> Vec<bool> { let mut t = m.to_vec(); t.resize(n, fill); t }

fn arm_alloc(faulty: bool) -> bool { arm_within(faulty, 2) }
fn arm_within(faulty: bool, reach: u64) -> bool {
    if faulty && chance(1, 3) { alloc::fail_in(choose(reach), chance(1, 3)); true } else { false }
}

/// After a growing operation ran out of memory: the old contents and a prefix of what was to be added.
fn prefix(what: &str, old: &[bool], now: &[bool], target: &[bool]) -> Res {
    fault("allocation failure");
    let keep = old.len().min(target.len());
    let ok = if target.len() >= old.len() { now.len() >= old.len() && now.len() <= target.len() && now[..] == target[..now.len()] && now[..keep] == old[..keep] } else { now == old };
    ensure!(ok, "bad-after-failure", "{} ran out of memory: {} bits became {} bits on the way to {}: {}", what, old.len(), now.len(), target.len(), diff(old, now));
    Ok(())
}

fn diff(a: &[bool], b: &[bool]) -> String {
    match (0..a.len().min(b.len())).find(|&i| a[i] != b[i]) { Some(i) => format!("first difference at {}", i), None => "one is a prefix of the other".into() }
}

// ---------------------------------------------------------------------------------------------
// bit vectors with their model

pub struct Bv<B: BlockType> { pub v: BitVector<B>, pub m: Vec<bool> }

/// Takes so much text and then fails once.
struct Terminal { got: String, room: usize, failed: bool }
impl std::fmt::Write for Terminal {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if !self.failed && self.got.len() + s.len() > self.room { self.failed = true; return Err(std::fmt::Error); }
        self.got.push_str(s);
        Ok(())
    }
}

impl<B: Blk> Bv<B> {
    fn w() -> usize { width::<B>() }

    fn create(faulty: bool, max: u64) -> Result<Self, Violation> {
        let n = length(max);
        let w = Self::w();
        let bit = chance(1, 2);
        let blk: B = from_u64(range(0, u64::MAX));
        let how = choose(6);
        ev("create", &[how, n as u64, as_u64(blk)]);
        let armed = arm_alloc(faulty);
        let make = || match how {
            0 => BitVector::<B>::new(),
            1 => BitVector::default(),
            2 => BitVector::with_capacity(n as u64),
            3 => BitVector::block_with_capacity(n / w),
            4 => BitVector::with_fill(n as u64, bit),
            _ => BitVector::block_with_fill(n / w, blk),
        };
        let r = sut(make);
        alloc::disarm();
        let v = match r {
            Ok(v) => v,
            Err(Caught::Alloc) if armed => { fault("allocation failure"); call("constructing again", make)? }
            Err(c) => return viol("panic", format!("constructor {}: {:?}", how, c)),
        };
        let m = match how { 4 => vec![bit; n], 5 => (0..n / w).flat_map(|_| block_bits(blk)).collect(), _ => vec![] };
        let s = Bv { v, m };
        s.check("construction")?;
        Ok(s)
    }

    /// Lengths and blocks.
    fn check(&self, after: &str) -> Res {
        let (l, bl) = call("lengths", || (self.v.bit_len(), self.v.block_len()))?;
        ensure!(l == self.m.len() as u64, "wrong-length", "after {}: {} bits instead of {}", after, l, self.m.len());
        ensure!(bl == blocks_of(self.m.len(), Self::w()), "wrong-length", "after {}: {} blocks for {} bits of {}", after, bl, l, Self::w());
        let now = self.now()?;
        ensure!(now == self.m, "wrong-contents", "after {}: {} of {} bits", after, diff(&now, &self.m), l);
        Ok(())
    }
    fn now(&self) -> Result<Vec<bool>, Violation> { call("reading blocks", || now_of(&self.v)) }

    /// Every other way of looking.
    fn deep(&self) -> Res {
        let n = self.m.len() as u64;
        let by_bit: Vec<bool> = call("get_bit", || (0..n).map(|i| self.v.get_bit(i)).collect())?;
        ensure!(by_bit == self.m, "wrong-contents", "get_bit: {}", diff(&by_bit, &self.m));
        let by_iter: Vec<bool> = call("iter", || self.v.iter().collect())?;
        ensure!(by_iter == self.m, "wrong-contents", "iter: {}", diff(&by_iter, &self.m));
        let by_ref: Vec<bool> = call("into_iter", || { let mut x = vec![]; for b in &self.v { x.push(b); } x })?;
        ensure!(by_ref == self.m, "wrong-contents", "into_iter: {}", diff(&by_ref, &self.m));
        let text = call("Binary", || format!("{:b}", self.v))?;
        let want: String = self.m.iter().map(|&b| if b { '1' } else { '0' }).collect();
        ensure!(text == want, "wrong-contents", "formatted {} as {}", want, text);
        if !want.is_empty() && chance(1, 4) {
            // whoever takes the text gives up, once
            let mut t = Terminal { got: String::new(), room: choose(want.len() as u64) as usize, failed: false };
            ev("terminal", &[t.room as u64]);
            let r = call("Binary", || write!(t, "{:b}", self.v))?;
            fault("formatter failure");
            ensure!(r.is_err() || !t.failed, "error-swallowed", "formatting to what failed after {} of {} characters reported success", t.room, want.len());
            ensure!(want.starts_with(&t.got), "wrong-contents", "formatted {} as {} before the failure", want, t.got);
        }
        for _ in 0..3 { self.span_read()?; }
        Ok(())
    }

    fn span_read(&self) -> Res {
        let n = self.m.len() as u64;
        let c = range(0, (Self::w() as u64).min(n));
        let at = pick(0, n - c, |r| if r.below(4) == 0 { n - c } else { r.below_incl(n - c) });
        ev("get_bits", &[at, c]);
        let x = call("get_bits", || self.v.get_bits(at, c as usize))?;
        let want: B = from_bits(&self.m[at as usize..(at + c) as usize]);
        ensure!(x == want, "wrong-contents", "get_bits({}, {}) of {} bits gave {:#x} instead of {:#x}", at, c, n, as_u64(x), as_u64(want));
        Ok(())
    }

    fn grow(&mut self, what: &str, target: Vec<bool>, faulty: bool, f: impl FnOnce(&mut BitVector<B>)) -> Res { self.grow_far(what, target, faulty, 2, f) }

    /// As `grow`, with memory failing at one of the first `reach` requests.
    fn grow_far(&mut self, what: &str, target: Vec<bool>, faulty: bool, reach: u64, f: impl FnOnce(&mut BitVector<B>)) -> Res {
        let armed = arm_within(faulty, reach);
        let r = sut(|| f(&mut self.v));
        alloc::disarm();
        match r {
            Ok(()) => self.m = target,
            Err(Caught::Alloc) if armed => {
                let now = self.now()?;
                prefix(what, &self.m, &now, &target)?;
                self.m = now;
            }
            Err(c) => return viol("panic", format!("{}: {:?}", what, c)),
        }
        self.check(what)
    }

    fn refuse<R>(&mut self, what: &str, fill: bool, f: impl FnOnce(&mut BitVector<B>) -> R) -> Res {
        let oom = refused(what, sut(|| { f(&mut self.v); }))?;
        if oom {
            let now = self.now()?;
            ensure!(now.len() >= self.m.len() && now == cut(&self.m, now.len(), fill), "bad-after-failure", "{} beyond memory: {} bits became {}", what, self.m.len(), now.len());
            self.m = now;
        }
        self.check(what)
    }

    /// One operation.
    pub fn op(&mut self, faulty: bool, max: u64) -> Res {
        let n = self.m.len();
        let w = Self::w();
        match weighted(&[6, 4, 2, 2, 2, 2, 2, 3, 2, 2, 2, 1, 2, 1, 2, 2, 5, if max > 300 { 6 } else { 1 }]) {
            0 => {
                let b = chance(1, 2);
                let k = 1 + choose(if n < 8000 && chance(1, 3) { 2 * w as u64 } else { 3 });
                ev("push_bit", &[k, b as u64]);
                for i in 0..k {
                    let b = b ^ (i % 3 == 1);
                    let mut t = self.m.clone();
                    t.push(b);
                    self.grow("push_bit", t, faulty, |v| v.push_bit(b))?;
                }
                Ok(())
            }
            1 => {
                let k = 1 + choose(if n < 8000 && chance(1, 3) { 2 * w as u64 } else { 3 });
                ev("pop_bit", &[k]);
                for _ in 0..k {
                    let r = call("pop_bit", || self.v.pop_bit())?;
                    let want = self.m.pop();
                    ensure!(r == want, "wrong-result", "pop_bit gave {:?} instead of {:?}", r, want);
                    self.check("pop_bit")?;
                }
                Ok(())
            }
            2 => {
                let b: B = from_u64(range(0, u64::MAX));
                ev("push_block", &[as_u64(b)]);
                let mut t = cut(&self.m, blocks_of(n, w) * w, false);
                t.extend(block_bits(b));
                self.grow("push_block", t, faulty, |v| v.push_block(b))
            }
            3 => {
                let b = chance(1, 2);
                ev("align_block", &[b as u64]);
                let t = cut(&self.m, blocks_of(n, w) * w, b);
                self.grow("align_block", t, faulty, |v| v.align_block(b))
            }
            4 => {
                if n == 0 { return Ok(()); }
                let i = choose(n as u64) as usize;
                let b = chance(1, 2);
                ev("set_bit", &[i as u64, b as u64]);
                call("set_bit", || self.v.set_bit(i as u64, b))?;
                self.m[i] = b;
                self.check("set_bit")
            }
            5 => {
                if n == 0 { return Ok(()); }
                let i = choose(blocks_of(n, w) as u64) as usize;
                let b: B = from_u64(range(0, u64::MAX));
                ev("set_block", &[i as u64, as_u64(b)]);
                call("set_block", || self.v.set_block(i, b))?;
                for (j, x) in block_bits(b).into_iter().enumerate() { if i * w + j < n { self.m[i * w + j] = x; } }
                self.check("set_block")
            }
            6 => {
                let c = range(0, w.min(n) as u64) as usize;
                let at = pick(0, (n - c) as u64, |r| if r.below(4) == 0 { (n - c) as u64 } else { r.below_incl((n - c) as u64) }) as usize;
                let b: B = from_u64(range(0, u64::MAX));
                ev("set_bits", &[at as u64, c as u64, as_u64(b)]);
                call("set_bits", || self.v.set_bits(at as u64, c, b))?;
                for j in 0..c { self.m[at + j] = bit(b, j); }
                self.check("set_bits")
            }
            7 => {
                let to = length(max);
                let b = chance(1, 2);
                ev("resize", &[to as u64, b as u64]);
                let t = cut(&self.m, to, b);
                self.grow("resize", t, faulty, |v| v.resize(to as u64, b))
            }
            8 => {
                let to = choose(max / w as u64 + 2) as usize;
                let b: B = from_u64(range(0, u64::MAX));
                ev("block_resize", &[to as u64, as_u64(b)]);
                let mut t = cut(&self.m, (blocks_of(n, w) * w).min(to * w), false);
                while t.len() < to * w { t.extend(block_bits(b)); }
                self.grow("block_resize", t, faulty, |v| v.block_resize(to, b))
            }
            9 => {
                let to = if chance(1, 3) { beyond(n as u64) } else { range(0, n as u64) };
                ev("truncate", &[to]);
                call("truncate", || self.v.truncate(to))?;
                self.m.truncate(to.min(n as u64) as usize);
                self.check("truncate")
            }
            10 => {
                let have = blocks_of(n, w);
                let to = if chance(1, 3) { beyond(have as u64) as usize } else { choose(have as u64 + 1) as usize };
                ev("block_truncate", &[to as u64]);
                call("block_truncate", || self.v.block_truncate(to))?;
                if to < have { self.m.truncate(to * w); }
                self.check("block_truncate")
            }
            11 => { ev("clear", &[]); call("clear", || self.v.clear())?; self.m.clear(); self.check("clear") }
            12 => {
                let k = skewed(max + 200);
                let how = choose(4);
                ev("reserve", &[how, k]);
                let t = self.m.clone();
                self.grow("reserve", t, faulty, |v| match how {
                    0 => v.reserve(k), 1 => v.reserve_exact(k), 2 => v.block_reserve(k as usize / w), _ => v.block_reserve_exact(k as usize / w),
                })
            }
            13 => { ev("shrink_to_fit", &[]); let t = self.m.clone(); self.grow("shrink_to_fit", t, faulty, |v| v.shrink_to_fit()) }
            14 => {
                ev("clone", &[]);
                let armed = arm_alloc(faulty);
                let r = sut(|| self.v.clone());
                alloc::disarm();
                match r {
                    Ok(c) => {
                        let other = Bv { v: std::mem::replace(&mut self.v, c), m: self.m.clone() };
                        self.check("clone")?;
                        // the original and the copy go separate ways
                        if n > 0 { call("set_bit", || self.v.set_bit(0, !self.m[0]))?; self.m[0] = !self.m[0]; } else { call("push_bit", || self.v.push_bit(true))?; self.m.push(true); }
                        other.check("writing to a clone")?;
                        if chance(1, 2) { self.take_over(&other, max)?; }
                        Ok(())
                    }
                    Err(Caught::Alloc) if armed => { fault("allocation failure"); self.check("clone") }
                    Err(c) => viol("panic", format!("clone: {:?}", c)),
                }
            }
            15 => if chance(1, 3) { ev("look", &[]); self.deep() } else { for _ in 0..4 { self.span_read()?; } Ok(()) },
            16 => self.refusal(),
            _ => self.many(faulty, max),
        }
    }

    /// Something else with a past of its own becomes a copy of `other`, and takes the place of this.
    fn take_over(&mut self, other: &Self, max: u64) -> Res {
        ev("clone_from", &[]);
        let mut s = span(|| Self::create(false, max))?;
        call("clone_from", || s.v.clone_from(&other.v))?;
        s.m = other.m.clone();
        *self = s;
        self.check("clone_from")
    }

    /// One thing over and over, memory failing somewhere on the way.
    fn many(&mut self, faulty: bool, max: u64) -> Res {
        let (n, w) = (self.m.len(), Self::w());
        let how = choose(6);
        let c = if chance(1, 2) { skewed(max) } else { length(max) as u64 } as usize;
        ev("many", &[how, c as u64]);
        match how {
            0 | 1 => {
                let bits = random_bits(c.min((2 * max as usize).saturating_sub(n)));
                let mut t = self.m.clone();
                t.extend_from_slice(&bits);
                self.grow_far("many push_bit", t, faulty, 12, |v| for &b in &bits { v.push_bit(b) })
            }
            2 => {
                let c = c.min(n + 3);
                let got: Vec<Option<bool>> = call("many pop_bit", || (0..c).map(|_| self.v.pop_bit()).collect())?;
                for (i, r) in got.into_iter().enumerate() {
                    let want = self.m.pop();
                    ensure!(r == want, "wrong-result", "pop_bit number {} of {} gave {:?} instead of {:?} with {} bits before", i, c, r, want, n);
                }
                self.check("many pop_bit")
            }
            3 => {
                let bits = random_bits(c.min((2 * max as usize).saturating_sub(n)) / w * w);
                let blocks = to_blocks::<B>(&bits);
                let mut t = self.m.clone();
                if !blocks.is_empty() { t.resize(blocks_of(n, w) * w, false); }
                t.extend_from_slice(&bits);
                self.grow_far("many push_block", t, faulty, 12, |v| for &b in &blocks { v.push_block(b) })
            }
            4 => {
                if n == 0 { return Ok(()); }
                let at = choose(n as u64) as usize;
                let bits = random_bits(c.min(n - at));
                call("many set_bit", || for (i, &b) in bits.iter().enumerate() { self.v.set_bit((at + i) as u64, b) })?;
                self.m[at..at + bits.len()].copy_from_slice(&bits);
                self.check("many set_bit")
            }
            _ => {
                // spans of one width, one after the other
                if n == 0 { return Ok(()); }
                let k = 1 + choose(w.min(n) as u64) as usize;
                let at = choose((n - k) as u64 + 1) as usize;
                let bits = random_bits(c.min(n - at) / k * k);
                let spans: Vec<B> = bits.chunks(k).map(from_bits).collect();
                call("many set_bits", || for (i, &b) in spans.iter().enumerate() { self.v.set_bits((at + i * k) as u64, k, b) })?;
                self.m[at..at + bits.len()].copy_from_slice(&bits);
                self.check("many set_bits")?;
                let got: Vec<B> = call("many get_bits", || (0..spans.len()).map(|i| self.v.get_bits((at + i * k) as u64, k)).collect())?;
                ensure!(got == spans, "wrong-contents", "reading {} spans of {} bits from {} of {} gave something else", spans.len(), k, at, n);
                Ok(())
            }
        }
    }

    fn refusal(&mut self) -> Res {
        let n = self.m.len() as u64;
        let w = Self::w();
        let bl = blocks_of(n as usize, w) as u64;
        let at = beyond(n);
        let bat = beyond(bl) as usize;
        let h = huge();
        let b = chance(1, 2);
        let blk: B = from_u64(range(0, u64::MAX));
        // a span that sticks out
        let c = range(1, w as u64);
        let from = match choose(3) { 0 => (n + 1).saturating_sub(c), 1 => beyond(n), _ => range((n + 1).saturating_sub(c), n.max((n + 1).saturating_sub(c))) };
        let which = choose(18);
        ev("to be refused", &[which, at, bat as u64, h, from, c]);
        match which {
            0 => self.refuse("get_bit beyond", b, |v| v.get_bit(at)),
            1 => self.refuse("set_bit beyond", b, |v| v.set_bit(at, b)),
            2 => self.refuse("get_block beyond", b, |v| v.get_block(bat)),
            3 => self.refuse("set_block beyond", b, |v| v.set_block(bat, blk)),
            4 => self.refuse("get_bits beyond", b, |v| v.get_bits(from, c as usize)),
            5 => self.refuse("set_bits beyond", b, |v| v.set_bits(from, c as usize, blk)),
            6 | 7 => self.refuse("huge resize", b, |v| v.resize(h, b)),
            8 => self.refuse("huge block_resize", false, |v| v.block_resize(h as usize, blk)),
            9 => self.refuse("huge reserve", false, |v| v.reserve(h)),
            10 => self.refuse("huge reserve_exact", false, |v| v.reserve_exact(h)),
            11 => self.refuse("huge block_reserve", false, |v| v.block_reserve(h as usize)),
            12 => self.refuse("huge block_reserve_exact", false, |v| v.block_reserve_exact(h as usize)),
            13 => self.refuse("huge with_capacity", false, |_| drop(BitVector::<B>::with_capacity(h))),
            14 => self.refuse("huge with_fill", false, |_| drop(BitVector::<B>::with_fill(h, b))),
            15 => self.refuse("huge block_with_fill", false, |_| drop(BitVector::<B>::block_with_fill(h as usize, blk))),
            16 => self.refuse("huge block_with_capacity", false, |_| drop(BitVector::<B>::block_with_capacity(h as usize))),
            _ => self.refuse("get_bits at the end of numbers", b, |v| v.get_bits(u64::MAX - choose(64), c as usize)),
        }
    }

    /// Bring the vector to the given contents, one way or another.
    fn conform(&mut self, target: &[bool], faulty: bool) -> Res {
        let w = Self::w();
        let t = target.len();
        let how = choose(7);
        ev("conform", &[how]);
        match how {
            0 => { call("clear", || self.v.clear())?; }
            1 => {
                let k = (0..t.min(self.m.len())).find(|&i| self.m[i] != target[i]).unwrap_or(t.min(self.m.len()));
                call("truncate", || self.v.truncate(k as u64))?;
            }
            2 => {
                let b = chance(1, 2);
                call("resize", || self.v.resize(t as u64, b))?;
                for (i, &x) in target.iter().enumerate() { call("set_bit", || self.v.set_bit(i as u64, x))?; }
            }
            3 => {
                let b = chance(1, 2);
                self.v = call("with_fill", || BitVector::with_fill(t as u64, b))?;
                for (i, &x) in target.iter().enumerate() { if x != b { call("set_bit", || self.v.set_bit(i as u64, x))?; } }
            }
            4 => {
                let blk: B = from_u64(range(0, u64::MAX));
                let extra = choose(3) as usize;
                let bl = blocks_of(t, w);
                call("block_resize", || self.v.block_resize(bl + extra, blk))?;
                for (i, &x) in to_blocks::<B>(target).iter().enumerate() {
                    // whatever lies behind the end
                    let mut x = x;
                    if i + 1 == bl && t % w != 0 { for j in t % w..w { x = with(x, j, bit(blk, j)); } }
                    call("set_block", || self.v.set_block(i, x))?;
                }
                call("truncate", || self.v.truncate(t as u64))?;
            }
            5 => {
                call("truncate", || self.v.truncate(0))?;
                for x in to_blocks::<B>(target) { call("push_block", || self.v.push_block(x))?; }
                while self.v.bit_len() > t as u64 { call("pop_bit", || self.v.pop_bit())?; }
            }
            _ => {
                let c = skewed(2000);
                self.v = call("with_capacity", || BitVector::with_capacity(c))?;
            }
        }
        // the rest by pushing, through failing memory
        let mut now = self.v.bit_len() as usize;
        let every = 1 + t / 1000;
        while now < t {
            let x = target[now];
            let armed = now % every == 0 && arm_alloc(faulty);
            let r = sut(|| self.v.push_bit(x));
            alloc::disarm();
            match r {
                Ok(()) => now += 1,
                Err(Caught::Alloc) if armed => { fault("allocation failure"); now = self.v.bit_len() as usize; }
                Err(c) => return viol("panic", format!("push_bit: {:?}", c)),
            }
        }
        self.m = target.to_vec();
        self.check("conforming")?;
        // neutral business
        for _ in 0..choose(3) {
            match choose(5) {
                0 => { let t = self.m.clone(); let k = skewed(500); self.grow("reserve", t, faulty, |v| v.reserve(k))? }
                1 => { let t = self.m.clone(); self.grow("shrink_to_fit", t, faulty, |v| v.shrink_to_fit())? }
                2 => {
                    let k = choose(3 * w as u64);
                    let x = chance(1, 2);
                    for _ in 0..k { call("push_bit", || self.v.push_bit(x))?; }
                    if chance(1, 2) { for _ in 0..k { call("pop_bit", || self.v.pop_bit())?; } } else { call("truncate", || self.v.truncate(t as u64))?; }
                    self.check("pushing and removing")?
                }
                3 => { let b = chance(1, 2); call("resize", || { self.v.resize(t as u64 + 3 * w as u64, b); self.v.resize(t as u64, !b) })?; self.check("resizing there and back")? }
                _ => { let at = beyond(t as u64); self.refuse("set_bit beyond", false, |v| v.set_bit(at, true))? }
            }
        }
        Ok(())
    }
}

fn now_of<V: BitVec>(v: &V) -> Vec<bool> {
    let n = v.bit_len() as usize;
    let w = width::<V::Block>();
    let mut r = Vec::with_capacity(n);
    for i in 0..v.block_len() { let b = v.get_block(i); for j in 0..w.min(n.saturating_sub(i * w)) { r.push(bit(b, j)); } }
    r
}

pub fn c10() -> Res { if crate::far::giant(2_500) { return crate::far::c10(); } any_block!(c10_on) }

fn c10_on<B: Blk>() -> Res {
    let faulty = chance(2, 3);
    let scale = scale(512);
    let max = 300 * scale;
    let mut s = Bv::<B>::create(faulty, max)?;
    for _ in 0..1 + choose(fewer(40, scale)) { span(|| s.op(faulty, max))?; }
    s.deep()
}

// ---------------------------------------------------------------------------------------------
// integer vectors with their model

pub struct Iv<B: BlockType> { pub v: IntVector<B>, pub k: usize, pub m: Vec<bool> }

fn element(m: &[bool], k: usize, i: usize) -> u64 { m[i * k..(i + 1) * k].iter().enumerate().map(|(j, &b)| (b as u64) << j).sum() }
fn bits_of(x: u64, k: usize) -> Vec<bool> { (0..k).map(|j| x >> j & 1 == 1).collect() }
fn mask(k: usize) -> u64 { if k >= 64 { u64::MAX } else { (1 << k) - 1 } }

impl<B: Blk> Iv<B> {
    fn w() -> usize { width::<B>() }
    fn len(&self) -> usize { self.m.len() / self.k }
    fn legal(&self) -> u64 { value_below(mask(self.k)) }
    fn draw_width() -> usize {
        let w = Self::w() as u64;
        pick(1, w, |r| match r.below(5) { 0 => w, 1 => w - r.below(3), 2 => 1 << r.below(7), _ => 1 + r.below(w) }) as usize
    }

    fn create(k: usize, faulty: bool, max: u64) -> Result<Self, Violation> {
        let w = Self::w();
        let n = length(max / k as u64 + 2);
        let x = value_below(mask(k));
        let blk: B = from_u64(range(0, u64::MAX));
        let how = choose(5);
        ev("create", &[how, k as u64, n as u64, x, as_u64(blk)]);
        let armed = arm_alloc(faulty);
        let make = || match how {
            0 => IntVector::<B>::new(k),
            1 => IntVector::with_capacity(k, n as u64),
            2 => IntVector::block_with_capacity(k, n * k / w),
            3 => IntVector::with_fill(k, n as u64, from_u64(x)),
            _ => IntVector::block_with_fill(k, n * k / w, blk),
        };
        let r = sut(make);
        alloc::disarm();
        let v = match r {
            Ok(v) => v,
            Err(Caught::Alloc) if armed => { fault("allocation failure"); call("constructing again", make)? }
            Err(c) => return viol("panic", format!("constructor {}: {:?}", how, c)),
        };
        let m = match how {
            3 => (0..n).flat_map(|_| bits_of(x, k)).collect(),
            4 => { let mut m: Vec<bool> = (0..n * k / w).flat_map(|_| block_bits(blk)).collect(); m.truncate(m.len() / k * k); m }
            _ => vec![],
        };
        let s = Iv { v, k, m };
        s.check("construction")?;
        Ok(s)
    }

    fn check(&self, after: &str) -> Res {
        let (l, bl, kk, n, e) = call("lengths", || (self.v.bit_len(), self.v.block_len(), self.v.element_bits(), self.v.len(), self.v.is_empty()))?;
        ensure!(kk == self.k, "wrong-width", "after {}: elements have {} bits instead of {}", after, kk, self.k);
        ensure!(n == self.len() as u64 && e == (n == 0), "wrong-length", "after {}: {} elements of {} bits instead of {}", after, n, self.k, self.len());
        ensure!(l == self.m.len() as u64, "wrong-length", "after {}: {} bits instead of {}", after, l, self.m.len());
        ensure!(bl == blocks_of(self.m.len(), Self::w()), "wrong-length", "after {}: {} blocks for {} bits of {}", after, bl, l, Self::w());
        let now = self.now()?;
        ensure!(now == self.m, "wrong-contents", "after {} (width {}): {} of {} bits", after, self.k, diff(&now, &self.m), l);
        Ok(())
    }
    fn now(&self) -> Result<Vec<bool>, Violation> { call("reading blocks", || now_of(&self.v)) }

    fn deep(&self) -> Res {
        let want: Vec<u64> = (0..self.len()).map(|i| element(&self.m, self.k, i)).collect();
        let got: Vec<u64> = call("get", || (0..self.v.len()).map(|i| as_u64(self.v.get(i))).collect())?;
        ensure!(got == want, "wrong-contents", "get gives {:x?} instead of {:x?} (width {})", got, want, self.k);
        let it: Vec<u64> = call("iter", || self.v.iter().map(as_u64).collect())?;
        ensure!(it == want, "wrong-contents", "iter gives {:x?} instead of {:x?} (width {})", it, want, self.k);
        let it: Vec<u64> = call("into_iter", || { let mut r = vec![]; for x in &self.v { r.push(as_u64(x)); } r })?;
        ensure!(it == want, "wrong-contents", "into_iter gives {:x?} instead of {:x?} (width {})", it, want, self.k);
        let by_bit: Vec<bool> = call("get_bit", || (0..self.v.bit_len()).map(|i| self.v.get_bit(i)).collect())?;
        ensure!(by_bit == self.m, "wrong-contents", "get_bit: {}", diff(&by_bit, &self.m));
        let (a, b) = call("layout", || (self.v.is_block_sized(), self.v.is_aligned()))?;
        ensure!(a == (self.k == Self::w()) && b == (Self::w() % self.k == 0), "wrong-width", "width {}: block sized {}, aligned {}", self.k, a, b);
        for _ in 0..3 { self.span_read()?; }
        Ok(())
    }

    fn span_read(&self) -> Res {
        let n = self.m.len() as u64;
        let c = range(0, (Self::w() as u64).min(n));
        let at = pick(0, n - c, |r| if r.below(4) == 0 { n - c } else { r.below_incl(n - c) });
        let want: B = from_bits(&self.m[at as usize..(at + c) as usize]);
        ev("get_bits", &[at, c]);
        let x = call("get_bits", || self.v.get_bits(at, c as usize))?;
        ensure!(x == want, "wrong-contents", "get_bits({}, {}) of {} bits gave {:#x} instead of {:#x}", at, c, n, as_u64(x), as_u64(want));
        // the same span as element `i` of width `c`
        let i = if c == 0 { choose(3) } else { choose(at / c + 1) };
        let x = call("get_random", || self.v.get_random(at - i * c, c as usize, i))?;
        ensure!(x == want, "wrong-contents", "get_random({}, {}, {}) of {} bits gave {:#x} instead of {:#x}", at - i * c, c, i, n, as_u64(x), as_u64(want));
        Ok(())
    }

    fn grow(&mut self, what: &str, target: Vec<bool>, faulty: bool, f: impl FnOnce(&mut IntVector<B>)) -> Res { self.grow_far(what, target, faulty, 2, f) }

    fn grow_far(&mut self, what: &str, target: Vec<bool>, faulty: bool, reach: u64, f: impl FnOnce(&mut IntVector<B>)) -> Res {
        let armed = arm_within(faulty, reach);
        let r = sut(|| f(&mut self.v));
        alloc::disarm();
        match r {
            Ok(()) => self.m = target,
            Err(Caught::Alloc) if armed => {
                let now = self.now()?;
                prefix(what, &self.m, &now, &target)?;
                ensure!(now.len() % self.k == 0, "bad-after-failure", "{} ran out of memory: {} bits of width {}", what, now.len(), self.k);
                self.m = now;
            }
            Err(c) => return viol("panic", format!("{}: {:?}", what, c)),
        }
        self.check(what)
    }

    fn refuse<R>(&mut self, what: &str, fill: u64, f: impl FnOnce(&mut IntVector<B>) -> R) -> Res {
        let oom = refused(what, sut(|| { f(&mut self.v); }))?;
        if oom {
            let now = self.now()?;
            let mut t = self.m.clone();
            while t.len() < now.len() { t.extend(bits_of(fill, self.k)); }
            ensure!(now.len() >= self.m.len() && now == t, "bad-after-failure", "{} beyond memory: {} bits became {}", what, self.m.len(), now.len());
            self.m = now;
        }
        self.check(what)
    }

    pub fn op(&mut self, faulty: bool, max: u64) -> Res {
        let n = self.len();
        let (w, k) = (Self::w(), self.k);
        let bl = blocks_of(self.m.len(), w);
        match weighted(&[6, 4, 3, 2, 2, 2, 2, 3, 2, 2, 2, 1, 2, 1, 1, 2, 6, if max > 500 { 6 } else { 1 }]) {
            0 => {
                for _ in 0..1 + choose(if self.m.len() < 8000 && chance(1, 3) { 2 * (w / k) as u64 + 2 } else { 3 }) {
                    let x = self.legal();
                    ev("push", &[x]);
                    let mut t = self.m.clone();
                    t.extend(bits_of(x, k));
                    self.grow("push", t, faulty, |v| v.push(from_u64(x)))?;
                }
                Ok(())
            }
            1 => {
                for _ in 0..1 + choose(if self.m.len() < 8000 && chance(1, 3) { 2 * (w / k) as u64 + 2 } else { 3 }) {
                    ev("pop", &[]);
                    let r = call("pop", || self.v.pop())?;
                    let n = self.len();
                    let want = if n == 0 { None } else { Some(element(&self.m, k, n - 1)) };
                    ensure!(r.map(as_u64) == want, "wrong-result", "pop gave {:?} instead of {:?}", r, want);
                    if n > 0 { self.m.truncate((n - 1) * k); }
                    self.check("pop")?;
                }
                Ok(())
            }
            2 => {
                if n == 0 { return Ok(()); }
                let i = choose(n as u64) as usize;
                let x = self.legal();
                ev("set", &[i as u64, x]);
                call("set", || self.v.set(i as u64, from_u64(x)))?;
                self.m[i * k..(i + 1) * k].copy_from_slice(&bits_of(x, k));
                self.check("set")
            }
            3 => {
                if n == 0 { return Ok(()); }
                let i = choose(n as u64);
                let r = call("get", || self.v.get(i))?;
                ensure!(as_u64(r) == element(&self.m, k, i as usize), "wrong-contents", "get({}) gave {:?}", i, r);
                Ok(())
            }
            4 => {
                // through the bit vector interface
                if self.m.is_empty() { return Ok(()); }
                let b: B = from_u64(range(0, u64::MAX));
                if chance(1, 2) {
                    let i = choose(bl as u64) as usize;
                    ev("set_block", &[i as u64, as_u64(b)]);
                    call("set_block", || self.v.set_block(i, b))?;
                    for j in 0..w { if i * w + j < self.m.len() { self.m[i * w + j] = bit(b, j); } }
                    self.check("set_block")
                } else {
                    let i = choose(self.m.len() as u64) as usize;
                    let x = chance(1, 2);
                    ev("set_bit", &[i as u64, x as u64]);
                    call("set_bit", || self.v.set_bit(i as u64, x))?;
                    self.m[i] = x;
                    self.check("set_bit")
                }
            }
            5 => {
                let nb = self.m.len();
                let c = range(0, w.min(nb) as u64) as usize;
                let at = pick(0, (nb - c) as u64, |r| if r.below(4) == 0 { (nb - c) as u64 } else { r.below_incl((nb - c) as u64) }) as usize;
                let b: B = from_u64(range(0, u64::MAX));
                ev("set_bits", &[at as u64, c as u64, as_u64(b)]);
                call("set_bits", || self.v.set_bits(at as u64, c, b))?;
                for j in 0..c { self.m[at + j] = bit(b, j); }
                self.check("set_bits")
            }
            6 => {
                let nb = self.m.len();
                let c = range(0, w.min(nb) as u64) as usize;
                let at = range(0, (nb - c) as u64);
                let i = if c == 0 { choose(3) } else { choose(at / c as u64 + 1) };
                let x = value_below(mask(c));
                ev("set_random", &[at, c as u64, i, x]);
                call("set_random", || self.v.set_random(at - i * c as u64, c, i, from_u64(x)))?;
                for j in 0..c { self.m[at as usize + j] = x >> j & 1 == 1; }
                self.check("set_random")
            }
            7 => {
                let to = length(max / k as u64 + 2);
                let x = self.legal();
                ev("resize", &[to as u64, x]);
                let mut t = self.m.clone();
                t.truncate(to * k);
                while t.len() < to * k { t.extend(bits_of(x, k)); }
                self.grow("resize", t, faulty, |v| v.resize(to as u64, from_u64(x)))
            }
            8 => {
                let to = choose(max / w as u64 + 2) as usize;
                let b: B = from_u64(range(0, u64::MAX));
                ev("block_resize", &[to as u64, as_u64(b)]);
                let mut t = cut(&self.m, (bl * w).min(to * w), false);
                while t.len() < to * w { t.extend(block_bits(b)); }
                t.truncate(t.len() / k * k);
                self.grow("block_resize", t, faulty, |v| v.block_resize(to, b))
            }
            9 => {
                let to = if chance(1, 3) { beyond(n as u64) } else { range(0, n as u64) };
                ev("truncate", &[to]);
                call("truncate", || self.v.truncate(to))?;
                if to < n as u64 { self.m.truncate(to as usize * k); }
                self.check("truncate")
            }
            10 => {
                let to = if chance(1, 3) { beyond(bl as u64) as usize } else { choose(bl as u64 + 1) as usize };
                ev("block_truncate", &[to as u64]);
                call("block_truncate", || self.v.block_truncate(to))?;
                if to < bl { self.m.truncate(to * w / k * k); }
                self.check("block_truncate")
            }
            11 => { ev("clear", &[]); call("clear", || self.v.clear())?; self.m.clear(); self.check("clear") }
            12 => {
                let c = skewed(max);
                let how = choose(4);
                ev("reserve", &[how, c]);
                let t = self.m.clone();
                self.grow("reserve", t, faulty, |v| match how {
                    0 => v.reserve(c), 1 => v.reserve_exact(c), 2 => v.block_reserve(c as usize / w), _ => v.block_reserve_exact(c as usize / w),
                })
            }
            13 => { ev("shrink_to_fit", &[]); let t = self.m.clone(); self.grow("shrink_to_fit", t, faulty, |v| v.shrink_to_fit()) }
            14 => {
                ev("clone", &[]);
                let armed = arm_alloc(faulty);
                let r = sut(|| self.v.clone());
                alloc::disarm();
                match r {
                    Ok(c) => {
                        let other = Iv { v: std::mem::replace(&mut self.v, c), k, m: self.m.clone() };
                        self.check("clone")?;
                        call("push", || self.v.push(from_u64(1)))?;
                        self.m.extend(bits_of(1, k));
                        self.check("pushing to a clone")?;
                        other.check("pushing to a clone")?;
                        if chance(1, 2) { self.take_over(&other, max)?; }
                        Ok(())
                    }
                    Err(Caught::Alloc) if armed => { fault("allocation failure"); self.check("clone") }
                    Err(c) => viol("panic", format!("clone: {:?}", c)),
                }
            }
            15 => if chance(1, 3) { ev("look", &[]); self.deep() } else { for _ in 0..4 { self.span_read()?; } Ok(()) },
            16 => self.refusal(),
            _ => self.many(faulty, max),
        }
    }

    /// Something else with a past (and elements) of its own becomes a copy of `other`, and takes the place of this.
    fn take_over(&mut self, other: &Self, max: u64) -> Res {
        ev("clone_from", &[]);
        let mut s = span(|| Self::create(if chance(1, 2) { self.k } else { Self::draw_width() }, false, max))?;
        call("clone_from", || s.v.clone_from(&other.v))?;
        s.m = other.m.clone();
        s.k = other.k;
        *self = s;
        self.check("clone_from")
    }

    /// One thing over and over, memory failing somewhere on the way.
    fn many(&mut self, faulty: bool, max: u64) -> Res {
        let (n, k, w) = (self.len(), self.k, Self::w());
        let how = choose(5);
        let most = max / k as u64 + 2;
        let c = if chance(1, 2) { skewed(most) } else { length(most) as u64 } as usize;
        ev("many", &[how, c as u64]);
        match how {
            0 | 1 => {
                let bits = random_bits(c.min((2 * most as usize).saturating_sub(n)) * k);
                let xs: Vec<B> = bits.chunks(k).map(from_bits).collect();
                let mut t = self.m.clone();
                t.extend_from_slice(&bits);
                self.grow_far("many push", t, faulty, 12, |v| for &x in &xs { v.push(x) })
            }
            2 => {
                let c = c.min(n + 3);
                let got: Vec<Option<B>> = call("many pop", || (0..c).map(|_| self.v.pop()).collect())?;
                for (i, r) in got.into_iter().enumerate() {
                    let l = self.len();
                    let want = if l == 0 { None } else { Some(element(&self.m, k, l - 1)) };
                    ensure!(r.map(as_u64) == want, "wrong-result", "pop number {} of {} gave {:?} instead of {:?} with {} elements of {} bits before", i, c, r, want, n, k);
                    if l > 0 { self.m.truncate((l - 1) * k); }
                }
                self.check("many pop")
            }
            3 => {
                if n == 0 { return Ok(()); }
                let at = choose(n as u64) as usize;
                let bits = random_bits(c.min(n - at) * k);
                call("many set", || for (i, x) in bits.chunks(k).enumerate() { self.v.set((at + i) as u64, from_bits(x)) })?;
                self.m[at * k..at * k + bits.len()].copy_from_slice(&bits);
                self.check("many set")
            }
            _ => {
                if n == 0 { return Ok(()); }
                // spans of one width, one after the other
                let nb = self.m.len();
                let s = 1 + choose(w.min(nb) as u64) as usize;
                let at = choose((nb - s) as u64 + 1) as usize;
                let bits = random_bits((c * k).min(nb - at) / s * s);
                let spans: Vec<B> = bits.chunks(s).map(from_bits).collect();
                call("many set_random", || for (i, &x) in spans.iter().enumerate() { self.v.set_random(at as u64, s, i as u64, x) })?;
                self.m[at..at + bits.len()].copy_from_slice(&bits);
                self.check("many set_random")?;
                let got: Vec<B> = call("many get_random", || (0..spans.len()).map(|i| self.v.get_random(at as u64, s, i as u64)).collect())?;
                ensure!(got == spans, "wrong-contents", "reading {} spans of {} bits from {} of {} gave something else", spans.len(), s, at, nb);
                Ok(())
            }
        }
    }

    fn refusal(&mut self) -> Res {
        let n = self.len() as u64;
        let (w, k) = (Self::w(), self.k);
        let bl = blocks_of(self.m.len(), w) as u64;
        let at = match choose(4) {
            // an index whose bit address wraps around
            0 if k > 1 => (u64::MAX / k as u64 + 1).wrapping_add(choose(4)).max(n),
            _ => beyond(n),
        };
        let bat = beyond(bl) as usize;
        // so many elements that memory cannot hold them, whatever the width
        let h = huge();
        let x = self.legal();
        let too_large = if k < w { range(mask(k) + 1, mask(w)) } else { 0 };
        let blk: B = from_u64(range(0, u64::MAX));
        // far beyond the last block
        let far = match choose(3) { 0 => (bl + 1) * w as u64, 1 => u64::MAX - choose(64), _ => range((bl + 1) * w as u64, u64::MAX) };
        let c = range(1, w as u64) as usize;
        let badw = match choose(3) { 0 => 0, 1 => w + 1, _ => w + 1 + skewed(1000) as usize };
        let which = choose(26);
        ev("to be refused", &[which, at, bat as u64, h, too_large, far, badw as u64]);
        match which {
            0 | 1 => self.refuse("get beyond", 0, |v| v.get(at)),
            2 | 3 => self.refuse("set beyond", 0, |v| v.set(at, from_u64(x))),
            4 | 5 => if k < w { self.refuse("pushing a value too large", 0, |v| v.push(from_u64(too_large))) } else { Ok(()) },
            6 | 7 => if k < w && n > 0 { let i = choose(n); self.refuse("setting a value too large", 0, |v| v.set(i, from_u64(too_large))) } else { Ok(()) },
            8 => self.refuse("get_block beyond", 0, |v| v.get_block(bat)),
            9 => self.refuse("set_block beyond", 0, |v| v.set_block(bat, blk)),
            10 => { let at = beyond(self.m.len() as u64); self.refuse("get_bit beyond", 0, |v| v.get_bit(at)) }
            11 => { let at = beyond(self.m.len() as u64); self.refuse("set_bit beyond", 0, |v| v.set_bit(at, true)) }
            12 => self.refuse("get_random beyond", 0, |v| v.get_random(far, c, 0)),
            13 => self.refuse("set_random beyond", 0, |v| v.set_random(far, c, 0, from_u64(1 & mask(c)))),
            14 => { let i = (u64::MAX / c as u64).saturating_add(1); self.refuse("get_random far beyond", 0, |v| v.get_random(1, c, i)) }
            15 => if c < w && !self.m.is_empty() { self.refuse("set_random of a value too large", 0, |v| v.set_random(0, c, 0, from_u64(mask(c) + 1))) } else { Ok(()) },
            16 => self.refuse("huge resize", x, |v| v.resize(h, from_u64(x))),
            17 => self.refuse("huge block_resize", 0, |v| v.block_resize(h as usize, blk)),
            18 => self.refuse("huge reserve", 0, |v| v.reserve(h)),
            19 => self.refuse("huge reserve_exact", 0, |v| v.reserve_exact(h)),
            20 => self.refuse("huge block_reserve", 0, |v| v.block_reserve(h as usize)),
            21 => self.refuse("huge with_capacity", 0, |_| drop(IntVector::<B>::with_capacity(k, h))),
            22 => self.refuse("huge with_fill", 0, |_| drop(IntVector::<B>::with_fill(k, h, from_u64(x)))),
            23 => self.refuse("a width out of range", 0, |_| drop(IntVector::<B>::new(badw))),
            24 => {
                let n = if chance(1, 2) { 3 } else { skewed(u64::MAX) };
                self.refuse("a width out of range", 0, |_| if n % 2 == 0 { drop(IntVector::<B>::with_capacity(badw, n)) } else { drop(IntVector::<B>::block_with_capacity(badw, n as usize)) })
            }
            _ => {
                let n = if chance(1, 2) { 3 } else { skewed(u64::MAX) };
                self.refuse("a width out of range", 0, |_| if n % 4 != 0 { drop(IntVector::<B>::with_fill(badw, n, B::zero())) } else { drop(IntVector::<B>::block_with_fill(badw, n as usize, B::zero())) })
            }
        }
    }

    fn conform(&mut self, target: &[bool], faulty: bool) -> Res {
        let k = self.k;
        let t = target.len() / k;
        let how = choose(5);
        ev("conform", &[how]);
        match how {
            0 => { call("clear", || self.v.clear())?; }
            1 => {
                let same = (0..t.min(self.len())).find(|&i| element(&self.m, k, i) != element(target, k, i)).unwrap_or(t.min(self.len()));
                call("truncate", || self.v.truncate(same as u64))?;
            }
            2 => {
                let x = self.legal();
                call("resize", || self.v.resize(t as u64, from_u64(x)))?;
                for i in 0..t { call("set", || self.v.set(i as u64, from_u64(element(target, k, i))))?; }
            }
            3 => {
                let b: B = from_u64(range(0, u64::MAX));
                let bl = blocks_of(target.len(), Self::w()) + choose(3) as usize;
                call("block_resize", || self.v.block_resize(bl, b))?;
                for i in 0..t { call("set", || self.v.set(i as u64, from_u64(element(target, k, i))))?; }
                call("truncate", || self.v.truncate(t as u64))?;
            }
            _ => { let x = self.legal(); self.v = call("with_fill", || IntVector::with_fill(k, t as u64 + 5, from_u64(x)))?; call("truncate", || self.v.truncate(0))?; }
        }
        let mut now = self.v.len() as usize;
        let every = 1 + t / 1000;
        while now < t {
            let x = element(target, k, now);
            let armed = now % every == 0 && arm_alloc(faulty);
            let r = sut(|| self.v.push(from_u64(x)));
            alloc::disarm();
            match r {
                Ok(()) => now += 1,
                Err(Caught::Alloc) if armed => { fault("allocation failure"); now = self.v.len() as usize; }
                Err(c) => return viol("panic", format!("push: {:?}", c)),
            }
        }
        self.m = target.to_vec();
        self.check("conforming")?;
        for _ in 0..choose(3) {
            match choose(4) {
                0 => { let t = self.m.clone(); let c = skewed(300); self.grow("reserve", t, faulty, |v| v.reserve(c))? }
                1 => { let t = self.m.clone(); self.grow("shrink_to_fit", t, faulty, |v| v.shrink_to_fit())? }
                2 => {
                    let c = choose(40);
                    let x = self.legal();
                    for _ in 0..c { call("push", || self.v.push(from_u64(x)))?; }
                    if chance(1, 2) { for _ in 0..c { call("pop", || self.v.pop())?; } } else { call("truncate", || self.v.truncate(t as u64))?; }
                    self.check("pushing and removing")?
                }
                _ => { let at = beyond(t as u64); self.refuse("get beyond", 0, |v| v.get(at))? }
            }
        }
        Ok(())
    }
}

pub fn c11() -> Res { if crate::far::giant(2_500) { return crate::far::c11(); } any_block!(c11_on) }

fn c11_on<B: Blk>() -> Res {
    let faulty = chance(2, 3);
    let scale = scale(512);
    let max = 500 * scale;
    let mut s = Iv::<B>::create(Iv::<B>::draw_width(), faulty, max)?;
    for _ in 0..1 + choose(fewer(40, scale)) { span(|| s.op(faulty, max))?; }
    s.deep()
}

// ---------------------------------------------------------------------------------------------
// C12

pub fn c12() -> Res {
    if chance(1, 2) { any_block!(c12_bits) } else { any_block!(c12_ints) }
}

fn hash<T: Hash>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }

/// Variations on some contents: the same, one unit changed, cut, extended by zeros or something.
fn variant(base: &[bool], unit: usize) -> Vec<bool> {
    let n = base.len() / unit;
    let mut t = base.to_vec();
    match choose(6) {
        0 | 1 => {}
        2 => if n > 0 { let i = choose(t.len() as u64) as usize; t[i] = !t[i]; },
        3 => if n > 0 { t.truncate(choose(n as u64) as usize * unit); },
        4 => { let k = 1 + choose(70) as usize; t.extend(std::iter::repeat(false).take(k * unit)); }
        _ => { let k = 1 + choose(5) as usize; t.extend(random_bits(k * unit)); }
    }
    t
}

/// Compare every pair (and triple) of replicas.
fn compare<T: Eq + Ord + Hash>(reps: &[(T, Vec<bool>)]) -> Res {
    let n = reps.len();
    let mut ord = vec![vec![Ordering::Equal; n]; n];
    for i in 0..n {
        for j in 0..n {
            let (a, b) = (&reps[i].0, &reps[j].0);
            let same = reps[i].1 == reps[j].1;
            let (eq, ne, c, p, l, le, g, ge) = call("comparing", || (a == b, a != b, a.cmp(b), a.partial_cmp(b), a < b, a <= b, a > b, a >= b))?;
            let about = || format!("replicas {} ({} bits) and {} ({} bits), contents {}", i, reps[i].1.len(), j, reps[j].1.len(), if same { "equal" } else { "different" });
            ensure!(eq == same && ne != same, "wrong-equality", "{}: == gives {}, != gives {}", about(), eq, ne);
            ensure!((c == Ordering::Equal) == same, "wrong-order", "{}: cmp gives {:?}", about(), c);
            ensure!(p == Some(c) && l == (c == Ordering::Less) && le == (c != Ordering::Greater) && g == (c == Ordering::Greater) && ge == (c != Ordering::Less),
                    "wrong-order", "{}: cmp {:?}, partial_cmp {:?}, < {} <= {} > {} >= {}", about(), c, p, l, le, g, ge);
            if same {
                let (x, y) = call("hashing", || (hash(a), hash(b)))?;
                ensure!(x == y, "wrong-hash", "{}: hashes {:x} and {:x}", about(), x, y);
                if i != j { probe("equal replicas"); }
            } else { probe("different replicas"); }
            ord[i][j] = c;
        }
    }
    for i in 0..n { for j in 0..n {
        ensure!(ord[i][j] == ord[j][i].reverse(), "wrong-order", "{} to {} is {:?} but the other way {:?}", i, j, ord[i][j], ord[j][i]);
        for k in 0..n {
            if ord[i][j] != Ordering::Greater && ord[j][k] != Ordering::Greater {
                ensure!(ord[i][k] != Ordering::Greater, "wrong-order", "{} <= {} <= {} but {:?}", i, j, k, ord[i][k]);
            }
        }
    } }
    Ok(())
}

fn c12_bits<B: Blk>() -> Res {
    let faulty = chance(1, 2);
    let scale = scale(512);
    let base = random_bits(length(scale * if chance(1, 4) { 600 } else { 150 }));
    let n = 2 + choose(if scale > 1 { 2 } else { 4 }) as usize;
    let mut reps = vec![];
    for _ in 0..n {
        let target = variant(&base, 1);
        let mut s = span(|| -> Result<_, Violation> {
            let mut s = Bv::<B>::create(faulty, 300 * scale)?;
            for _ in 0..choose(6) { s.op(faulty, 300 * scale)?; }
            Ok(s)
        })?;
        span(|| s.conform(&target, faulty))?;
        match choose(8) {
            6 => s.v = call("clone", || s.v.clone())?,
            7 => { let o = s; s = span(|| Bv::<B>::create(false, 10))?; s.take_over(&o, 300)?; }
            _ => {}
        }
        reps.push((s.v, s.m));
    }
    compare(&reps)
}

fn c12_ints<B: Blk>() -> Res {
    let faulty = chance(1, 2);
    let k = Iv::<B>::draw_width();
    let scale = scale(512);
    let len = length(scale * 600 / k as u64 + 1);
    let base = random_bits(len * k);
    let n = 2 + choose(if scale > 1 { 2 } else { 4 }) as usize;
    let mut reps = vec![];
    for _ in 0..n {
        let target = variant(&base, k);
        let mut s = span(|| -> Result<_, Violation> {
            let mut s = Iv::<B>::create(k, faulty, 600 * scale)?;
            for _ in 0..choose(6) { s.op(faulty, 400 * scale)?; }
            Ok(s)
        })?;
        span(|| s.conform(&target, faulty))?;
        match choose(8) {
            6 => s.v = call("clone", || s.v.clone())?,
            7 => { let o = s; s = span(|| Iv::<B>::create(k, false, 10))?; s.take_over(&o, 300)?; }
            _ => {}
        }
        reps.push((s.v, s.m));
    }
    compare(&reps)
}

// ---------------------------------------------------------------------------------------------
// C13

pub fn c13() -> Res {
    if crate::far::giant(20_000) { return crate::far::c13(); }
    match choose(5) { 0 | 1 => any_block!(c13_bits), 2 | 3 => any_block!(c13_ints), _ => any_block!(c13_buffer) }
}

/// Run with no memory to be had at all.
fn starved<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, Violation> {
    let before = alloc::failed();
    alloc::fail_in(0, true);
    let r = sut(f);
    alloc::disarm();
    match r {
        Ok(v) => { ensure!(alloc::failed() == before, "needed-memory", "{} asked for memory", what); Ok(v) }
        Err(Caught::Alloc) => viol("needed-memory", format!("{} needed memory although capacity was promised", what)),
        Err(c) => viol("panic", format!("{}: {:?}", what, c)),
    }
}

/// The common face of the two vectors for capacity purposes: a unit is a bit or an element.
trait Roomy {
    fn width(&self) -> u64;
    fn block_width(&self) -> u64;
    fn units(&self) -> u64;
    fn bits(&self) -> u64;
    fn blocks(&self) -> usize;
    fn cap(&self) -> u64;
    fn block_cap(&self) -> usize;
    fn do_reserve(&mut self, how: u64, n: u64);
    fn push1(&mut self, v: u64);
    fn grow_to(&mut self, units: u64, v: u64);
    fn grow_blocks(&mut self, blocks: usize, v: u64);
    fn pop1(&mut self);
    fn cut_to(&mut self, n: u64);
    fn cut_blocks(&mut self, n: usize);
    fn wipe(&mut self);
    fn shrink(&mut self);
    fn quiet(&mut self, v: u64) -> u64;
}

impl<B: Blk> Roomy for BitVector<B> {
    fn width(&self) -> u64 { 1 }
    fn block_width(&self) -> u64 { width::<B>() as u64 }
    fn units(&self) -> u64 { self.bit_len() }
    fn bits(&self) -> u64 { self.bit_len() }
    fn blocks(&self) -> usize { self.block_len() }
    fn cap(&self) -> u64 { self.capacity() }
    fn block_cap(&self) -> usize { self.block_capacity() }
    fn do_reserve(&mut self, how: u64, n: u64) { match how { 0 => self.reserve(n), 1 => self.reserve_exact(n), 2 => self.block_reserve(n as usize), _ => self.block_reserve_exact(n as usize) } }
    fn push1(&mut self, v: u64) { self.push_bit(v & 1 == 1) }
    fn grow_to(&mut self, units: u64, v: u64) { self.resize(units, v & 1 == 1) }
    fn grow_blocks(&mut self, blocks: usize, v: u64) {
        // by filling, or one at a time
        if v & 2 == 0 { self.block_resize(blocks, from_u64(v)) } else { while self.block_len() < blocks { self.push_block(from_u64(v)) } self.align_block(v & 1 == 1) }
    }
    fn pop1(&mut self) { self.pop_bit(); }
    fn cut_to(&mut self, n: u64) { self.truncate(n) }
    fn cut_blocks(&mut self, n: usize) { self.block_truncate(n) }
    fn wipe(&mut self) { self.clear() }
    fn shrink(&mut self) { self.shrink_to_fit() }
    fn quiet(&mut self, v: u64) -> u64 {
        let n = self.bit_len();
        if n > 0 {
            let i = v % n;
            self.set_bit(i, v >> 7 & 1 == 1);
            self.set_block((i / self.block_width()) as usize, from_u64(v));
            let c = self.block_width().min(n - i);
            self.set_bits(i, c as usize, from_u64(v));
            self.align_block(false);
            self.truncate(n);
        }
        let h = hash(&*self);
        let eq = *self == *self && Ord::cmp(&*self, &*self) == Ordering::Equal;
        h ^ self.iter().filter(|&b| b).count() as u64 ^ eq as u64 ^ self.iter().rev().count() as u64 ^ self.heap_bytes() as u64
    }
}

impl<B: Blk> Roomy for IntVector<B> {
    fn width(&self) -> u64 { self.element_bits() as u64 }
    fn block_width(&self) -> u64 { width::<B>() as u64 }
    fn units(&self) -> u64 { self.len() }
    fn bits(&self) -> u64 { self.bit_len() }
    fn blocks(&self) -> usize { self.block_len() }
    fn cap(&self) -> u64 { self.capacity() }
    fn block_cap(&self) -> usize { self.block_capacity() }
    fn do_reserve(&mut self, how: u64, n: u64) { match how { 0 => self.reserve(n), 1 => self.reserve_exact(n), 2 => self.block_reserve(n as usize), _ => self.block_reserve_exact(n as usize) } }
    fn push1(&mut self, v: u64) { let x = v & mask(self.element_bits()); self.push(from_u64(x)) }
    fn grow_to(&mut self, units: u64, v: u64) { let x = v & mask(self.element_bits()); self.resize(units, from_u64(x)) }
    fn grow_blocks(&mut self, blocks: usize, v: u64) { self.block_resize(blocks, from_u64(v)) }
    fn pop1(&mut self) { self.pop(); }
    fn cut_to(&mut self, n: u64) { self.truncate(n) }
    fn cut_blocks(&mut self, n: usize) { self.block_truncate(n) }
    fn wipe(&mut self) { self.clear() }
    fn shrink(&mut self) { self.shrink_to_fit() }
    fn quiet(&mut self, v: u64) -> u64 {
        let n = self.len();
        let mut r = 0;
        if n > 0 {
            let i = v % n;
            let x = v & mask(self.element_bits());
            self.set(i, from_u64(x));
            r ^= as_u64(self.get(i));
            self.set_block(self.block_len() - 1, from_u64(v));
        }
        let eq = *self == *self && Ord::cmp(&*self, &*self) == Ordering::Equal;
        r ^ hash(&*self) ^ self.iter().map(as_u64).fold(0, |a, b| a ^ b) ^ eq as u64 ^ self.heap_bytes() as u64
    }
}

fn c13_bits<B: Blk>() -> Res {
    let scale = scale(512);
    let c = length(400 * scale) as u64;
    let how = choose(3);
    ev("create", &[how, c]);
    let v = call("constructor", || match how { 0 => BitVector::<B>::with_capacity(c), 1 => BitVector::block_with_capacity(c as usize / width::<B>()), _ => BitVector::new() })?;
    roomy(v, match how { 0 => c, 1 => c / width::<B>() as u64 * width::<B>() as u64, _ => 0 }, scale)
}

fn c13_ints<B: Blk>() -> Res {
    let k = Iv::<B>::draw_width();
    let scale = scale(512);
    let c = length(600 * scale / k as u64 + 1) as u64;
    let how = choose(3);
    ev("create", &[how, k as u64, c]);
    let v = call("constructor", || match how { 0 => IntVector::<B>::with_capacity(k, c), 1 => IntVector::block_with_capacity(k, c as usize * k / 64), _ => IntVector::new(k) })?;
    let blocks = c * k as u64 / 64 * width::<B>() as u64 / k as u64;
    roomy(v, match how { 0 => c, 1 => blocks, _ => 0 }, scale)
}

/// `promised`: the vector may hold this many units without memory.
fn roomy<V: Roomy>(mut v: V, promised: u64, scale: u64) -> Res {
    let mut promised = promised;
    let wb = v.block_width();
    for _ in 0..1 + choose(12) {
        span(|| {
            let k = v.width();
            let cap = v.cap();
            ensure!(cap >= promised, "broken-promise", "capacity {} below the {} promised", cap, promised);
            ensure!(cap == v.block_cap() as u64 * wb / k, "wrong-capacity", "{} blocks of {} bits are said to hold {} units of {} bits", v.block_cap(), wb, cap, k);
            let n = v.units();
            match weighted(&[4, 4, 2, 2, 2, 2, 3, 1, 1]) {
                0 => {
                    let how = choose(4);
                    let add = if how < 2 { length(600 * scale / k + 1) as u64 } else { choose(12 * scale) };
                    let holds = v.blocks() as u64;
                    let before = (v.block_cap(), alloc::count());
                    ev("reserve", &[how, add]);
                    let enough = if how < 2 { (n + add) * k <= before.0 as u64 * wb } else { holds + add <= before.0 as u64 };
                    if chance(1, 4) {
                        // fails first
                        alloc::fail_in(0, false);
                        let r = sut(|| v.do_reserve(how, add));
                        alloc::disarm();
                        match r {
                            Ok(()) => {}
                            Err(Caught::Alloc) => {
                                fault("allocation failure");
                                ensure!(!enough, "needed-memory", "reserving {} with {} of {} used asked for memory", add, n, cap);
                                ensure!(v.block_cap() == before.0 && v.units() == n, "bad-after-failure", "a failed reserve changed capacity from {} to {} blocks", before.0, v.block_cap());
                            }
                            Err(c) => return viol("panic", format!("reserve: {:?}", c)),
                        }
                    }
                    let count = alloc::count();
                    call("reserve", || v.do_reserve(how, add))?;
                    ensure!(v.units() == n, "wrong-length", "reserve changed the length from {} to {}", n, v.units());
                    if enough {
                        ensure!(v.block_cap() == before.0 && alloc::count() == count, "needless-reserve", "reserving {} (way {}) with {} units in {} blocks and capacity {} went to {}", add, how, n, holds, before.0, v.block_cap());
                        probe("reserve with room");
                    }
                    let reach = if how < 2 { n + add } else { (holds + add) * wb / k };
                    promised = promised.max(reach);
                }
                1 => {
                    // up to what was promised
                    if n < promised {
                        let to = pick(n, promised, |r| if r.below(2) == 0 { promised } else { n + r.below_incl(promised - n) });
                        let x = range(0, u64::MAX);
                        let way = choose(2);
                        ev("fill", &[to, way]);
                        starved("filling what was reserved", || if way == 0 { while v.units() < to { v.push1(x) } } else { v.grow_to(to, x) })?;
                        ensure!(v.units() == to, "wrong-length", "filled to {} instead of {}", v.units(), to);
                        if to == promised { probe("filled to the promise"); }
                    }
                }
                2 => {
                    // up to the capacity reported
                    let to = v.cap();
                    let x = range(0, u64::MAX);
                    if to <= 5000 * scale {
                        ev("fill up", &[to]);
                        let way = choose(3);
                        let bc = v.block_cap();
                        starved("filling the capacity reported", || match way { 0 => while v.units() < to { v.push1(x) }, 1 => v.grow_to(to, x), _ => v.grow_blocks(bc, x) })?;
                        ensure!(v.units() == to, "wrong-length", "filled to {} instead of {}", v.units(), to);
                        probe("filled to capacity");
                    }
                }
                3 => { let c = choose(20 * scale); ev("pop", &[c]); starved("popping", || for _ in 0..c { v.pop1() })?; }
                4 => {
                    let to = range(0, n);
                    let blocks = choose(v.blocks() as u64 + 1) as usize;
                    ev("truncate", &[to]);
                    let by_blocks = chance(1, 3);
                    starved("truncating", || if by_blocks { v.cut_blocks(blocks) } else { v.cut_to(to) })?;
                }
                5 => {
                    let before = v.block_cap();
                    ev("clear", &[]);
                    starved("clearing", || v.wipe())?;
                    ensure!(v.units() == 0 && v.bits() == 0 && v.block_cap() == before, "lost-capacity", "clearing left {} units, {} of {} blocks", v.units(), v.block_cap(), before);
                }
                6 => {
                    let x = range(0, u64::MAX);
                    ev("quiet", &[]);
                    let cap = v.block_cap();
                    starved("reading, overwriting, comparing and iterating", || v.quiet(x))?;
                    ensure!(v.units() == n && v.block_cap() == cap, "wrong-length", "quiet operations changed the length from {} to {}", n, v.units());
                }
                7 => {
                    ev("shrink", &[]);
                    call("shrink_to_fit", || v.shrink())?;
                    ensure!(v.units() == n && v.block_cap() == v.blocks(), "spare-capacity", "shrinking left {} blocks for {}", v.block_cap(), v.blocks());
                    promised = n;
                }
                _ => {
                    // ordinary growth
                    let x = range(0, u64::MAX);
                    let c = choose(100 * scale);
                    ev("push", &[c]);
                    call("push", || for _ in 0..c { v.push1(x) })?;
                    promised = promised.max(v.units());
                }
            }
            // shrinking never takes a promise back, except by shrink_to_fit
            Ok(())
        })?;
        if v.cap() > 6000 * scale { break; }
    }
    Ok(())
}

fn c13_buffer<B: Blk>() -> Res {
    let n = length(400 * scale(512)) as u64;
    ev("buffer", &[n]);
    let mut b = call("with_capacity", || BitBuffer::<BitVector<B>>::with_capacity(n))?;
    let bits = random_bits(n as usize);
    starved("writing into a buffer with capacity", || for &x in &bits { b.write_bit(x).unwrap() })?;
    let got = call("reading", || now_of(&b))?;
    ensure!(got == bits, "wrong-contents", "buffer of capacity {}: {}", n, diff(&got, &bits));
    starved("seeking and rewriting", || { b.seek(0).unwrap(); for &x in &bits { b.write_bit(!x).unwrap() } })?;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C14

/// Something whose memory is watched.

pub fn exact<T: SpaceUsage>(x: &T, base: i64, when: &str) -> Res {
    let (h, t, s, only) = call("heap_bytes", || (x.heap_bytes(), x.total_bytes(), T::stack_bytes(), T::is_stack_only()))?;
    let live = alloc::live() - base;
    ensure!(h as i64 == live, "wrong-usage", "{}: {} reports {} heap bytes, holds {}", when, std::any::type_name::<T>(), h, live);
    ensure!(s == std::mem::size_of::<T>() && t == s + h, "wrong-usage", "{}: {} reports {} in all: {} fixed and {} on the heap", when, std::any::type_name::<T>(), t, s, h);
    ensure!(!only || live == 0, "wrong-usage", "{}: {} is declared stack-only but holds {}", when, std::any::type_name::<T>(), live);
    Ok(())
}

/// Build, watch, use and drop one object; construction and use may run out of memory.
fn life<T: SpaceUsage>(make: impl Fn() -> T, mut use_it: impl FnMut(&mut T) -> Res, steps: u64) -> Res {
    let base = alloc::live();
    if chance(1, 2) {
        alloc::fail_in(choose(6), chance(1, 2));
        let r = sut(&make);
        alloc::disarm();
        match r {
            Err(Caught::Alloc) => {
                fault("allocation failure");
                ensure!(alloc::live() == base, "leak", "a failed construction of {} left {} bytes", std::any::type_name::<T>(), alloc::live() - base);
            }
            Ok(x) => { exact(&x, base, "after construction")?; call("dropping", move || drop(x))?; }
            Err(c) => return viol("panic", format!("constructing {}: {:?}", std::any::type_name::<T>(), c)),
        }
        ensure!(alloc::live() == base, "leak", "dropping {} left {} bytes", std::any::type_name::<T>(), alloc::live() - base);
    }
    let mut x = call("constructing", &make)?;
    exact(&x, base, "after construction")?;
    for _ in 0..steps {
        span(|| {
            if chance(1, 3) { alloc::fail_in(choose(3), chance(1, 3)); }
            use_it(&mut x)
        })?;
        alloc::disarm();
        exact(&x, base, "in use")?;
    }
    call("dropping", move || drop(x))?;
    ensure!(alloc::live() == base, "leak", "dropping {} left {} bytes", std::any::type_name::<T>(), alloc::live() - base);
    Ok(())
}

/// A call that may be refused or run out of memory.
fn attempt<R>(what: &str, f: impl FnOnce() -> R) -> Result<Option<R>, Violation> {
    let r = sut(f);
    alloc::disarm();
    match r {
        Ok(r) => Ok(Some(r)),
        Err(Caught::Alloc) => { fault("allocation failure"); Ok(None) }
        Err(Caught::Panic(_)) => { probe("refused call"); Ok(None) }
        Err(c) => viol("panic", format!("{}: {:?}", what, c)),
    }
}

fn mk_bits<B: Blk>(n: usize, seed: u64) -> BitVector<B> {
    let mut v = BitVector::new();
    let mut x = seed | 1;
    for _ in 0..n { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); v.push_bit(x >> 63 == 1); }
    v
}
fn mk_ints<B: Blk>(k: usize, n: usize, seed: u64) -> IntVector<B> {
    let mut v = IntVector::new(k);
    let mut x = seed | 1;
    for _ in 0..n { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); v.push(from_u64(x >> 20 & mask(k))); }
    v
}

fn poke_bits<B: Blk>(v: &mut BitVector<B>) -> Res {
    let n = v.bit_len();
    let a = skewed(800 + 2 * n);
    match choose(16) {
        0 => { ev("push", &[a]); attempt("push", || for i in 0..a % (200 + n) { v.push_bit(i % 3 == 0) })?; }
        1 => { ev("pop", &[a]); attempt("pop", || for _ in 0..a % (200 + n) { v.pop_bit(); })?; }
        2 => { ev("push_block", &[]); attempt("push_block", || v.push_block(B::one()))?; }
        3 => { ev("resize", &[a]); let b = chance(1, 2); attempt("resize", || v.resize(a, b))?; }
        4 => { ev("block_resize", &[a]); attempt("block_resize", || v.block_resize(a as usize / 40, B::one()))?; }
        5 => { ev("truncate", &[a]); attempt("truncate", || v.truncate(a))?; }
        6 => { ev("reserve", &[a]); attempt("reserve", || v.reserve(a))?; }
        7 => { ev("reserve_exact", &[a]); attempt("reserve_exact", || v.reserve_exact(a))?; }
        8 => { ev("block_reserve", &[a]); attempt("block_reserve", || v.block_reserve(a as usize / 40))?; }
        9 => { ev("shrink", &[]); attempt("shrink", || v.shrink_to_fit())?; }
        10 => { ev("clear", &[]); attempt("clear", || v.clear())?; }
        11 => { ev("refused", &[]); let at = beyond(n); attempt("set_bit", || v.set_bit(at, true))?; }
        12 => { ev("clone", &[]); if let Some(c) = attempt("clone", || v.clone())? { if chance(1, 2) { *v = c; } else { call("dropping a clone", move || drop(c))?; } } }
        13 => { ev("block_truncate", &[a]); attempt("block_truncate", || v.block_truncate(a as usize / 40))?; }
        14 => { ev("align_block", &[a]); attempt("align_block", || v.align_block(a % 2 == 0))?; }
        _ => { ev("huge", &[]); let h = huge(); attempt("huge resize", || v.resize(h, true))?; }
    }
    Ok(())
}

fn poke_ints<B: Blk>(v: &mut IntVector<B>) -> Res {
    let n = v.len();
    let a = skewed(300 + 2 * n);
    match choose(14) {
        0 => { ev("push", &[a]); attempt("push", || for _ in 0..a % (100 + n) { v.push(B::one()) })?; }
        1 => { ev("pop", &[a]); attempt("pop", || for _ in 0..a % (100 + n) { v.pop(); })?; }
        2 => { ev("resize", &[a]); attempt("resize", || v.resize(a, B::one()))?; }
        3 => { ev("block_resize", &[a]); attempt("block_resize", || v.block_resize(a as usize / 20, B::one()))?; }
        4 => { ev("truncate", &[a]); attempt("truncate", || v.truncate(a))?; }
        5 => { ev("reserve", &[a]); attempt("reserve", || v.reserve(a))?; }
        6 => { ev("reserve_exact", &[a]); attempt("reserve_exact", || v.reserve_exact(a))?; }
        7 => { ev("shrink", &[]); attempt("shrink", || v.shrink_to_fit())?; }
        8 => { ev("clear", &[]); attempt("clear", || v.clear())?; }
        9 => { ev("refused", &[]); let at = beyond(n); attempt("set", || v.set(at, B::one()))?; attempt("push", || v.push(!B::zero()))?; }
        10 => { ev("block_truncate", &[a]); attempt("block_truncate", || v.block_truncate(a as usize / 20))?; }
        11 => { ev("clone", &[]); if let Some(c) = attempt("clone", || v.clone())? { if chance(1, 2) { *v = c; } else { call("dropping a clone", move || drop(c))?; } } }
        12 => { ev("block_reserve", &[a]); attempt("block_reserve", || if a % 2 == 0 { v.block_reserve(a as usize / 20) } else { v.block_reserve_exact(a as usize / 20) })?; }
        _ => { ev("huge", &[]); let h = huge(); attempt("huge resize", || v.resize(h, B::one()))?; }
    }
    Ok(())
}

/// Churn a plain vector of things.
fn poke_vec<T: SpaceUsage + Debug>(v: &mut Vec<T>, make: &dyn Fn() -> T) -> Res {
    match choose(6) {
        0 | 1 => { ev("add", &[]); attempt("add", || { let x = make(); v.push(x) })?; }
        2 => { ev("remove", &[]); attempt("remove", || { v.pop(); })?; }
        3 => { ev("reserve", &[]); let k = choose(20) as usize; attempt("reserve", || v.reserve(k))?; }
        4 => { ev("shrink", &[]); attempt("shrink", || v.shrink_to_fit())?; }
        _ => { ev("drain", &[]); let k = choose(v.len() as u64 + 1) as usize; attempt("drain", || { v.drain(..k); })?; }
    }
    Ok(())
}

pub fn c14() -> Res {
    let scale = scale(512);
    let n = length(500 * scale);
    let (a, b, c) = (skewed(300 * scale.min(8)) as usize, skewed(200 * scale.min(8)) as usize, choose(64 * scale.min(8)) as usize);
    let seed = range(0, u64::MAX);
    let k = Iv::<u64>::draw_width();
    let k8 = Iv::<u8>::draw_width();
    let steps = choose(fewer(10, scale));
    let quiet = |s: u64| s.min(2);
    let which = choose(28);
    ev("watch", &[which, n as u64]);
    match which {
        0 => life(|| mk_bits::<u8>(n, seed), poke_bits, steps),
        1 => life(|| mk_bits::<u64>(n, seed), poke_bits, steps),
        2 => life(|| mk_bits::<u32>(n, seed), poke_bits, steps),
        3 => life(|| mk_ints::<u64>(k, n / k, seed), poke_ints, steps),
        4 => life(|| mk_ints::<u8>(k8, n / k8, seed), poke_ints, steps),
        5 => life(|| mk_ints::<u16>(k8, n / k8, seed), poke_ints, steps),
        6 => life(|| JacobsonRank::new(mk_bits::<u64>(n, seed)), |_| Ok(()), quiet(steps)),
        7 => life(|| JacobsonRank::new(mk_bits::<u8>(n, seed)), |j| { ev("clone", &[]); if let Some(x) = attempt("clone", || j.clone())? { call("dropping", move || drop(x))?; } Ok(()) }, steps),
        8 => life(|| Rank9::new(mk_bits::<u64>(n, seed)), |j| { ev("clone", &[]); if let Some(x) = attempt("clone", || j.clone())? { call("dropping", move || drop(x))?; } Ok(()) }, steps),
        9 => life(|| BinSearchSelect::new(JacobsonRank::new(mk_bits::<u32>(n, seed))), |_| Ok(()), quiet(steps)),
        10 => life(|| BinSearchSelect::new(Rank9::new(mk_bits::<u64>(n, seed))), |_| Ok(()), quiet(steps)),
        11 => life(|| JacobsonRank::new(mk_ints::<u8>(k8, n / k8, seed)), |_| Ok(()), quiet(steps)),
        12 => life(|| vec![mk_bits::<u8>(a, seed), mk_bits::<u8>(b, seed)], |v| poke_vec(v, &|| mk_bits::<u8>(c, seed)), steps),
        13 => life(Vec::<u16>::new, |v| poke_vec(v, &|| 7), steps),
        14 => life(|| Vec::<Vec<u64>>::new(), |v| poke_vec(v, &|| vec![1; c]), steps),
        15 => life(|| Box::new(mk_ints::<u32>(k8, a, seed)), |v| poke_ints(v), steps),
        16 => life(|| Box::new(Box::new(seed)), |_| Ok(()), quiet(steps)),
        17 => life(|| (mk_bits::<u64>(a, seed), mk_ints::<u8>(k8, b, seed)), |t| { if chance(1, 2) { poke_bits(&mut t.0) } else { poke_ints(&mut t.1) } }, steps),
        18 => life(|| (1u8, mk_bits::<u8>(a, seed), vec![3u32; b], Box::new(mk_bits::<u16>(c, seed))),
                   |t| match choose(3) { 0 => poke_bits(&mut t.1), 1 => poke_vec(&mut t.2, &|| 1), _ => poke_bits(&mut *t.3) }, steps),
        19 => life(|| Vec::<(u8, BitVector<u16>)>::new(), |v| poke_vec(v, &|| (3, mk_bits(c, seed))), steps),
        20 => life(|| Vec::<Box<(IntVector<u8>, Vec<BitVector<u32>>)>>::new(),
                   |v| poke_vec(v, &|| Box::new((mk_ints(k8, b % 50, seed), vec![mk_bits(c, seed), mk_bits(a % 70, seed)]))), steps),
        21 => life(|| Vec::<Rank9<BitVector<u64>>>::new(), |v| poke_vec(v, &|| Rank9::new(mk_bits(b, seed))), steps),
        22 => life(|| Vec::<JacobsonRank<BitVector<u8>>>::new(), |v| poke_vec(v, &|| JacobsonRank::new(mk_bits(2 + c, seed))), steps),
        23 => {
            let v = mk_bits::<u64>(2 + n, seed);
            let s = succinct::bit_vec::BitSlice::new(&v, ..);
            life(|| (&v, s.clone(), 1u8, 2u16, 3u32, 4u64, 5usize, 6i8, 7i16, 8i32, 9i64, 1.5f64), |_| Ok(()), 1)?;
            {
                let base = alloc::live();
                let mut v = mk_bits::<u8>(n, seed);
                let live = alloc::live() - base;
                let s = succinct::bit_vec::BitSliceMut::new(&mut v, ..);
                exact(&s, base + live, "a window to write through")?;
            }
            life(|| (1isize, 1.5f32, (), &seed, (2u8, 3u16), &[1u8, 2][..]), |_| Ok(()), 1)?;
            life(|| (BinSearchSelect::new(seed), BinSearchSelect::new(3u8)), |_| Ok(()), 1)
        }
        24 => {
            // a user's storage, with heap of its own, failing
            let bits = random_bits(n);
            let own = choose(1 << 20) as usize;
            match choose(4) {
                0 => { let s = BlockStore::<u64>::new(&bits, seed); lent(&s, &s.ctl, own, Rank9::new) }
                1 => { let s = BlockStore::<u64>::new(&bits, seed); lent(&s, &s.ctl, own, |s| BinSearchSelect::new(JacobsonRank::new(s))) }
                2 => { let s = BlockStore::<u8>::new(&bits, 77); lent(&s, &s.ctl, own, JacobsonRank::new) }
                _ => { let s = BitStore::<u64>::new(&bits); lent(&s, &s.ctl, own, |s| BinSearchSelect::new(Rank9::new(s))) }
            }
        }
        25 => {
            let bits = random_bits(n);
            let own = choose(1 << 20) as usize;
            let s = BlockStore::<u16>::new(&bits, 0x55aa);
            lent(&s, &s.ctl, own, |s| JacobsonRank::new(JacobsonRank::new(s)))
        }
        26 => crate::tuples::c14(),
        _ => life(|| (vec![(1u8, 2u32); a], vec![(); b], vec![vec![Box::new(9u8); c]; 3], (vec![mk_bits::<u8>(b, seed)],), 1u8, Box::new((vec![1u16; 3], 5u8)), 2u8), |_| Ok(()), quiet(steps)),
    }
}

/// A storage lent out, that says it holds so many bytes elsewhere.
struct Measured<'a, S> { s: &'a S, own: usize }
impl<'a, S: BitVec> BitVec for Measured<'a, S> {
    type Block = S::Block;
    fn bit_len(&self) -> u64 { self.s.bit_len() }
    fn get_bit(&self, p: u64) -> bool { self.s.get_bit(p) }
    fn get_block(&self, p: usize) -> S::Block { self.s.get_block(p) }
}
impl<'a, S> SpaceUsage for Measured<'a, S> {
    fn is_stack_only() -> bool { false }
    fn heap_bytes(&self) -> usize { self.own }
}

/// Structures over storage that fails while they are built and used.
fn lent<'a, S: BitVec, R: SpaceUsage + BitRankSupport>(s: &'a S, ctl: &Ctl, own: usize, make: impl Fn(Measured<'a, S>) -> R) -> Res {
    use std::sync::atomic::Ordering::Relaxed;
    let base = alloc::live();
    let n = s.bit_len();
    for _ in 0..1 + choose(3) {
        let starved = chance(1, 4);
        if starved { alloc::fail_in(choose(6), chance(1, 2)); }
        else if chance(2, 3) { ctl.arm(1 + skewed(n / 8 + 40), chance(1, 4), false, range(1, u64::MAX)); }
        let r = sut(|| make(Measured { s, own }));
        alloc::disarm();
        ctl.disarm();
        match r {
            Ok(r) => {
                for _ in 0..choose(4) {
                    let (h, t, z) = call("heap_bytes", || (r.heap_bytes(), r.total_bytes(), R::stack_bytes()))?;
                    let live = alloc::live() - base;
                    ensure!(h as i64 == live + own as i64 && t == z + h, "wrong-usage", "{} reports {} heap bytes and {} in all, holds {} and {} in its storage", std::any::type_name::<R>(), h, t, live, own);
                    let p = choose(n + 2);
                    if chance(1, 3) { ctl.arm(1, false, false, 1); }
                    let _ = sut(|| r.rank1(p));
                    ctl.disarm();
                }
                call("dropping", move || drop(r))?;
            }
            Err(Caught::Alloc) if starved => fault("allocation failure"),
            Err(Caught::Fault(f)) if f.id == ctl.id.load(Relaxed) => probe("failed construction"),
            Err(c) => return viol("panic", format!("constructing {}: {:?}", std::any::type_name::<R>(), c)),
        }
        ensure!(alloc::live() == base, "leak", "{} came and went and left {} bytes", std::any::type_name::<R>(), alloc::live() - base);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C19

pub fn c19() -> Res { if crate::far::giant(2_500) { return crate::far::c19(); } any_block!(c19_on) }

fn c19_on<B: Blk>() -> Res {
    let scale = scale(512);
    // tasks take turns for every element: longer ones are rare
    let both = 4 * scale;
    if chance(1, 2) {
        let bits = random_bits(length(200 * scale));
        let mut v = BitVector::<B>::new();
        for &b in &bits { v.push_bit(b); }
        let m: VecDeque<u64> = bits.iter().map(|&b| b as u64).collect();
        if chance(1, both) { two_ends(v.iter().map2(|b| b as u64), m) } else { iterate(v.iter(), m, |b| b as u64, scale) }
    } else {
        let k = Iv::<B>::draw_width();
        let n = length(60 * scale);
        let mut v = IntVector::<B>::new(k);
        let mut m = VecDeque::new();
        if n <= 100 { for _ in 0..n { let x = value_below(mask(k)); v.push(from_u64(x)); m.push_back(x); } }
        else { for x in random_bits(n * k).chunks(k) { let x = from_bits(x); v.push(x); m.push_back(as_u64(x)); } }
        if chance(1, both) { two_ends(v.iter().map2(as_u64), m) } else { iterate(v.iter(), m, as_u64, scale) }
    }
}

/// `map` that keeps the iterator's own `nth`.
#[derive(Clone)]
struct Map2<I, F>(I, F);
trait Map2Ext: Sized { fn map2<F>(self, f: F) -> Map2<Self, F> { Map2(self, f) } }
impl<I> Map2Ext for I {}

/// A front and a back consumer as tasks on one iterator.
fn two_ends<I, F, T>(it: Map2<I, F>, m: VecDeque<u64>) -> Res
where I: DoubleEndedIterator<Item = T> + ExactSizeIterator + Clone, F: Fn(T) -> u64 + Clone + Send {
    let n = m.len();
    let f = it.1.clone();
    let it = Mutex::new(Share(it.0));
    let m = Mutex::new(m);
    set_stick(choose(4));
    let consume = |front: bool| {
        let (it, m, f) = (&it, &m, f.clone());
        move || -> Res {
            for _ in 0..n + 3 {
                yield_point();
                let mut i = it.lock().unwrap();
                let i = &mut i.0;
                let mut m = m.lock().unwrap();
                let skip = if !chance(1, 5) { 0 } else if n > 300 && chance(1, 2) { choose(n as u64) as usize } else { choose(4) as usize };
                let x = call("next", || if front { i.nth(skip) } else { for _ in 0..skip { i.next_back(); } i.next_back() })?.map(&f);
                for _ in 0..skip { if front { m.pop_front(); } else { m.pop_back(); } }
                let want = if front { m.pop_front() } else { m.pop_back() };
                ev(if front { "front" } else { "back" }, &[x.unwrap_or(u64::MAX)]);
                ensure!(x == want, "wrong-element", "{} consumer got {:?} instead of {:?} with {} left", if front { "front" } else { "back" }, x, want, m.len());
                let l = call("len", || i.len())?;
                ensure!(l == m.len(), "wrong-length", "reported {} left instead of {}", l, m.len());
            }
            Ok(())
        }
    };
    run_tasks(vec![("front", Box::new(consume(true))), ("back", Box::new(consume(false)))])?;
    let left = m.lock().unwrap().len();
    ensure!(left == 0, "wrong-length", "{} elements left behind", left);
    Ok(())
}

fn remaining<I, T>(it: &I, m: &VecDeque<u64>, f: &impl Fn(T) -> u64, when: &str) -> Res
where I: DoubleEndedIterator<Item = T> + ExactSizeIterator + Clone {
    let (l, h, c, last) = call("looking", || (it.len(), it.size_hint(), it.clone().count(), it.clone().last()))?;
    ensure!(l == m.len() && h == (l, Some(l)), "wrong-length", "after {}: {} left, reported {} and {:?}", when, m.len(), l, h);
    ensure!(c == m.len(), "wrong-length", "after {}: {} left, counted {}", when, m.len(), c);
    let last = last.map(f);
    ensure!(last == m.back().copied(), "wrong-element", "after {}: last is {:?} instead of {:?}", when, last, m.back());
    Ok(())
}

fn iterate<I, T>(it: I, m: VecDeque<u64>, f: impl Fn(T) -> u64, scale: u64) -> Res
where I: DoubleEndedIterator<Item = T> + ExactSizeIterator + Clone {
    // iterators in flight with what each should still deliver
    let mut live = vec![(it, m)];
    remaining(&live[0].0, &live[0].1, &f, "creation")?;
    for _ in 0..1 + choose(fewer(50, scale)) {
        let at = choose(live.len() as u64) as usize;
        span(|| {
            let (it, m) = &mut live[at];
            let what = match weighted(&[5, 5, 3, 2, 1, 3, 1, 1]) {
                0 => {
                    let x = call("next", || it.next())?.map(&f);
                    let want = m.pop_front();
                    ev("next", &[x.unwrap_or(u64::MAX)]);
                    ensure!(x == want, "wrong-element", "next gave {:?} instead of {:?}", x, want);
                    "next"
                }
                1 => {
                    let x = call("next_back", || it.next_back())?.map(&f);
                    let want = m.pop_back();
                    ev("next_back", &[x.unwrap_or(u64::MAX)]);
                    ensure!(x == want, "wrong-element", "next_back gave {:?} instead of {:?}", x, want);
                    "next_back"
                }
                2 => {
                    let k = skip(m.len());
                    let x = call("nth", || it.nth(k))?.map(&f);
                    let d = k.min(m.len());
                    m.drain(..d);
                    let want = m.pop_front();
                    ev("nth", &[k as u64, x.unwrap_or(u64::MAX)]);
                    ensure!(x == want, "wrong-element", "nth({}) gave {:?} instead of {:?}", k, x, want);
                    if x.is_none() { probe("skipped past the end"); }
                    "nth"
                }
                3 => {
                    // a default method walks to the end at worst
                    let k = skip(m.len()).min(m.len() + 3);
                    let x = call("nth_back", || it.nth_back(k))?.map(&f);
                    let d = k.min(m.len());
                    m.truncate(m.len() - d);
                    let want = m.pop_back();
                    ev("nth_back", &[k as u64, x.unwrap_or(u64::MAX)]);
                    ensure!(x == want, "wrong-element", "nth_back({}) gave {:?} instead of {:?}", k, x, want);
                    "nth_back"
                }
                4 => {
                    let (i2, m2) = (call("clone", || it.clone())?, m.clone());
                    ev("clone", &[]);
                    if live.len() < 4 { live.push((i2, m2)); } else { live[0] = (i2, m2); }
                    "clone"
                }
                5 => {
                    // everything that is left, on a clone
                    let back = chance(1, 2);
                    let way = choose(6);
                    let k = choose(5) as usize;
                    let most = 1 + choose(m.len() as u64 + 1) as usize;
                    let rest: Vec<u64> = call("collecting", || {
                        let c = it.clone();
                        let mut r = vec![];
                        match (way, back) {
                            (0, true) => c.rev().map(&f).collect(),
                            (0, false) => c.map(&f).collect(),
                            (1, true) => { c.rev().for_each(|x| r.push(f(x))); r }
                            (1, false) => { c.for_each(|x| r.push(f(x))); r }
                            (2, true) => c.rfold(r, |mut r, x| { r.push(f(x)); r }),
                            (2, false) => c.fold(r, |mut r, x| { r.push(f(x)); r }),
                            (3, true) => { let _ = c.rev().try_for_each(|x| { r.push(f(x)); if r.len() == most { Err(()) } else { Ok(()) } }); r }
                            (3, false) => { let mut c = c; for x in c.by_ref().take(k) { r.push(f(x)); } let n = c.len(); for (i, x) in c.enumerate() { if i < n { r.push(f(x)); } } r }
                            (4, true) => c.rev().step_by(k + 1).map(&f).collect(),
                            (4, false) => c.step_by(k + 1).map(&f).collect(),
                            (_, true) => c.rev().skip(k).map(&f).collect(),
                            (_, false) => c.skip(k).map(&f).collect(),
                        }
                    })?;
                    ev("rest", &[way, rest.len() as u64]);
                    let (step, from) = match way { 4 => (k + 1, 0), 5 => (1, k), _ => (1, 0) };
                    let mut want: Vec<u64> = if back { m.iter().rev().copied().skip(from).step_by(step).collect() } else { m.iter().copied().skip(from).step_by(step).collect() };
                    if way == 3 && back { want.truncate(most); }
                    if rest != want {
                        let i = (0..want.len()).find(|&i| rest.get(i) != want.get(i)).unwrap_or(want.len());
                        return viol("wrong-element", format!("collecting way {} from the {}: {} elements instead of {}, number {} is {:?} instead of {:?}", way, if back { "back" } else { "front" }, rest.len(), want.len(), i, rest.get(i), want.get(i)));
                    }
                    "collecting"
                }
                6 => {
                    // up to the first that fits
                    let back = chance(1, 2);
                    let at = choose(m.len() as u64 + 1) as usize;
                    let mut i = 0;
                    let mut g = |_: &T| { i += 1; i > at };
                    let x = call("find", || if back { it.rfind(&mut g) } else { it.find(&mut g) })?.map(&f);
                    let d = at.min(m.len());
                    if back { m.truncate(m.len() - d); } else { m.drain(..d); }
                    let want = if back { m.pop_back() } else { m.pop_front() };
                    ev("find", &[back as u64, at as u64, x.unwrap_or(u64::MAX)]);
                    ensure!(x == want, "wrong-element", "finding number {} (from the back: {}) gave {:?} instead of {:?}", at, back, x, want);
                    "find"
                }
                _ => {
                    let back = chance(1, 2);
                    let at = choose(m.len() as u64 + 1) as usize;
                    let mut i = 0;
                    let n = m.len();
                    let x = call("position", || if back { it.rposition(|_| { i += 1; i > at }) } else { it.position(|_| { i += 1; i > at }) })?;
                    let want = if at >= n { None } else if back { Some(n - 1 - at) } else { Some(at) };
                    let d = (at + 1).min(n);
                    if back { m.truncate(n - d); } else { m.drain(..d); }
                    ev("position", &[back as u64, at as u64]);
                    ensure!(x == want, "wrong-element", "the position of number {} (from the back: {}) is {:?} instead of {:?}", at, back, x, want);
                    "position"
                }
            };
            if scale <= 8 || chance(1, 8) { for (it, m) in &live { remaining(it, m, &f, what)?; } }
            else { let (it, m) = &live[at]; let h = call("size_hint", || it.size_hint())?; ensure!(h == (m.len(), Some(m.len())), "wrong-length", "after {}: {} left, reported {:?}", what, m.len(), h); }
            Ok(())
        })?;
    }
    for (mut it, mut m) in live {
        // exhaust, then stay exhausted
        while !m.is_empty() {
            let front = m.len() % 2 == 0;
            let x = call("next", || if front { it.next() } else { it.next_back() })?.map(&f);
            let want = if front { m.pop_front() } else { m.pop_back() };
            ensure!(x == want, "wrong-element", "draining gave {:?} instead of {:?}", x, want);
        }
        for k in [0, 1, usize::MAX] {
            let x = call("next on an exhausted iterator", || (it.next().is_none(), it.next_back().is_none(), it.nth(k).is_none()))?;
            ensure!(x == (true, true, true), "wrong-element", "an exhausted iterator went on");
            remaining(&it, &m, &f, "exhaustion")?;
        }
    }
    Ok(())
}

fn skip(len: usize) -> usize {
    match choose(6) { 0 => choose(3) as usize, 1 => choose(len as u64 + 1) as usize, 2 => len, 3 => len + 1 + choose(3) as usize, 4 => usize::MAX - choose(3) as usize, _ => 1 << range(0, 63) }
}
