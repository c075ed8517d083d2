//! Bit storages that a user of the library might bring: the least the traits ask for, failing by plan.
use rt::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Arc;
use succinct::bit_vec::{BitVec, BitVecMut, BitVecPush};
use succinct::storage::BlockType;

/// Access counters and the failure plan of a storage.
#[derive(Default)]
pub struct Ctl {
    /// accesses to bits or blocks so far
    pub calls: AtomicU64,
    /// fail at the access that makes `calls` reach this (0: never)
    at: AtomicU64,
    persistent: AtomicBool,
    /// fail after the effect took place rather than before
    after: AtomicBool,
    pub id: AtomicU64,
    /// failures since armed, and in all
    pub fired: AtomicU64,
    pub total: AtomicU64,
    /// scheduling point at each access
    pub yields: AtomicBool,
    /// an access beyond the storage was attempted
    pub oob: AtomicU64,
}

impl Ctl {
    /// Fail the `k`-th access from now (1: the next one), and those after it if `persistent`.
    pub fn arm(&self, k: u64, persistent: bool, after: bool, id: u64) {
        self.at.store(self.calls.load(Relaxed) + k.max(1), Relaxed);
        self.persistent.store(persistent, Relaxed);
        self.after.store(after, Relaxed);
        self.id.store(id, Relaxed);
        self.fired.store(0, Relaxed);
    }
    pub fn disarm(&self) { self.at.store(0, Relaxed); }
    pub fn calls(&self) -> u64 { self.calls.load(Relaxed) }
    pub fn set_yields(&self) { self.yields.store(true, Relaxed); }
    fn enter(&self) -> Option<bool> {
        if self.yields.load(Relaxed) { yield_point() } else { step() }
        let c = self.calls.fetch_add(1, Relaxed) + 1;
        let at = self.at.load(Relaxed);
        if at != 0 && (c == at || (c > at && self.persistent.load(Relaxed))) {
            self.fired.fetch_add(1, Relaxed);
            self.total.fetch_add(1, Relaxed);
            Some(self.after.load(Relaxed))
        } else { None }
    }
    /// One access with an effect.
    pub fn access<R>(&self, effect: impl FnOnce() -> R) -> R {
        seam_fault(|| match self.enter() {
            None => Ok(effect()),
            Some(after) => {
                let kind = if after { "storage fault after the effect" } else { "storage fault" };
                fault(kind);
                if after { effect(); }
                Err(SimFault { kind, id: self.id.load(Relaxed) })
            }
        })
    }
    pub fn bounds(&self, ok: bool) {
        if !ok {
            seam(|| { self.oob.fetch_add(1, Relaxed); });
            panic!("storage accessed out of bounds");
        }
    }
}

/// Single-bit access only.
pub struct BitStore<B> { pub bits: Vec<bool>, pub ctl: Arc<Ctl>, _b: std::marker::PhantomData<fn() -> B> }

impl<B> BitStore<B> {
    pub fn new(bits: &[bool]) -> Self { BitStore { bits: bits.to_vec(), ctl: Arc::default(), _b: std::marker::PhantomData } }
}

impl<B: BlockType> BitVec for BitStore<B> {
    type Block = B;
    fn bit_len(&self) -> u64 { self.bits.len() as u64 }
    fn get_bit(&self, p: u64) -> bool {
        self.ctl.bounds(p < self.bits.len() as u64);
        self.ctl.access(|| self.bits[p as usize])
    }
}
impl<B: BlockType> BitVecMut for BitStore<B> {
    fn set_bit(&mut self, p: u64, v: bool) {
        self.ctl.bounds(p < self.bits.len() as u64);
        let bits = &mut self.bits;
        self.ctl.access(|| bits[p as usize] = v)
    }
}
impl<B: BlockType> BitVecPush for BitStore<B> {
    fn push_bit(&mut self, v: bool) { let bits = &mut self.bits; self.ctl.access(|| bits.push(v)) }
    fn pop_bit(&mut self) -> Option<bool> { let bits = &mut self.bits; self.ctl.access(|| bits.pop()) }
}

/// Block access only, with arbitrary bits behind the end in the last block.
pub struct BlockStore<B> { pub blocks: Vec<B>, pub len: u64, pub garbage: B, pub ctl: Arc<Ctl> }

pub fn with<B: BlockType>(block: B, i: usize, v: bool) -> B {
    let m = B::one().unsigned_shl(i as u32);
    if v { block | m } else { block & !m }
}
pub fn bit<B: BlockType>(block: B, i: usize) -> bool { block.unsigned_shr(i as u32) & B::one() == B::one() }
pub fn width<B>() -> usize { std::mem::size_of::<B>() * 8 }

/// The low `n` bits given.
pub fn from_bits<B: BlockType>(bits: &[bool]) -> B {
    let mut b = B::zero();
    for (i, &v) in bits.iter().enumerate() { if v { b = with(b, i, true); } }
    b
}
/// Bits laid out in blocks, zero behind the end.
pub fn to_blocks<B: BlockType>(bits: &[bool]) -> Vec<B> { bits.chunks(width::<B>()).map(from_bits).collect() }
pub fn block_bits<B: BlockType>(b: B) -> Vec<bool> { (0..width::<B>()).map(|i| bit(b, i)).collect() }
pub fn from_u64<B: BlockType>(v: u64) -> B {
    let mut r = B::zero();
    for i in (0..width::<B>()).rev() { r = r << 1; if v >> i & 1 == 1 { r = r | B::one(); } }
    r
}
pub fn as_u64<B: BlockType>(b: B) -> u64 { b.to_u64().expect("a block is at most 64 bits") }

impl<B: BlockType> BlockStore<B> {
    pub fn new(bits: &[bool], garbage: B) -> Self {
        let mut blocks = to_blocks::<B>(bits);
        let used = bits.len() % width::<B>();
        if used != 0 {
            let l = blocks.last_mut().unwrap();
            for i in used..width::<B>() { *l = with(*l, i, bit(garbage, i)); }
        }
        BlockStore { blocks, len: bits.len() as u64, garbage, ctl: Arc::default() }
    }
}

impl<B: BlockType> BitVec for BlockStore<B> {
    type Block = B;
    fn bit_len(&self) -> u64 { self.len }
    fn get_block(&self, p: usize) -> B {
        self.ctl.bounds(p < self.blocks.len());
        self.ctl.access(|| self.blocks[p])
    }
}
impl<B: BlockType> BitVecMut for BlockStore<B> {
    fn set_block(&mut self, p: usize, v: B) {
        self.ctl.bounds(p < self.blocks.len());
        let w = width::<B>();
        let used = if p + 1 == self.blocks.len() { (self.len as usize - 1) % w + 1 } else { w };
        let blocks = &mut self.blocks;
        self.ctl.access(|| for i in 0..used { blocks[p] = with(blocks[p], i, bit(v, i)); })
    }
}
impl<B: BlockType> BitVecPush for BlockStore<B> {
    fn push_bit(&mut self, v: bool) {
        let (blocks, len, g) = (&mut self.blocks, &mut self.len, self.garbage);
        self.ctl.access(|| {
            let i = *len as usize % width::<B>();
            if i == 0 { blocks.push(g); }
            let l = blocks.last_mut().unwrap();
            *l = with(*l, i, v);
            *len += 1;
        })
    }
    fn pop_bit(&mut self) -> Option<bool> {
        let (blocks, len, g) = (&mut self.blocks, &mut self.len, self.garbage);
        self.ctl.access(|| {
            if *len == 0 { return None; }
            *len -= 1;
            let i = *len as usize % width::<B>();
            let r = bit(*blocks.last().unwrap(), i);
            if i == 0 { blocks.pop(); } else { let l = blocks.last_mut().unwrap(); *l = with(*l, i, bit(g, i)); }
            Some(r)
        })
    }
}

/// Share a value between simulated tasks whatever its type promises; whether the type promises it
/// is checked on its own.
pub struct Share<T>(pub T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}

/// `is_sync!(T)`: whether `T: Send + Sync`, without requiring it.
#[macro_export]
macro_rules! is_sync {
    ($t:ty) => {{
        struct W<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait No { const YES: bool = false; }
        impl<T: ?Sized> No for W<T> {}
        #[allow(dead_code)]
        impl<T: ?Sized + Send + Sync> W<T> { const YES: bool = true; }
        <W<$t>>::YES
    }};
}

/// Random bits, in one of several textures.
pub fn random_bits(n: usize) -> Vec<bool> {
    let style = choose(6);
    let mut v = Vec::with_capacity(n);
    match style {
        0 => v.resize(n, false),
        1 => v.resize(n, true),
        2 => {
            // long runs
            let mut b = chance(1, 2);
            while v.len() < n { let k = 1 + skewed(200) as usize; for _ in 0..k.min(n - v.len()) { v.push(b); } b = !b; }
        }
        3 => {
            // sparse
            v.resize(n, false);
            if n > 0 { for _ in 0..1 + choose(4) { let i = choose(n as u64) as usize; v[i] = true; } }
        }
        4 => {
            v.resize(n, true);
            if n > 0 { for _ in 0..1 + choose(4) { let i = choose(n as u64) as usize; v[i] = false; } }
        }
        _ => {
            while v.len() < n { let w = range(0, u64::MAX); for i in 0..64.min(n - v.len()) { v.push(w >> i & 1 == 1); } }
        }
    }
    v
}

/// How many times larger than usual the structures of this run are: mostly 1, up to `most`.
pub fn scale(most: u64) -> u64 {
    let most = if cfg!(debug_assertions) { most.min(64) } else { most };
    let s = [1, 8, 64, 512][weighted(&[420, 50, 9, 1])].min(most);
    if s > 1 { set_step_limit(2_000_000 + s * 400_000); probe(if s > 8 { "large structures" } else { "larger structures" }); }
    s
}

/// How many steps a run on structures that large takes.
pub fn fewer(most: u64, scale: u64) -> u64 { if scale > 8 { (most / 4).max(2) } else { most } }

/// A length biased to block boundaries.
pub fn length(max: u64) -> usize {
    pick(0, max, |r| {
        match r.below(4) {
            0 => { let w = [8, 16, 32, 64, 128, 512][r.below(6) as usize]; (w * r.below(max / w + 1) + r.below(3)).saturating_sub(1) }
            1 => r.below(10),
            _ => r.below_incl(max),
        }
    }) as usize
}
