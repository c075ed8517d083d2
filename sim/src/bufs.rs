//! C07-C09: bit buffers over storage that fails, block I/O over devices that fail, crash-safe logs.
use crate::codes::*;
use crate::io::*;
use crate::store::*;
use byteorder::{BigEndian, LittleEndian};
use rt::*;
use std::io::{self, ErrorKind};
use succinct::bit_vec::{BitSlice, BitSliceMut, BitVec, BitVecMut, BitVecPush};
use succinct::storage::BlockType;
use succinct::stream::{BitBuffer, BitRead, BitWrite};
use succinct::{BitVector, IntVector, JacobsonRank};
use succinct::int_vec::IntVecMut;

// ---------------------------------------------------------------------------------------------
// C07

/// A growable storage under a bit buffer.
trait Inner: BitVecPush {
    fn ctl(&self) -> Option<&Ctl> { None }
    fn allocates() -> bool { false }
    fn make(bits: &[bool]) -> Self;
    fn dup(_: &BitBuffer<Self>) -> Option<BitBuffer<Self>> where Self: Sized { None }
}

impl<B: BlockType> Inner for BitVector<B> {
    fn allocates() -> bool { true }
    fn make(bits: &[bool]) -> Self { let mut v = BitVector::new(); for &b in bits { v.push_bit(b); } v }
    fn dup(b: &BitBuffer<Self>) -> Option<BitBuffer<Self>> { Some(b.clone()) }
}
impl Inner for Vec<bool> {
    fn allocates() -> bool { true }
    fn make(bits: &[bool]) -> Self { bits.to_vec() }
    fn dup(b: &BitBuffer<Self>) -> Option<BitBuffer<Self>> { Some(b.clone()) }
}
impl<B: BlockType> Inner for BitStore<B> {
    fn ctl(&self) -> Option<&Ctl> { Some(&self.ctl) }
    fn make(bits: &[bool]) -> Self { BitStore::new(bits) }
}
impl<B: BlockType> Inner for BlockStore<B> {
    fn ctl(&self) -> Option<&Ctl> { Some(&self.ctl) }
    fn make(bits: &[bool]) -> Self { BlockStore::new(bits, from_u64(range(0, u64::MAX))) }
}

pub fn c07() -> Res {
    if chance(1, 10) { return crate::far::c07(); }
    match choose(12) {
        0 => file::<BitVector<u8>>(),
        1 => file::<BitVector<u64>>(),
        2 => match choose(3) { 0 => file::<BitVector<u16>>(), 1 => file::<BitVector<u32>>(), _ => file::<BitVector<usize>>() },
        3 => file::<Vec<bool>>(),
        4 => file::<BitStore<u8>>(),
        5 => file::<BitStore<u64>>(),
        6 => file::<BlockStore<u8>>(),
        7 => file::<BlockStore<u64>>(),
        8 => file::<BlockStore<u16>>(),
        9 => file::<BlockStore<u32>>(),
        10 => fixed_files(),
        _ => shared_file(),
    }
}

/// Everything a buffer shows, read without disturbing it.
fn shown<I: BitVec>(b: &BitBuffer<I>) -> Result<Vec<bool>, Violation> {
    call("reading back", || { let n = b.inner().bit_len(); (0..n).map(|i| b.inner().get_bit(i)).collect() })
}

fn check_file<I: BitVec>(b: &BitBuffer<I>, bits: &[bool], pos: u64, after: &str) -> Res {
    let (l, bl, p) = call("lengths", || (b.bit_len(), b.block_len(), b.position()))?;
    ensure!(l == bits.len() as u64, "wrong-length", "after {}: length {} instead of {}", after, l, bits.len());
    ensure!(p == pos, "wrong-position", "after {}: position {} instead of {}", after, p, pos);
    let w = width::<I::Block>();
    ensure!(bl == (bits.len() + w - 1) / w, "wrong-length", "after {}: {} blocks for {} bits of {}", after, bl, bits.len(), w);
    let s = shown(b)?;
    if s != bits {
        let i = (0..bits.len()).find(|&i| s[i] != bits[i]).unwrap();
        return viol("wrong-contents", format!("after {}: bit {} is {} (cursor {}, length {})", after, i, s[i], pos, bits.len()));
    }
    for i in [0, pos, bits.len() as u64 / 2, (bits.len() as u64).wrapping_sub(1)] {
        if i < l {
            let x = call("get_bit", || b.get_bit(i))?;
            ensure!(x == bits[i as usize], "wrong-contents", "after {}: the buffer shows bit {} as {} (cursor {}, length {})", after, i, x, pos, bits.len());
        }
    }
    if bl > 0 {
        let x = call("get_block", || b.get_block(bl - 1))?;
        for (i, &y) in bits[(bl - 1) * w..].iter().enumerate() {
            ensure!(bit(x, i) == y, "wrong-contents", "after {}: the buffer's last block shows bit {} as {}", after, i, !y);
        }
    }
    Ok(())
}

/// Arm a failure for the next call: of the storage or of the allocator.
fn arm<I: Inner>(b: &BitBuffer<I>, reach: u64) -> bool {
    if let Some(c) = b.inner().ctl() {
        c.arm(1 + choose(reach), chance(1, 3), chance(1, 3), range(1, u64::MAX));
        true
    } else if I::allocates() {
        alloc::fail_in(choose(2), chance(1, 3));
        true
    } else { false }
}
fn disarm<I: Inner>(b: &BitBuffer<I>) {
    alloc::disarm();
    if let Some(c) = b.inner().ctl() { c.disarm(); }
}

/// Whether what stopped a call is what was planned.
fn planned<I: Inner>(b: &BitBuffer<I>, c: &Caught) -> bool {
    match c {
        Caught::Alloc => { fault("allocation failure"); true }
        Caught::Fault(f) => b.inner().ctl().map(|c| c.id.load(std::sync::atomic::Ordering::Relaxed)) == Some(f.id),
        Caught::Panic(_) => false,
    }
}

/// After a failed write of `n` bits at `pos`: only those bits may differ, the length may have grown
/// to at most the end of the write, the cursor may have advanced over bits that were written.
fn check_failed_write<I: BitVec>(b: &BitBuffer<I>, bits: &mut Vec<bool>, pos: &mut u64, want: &[bool], what: &str) -> Res {
    let now = shown(b)?;
    let p = *pos as usize;
    let end = (p + want.len()).max(bits.len());
    ensure!(now.len() >= bits.len() && now.len() <= end, "torn-write", "failed {}: length went from {} to {}", what, bits.len(), now.len());
    for i in 0..bits.len() {
        ensure!((i >= p && i < p + want.len()) || now[i] == bits[i], "torn-write",
                "failed {} at {}: bit {} changed", what, p, i);
    }
    let c = b.position() as usize;
    if want.len() == 1 {
        ensure!(c == p, "cursor-moved", "failed {} at {}: cursor moved to {}", what, p, c);
    } else {
        ensure!(c >= p && c < p + want.len() && c <= now.len(), "cursor-moved", "failed {} of {} bits at {}: cursor at {}", what, want.len(), p, c);
        ensure!(now[p..c] == want[..c - p], "torn-write", "failed {} at {}: cursor at {} but the bits before it are {:?}", what, p, c, &now[p..c]);
    }
    *bits = now;
    *pos = c as u64;
    Ok(())
}

fn apply(bits: &mut Vec<bool>, pos: &mut u64, want: &[bool]) {
    for &b in want {
        if (*pos as usize) < bits.len() { bits[*pos as usize] = b } else { bits.push(b) }
        *pos += 1;
    }
}

fn int_bits(v: u64, n: usize, be: bool) -> Vec<bool> {
    if be { (0..n).rev().map(|k| v >> k & 1 == 1).collect() } else { (0..n).map(|k| v >> k & 1 == 1).collect() }
}

fn far(len: u64) -> u64 {
    match choose(4) { 0 => len + 1, 1 => len + 1 + skewed(1000), 2 => u64::MAX, _ => (len + 1).max(range(0, u64::MAX)) }
}

fn file<I: Inner>() -> Res {
    let scale = scale(512);
    let mut bits = random_bits(length(if chance(1, 2) { 0 } else { 150 * scale }));
    let append = chance(1, 3);
    let start = I::make(&bits);
    let mut b = call("making a buffer", || if append { BitBuffer::append(start) } else { BitBuffer::from(start) })?;
    let mut pos = if append { bits.len() as u64 } else { 0 };
    check_file(&b, &bits, pos, "making the buffer")?;
    let n = 1 + choose(fewer(30, scale));
    let faulty = chance(2, 3);
    for _ in 0..n {
        span(|| if chance(if scale > 1 { 10 } else { 1 }, 30) { bulk(&mut b, &mut bits, &mut pos, faulty, 200 * scale) } else { file_op(&mut b, &mut bits, &mut pos, faulty) })?;
    }
    check_file(&b, &bits, pos, "the run")?;
    // the bit vector handed back is the file
    let (r, v) = call("into_inner", || { let v = b.into_inner(); ((0..v.bit_len()).map(|i| v.get_bit(i)).collect::<Vec<bool>>(), v) })?;
    ensure!(r == bits, "wrong-contents", "into_inner gave {} bits instead of {}", r.len(), bits.len());
    drop(v);
    Ok(())
}

/// Many bits written or read in one go, the storage failing somewhere on the way.
fn bulk<I: Inner>(b: &mut BitBuffer<I>, bits: &mut Vec<bool>, pos: &mut u64, faulty: bool, max: u64) -> Res {
    let c = skewed(max) as usize;
    let k = 1 + choose(64) as usize;
    let how = choose(4);
    ev("many", &[how, *pos, c as u64, k as u64]);
    if how < 2 {
        let want = random_bits(c / k * k);
        if want.is_empty() { return Ok(()); }
        let armed = faulty && chance(1, 2) && arm(b, 3 * c as u64);
        let r = sut(|| if how == 0 { for &x in &want { b.write_bit(x)?; } Ok(()) } else { for x in want.chunks(k) { b.write_int(k, from_bits::<u64>(x))?; } Ok(()) });
        disarm(b);
        match r {
            Ok(Ok::<(), io::Error>(())) => apply(bits, pos, &want),
            Err(e) if armed => { ensure!(planned(b, &e), "panic", "many writes: {:?}", e); probe("failed write"); check_failed_write(b, bits, pos, &want, "many writes")?; }
            r => return viol("write-failed", format!("writing {} bits: {:?}", want.len(), r)),
        }
    } else {
        let left = bits.len() as u64 - *pos;
        let c = (c as u64).min(left) as usize / k * k;
        let want = &bits[*pos as usize..*pos as usize + c];
        let r = call("many reads", || -> io::Result<Vec<bool>> {
            let mut got = Vec::with_capacity(c);
            if how == 2 { for _ in 0..c { match b.read_bit()? { Some(x) => got.push(x), None => break } } }
            else { for _ in 0..c / k { match b.read_int::<u64>(k)? { Some(x) => got.extend((0..k).map(|i| x >> i & 1 == 1)), None => break } } }
            Ok(got)
        })?;
        match r {
            Ok(got) => if let Some(i) = (0..c).find(|&i| got.get(i) != want.get(i)) { return viol("wrong-read", format!("bit {} of {} read from {} on came out as {:?}", i, c, pos, got.get(i))); },
            Err(e) => return viol("wrong-end", format!("reading {} of {} bits left: {:?}", c, left, e)),
        }
        *pos += c as u64;
    }
    check_file(b, bits, *pos, "many at once")
}

fn file_op<I: Inner>(b: &mut BitBuffer<I>, bits: &mut Vec<bool>, pos: &mut u64, faulty: bool) -> Res {
    let with_fault = faulty && chance(1, 3);
    match weighted(&[6, 4, 3, 3, 2, 1, 1, 1]) {
        0 => {
            let v = chance(1, 2);
            ev("write_bit", &[*pos, v as u64]);
            if with_fault && arm(b, 4) {
                let r = sut(|| b.write_bit(v));
                disarm(b);
                match r {
                    Err(c) => {
                        ensure!(planned(b, &c), "panic", "write_bit: {:?}", c);
                        check_failed_write(b, bits, pos, &[v], "write_bit")?;
                        probe("failed write");
                    }
                    Ok(r) => {
                        ensure!(r.is_ok(), "write-failed", "write_bit: {:?}", r);
                        apply(bits, pos, &[v]);
                        return check_file(b, bits, *pos, "write_bit");
                    }
                }
            }
            let r = call("write_bit", || b.write_bit(v))?;
            ensure!(r.is_ok(), "write-failed", "write_bit: {:?}", r);
            apply(bits, pos, &[v]);
            check_file(b, bits, *pos, "write_bit")
        }
        1 => {
            ev("read_bit", &[*pos]);
            let want = bits.get(*pos as usize).copied();
            if with_fault && arm(b, 2) {
                let r = sut(|| b.read_bit());
                disarm(b);
                match r {
                    Err(c) => {
                        ensure!(planned(b, &c), "panic", "read_bit: {:?}", c);
                        check_file(b, bits, *pos, "failed read_bit")?;
                        probe("failed read");
                    }
                    Ok(r) => {
                        ensure!(matches!(r, Ok(x) if x == want), "wrong-read", "read_bit at {} of {}: {:?}", pos, bits.len(), r);
                        if want.is_some() { *pos += 1; }
                        return check_file(b, bits, *pos, "read_bit");
                    }
                }
            }
            let r = call("read_bit", || b.read_bit())?;
            ensure!(matches!(r, Ok(x) if x == want), "wrong-read", "read_bit at {} of {}: {:?}", pos, bits.len(), r);
            if want.is_some() { *pos += 1; }
            check_file(b, bits, *pos, "read_bit")
        }
        2 => {
            let ok = chance(3, 4);
            let to = if ok { let l = bits.len() as u64; pick(0, l, |r| if r.below(4) == 0 { l } else { r.below_incl(l) }) } else { far(bits.len() as u64) };
            ev("seek", &[to]);
            let r = call("seek", || b.seek(to))?;
            let ok = to <= bits.len() as u64;
            ensure!(r.is_ok() == ok, "wrong-seek", "seek to {} of {}: {:?}", to, bits.len(), r);
            if ok { *pos = to } else { probe("seek refused"); }
            check_file(b, bits, *pos, "seek")
        }
        3 => {
            let n = choose(65) as usize;
            let v = value64();
            let be = chance(1, 2);
            let want = int_bits(v, n, be);
            ev("write_int", &[*pos, n as u64, v, be as u64]);
            let was = *pos;
            if n > 0 && with_fault && arm(b, 3 * n as u64) {
                let r = sut(|| if be { b.write_int_be(n, v) } else { b.write_int(n, v) });
                disarm(b);
                match r {
                    Err(c) => {
                        ensure!(planned(b, &c), "panic", "write_int: {:?}", c);
                        check_failed_write(b, bits, pos, if n == 1 { &want[..] } else { &want }, "write_int")?;
                        let r = call("seek back", || b.seek(was))?;
                        ensure!(r.is_ok(), "wrong-seek", "seek back to {}: {:?}", was, r);
                        *pos = was;
                    }
                    Ok(r) => {
                        ensure!(r.is_ok(), "write-failed", "write_int: {:?}", r);
                        apply(bits, pos, &want);
                        return check_file(b, bits, *pos, "write_int");
                    }
                }
            }
            let r = call("write_int", || if be { b.write_int_be(n, v) } else { b.write_int(n, v) })?;
            ensure!(r.is_ok(), "write-failed", "write_int: {:?}", r);
            apply(bits, pos, &want);
            check_file(b, bits, *pos, "write_int")
        }
        4 => {
            let n = choose(65) as usize;
            let be = chance(1, 2);
            ev("read_int", &[*pos, n as u64, be as u64]);
            let left = bits.len() as u64 - *pos;
            let was = *pos;
            if n > 0 && with_fault && arm(b, 2 * n as u64) {
                let r = sut(|| if be { b.read_int_be::<u64>(n) } else { b.read_int::<u64>(n) });
                disarm(b);
                if let Err(c) = r {
                    ensure!(planned(b, &c), "panic", "read_int: {:?}", c);
                    let p = b.position();
                    ensure!(p >= was && p <= was + n as u64 && p <= bits.len() as u64, "cursor-moved", "failed read_int of {} at {}: cursor at {}", n, was, p);
                    check_file(b, bits, p, "failed read_int")?;
                }
                let r = call("seek back", || b.seek(was))?;
                ensure!(r.is_ok(), "wrong-seek", "seek back to {}: {:?}", was, r);
            }
            let r = call("read_int", || if be { b.read_int_be::<u64>(n) } else { b.read_int::<u64>(n) })?;
            if n as u64 <= left {
                let s = &bits[was as usize..was as usize + n];
                let want = s.iter().enumerate().fold(0u64, |a, (i, &x)| a | (x as u64) << if be { n - 1 - i } else { i });
                ensure!(matches!(r, Ok(Some(x)) if x == want), "wrong-read", "read_int of {} be={} at {}: {:?} instead of {:#x}", n, be, was, r, want);
                *pos += n as u64;
            } else if left == 0 {
                ensure!(matches!(r, Ok(None)), "wrong-end", "read_int of {} at the end: {:?}", n, r);
            } else {
                ensure!(matches!(&r, Err(e) if e.kind() == ErrorKind::UnexpectedEof), "wrong-end", "read_int of {} with {} left: {:?}", n, left, r);
                let p = b.position();
                ensure!(p >= was && p <= bits.len() as u64, "cursor-moved", "read_int past the end: cursor from {} to {}", was, p);
                *pos = p;
            }
            check_file(b, bits, *pos, "read_int")
        }
        5 => {
            // a bit written past the cursor's back
            if bits.is_empty() { return Ok(()); }
            let i = choose(bits.len() as u64) as usize;
            let v = chance(1, 2);
            ev("set_bit", &[i as u64, v as u64]);
            call("set_bit", || b.set_bit(i as u64, v))?;
            bits[i] = v;
            check_file(b, bits, *pos, "set_bit")
        }
        6 => {
            // clones go separate ways
            let copy = call("clone", || I::dup(b))?;
            if let Some(mut copy) = copy {
                ev("clone", &[]);
                let (mut bits2, mut pos2) = (bits.clone(), *pos);
                check_file(&copy, &bits2, pos2, "clone")?;
                for _ in 0..1 + choose(4) {
                    let (other, ob, op) = if chance(1, 2) { (&mut copy, &mut bits2, &mut pos2) } else { (&mut *b, &mut *bits, &mut *pos) };
                    let v = chance(1, 2);
                    let r = call("write_bit", || other.write_bit(v))?;
                    ensure!(r.is_ok(), "write-failed", "write_bit: {:?}", r);
                    apply(ob, op, &[v]);
                }
                check_file(&copy, &bits2, pos2, "writing to clone and original")?;
            }
            check_file(b, bits, *pos, "writing to clone and original")
        }
        _ => {
            // a value coded in place
            let c = Code::draw();
            let v = c.draw_value();
            let mut sink = SimSink::default();
            let r = call("encode", || c.encode(&mut sink, v))?;
            if r.is_err() || sink.bits.len() > 300 { return Ok(()); }
            ev("encode", &[*pos, v]);
            let was = *pos;
            let r = call("encode into the buffer", || c.encode(b, v))?;
            ensure!(r.is_ok(), "write-failed", "encode: {:?}", r);
            apply(bits, pos, &sink.bits);
            check_file(b, bits, *pos, "encode")?;
            if chance(1, 2) {
                let r = call("seek back", || b.seek(was))?;
                ensure!(r.is_ok(), "wrong-seek", "seek back to {}: {:?}", was, r);
                let r = call("decode from the buffer", || c.decode(b))?;
                ensure!(matches!(r, Ok(Some(x)) if x == v), "wrong-read", "{:?}: decode gave {:?} instead of {}", c, r, v);
                check_file(b, bits, *pos, "decode")?;
            }
            Ok(())
        }
    }
}

/// Buffers over bit vectors that cannot grow: reading, seeking, overwriting in place.
fn fixed_files() -> Res {
    let words: Vec<u64> = (0..choose(4)).map(|_| range(0, u64::MAX)).collect();
    let wbits: Vec<bool> = words.iter().flat_map(|&w| block_bits(w)).collect();
    match choose(9) {
        0 => { let v: Vec<u16> = words.iter().map(|&w| w as u16).collect(); let bits: Vec<bool> = v.iter().flat_map(|&w| block_bits(w)).collect(); reader_mut(v, bits) }
        1 => reader(&words[..], wbits.clone()),
        2 => { let x = range(0, u64::MAX); reader_mut(x, block_bits(x)) }
        3 => { let x = range(0, 255) as u8; reader_mut(x, block_bits(x)) }
        4 => {
            let base = random_bits(length(200 * scale(64)));
            let v = BitVector::<u64>::make(&base);
            let (a, z) = window(base.len());
            let s = call("slicing", || BitSlice::new(&v, a as u64..z as u64))?;
            reader(s, base[a..z].to_vec())
        }
        5 => {
            let base = random_bits(length(200 * scale(64)));
            let mut v = BitVector::<u8>::make(&base);
            let (a, z) = window(base.len());
            let s = call("slicing", || BitSliceMut::new(&mut v, a as u64..z as u64))?;
            reader_mut(s, base[a..z].to_vec())?;
            for i in (0..a).chain(z..base.len()) { ensure!(v.get_bit(i as u64) == base[i], "torn-write", "bit {} outside the buffer's slice changed", i); }
            Ok(())
        }
        6 => {
            let base = random_bits(2 + length(300 * scale(64)));
            let v = BitVector::<u64>::make(&base);
            let j = call("rank structure", || JacobsonRank::new(v))?;
            reader(j, base)
        }
        7 => {
            let k = 1 + choose(8) as usize;
            let mut v = IntVector::<u8>::with_fill(k, choose(40), 0);
            let n = succinct::IntVec::len(&v);
            let mut bits = vec![];
            for i in 0..n { let x = range(0, (1 << k) - 1) as u8; v.set(i, x); bits.extend((0..k).map(|s| x >> s & 1 == 1)); }
            reader_mut(v, bits)
        }
        _ => {
            let base = random_bits(length(200 * scale(64)));
            let s = BlockStore::<u32>::new(&base, from_u64(range(0, u64::MAX)));
            reader_mut(s, base)
        }
    }
}

fn window(n: usize) -> (usize, usize) { let a = range(0, n as u64); (a as usize, range(a, n as u64) as usize) }

fn reader<V: BitVec>(v: V, bits: Vec<bool>) -> Res {
    let mut b = call("from", || BitBuffer::from(v))?;
    let mut pos = 0;
    check_file(&b, &bits, pos, "from")?;
    for _ in 0..1 + choose(20) { span(|| read_or_seek(&mut b, &bits, &mut pos))?; }
    Ok(())
}

fn read_or_seek<V: BitVec>(b: &mut BitBuffer<V>, bits: &[bool], pos: &mut u64) -> Res {
    if chance(1, 3) {
        let to = if chance(3, 4) { range(0, bits.len() as u64) } else { far(bits.len() as u64) };
        ev("seek", &[to]);
        let r = call("seek", || b.seek(to))?;
        ensure!(r.is_ok() == (to <= bits.len() as u64), "wrong-seek", "seek to {} of {}: {:?}", to, bits.len(), r);
        if r.is_ok() { *pos = to; }
    } else if chance(1, 3) {
        let n = choose(33) as usize;
        ev("read_int", &[n as u64]);
        let left = bits.len() as u64 - *pos;
        let r = call("read_int", || b.read_int::<u32>(n))?;
        let p = b.position();
        if n as u64 <= left {
            let want = bits[*pos as usize..*pos as usize + n].iter().enumerate().fold(0u32, |a, (i, &x)| a | (x as u32) << i);
            ensure!(matches!(r, Ok(Some(x)) if x == want), "wrong-read", "read_int of {} at {}: {:?}", n, pos, r);
            *pos += n as u64;
        } else if left == 0 { ensure!(matches!(r, Ok(None)), "wrong-end", "read_int at the end: {:?}", r); }
        else { ensure!(r.is_err() && p <= bits.len() as u64 && p >= *pos, "wrong-end", "read_int with {} of {} left: {:?}, cursor {}", left, n, r, p); *pos = p; }
    } else {
        ev("read_bit", &[*pos]);
        let r = call("read_bit", || b.read_bit())?;
        let want = bits.get(*pos as usize).copied();
        ensure!(matches!(r, Ok(x) if x == want), "wrong-read", "read_bit at {} of {}: {:?}", pos, bits.len(), r);
        if want.is_some() { *pos += 1; }
    }
    check_file(b, bits, *pos, "reading")
}

fn reader_mut<V: BitVecMut>(v: V, mut bits: Vec<bool>) -> Res {
    let mut b = call("from", || BitBuffer::append(v))?;
    let mut pos = bits.len() as u64;
    check_file(&b, &bits, pos, "append")?;
    for _ in 0..1 + choose(20) {
        span(|| {
            if !bits.is_empty() && chance(1, 3) {
                let i = choose(bits.len() as u64) as usize;
                let x = chance(1, 2);
                ev("set_bit", &[i as u64, x as u64]);
                call("set_bit", || b.set_bit(i as u64, x))?;
                bits[i] = x;
                check_file(&b, &bits, pos, "set_bit")
            } else { read_or_seek(&mut b, &bits, &mut pos) }
        })?;
    }
    Ok(())
}

/// A writer and a reader with a cursor each, sharing one buffer through a lock, on slow storage.
fn shared_file() -> Res {
    let total = 1 + choose(60 * scale(8)) as usize;
    let bits: Vec<bool> = random_bits(total);
    let store = BlockStore::<u64>::new(&[], from_u64(range(0, u64::MAX)));
    store.ctl.set_yields();
    let cell = std::sync::Mutex::new((BitBuffer::from(store), 0usize, false)); // buffer, held, closed
    let held = std::sync::atomic::AtomicBool::new(false);
    set_stick(choose(4));
    use std::sync::atomic::Ordering::SeqCst;
    let lock = || wait_until(|| !held.swap(true, SeqCst));
    let unlock = || { held.store(false, SeqCst); wake_all(); };
    let faults = chance(1, 2);
    let writer = || -> Res {
        let mut at = 0u64;
        while (at as usize) < bits.len() {
            lock();
            let mut g = cell.lock().unwrap();
            let r = call("seek", || g.0.seek(at))?;
            ensure!(r.is_ok(), "wrong-seek", "writer's seek to {}: {:?}", at, r);
            let k = (1 + choose(6) as usize).min(bits.len() - at as usize);
            for _ in 0..k {
                if faults && chance(1, 6) { g.0.inner().ctl.arm(1 + choose(3), false, chance(1, 2), 1 + at); }
                let v = bits[at as usize];
                let r = sut(|| g.0.write_bit(v));
                g.0.inner().ctl.disarm();
                match r {
                    Ok(Ok(())) => { at += 1; }
                    Err(Caught::Fault(f)) if f.id == 1 + at => {
                        ensure!(g.0.position() == at, "cursor-moved", "failed write at {}: cursor at {}", at, g.0.position());
                        break;
                    }
                    r => return viol("panic", format!("write_bit: {:?}", r)),
                }
            }
            g.1 = at as usize;
            drop(g);
            unlock();
            yield_point();
        }
        lock();
        cell.lock().unwrap().2 = true;
        unlock();
        Ok(())
    };
    let reader = || -> Res {
        let mut at = 0u64;
        loop {
            lock();
            let mut g = cell.lock().unwrap();
            let r = call("seek", || g.0.seek(at))?;
            ensure!(r.is_ok(), "wrong-seek", "reader's seek to {}: {:?}", at, r);
            for _ in 0..1 + choose(6) {
                if at as usize >= g.1 { break; }
                let r = call("read_bit", || g.0.read_bit())?;
                ensure!(matches!(r, Ok(Some(x)) if x == bits[at as usize]), "wrong-read", "reader at {}: {:?}", at, r);
                ev("read", &[at]);
                at += 1;
            }
            let done = g.2 && at as usize == g.1;
            drop(g);
            unlock();
            if done { break; }
            yield_point();
        }
        ensure!(at as usize == bits.len(), "wrong-length", "reader saw {} of {} bits", at, bits.len());
        Ok(())
    };
    run_tasks(vec![("writer", Box::new(writer)), ("reader", Box::new(reader))])
}

// ---------------------------------------------------------------------------------------------
// C08

pub fn c08() -> Res {
    let be = chance(1, 2);
    match choose(5) {
        0 => blocks::<u8>(be),
        1 => blocks::<u16>(be),
        2 => blocks::<u32>(be),
        3 => blocks::<u64>(be),
        _ => blocks::<usize>(be),
    }
}

fn write<B: BlockType, W: io::Write>(be: bool, b: B, w: &mut W) -> io::Result<()> { if be { b.write_block::<W, BigEndian>(w) } else { b.write_block::<W, LittleEndian>(w) } }
fn read<B: BlockType, R: io::Read>(be: bool, r: &mut R) -> io::Result<B> { if be { B::read_block::<R, BigEndian>(r) } else { B::read_block::<R, LittleEndian>(r) } }
fn bytes_of(v: u64, n: usize, be: bool) -> Vec<u8> { let mut b: Vec<u8> = (0..n).map(|i| (v >> (8 * i)) as u8).collect(); if be { b.reverse() } b }

fn rough(d: &mut Dev) {
    d.short = if chance(1, 2) { 1 + choose(8) } else { 0 };
    d.eintr = if chance(1, 2) { 1 + choose(8) } else { 0 };
}

fn blocks<B: BlockType>(be: bool) -> Res {
    if chance(1, 4) { return byte_pipe::<B>(be); }
    let w = width::<B>() / 8;
    let n = 1 + choose(6 * scale(8)) as usize;
    let mut dev = Dev::default();
    rough(&mut dev);
    let mut vals: Vec<u64> = vec![];
    for _ in 0..n {
        span(|| {
            let v = as_u64(from_u64::<B>(value64()));
            let want = bytes_of(v, w, be);
            let at = dev.data.len();
            ev("write_block", &[v]);
            if chance(1, 3) {
                let k = choose(w as u64) as usize;
                let bad = if chance(1, 3) { Bad::Zero } else { Bad::Err(ErrSpec::draw_hard()) };
                dev.plan = Some(((at + k) as u64, bad, if chance(1, 2) { 1 } else { 1000 }));
                dev.fired = 0;
                let r = call("write_block to failing writer", || write::<B, _>(be, from_u64(v), &mut dev))?;
                match (&r, bad) {
                    (Err(e), Bad::Err(s)) => ensure!(s.is(e), "error-changed", "writer failed with {:?}, write_block with {:?}", s, e),
                    (Err(e), Bad::Zero) => ensure!(e.kind() == ErrorKind::WriteZero, "error-changed", "writer accepted nothing, write_block failed with {:?}", e),
                    (Ok(()), _) => return viol("error-swallowed", format!("writer failed at byte {} of {}, write_block reported success", k, w)),
                }
                ensure!(dev.data.len() == at + k && dev.data[at..] == want[..k], "not-a-prefix", "writer failed at byte {} of {:?}, holds {:?}", k, want, &dev.data[at..]);
                ensure!(dev.fired == 1, "wrote-after-error", "the failing writer was called again ({} failures)", dev.fired);
                dev.plan = None;
                dev.data.truncate(at);
            }
            let r = call("write_block", || write::<B, _>(be, from_u64(v), &mut dev))?;
            ensure!(r.is_ok(), "write-failed", "{:?}", r);
            ensure!(dev.data[at..] == want[..], "wrong-bytes", "block {:#x} be={}: wrote {:?}", v, be, &dev.data[at..]);
            vals.push(v);
            Ok(())
        })?;
    }
    let data = dev.data;
    let mut dev = Dev { data: data.clone(), ..Default::default() };
    rough(&mut dev);
    // sometimes the stream ends inside a block
    let cut = if chance(1, 2) { range(0, data.len() as u64) as usize } else { data.len() };
    dev.data.truncate(cut);
    if cut < data.len() { fault("stream cut"); }
    for i in 0..n + 2 {
        let r = span(|| -> Result<bool, Violation> {
            let at = i * w;
            let left = cut.saturating_sub(at);
            ev("read_block", &[at as u64]);
            if left > 0 && chance(1, 3) {
                let k = choose(w.min(left) as u64) as usize;
                let s = ErrSpec::draw_hard();
                dev.plan = Some(((at + k) as u64, Bad::Err(s), if chance(1, 2) { 1 } else { 1000 }));
                dev.fired = 0;
                let r = call("read_block from failing reader", || read::<B, _>(be, &mut dev))?;
                match r {
                    Err(e) => ensure!(s.is(&e), "error-changed", "reader failed with {:?}, read_block with {:?}", s, e),
                    Ok(x) => return viol("error-swallowed", format!("reader failed at byte {} of {}, read_block gave {:#x}", k, w, as_u64(x))),
                }
                ensure!(dev.pos == at + k && dev.fired == 1, "read-after-error", "reader at {} after failing at {} ({} failures)", dev.pos, at + k, dev.fired);
                dev.plan = None;
                dev.pos = at;
            }
            let r = call("read_block", || read::<B, _>(be, &mut dev))?;
            if left >= w {
                ensure!(matches!(&r, Ok(x) if as_u64(*x) == vals[i]), "wrong-block", "block {} be={}: {:?} instead of {:#x}", i, be, r, vals[i]);
                ensure!(dev.pos == at + w, "wrong-position", "reading block {} took {} bytes", i, dev.pos - at);
                Ok(true)
            } else {
                ensure!(matches!(&r, Err(e) if e.kind() == ErrorKind::UnexpectedEof), "wrong-end", "{} of {} bytes left: {:?}", left, w, r);
                ensure!(dev.pos <= cut, "wrong-position", "reader moved to {}", dev.pos);
                if left > 0 { probe("end inside a block"); }
                Ok(false)
            }
        })?;
        if !r { break; }
    }
    Ok(())
}

/// A byte pipe of bounded size between a writing and a reading task.
struct BytePipe { st: std::sync::Mutex<(std::collections::VecDeque<u8>, bool)>, cap: usize, eintr: u64 }
struct ByteEnd<'a>(&'a BytePipe);

impl<'a> io::Write for ByteEnd<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        seam(|| {
            yield_point();
            if self.0.eintr > 0 && chance(self.0.eintr, 16) { fault("interrupted"); return Err(ErrorKind::Interrupted.into()); }
            if buf.is_empty() { return Ok(0); }
            wait_until(|| self.0.st.lock().unwrap().0.len() < self.0.cap);
            let mut g = self.0.st.lock().unwrap();
            let room = (self.0.cap - g.0.len()).min(buf.len());
            if room < buf.len() { fault("short transfer"); }
            g.0.extend(&buf[..room]);
            drop(g);
            wake_all();
            Ok(room)
        })
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl<'a> io::Read for ByteEnd<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        seam(|| {
            yield_point();
            if self.0.eintr > 0 && chance(self.0.eintr, 16) { fault("interrupted"); return Err(ErrorKind::Interrupted.into()); }
            if buf.is_empty() { return Ok(0); }
            wait_until(|| { let g = self.0.st.lock().unwrap(); !g.0.is_empty() || g.1 });
            let mut g = self.0.st.lock().unwrap();
            let n = g.0.len().min(buf.len());
            if n < buf.len() { fault("short transfer"); }
            for b in buf[..n].iter_mut() { *b = g.0.pop_front().unwrap(); }
            drop(g);
            wake_all();
            Ok(n)
        })
    }
}

fn byte_pipe<B: BlockType>(be: bool) -> Res {
    let w = width::<B>() / 8;
    let n = 1 + choose(8 * scale(8)) as usize;
    let vals: Vec<u64> = (0..n).map(|_| as_u64(from_u64::<B>(value64()))).collect();
    let cut = if chance(1, 3) { choose(w as u64) as usize } else { 0 }; // bytes of a last, incomplete block
    let p = BytePipe { st: Default::default(), cap: 1 + choose(12) as usize, eintr: if chance(1, 2) { 1 + choose(6) } else { 0 } };
    set_stick(choose(4));
    let writer = || -> Res {
        for &v in &vals {
            ev("write_block", &[v]);
            let r = call("write_block", || write::<B, _>(be, from_u64(v), &mut ByteEnd(&p)))?;
            ensure!(r.is_ok(), "write-failed", "{:?}", r);
        }
        let mut g = None;
        for _ in 0..cut {
            wait_until(|| { let l = p.st.lock().unwrap(); if l.0.len() < p.cap { g = Some(l); true } else { false } });
            g.take().unwrap().0.push_back(0x55);
            wake_all();
            yield_point();
        }
        p.st.lock().unwrap().1 = true;
        wake_all();
        Ok(())
    };
    let reader = || -> Res {
        for (i, &v) in vals.iter().enumerate() {
            let r = call("read_block", || read::<B, _>(be, &mut ByteEnd(&p)))?;
            ev("read_block", &[i as u64]);
            ensure!(matches!(&r, Ok(x) if as_u64(*x) == v), "wrong-block", "block {}: {:?} instead of {:#x}", i, r, v);
        }
        let r = call("read_block", || read::<B, _>(be, &mut ByteEnd(&p)))?;
        ensure!(matches!(&r, Err(e) if e.kind() == ErrorKind::UnexpectedEof), "wrong-end", "{} bytes behind the last block: {:?}", cut, r);
        Ok(())
    };
    run_tasks(vec![("writer", Box::new(writer)), ("reader", Box::new(reader))])
}

// ---------------------------------------------------------------------------------------------
// C09

pub fn c09() -> Res {
    let be = chance(1, 2);
    match choose(5) {
        0 => log_run::<u8>(be),
        1 => log_run::<u16>(be),
        2 => log_run::<u32>(be),
        3 => log_run::<u64>(be),
        _ => log_run::<usize>(be),
    }
}

/// A file on a disk: what was synced survives a crash, the rest up to some byte.
/// An orderly shutdown leaves everything, and how many bits of it count.
struct Disk { dev: Dev, synced: usize, closed: Option<u64> }

fn log_run<B: BlockType>(be: bool) -> Res {
    let w = width::<B>() / 8;
    let one_code = if chance(1, 2) { Some(Code::draw()) } else { None };
    let mut disk = Disk { dev: Dev::default(), synced: 0, closed: None };
    rough(&mut disk.dev);
    let scale = scale(if chance(1, 16) { 64 } else { 8 });
    // the log as it should be on disk: values and the bit at which each ends
    let mut log: Vec<(Code, u64, u64)> = vec![];
    for _life in 0..1 + choose(4) {
        // --- recovery
        let mut v = BitVector::<B>::new();
        disk.dev.pos = 0;
        disk.dev.plan = None;
        let size = disk.dev.data.len();
        for i in 0.. {
            let r = call("read_block", || read::<B, _>(be, &mut disk.dev))?;
            match r {
                Ok(b) => call("push_block", || v.push_block(b))?,
                Err(e) => {
                    ensure!(e.kind() == ErrorKind::UnexpectedEof, "read-failed", "recovery: {:?}", e);
                    ensure!(i == size / w, "wrong-end", "recovery read {} blocks of {} bytes", i, size);
                    break;
                }
            }
        }
        let mut whole = v.bit_len();
        ensure!(whole == (size / w * w * 8) as u64, "wrong-length", "{} bytes recovered as {} bits", size, whole);
        if let Some(n) = disk.closed.take() {
            ensure!(size == (n as usize + w * 8 - 1) / (w * 8) * w, "wrong-length", "{} bits were closed as {} bytes", n, size);
            call("truncate", || v.truncate(n))?;
            whole = n;
            probe("orderly restart");
        }
        let mut buf = call("from", || BitBuffer::from(v))?;
        let mut keep = 0u64;
        let mut kept = 0;
        for &(c, x, end) in &log {
            let r = call("decode", || c.decode(&mut buf))?;
            log_dec9(&r);
            if end <= whole {
                ensure!(matches!(r, Ok(Some(y)) if y == x), "wrong-value", "recovered {:?} of value {} ({:?} {}), all {} bits of which survived", r, kept, c, x, end);
                ensure!(buf.position() == end, "wrong-position", "value {} ends at {} instead of {}", kept, buf.position(), end);
                keep = end;
                kept += 1;
            } else {
                let start = keep;
                if start == whole { ensure!(matches!(r, Ok(None)), "wrong-end", "nothing of value {} survived: {:?}", kept, r); }
                else {
                    ensure!(matches!(&r, Err(e) if e.kind() == ErrorKind::UnexpectedEof), "wrong-end",
                            "value {} ({:?} {}) ends at {}, {} bits survived: {:?}", kept, c, x, end, whole, r);
                    probe("value torn by a crash");
                }
                break;
            }
        }
        if kept < log.len() { probe("values lost"); }
        log.truncate(kept);
        // --- cut off the tail and make the file whole blocks again
        let mut v = call("into_inner", || buf.into_inner())?;
        call("truncate", || v.truncate(keep))?;
        let (l, bl) = call("lengths", || (v.bit_len(), v.block_len()))?;
        ensure!(l == keep && bl == (keep as usize + w * 8 - 1) / (w * 8), "wrong-length", "truncated to {} bits in {} blocks instead of {}", l, bl, keep);
        // as if the rest had never been written
        let mut fresh = BitVector::<B>::new();
        for i in 0..keep { let b = call("get_bit", || v.get_bit(i))?; fresh.push_bit(b); }
        let eq = call("==", || v == fresh)?;
        ensure!(eq, "wrong-contents", "a log cut to {} bits is unlike one that never held more", keep);
        let full = (keep as usize / (w * 8)) * w;
        disk.dev.data.truncate(full);
        disk.synced = disk.synced.min(full);
        let mut written = full / w; // blocks in the file
        let mut buf = call("append", || BitBuffer::append(v))?;
        ensure!(buf.position() == keep, "wrong-position", "append at {} instead of {}", buf.position(), keep);
        ev("recovered", &[kept as u64, keep]);
        // --- work
        for _ in 0..choose(12 * scale) {
            let done = span(|| -> Result<bool, Violation> {
                match weighted(&[6, 3, 2, 1]) {
                    0 => {
                        let c = one_code.unwrap_or_else(Code::draw);
                        let x = c.draw_value();
                        let r = call("encode", || c.encode(&mut buf, x))?;
                        ensure!(r.is_ok(), "write-failed", "{:?} of {}: {:?}", c, x, r);
                        log.push((c, x, buf.position()));
                        ev("appended", &[x, buf.position()]);
                    }
                    1 => {
                        // flush complete blocks
                        let target = (buf.position() as usize) / (w * 8);
                        while written < target {
                            let b = call("get_block", || buf.get_block(written))?;
                            let at = disk.dev.data.len();
                            let bad = if chance(1, 8) {
                                let s = ErrSpec::draw_hard();
                                disk.dev.plan = Some((at as u64 + choose(w as u64), Bad::Err(s), 1));
                                Some(s)
                            } else { None };
                            let r = call("write_block", || write::<B, _>(be, b, &mut disk.dev))?;
                            disk.dev.plan = None;
                            match (r, bad) {
                                (Ok(()), None) => written += 1,
                                (Err(e), Some(s)) => {
                                    ensure!(s.is(&e), "error-changed", "disk failed with {:?}, write_block with {:?}", s, e);
                                    disk.dev.data.truncate(at); // back to the block boundary, try again
                                    if chance(1, 2) { break; }
                                }
                                (r, bad) => return viol("error-swallowed", format!("disk {:?}, write_block {:?}", bad, r)),
                            }
                        }
                        ev("flushed", &[written as u64]);
                    }
                    2 => { disk.synced = disk.dev.data.len(); ev("synced", &[disk.synced as u64]); }
                    _ => {
                        // look something up in between
                        let pos = buf.position();
                        if log.is_empty() { return Ok(false); }
                        let i = choose(log.len() as u64) as usize;
                        let start = if i == 0 { 0 } else { log[i - 1].2 };
                        let r = call("seek", || buf.seek(start))?;
                        ensure!(r.is_ok(), "wrong-seek", "seek to {}: {:?}", start, r);
                        let r = call("decode", || log[i].0.decode(&mut buf))?;
                        ensure!(matches!(r, Ok(Some(y)) if y == log[i].1), "wrong-value", "reading value {} back: {:?}", i, r);
                        let r = call("seek", || buf.seek(pos))?;
                        ensure!(r.is_ok(), "wrong-seek", "seek to {}: {:?}", pos, r);
                    }
                }
                Ok(false)
            })?;
            if done { break; }
        }
        if chance(1, 5) {
            // --- shutdown: what is left is written with the last block as it is
            let n = buf.bit_len();
            let v = call("into_inner", || buf.into_inner())?;
            let bl = call("block_len", || v.block_len())?;
            for i in written..bl {
                let b = call("get_block", || v.get_block(i))?;
                let r = call("write_block", || write::<B, _>(be, b, &mut disk.dev))?;
                ensure!(r.is_ok(), "write-failed", "closing: {:?}", r);
            }
            disk.synced = disk.dev.data.len();
            disk.closed = Some(n);
            ev("closed", &[n, disk.synced as u64]);
            rough(&mut disk.dev);
            continue;
        }
        // --- crash: the process is gone, of the unsynced bytes a prefix remains
        fault("crash");
        drop(buf);
        let lost = disk.dev.data.len() - disk.synced;
        let stay = range(0, lost as u64) as usize;
        if stay < lost { fault("unsynced bytes lost"); if (disk.synced + stay) % w != 0 { fault("block torn by the crash"); } }
        disk.dev.data.truncate(disk.synced + stay);
        // what was synced must be all there is to account for: values beyond it may be gone
        ev("crashed", &[disk.dev.data.len() as u64, disk.synced as u64]);
        rough(&mut disk.dev);
    }
    Ok(())
}

fn log_dec9(r: &io::Result<Option<u64>>) {
    match r { Ok(Some(v)) => ev("recovered value", &[*v]), Ok(None) => ev("clean end", &[]), Err(_) => ev("torn value", &[]) }
}
