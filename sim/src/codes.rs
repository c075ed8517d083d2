//! The universal codes under test, and independent reference definitions of them.
use rt::*;
use std::io;
use succinct::coding::{self as lib, UniversalCode, Elias, Lift0, Fibonacci, COMMA, DELTA, GAMMA};
use succinct::stream::{BitRead, BitWrite};

/// A code of the user's own: 4-bit groups, least significant first, each followed by a "more" bit.
pub struct NibbleCode;

impl UniversalCode for NibbleCode {
    fn encode<W: BitWrite>(&self, sink: &mut W, mut value: u64) -> io::Result<()> {
        loop {
            sink.write_int(4, value & 15)?;
            value >>= 4;
            sink.write_bit(value != 0)?;
            if value == 0 { return Ok(()); }
        }
    }
    fn decode<R: BitRead>(&self, source: &mut R) -> io::Result<Option<u64>> {
        let mut v = 0u64;
        let mut shift = 0;
        loop {
            let g = match source.read_int::<u64>(4)? {
                Some(g) => g,
                None if shift == 0 => return Ok(None),
                None => return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "nibbles")),
            };
            if shift >= 64 { return Err(io::Error::new(io::ErrorKind::InvalidData, "nibbles")); }
            v |= g << shift;
            shift += 4;
            match source.read_bit()? {
                Some(true) => {}
                Some(false) => return Ok(Some(v)),
                None => return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "nibbles")),
            }
        }
    }
}

/// A code under test. The first argument of nested ones names the inner code.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Code {
    Gamma, Delta, Omega, Fib, Comma(u8), Unary, Nibbles,
    L0Unary, L0Gamma, L0Delta, L0Omega, L0Fib, L0Comma(u8), L0L0Gamma, L0Nibbles,
    ElComma(u8), ElL0Fib, ElL0Omega, ElL0Delta, ElNibbles, L0ElComma(u8),
}
use Code::*;

macro_rules! dispatch {
    ($code:expr, $c:ident => $e:expr) => {
        match $code {
            Gamma => { let $c = &GAMMA; $e }
            Delta => { let $c = &DELTA; $e }
            Omega => { let $c = &lib::Omega; $e }
            Fib => { let $c = &Fibonacci; $e }
            Comma(2) => { let $c = &COMMA; $e }
            Comma(n) => { let $c = &lib::Comma(n); $e }
            Unary => { let $c = &lib::Unary; $e }
            Nibbles => { let $c = &NibbleCode; $e }
            L0Unary => { let $c = &Lift0(lib::Unary); $e }
            L0Gamma => { let $c = &Lift0(GAMMA); $e }
            L0Delta => { let $c = &Lift0(DELTA); $e }
            L0Omega => { let $c = &Lift0(lib::Omega); $e }
            L0Fib => { let $c = &Lift0(Fibonacci); $e }
            L0Comma(n) => { let $c = &Lift0(lib::Comma(n)); $e }
            L0L0Gamma => { let $c = &Lift0(Lift0(GAMMA)); $e }
            L0Nibbles => { let $c = &Lift0(NibbleCode); $e }
            ElComma(n) => { let $c = &Elias(lib::Comma(n)); $e }
            ElL0Fib => { let $c = &Elias(Lift0(Fibonacci)); $e }
            ElL0Omega => { let $c = &Elias(Lift0(lib::Omega)); $e }
            ElL0Delta => { let $c = &Elias(Lift0(DELTA)); $e }
            ElNibbles => { let $c = &Elias(NibbleCode); $e }
            L0ElComma(n) => { let $c = &Lift0(Elias(lib::Comma(n))); $e }
        }
    };
}

impl Code {
    /// The library's encoder.
    pub fn encode<W: BitWrite>(self, w: &mut W, v: u64) -> io::Result<()> { dispatch!(self, c => c.encode(w, v)) }
    /// The library's decoder.
    pub fn decode<R: BitRead>(self, r: &mut R) -> io::Result<Option<u64>> { dispatch!(self, c => c.decode(r)) }

    pub fn draw() -> Code {
        let n = || range(2, if chance(1, 4) { 63 } else { 9 }) as u8;
        match weighted(&[4, 4, 4, 5, 4, 3, 1, 2, 2, 2, 2, 2, 2, 1, 1, 2, 2, 2, 2, 1, 1]) {
            0 => Gamma, 1 => Delta, 2 => Omega, 3 => Fib, 4 => Comma(if chance(1, 2) { n() } else { 2 }), 5 => Unary, 6 => Nibbles,
            7 => L0Unary, 8 => L0Gamma, 9 => L0Delta, 10 => L0Omega, 11 => L0Fib, 12 => L0Comma(n()), 13 => L0L0Gamma,
            14 => L0Nibbles, 15 => ElComma(n()), 16 => ElL0Fib, 17 => ElL0Omega, 18 => ElL0Delta, 19 => ElNibbles,
            _ => L0ElComma(n()),
        }
    }

    /// A value of the code's domain.
    pub fn draw_value(self) -> u64 {
        let (lo, hi) = self.domain();
        match self {
            Unary | L0Unary => lo + skewed(if chance(1, 8) { if chance(1, 16) { if chance(1, 6) { 100_000 } else { 10_000 } } else { 700 } } else { 40 }),
            _ => {
                let v = if chance(1, 4) { self.shaped_value() } else { value64() };
                v.clamp(lo, hi)
            }
        }
    }

    /// A value whose codeword has a special shape: a single Fibonacci term or a few far apart, or as many as
    /// there can be; digits that are zero, one or the largest; a step up or down from those.
    fn shaped_value(self) -> u64 {
        pick(0, u64::MAX, |r| {
            let v = match self {
                Fib | L0Fib | ElL0Fib => {
                    let mut fibs = vec![1u64, 2];
                    while fibs.len() < 91 { fibs.push(fibs[fibs.len() - 1] + fibs[fibs.len() - 2]); }
                    let (mut k, gap) = (r.below(91), r.below(4));
                    let mut v = 0u64;
                    loop {
                        v = v.saturating_add(fibs[k as usize]);
                        let g = match gap { 0 => 91, 1 => 2, 2 => 2 + r.below(3), _ => 2 + r.below(60) };
                        if k < g { break v; }
                        k -= g;
                    }
                }
                Comma(n) | L0Comma(n) => {
                    let base = (1u128 << n) - 1;
                    let (digits, style) = (1 + r.below(64 / n as u64 + 2), r.below(4));
                    let mut v = 0u128;
                    for i in 0 .. digits {
                        let d = match (style, r.below(4)) {
                            (0, _) => (i == 0) as u128,
                            (1, _) => base - 1,
                            (2, 0) | (3, 0) => 1,
                            (2, _) => 0,
                            (_, 1) => base - 1,
                            (_, 2) => 0,
                            _ => r.next() as u128 % base,
                        };
                        let next = v * base + d;
                        if next > u64::MAX as u128 { break; }
                        v = next;
                    }
                    v as u64
                }
                _ => {
                    let b = r.below(64);
                    let v = (1u64 << b) | (1u64 << r.below(b + 1)) | (1u64 << r.below(b + 1));
                    match r.below(4) {
                        0 => v,
                        1 => v | (v - 1),
                        2 => (v | (v - 1)) & !(1u64 << r.below(b + 1)),
                        _ => (r.next() & 0xff) * (u64::MAX / 255) >> (63 - b),
                    }
                }
            };
            match r.below(4) { 0 => v.saturating_add(1), 1 => v.saturating_sub(1), _ => v }
        })
    }

    /// Smallest and largest value the code handles.
    pub fn domain(self) -> (u64, u64) {
        match self {
            Gamma | Delta | Omega | ElComma(_) | ElL0Fib | ElL0Omega | ElL0Delta | ElNibbles => (1, u64::MAX),
            Fib => (1, FIB_MAX),
            L0Fib => (0, FIB_MAX - 1),
            L0L0Gamma => (0, u64::MAX - 2),
            L0Unary | L0Gamma | L0Delta | L0Omega | L0Comma(_) | L0Nibbles | L0ElComma(_) => (0, u64::MAX - 1),
            Comma(_) | Unary | Nibbles => (0, u64::MAX),
        }
    }

    pub fn tag(self) -> u64 {
        match self {
            Gamma => 0, Delta => 1, Omega => 2, Fib => 3, Comma(n) => 100 + n as u64, Unary => 5, Nibbles => 6, L0Unary => 7,
            L0Gamma => 8, L0Delta => 9, L0Omega => 10, L0Fib => 11, L0Comma(n) => 200 + n as u64, L0L0Gamma => 13, L0Nibbles => 14,
            ElComma(n) => 300 + n as u64, ElL0Fib => 16, ElL0Omega => 17, ElL0Delta => 18, ElNibbles => 19, L0ElComma(n) => 400 + n as u64,
        }
    }
}

/// The largest value below the 93rd Fibonacci number (counting 1, 2, 3, 5, ...: the largest that fits).
pub const FIB_MAX: u64 = 12200160415121876738 - 1;

// ---------------------------------------------------------------------------------------------
// reference definitions

/// What the definition of a code says about the bits at a position.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Dec {
    /// a codeword for this number, this many bits long
    Value(Num, u64),
    /// no bits at all
    End,
    /// the bits stop inside a codeword; `over`: what there is already exceeds every 64-bit number
    Cut { over: bool },
}

/// A number: negative ones and ones far beyond 64 bits are only known to be so.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Num { Neg, N(u128), Huge }

const BIG: u128 = 1 << 100;
fn num(v: u128) -> Num { if v >= BIG { Num::Huge } else { Num::N(v) } }

/// The bits from `pos` on.
pub struct Bits<'a> { pub bits: &'a [bool], pub pos: usize }
impl<'a> Bits<'a> {
    fn next(&mut self) -> Option<bool> {
        let b = self.bits.get(self.pos).copied();
        if b.is_some() { self.pos += 1; }
        b
    }
    fn left(&self) -> u128 { (self.bits.len() - self.pos) as u128 }
}

#[derive(Clone, Debug)]
enum Def { Unary, Nibbles, Omega, Fib, Comma(u32), Elias(Box<Def>), Lift(Box<Def>) }

fn def(c: Code) -> Def {
    let el = |d| Def::Elias(Box::new(d));
    let l0 = |d| Def::Lift(Box::new(d));
    match c {
        Unary => Def::Unary, Nibbles => Def::Nibbles, Omega => Def::Omega, Fib => Def::Fib, Comma(n) => Def::Comma(n as u32),
        Gamma => el(Def::Unary),
        Delta => el(l0(def(Gamma))),
        L0Unary => l0(Def::Unary), L0Gamma => l0(def(Gamma)), L0Delta => l0(def(Delta)), L0Omega => l0(Def::Omega), L0Fib => l0(Def::Fib),
        L0Comma(n) => l0(Def::Comma(n as u32)), L0L0Gamma => l0(l0(def(Gamma))), L0Nibbles => l0(Def::Nibbles),
        ElComma(n) => el(Def::Comma(n as u32)), ElL0Fib => el(l0(Def::Fib)), ElL0Omega => el(l0(Def::Omega)), ElL0Delta => el(l0(def(Delta))),
        ElNibbles => el(Def::Nibbles), L0ElComma(n) => l0(el(Def::Comma(n as u32))),
    }
}

/// Decode one codeword by definition.
pub fn reference_decode(c: Code, bits: &[bool], pos: usize) -> Dec {
    let mut b = Bits { bits, pos };
    if b.left() == 0 { return Dec::End; }
    match walk(&def(c), &mut b) {
        Ok(n) => Dec::Value(n, (b.pos - pos) as u64),
        Err(over) => Dec::Cut { over },
    }
}

fn over(n: Num) -> bool { match n { Num::N(v) => v > u64::MAX as u128, Num::Neg => true, Num::Huge => true } }

/// `Err(over)`: cut inside the codeword.
fn walk(d: &Def, b: &mut Bits) -> Result<Num, bool> {
    match d {
        Def::Unary => {
            let mut n = 0u128;
            loop { match b.next() { Some(true) => return Ok(num(n)), Some(false) => n += 1, None => return Err(false) } }
        }
        Def::Nibbles => {
            let (mut v, mut sh, mut huge) = (0u128, 0u32, false);
            loop {
                if sh >= 64 { huge = true; } // a 17th group is refused as it starts
                let mut g = 0u128;
                for k in 0..4 { match b.next() { Some(x) => g |= (x as u128) << k, None => return Err(huge) } }
                if !huge { v |= g << sh; }
                sh += 4;
                match b.next() { Some(true) => {} Some(false) => return Ok(if huge { Num::Huge } else { num(v) }), None => return Err(huge) }
            }
        }
        Def::Omega => {
            let mut n = Num::N(1);
            loop {
                match b.next() { Some(false) => return Ok(n), Some(true) => {} None => return Err(over(n)) }
                let len = match n { Num::N(v) => v, _ => return Err(true) };
                if len > b.left() { return Err(len >= 64); }
                // a group announced by a leading one: that bit is the most significant of len + 1
                let mut v = 1u128;
                let mut huge = false;
                for _ in 0..len {
                    let x = b.next().unwrap() as u128;
                    if v >= BIG { huge = true; } else { v = v << 1 | x; }
                }
                n = if huge { Num::Huge } else { num(v) };
            }
        }
        Def::Fib => {
            let (mut f1, mut f2) = (1u128, 2u128); // 1, 2, 3, 5, 8, ...
            let (mut v, mut prev, mut huge) = (0u128, false, false);
            let mut count = 0u32;
            loop {
                match b.next() {
                    // once the bits go beyond the last Fibonacci number below 2^64 the value must be larger
                    None => return Err(huge || v > u64::MAX as u128 || count >= 92),
                    Some(true) if prev => return Ok(if huge { Num::Huge } else { num(v) }),
                    Some(x) => {
                        count += 1;
                        if x { if f1 >= BIG { huge = true; } else { v += f1; } }
                        if f1 < BIG { let f3 = f1 + f2; f1 = f2; f2 = f3; }
                        prev = x;
                    }
                }
            }
        }
        Def::Comma(n) => {
            let base = (1u128 << n) - 1;
            let (mut v, mut huge) = (0u128, false);
            loop {
                let mut g = 0u128;
                for k in 0..*n { match b.next() { Some(x) => g |= (x as u128) << k, None => return Err(huge || v > u64::MAX as u128) } }
                if g == base { return Ok(if huge { Num::Huge } else { num(v) }); }
                match v.checked_mul(base).and_then(|x| x.checked_add(g)) { Some(x) if x < BIG => v = x, _ => huge = true }
            }
        }
        Def::Elias(h) => {
            let len = match walk(h, b)? { Num::N(v) => v, Num::Huge => return Err(true), Num::Neg => return Ok(Num::Neg) };
            if len > b.left() { return Err(len > 63); }
            let mut v = 0u128;
            for k in 0..len { let x = b.next().unwrap() as u128; if k < 100 { v |= x << k; } }
            Ok(if len >= 100 { Num::Huge } else { num(v | 1 << len) })
        }
        Def::Lift(i) => Ok(match walk(i, b)? {
            Num::N(0) => Num::Neg,
            // the inner code cannot deliver 2^64, so neither can the lifted one
            Num::N(v) => if v > u64::MAX as u128 { Num::Huge } else { Num::N(v - 1) },
            o => o,
        }),
    }
}

/// Encode by definition, also numbers beyond 64 bits: used to make media worth damaging.
pub fn reference_encode(c: Code, v: u128, out: &mut Vec<bool>) { put(&def(c), v, out) }

fn put(d: &Def, v: u128, o: &mut Vec<bool>) {
    match d {
        Def::Unary => { for _ in 0..v.min(200) { o.push(false); } o.push(true); }
        Def::Nibbles => {
            let mut v = v;
            loop {
                for k in 0..4 { o.push(v >> k & 1 == 1); }
                v >>= 4;
                o.push(v != 0);
                if v == 0 { return; }
            }
        }
        Def::Omega => {
            let mut groups = vec![];
            let mut v = v;
            while v > 1 { groups.push(v); v = 127 - v.leading_zeros() as u128; }
            while let Some(g) = groups.pop() { for k in (0..128 - g.leading_zeros()).rev() { o.push(g >> k & 1 == 1); } }
            o.push(false);
        }
        Def::Fib => {
            if v == 0 { return; }
            let mut f = vec![1u128, 2];
            while *f.last().unwrap() <= v { let n = f[f.len() - 1] + f[f.len() - 2]; f.push(n); }
            let mut v = v;
            let mut bits = vec![];
            for &x in f.iter().rev() {
                if x <= v { v -= x; bits.push(true); } else if !bits.is_empty() { bits.push(false); }
            }
            bits.reverse();
            o.extend(bits);
            o.push(true);
        }
        Def::Comma(n) => {
            let base = (1u128 << n) - 1;
            let mut ds = vec![];
            let mut v = v;
            while v > 0 { ds.push(v % base); v /= base; }
            ds.reverse();
            ds.push(base);
            for d in ds { for k in 0..*n { o.push(d >> k & 1 == 1); } }
        }
        Def::Elias(h) => {
            if v == 0 { return; }
            let n = 127 - v.leading_zeros();
            put(h, n as u128, o);
            for k in 0..n { o.push(v >> k & 1 == 1); }
        }
        Def::Lift(i) => put(i, v + 1, o),
    }
}
