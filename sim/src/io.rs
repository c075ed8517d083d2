//! Simulated bit and byte streams: sinks, sources and pipes that fail, end, stall and interleave.
use rt::*;
use std::collections::VecDeque;
use std::fmt;
use std::io::{self, ErrorKind};
use std::sync::Mutex;
use succinct::stream::{BitRead, BitWrite};

// ---------------------------------------------------------------------------------------------
// errors with an identity

#[derive(Debug, PartialEq, Eq)]
pub struct SimErr(pub u64);
impl fmt::Display for SimErr { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "simulated error {}", self.0) } }
impl std::error::Error for SimErr {}

const KINDS: [ErrorKind; 12] = [
    ErrorKind::Other, ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::InvalidData,
    ErrorKind::WriteZero, ErrorKind::BrokenPipe, ErrorKind::TimedOut, ErrorKind::NotFound, ErrorKind::PermissionDenied,
    ErrorKind::InvalidInput, ErrorKind::ConnectionReset,
];
const OS: [i32; 4] = [5, 28, 4, 11];

/// An error to inject, recognisable when it comes back.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ErrSpec { Custom(usize, u64), Os(i32) }

impl ErrSpec {
    pub fn draw() -> ErrSpec {
        if chance(1, 4) { ErrSpec::Os(OS[choose(4) as usize]) } else { ErrSpec::Custom(choose(KINDS.len() as u64) as usize, 1000 + choose(1000)) }
    }
    /// One that an `io::Read`/`io::Write` caller must not retry.
    pub fn draw_hard() -> ErrSpec {
        match ErrSpec::draw() {
            ErrSpec::Custom(1, id) => ErrSpec::Custom(0, id),
            ErrSpec::Os(4) => ErrSpec::Os(5),
            e => e,
        }
    }
    pub fn make(self) -> io::Error {
        match self { ErrSpec::Custom(k, id) => io::Error::new(KINDS[k], SimErr(id)), ErrSpec::Os(c) => io::Error::from_raw_os_error(c) }
    }
    pub fn is(self, e: &io::Error) -> bool {
        match self {
            ErrSpec::Custom(k, id) => e.kind() == KINDS[k] && e.get_ref().and_then(|x| x.downcast_ref::<SimErr>()) == Some(&SimErr(id)),
            ErrSpec::Os(c) => e.raw_os_error() == Some(c),
        }
    }
}

/// Whether an error came from the simulator at all.
pub fn injected(e: &io::Error) -> bool { e.raw_os_error().is_some() || e.get_ref().map(|x| x.is::<SimErr>()).unwrap_or(false) }

// ---------------------------------------------------------------------------------------------
// bit sink and source for one task

/// A failure planned at the `at`-th bit (counting every bit ever accepted), `times` times.
#[derive(Clone, Copy, Debug)]
pub struct Plan { pub at: u64, pub err: ErrSpec, pub times: u64 }

#[derive(Default)]
pub struct SimSink { pub bits: Vec<bool>, pub plan: Option<Plan>, pub calls: u64, pub fired: u64, pub after_fire: u64 }

impl BitWrite for SimSink {
    fn write_bit(&mut self, b: bool) -> io::Result<()> {
        seam(|| {
            step();
            self.calls += 1;
            if self.fired > 0 { self.after_fire += 1; }
            if let Some(p) = &mut self.plan {
                if self.bits.len() as u64 == p.at && p.times > 0 {
                    p.times -= 1;
                    self.fired += 1;
                    fault("sink error");
                    return Err(p.err.make());
                }
            }
            self.bits.push(b);
            Ok(())
        })
    }
}

#[derive(Default)]
pub struct SimSource { pub bits: Vec<bool>, pub pos: usize, pub plan: Option<Plan>, pub calls: u64, pub fired: u64, pub after_fire: u64 }

impl SimSource { pub fn new(bits: Vec<bool>) -> Self { SimSource { bits, ..Default::default() } } }

impl BitRead for SimSource {
    fn read_bit(&mut self) -> io::Result<Option<bool>> {
        seam(|| {
            step();
            self.calls += 1;
            if self.fired > 0 { self.after_fire += 1; }
            if let Some(p) = &mut self.plan {
                if self.pos as u64 == p.at && p.times > 0 {
                    p.times -= 1;
                    self.fired += 1;
                    fault("source error");
                    return Err(p.err.make());
                }
            }
            let b = self.bits.get(self.pos).copied();
            if b.is_some() { self.pos += 1; }
            Ok(b)
        })
    }
}

// ---------------------------------------------------------------------------------------------
// a bounded bit pipe between tasks

struct PipeState { q: VecDeque<(u64, bool)>, last: u64, closed: bool, written: u64, taken: u64 }

pub struct Pipe { st: Mutex<PipeState>, cap: usize, latency: u64, jitter: u64 }

impl Pipe {
    pub fn new(cap: usize, latency: u64, jitter: u64) -> Pipe {
        Pipe { st: Mutex::new(PipeState { q: VecDeque::new(), last: 0, closed: false, written: 0, taken: 0 }), cap, latency, jitter }
    }
    fn st(&self) -> std::sync::MutexGuard<'_, PipeState> { match self.st.lock() { Ok(g) => g, Err(p) => p.into_inner() } }
    pub fn put(&self, b: bool) {
        seam(|| {
            yield_point();
            let mut waited = false;
            wait_until(|| { let full = self.st().q.len() >= self.cap; if full && !waited { waited = true; fault("backpressure"); } !full });
            let j = if self.jitter > 0 && chance(1, 8) { fault("delay"); choose(self.jitter + 1) } else { 0 };
            let now = now();
            let mut s = self.st();
            let at = (now + self.latency + j).max(s.last);
            s.last = at;
            s.q.push_back((at, b));
            s.written += 1;
            drop(s);
            wake_all();
        })
    }
    pub fn take(&self) -> Option<bool> {
        seam(|| {
            yield_point();
            loop {
                wait_until(|| { let s = self.st(); !s.q.is_empty() || s.closed });
                let head = self.st().q.front().copied();
                match head {
                    None => return None,
                    Some((at, _)) if at > now() => { sleep(at - now()); }
                    Some(_) => {
                        let b = { let mut s = self.st(); s.taken += 1; s.q.pop_front() };
                        wake_all();
                        return b.map(|x| x.1);
                    }
                }
            }
        })
    }
    pub fn close(&self) { seam(|| { self.st().closed = true; wake_all(); yield_point(); }) }
    /// Whether a bit could be taken without waiting.
    pub fn ready(&self) -> bool { let t = now(); self.st().q.front().map(|h| h.0 <= t).unwrap_or(false) }
    pub fn written(&self) -> u64 { self.st().written }
    pub fn taken(&self) -> u64 { self.st().taken }
}

/// The two ends as bit streams.
pub struct PipeEnd<'a>(pub &'a Pipe);

impl<'a> BitWrite for PipeEnd<'a> {
    fn write_bit(&mut self, b: bool) -> io::Result<()> { self.0.put(b); Ok(()) }
}
impl<'a> BitRead for PipeEnd<'a> {
    fn read_bit(&mut self) -> io::Result<Option<bool>> { Ok(self.0.take()) }
}

/// The same, with integer transfers of its own, as a user's stream may have.
pub struct BulkEnd<'a>(pub &'a Pipe);

fn low<N: num_traits::PrimInt>(v: N, k: usize) -> bool { (v.unsigned_shr(k as u32)) & N::one() == N::one() }

impl<'a> BitWrite for BulkEnd<'a> {
    fn write_bit(&mut self, b: bool) -> io::Result<()> { self.0.put(b); Ok(()) }
    fn write_int<N: num_traits::PrimInt>(&mut self, nbits: usize, value: N) -> io::Result<()> {
        for k in 0..nbits { self.0.put(low(value, k)); }
        Ok(())
    }
    fn write_int_be<N: num_traits::PrimInt>(&mut self, nbits: usize, value: N) -> io::Result<()> {
        for k in (0..nbits).rev() { self.0.put(low(value, k)); }
        Ok(())
    }
}
impl<'a> BitRead for BulkEnd<'a> {
    fn read_bit(&mut self) -> io::Result<Option<bool>> { Ok(self.0.take()) }
    fn read_int<N: num_traits::PrimInt>(&mut self, nbits: usize) -> io::Result<Option<N>> {
        let mut v = N::zero();
        for k in 0..nbits {
            match self.0.take() {
                Some(b) => if b { v = v | N::one().unsigned_shl(k as u32) },
                None => return if k == 0 { Ok(None) } else { Err(ErrorKind::UnexpectedEof.into()) },
            }
        }
        Ok(Some(v))
    }
}

// ---------------------------------------------------------------------------------------------
// bytes

/// A simulated device for bytes: transfers are split, interrupted and failed by plan.
#[derive(Default)]
pub struct Dev {
    pub data: Vec<u8>,
    pub pos: usize,
    /// transfer limits per call are drawn up to this (0: whole)
    pub short: u64,
    /// chance in 16 of an interruption per call
    pub eintr: u64,
    /// (byte position, what happens there, times)
    pub plan: Option<(u64, Bad, u64)>,
    pub fired: u64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad { Err(ErrSpec), Zero }

impl Dev {
    fn amount(&mut self, want: usize) -> usize {
        let n = if self.short > 0 { (1 + choose(self.short)) as usize } else { want };
        if n < want { fault("short transfer"); }
        n.min(want)
    }
    /// `Ok(n)`: transfer at most n; otherwise what to report.
    fn gate(&mut self, at: u64, want: usize) -> Result<usize, io::Result<usize>> {
        step();
        if want == 0 { return Err(Ok(0)); }
        if self.eintr > 0 && chance(self.eintr, 16) { fault("interrupted"); return Err(Err(ErrorKind::Interrupted.into())); }
        let mut n = self.amount(want);
        if let Some((p, bad, times)) = &mut self.plan {
            if *times > 0 {
                if at == *p {
                    *times -= 1;
                    self.fired += 1;
                    return match bad {
                        Bad::Err(e) => { fault("device error"); Err(Err(e.make())) }
                        Bad::Zero => { fault("zero transfer"); Err(Ok(0)) }
                    };
                }
                if at < *p { n = n.min((*p - at) as usize); }
            }
        }
        Ok(n)
    }
}

impl io::Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        seam(|| {
            let at = self.pos as u64;
            match self.gate(at, buf.len()) {
                Err(r) => r,
                Ok(n) => {
                    let n = n.min(self.data.len() - self.pos);
                    buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                    self.pos += n;
                    Ok(n)
                }
            }
        })
    }
}

impl io::Write for Dev {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        seam(|| {
            let at = self.data.len() as u64;
            match self.gate(at, buf.len()) {
                Err(r) => r,
                Ok(n) => { self.data.extend_from_slice(&buf[..n]); Ok(n) }
            }
        })
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// Call the library and turn a panic into a violation.
pub fn call<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
    match sut(f) {
        Ok(v) => Ok(v),
        Err(c) => viol("panic", format!("{}: {:?}", what, c)),
    }
}
