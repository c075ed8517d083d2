//! C01-C06: codes and integers over simulated bit streams.
use crate::codes::*;
use crate::io::*;
use rt::*;
use std::collections::VecDeque;
use std::io::{self, ErrorKind};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use succinct::stream::{BitBuffer, BitRead, BitWrite};
use succinct::BitVector;

fn kind_no(e: &io::Error) -> u64 { e.kind() as u64 }

/// Log a decode result.
fn log_dec(r: &io::Result<Option<u64>>) {
    match r {
        Ok(Some(v)) => ev("decoded", &[*v]),
        Ok(None) => ev("clean end", &[]),
        Err(e) => { ev("decode error", &[kind_no(e)]); let s = e.to_string(); note(move || s); }
    }
}

fn draw_message() -> (Code, u64) {
    let c = Code::draw();
    (c, c.draw_value())
}

/// How the codes of one stream are chosen: mostly one family per run, sometimes all mixed.
fn draw_messages(max: u64) -> Vec<(Code, u64)> {
    let n = 1 + choose(max);
    let fixed = if chance(1, 3) { Some(Code::draw()) } else { None };
    (0..n).map(|_| span(|| match fixed { Some(c) => (c, c.draw_value()), None => draw_message() })).collect()
}

fn encode_all(msgs: &[(Code, u64)]) -> Result<(Vec<bool>, Vec<usize>), Violation> {
    let mut sink = SimSink::default();
    let mut ends = vec![];
    for &(c, v) in msgs {
        let r = call("encode", || c.encode(&mut sink, v))?;
        if let Err(e) = r { return viol("encode-failed", format!("{:?} of {}: {}", c, v, e)); }
        ends.push(sink.bits.len());
    }
    Ok((sink.bits, ends))
}

// ---------------------------------------------------------------------------------------------
// C01

pub fn c01() -> Res {
    if crate::far::patient(20_000) { return crate::far::long_message(true); }
    if crate::far::lengthy(400) { return crate::far::long_message(false); }
    match weighted(&[5, 2, 2]) { 0 => c01_pipes(), 1 => c01_shared_queue(), _ => c01_shared_buffer() }
}

struct Conn {
    a: Pipe,
    b: Pipe,
    relay: u64,
    window: u64,
    msgs: Vec<(Code, u64)>,
    ends: Mutex<Vec<u64>>,
    acked: AtomicU64,
    bulk_w: bool,
    bulk_r: bool,
    pre: u64,
}

fn c01_pipes() -> Res {
    let n = if chance(1, 4) { 2 } else { 1 };
    set_stick([2, 8, 30, 0][choose(4) as usize]);
    let conns: Vec<Conn> = (0..n).map(|_| {
        let pipe = || Pipe::new(1 + skewed(100) as usize, skewed(8), if chance(1, 2) { skewed(20) } else { 0 });
        Conn {
            a: pipe(), b: pipe(), relay: weighted(&[3, 1, 1, 1]) as u64, window: skewed(4), msgs: draw_messages(6),
            ends: Mutex::new(vec![]), acked: AtomicU64::new(0), bulk_w: chance(1, 4), bulk_r: chance(1, 4),
            pre: if cov::enabled() && chance(1, 3) { 1 + skewed(400) } else { 0 },
        }
    }).collect();
    for (i, c) in conns.iter().enumerate() { ev("conn", &[i as u64, c.relay, c.window, c.msgs.len() as u64]); }
    let mut tasks: Vec<(&'static str, Body)> = vec![];
    for c in &conns {
        tasks.push(("producer", Box::new(move || producer(c))));
        if c.relay > 0 { tasks.push(("relay", Box::new(move || relay(c)))); }
        tasks.push(("consumer", Box::new(move || consumer(c))));
    }
    run_tasks(tasks)
}

fn producer(c: &Conn) -> Res {
    for (i, &(code, v)) in c.msgs.iter().enumerate() {
        wait_until(|| i as u64 <= c.acked.load(SeqCst) + c.window);
        ev("encode", &[code.tag(), v]);
        arm_preemption(c.pre);
        let r = call("encode", || if c.bulk_w { code.encode(&mut BulkEnd(&c.a), v) } else { code.encode(&mut PipeEnd(&c.a), v) })?;
        arm_preemption(0);
        if let Err(e) = r { return viol("encode-failed", format!("{:?} of {}: {}", code, v, e)); }
        c.ends.lock().unwrap().push(c.a.written());
        wake_all();
    }
    c.a.close();
    Ok(())
}

/// Carries bits from one pipe to the other, in batches, through the library's own streams.
fn relay(c: &Conn) -> Res {
    let (mut src, mut dst) = (PipeEnd(&c.a), PipeEnd(&c.b));
    let mut buf = BitBuffer::<BitVector<u16>>::new();
    let mut dq: VecDeque<bool> = VecDeque::new();
    loop {
        let batch = if c.relay == 3 { 1 } else { 1 + skewed(4) };
        let mut got = 0;
        for k in 0..batch {
            // never hold bits back while waiting for more
            if k > 0 && !c.a.ready() { break; }
            match src.read_bit() {
                Ok(Some(b)) => {
                    got += 1;
                    match c.relay {
                        1 => call("BitBuffer::write_bit", || buf.write_bit(b))?.map_err(|e| Violation { class: "relay".into(), detail: e.to_string() })?,
                        2 => call("VecDeque::write_bit", || dq.write_bit(b))?.map_err(|e| Violation { class: "relay".into(), detail: e.to_string() })?,
                        _ => dst.write_bit(b).unwrap(),
                    }
                }
                _ => break,
            }
        }
        if c.relay == 1 && got > 0 {
            let end = buf.position();
            call("seek", || buf.seek(end - got))?.map_err(|e| Violation { class: "relay".into(), detail: e.to_string() })?;
        }
        for _ in 0..got {
            let b = match c.relay {
                1 => call("BitBuffer::read_bit", || buf.read_bit())?.ok().flatten(),
                2 => call("VecDeque::read_bit", || dq.read_bit())?.ok().flatten(),
                _ => break,
            };
            match b { Some(b) => dst.write_bit(b).unwrap(), None => return viol("relay", "a relayed bit disappeared".into()) }
        }
        if got == 0 { break; }
        if chance(1, 16) { fault("stall"); sleep(1 + choose(30)); }
    }
    c.b.close();
    Ok(())
}

fn consumer(c: &Conn) -> Res {
    let p = if c.relay > 0 { &c.b } else { &c.a };
    for (i, &(code, v)) in c.msgs.iter().enumerate() {
        arm_preemption(c.pre);
        let r = call("decode", || if c.bulk_r { code.decode(&mut BulkEnd(p)) } else { code.decode(&mut PipeEnd(p)) })?;
        arm_preemption(0);
        log_dec(&r);
        match r {
            Ok(Some(x)) if x == v => {}
            other => return viol("wrong-value", format!("message {}: {:?} of {} decoded as {:?}", i, code, v, other)),
        }
        let taken = p.taken();
        // the producer has recorded the end once it knows it; the bits may arrive first
        wait_until(|| c.ends.lock().unwrap().len() > i);
        let end = c.ends.lock().unwrap()[i];
        ensure!(taken == end, "wrong-consumption", "message {}: {:?} of {}: {} bits taken, codeword ends at {}", i, code, v, taken, end);
        c.acked.fetch_add(1, SeqCst);
        wake_all();
        yield_point();
        if chance(1, 16) { sleep(1 + choose(30)); }
    }
    let code = c.msgs[0].0;
    let r = call("decode", || code.decode(&mut PipeEnd(p)))?;
    log_dec(&r);
    ensure!(matches!(r, Ok(None)), "no-clean-end", "after everything: {:?}", r);
    Ok(())
}

/// One queue, written and read at random.
fn c01_shared_queue() -> Res {
    let mut q: VecDeque<bool> = VecDeque::new();
    let mut out: VecDeque<(Code, u64, usize)> = VecDeque::new();
    for _ in 0..1 + choose(24) {
        span(|| {
            if chance(1, 2) {
                let (c, v) = draw_message();
                let before = q.len();
                let r = call("encode", || c.encode(&mut q, v))?;
                ev("encode", &[c.tag(), v]);
                ensure!(r.is_ok(), "encode-failed", "{:?} of {}: {:?}", c, v, r);
                out.push_back((c, v, q.len() - before));
            } else if let Some((c, v, n)) = out.pop_front() {
                let before = q.len();
                let r = call("decode", || c.decode(&mut q))?;
                log_dec(&r);
                ensure!(matches!(r, Ok(Some(x)) if x == v), "wrong-value", "{:?} of {} decoded as {:?}", c, v, r);
                ensure!(before - q.len() == n, "wrong-consumption", "{:?} of {}: {} of {} bits taken", c, v, before - q.len(), n);
                probe("decoded while later messages wait");
            } else {
                let c = Code::draw();
                let r = call("decode", || c.decode(&mut q))?;
                fault("read at empty");
                ensure!(matches!(r, Ok(None)), "no-clean-end", "{:?} at the end: {:?}", c, r);
            }
            Ok(())
        })?;
    }
    Ok(())
}

/// One seekable buffer used from both ends.
fn c01_shared_buffer() -> Res {
    match choose(5) {
        0 => shared_buffer(BitBuffer::<BitVector<u8>>::new()),
        1 => shared_buffer(BitBuffer::<BitVector<u16>>::with_capacity(choose(200))),
        2 => shared_buffer(BitBuffer::<BitVector<u64>>::new()),
        3 => shared_buffer(BitBuffer::<BitVector>::new()),
        _ => shared_buffer(BitBuffer::from(Vec::<bool>::new())),
    }
}

fn shared_buffer<I: succinct::BitVecPush>(mut b: BitBuffer<I>) -> Res {
    let mut out: VecDeque<(Code, u64, u64)> = VecDeque::new();
    let (mut w, mut r_pos) = (0u64, 0u64);
    for _ in 0..1 + choose(24) {
        span(|| {
            if chance(1, 2) {
                let (c, v) = draw_message();
                call("seek", || b.seek(w))?.map_err(|e| Violation { class: "seek".into(), detail: e.to_string() })?;
                let r = call("encode", || c.encode(&mut b, v))?;
                ev("encode", &[c.tag(), v]);
                ensure!(r.is_ok(), "encode-failed", "{:?} of {}: {:?}", c, v, r);
                w = b.position();
                fault("writer takes over");
                out.push_back((c, v, w));
            } else {
                call("seek", || b.seek(r_pos))?.map_err(|e| Violation { class: "seek".into(), detail: e.to_string() })?;
                fault("reader takes over");
                match out.pop_front() {
                    Some((c, v, end)) => {
                        let r = call("decode", || c.decode(&mut b))?;
                        log_dec(&r);
                        ensure!(matches!(r, Ok(Some(x)) if x == v), "wrong-value", "{:?} of {} decoded as {:?}", c, v, r);
                        ensure!(b.position() == end, "wrong-consumption", "{:?} of {}: cursor {} after decoding, codeword ends at {}", c, v, b.position(), end);
                        r_pos = end;
                    }
                    None => {
                        let c = Code::draw();
                        let r = call("decode", || c.decode(&mut b))?;
                        ensure!(matches!(r, Ok(None)), "no-clean-end", "{:?} at the end: {:?}", c, r);
                    }
                }
            }
            Ok(())
        })?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C02

/// Something bits can be cut off from and grown.
trait CutSource: BitRead {
    fn grow(&mut self, bits: &[bool]);
    fn pos(&self) -> u64;
    fn rewind(&mut self, pos: u64);
}
impl CutSource for SimSource {
    fn grow(&mut self, bits: &[bool]) { self.bits.extend_from_slice(bits) }
    fn pos(&self) -> u64 { self.pos as u64 }
    fn rewind(&mut self, pos: u64) { self.pos = pos as usize }
}
/// A queue that remembers what was taken, for repositioning.
struct Queue { q: VecDeque<bool>, all: Vec<bool> }
impl BitRead for Queue { fn read_bit(&mut self) -> io::Result<Option<bool>> { self.q.read_bit() } }
impl CutSource for Queue {
    fn grow(&mut self, bits: &[bool]) { seam(|| { self.q.extend(bits); self.all.extend_from_slice(bits) }) }
    fn pos(&self) -> u64 { (self.all.len() - self.q.len()) as u64 }
    fn rewind(&mut self, pos: u64) { seam(|| self.q = self.all[pos as usize..].iter().copied().collect()) }
}
impl<I: succinct::BitVecPush> CutSource for BitBuffer<I> {
    fn grow(&mut self, bits: &[bool]) {
        let p = self.position();
        let n = succinct::BitVec::bit_len(self);
        self.seek(n).unwrap();
        for &b in bits { self.write_bit(b).unwrap(); }
        self.seek(p).unwrap();
    }
    fn pos(&self) -> u64 { self.position() }
    fn rewind(&mut self, pos: u64) { self.seek(pos).unwrap() }
}

pub fn c02() -> Res {
    if crate::far::patient(450_000) { return crate::far::long_run(1, true); }
    if crate::far::lengthy(6000) { return crate::far::long_run(1, false); }
    match weighted(&[4, 1, 1, 1]) {
        0 => c02_on(SimSource::default()),
        1 => c02_on(Queue { q: VecDeque::new(), all: vec![] }),
        2 => c02_on(BitBuffer::<BitVector<u32>>::new()),
        _ => c02_on(BitBuffer::from(Vec::<bool>::new())),
    }
}

fn c02_on<S: CutSource>(mut s: S) -> Res {
    let msgs = draw_messages(5);
    let (bits, ends) = encode_all(&msgs)?;
    let mut fed = 0usize; // bits the source holds
    let mut i = 0usize; // next message
    let mut start = 0usize; // where it begins
    let mut rounds = 0;
    loop {
        // decode as far as the bits go
        loop {
            let (c, v) = if i < msgs.len() { msgs[i] } else { (Code::draw(), 0) };
            let r = call("decode", || c.decode(&mut s))?;
            log_dec(&r);
            if i < msgs.len() && ends[i] <= fed {
                ensure!(matches!(r, Ok(Some(x)) if x == v), "wrong-value", "complete codeword {:?} of {} at {}..{} of {} bits: {:?}", c, v, start, ends[i], fed, r);
                ensure!(s.pos() == ends[i] as u64, "wrong-consumption", "{:?} of {}: stopped at {}, not {}", c, v, s.pos(), ends[i]);
                start = ends[i];
                i += 1;
            } else if start == fed {
                ensure!(matches!(r, Ok(None)), "no-clean-end", "{:?}: no bits left: {:?}", c, r);
                probe("clean end");
                // and again: a clean end stays one while nothing arrives
                break;
            } else {
                ensure!(matches!(&r, Err(e) if e.kind() == ErrorKind::UnexpectedEof), "truncation-missed",
                        "{:?} of {}: only {} of {} bits present, got {:?}", c, v, fed - start, ends[i] - start, r);
                probe("cut inside a codeword");
                s.rewind(start as u64);
                break;
            }
        }
        if fed == bits.len() { break; }
        rounds += 1;
        // how much arrives next: to some position, biased to codeword ends and next to them
        let next = if rounds > 6 { bits.len() } else {
            match weighted(&[2, 3, 2]) {
                0 => bits.len() as u64,
                1 => { let k = choose(ends.len() as u64) as usize; (ends[k] as u64 + 1).saturating_sub(choose(3)) }
                _ => range(fed as u64, bits.len() as u64),
            }.clamp(fed as u64, bits.len() as u64) as usize
        };
        if next < bits.len() { fault("cut"); }
        ev("grow", &[fed as u64, next as u64]);
        let more = &bits[fed..next];
        call("grow", || s.grow(more))?;
        fed = next;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C03

pub fn c03() -> Res {
    if crate::far::patient(750_000) { return crate::far::long_failure(true); }
    if crate::far::lengthy(8000) { return crate::far::long_failure(false); }
    for _ in 0..1 + choose(4) {
        span(|| match weighted(&[4, 2]) { 0 => c03_fault(), _ => c03_refusal() })?;
    }
    Ok(())
}

fn c03_fault() -> Res {
    let (c, v) = draw_message();
    // what a healthy sink gets
    let mut healthy = SimSink::default();
    let r = call("encode", || c.encode(&mut healthy, v))?;
    ensure!(r.is_ok(), "encode-failed", "{:?} of {}: {:?}", c, v, r);
    let word = healthy.bits;
    ev("codeword", &[c.tag(), v, word.len() as u64]);
    // the failing one may already hold bits
    let before = choose(4) as usize;
    let at = before as u64 + choose(word.len() as u64);
    let err = ErrSpec::draw();
    let mut sink = SimSink { bits: vec![true; before], plan: Some(Plan { at, err, times: if chance(1, 2) { 1 } else { 1000 } }), ..Default::default() };
    let r = call("encode into failing sink", || c.encode(&mut sink, v))?;
    match r {
        Ok(()) => return viol("error-swallowed", format!("{:?} of {}: sink failed at bit {}, encode reported success", c, v, at)),
        Err(e) => ensure!(err.is(&e), "error-changed", "{:?} of {}: sink reported {:?}, encode {:?}", c, v, err, e),
    }
    ensure!(sink.bits.len() as u64 == at && sink.bits[before..] == word[..at as usize - before], "not-a-prefix",
            "{:?} of {}: sink failed at {} holds {} bits {:?}", c, v, at, sink.bits.len(), sink.bits);
    ensure!(sink.after_fire == 0, "wrote-after-error", "{:?} of {}: {} more bits offered after the error", c, v, sink.after_fire);
    // the sink recovers: the user drops the partial codeword and retries
    sink.plan = None;
    sink.bits.truncate(before);
    let r = call("encode after recovery", || c.encode(&mut sink, v))?;
    ensure!(r.is_ok() && sink.bits[before..] == word[..], "hidden-state", "{:?} of {}: retry gives {:?} {:?}, first encode {:?}", c, v, r, sink.bits, word);
    Ok(())
}

fn c03_refusal() -> Res {
    let (c, v) = match choose(8) {
        0 => (Code::Gamma, 0), 1 => (Code::Delta, 0), 2 => (Code::Omega, 0), 3 => (Code::Fib, 0),
        4 => (Code::ElComma(range(2, 9) as u8), 0),
        5 => {
            let c = [Code::L0Gamma, Code::L0Delta, Code::L0Omega, Code::L0Fib, Code::L0Comma(2), Code::L0L0Gamma, Code::L0Nibbles, Code::L0ElComma(3), Code::L0Unary][choose(9) as usize];
            (c, if c == Code::L0L0Gamma { u64::MAX - choose(2) } else { u64::MAX })
        }
        6 => (Code::Fib, FIB_MAX + 1 + value_below(u64::MAX - FIB_MAX - 1)),
        _ => (Code::L0Fib, FIB_MAX + value_below(u64::MAX - FIB_MAX)),
    };
    // these could be coded in principle; being refused or coded right are both fine
    let codable = matches!(c, Code::Fib | Code::L0Fib) && v != 0 && !(c == Code::L0Fib && v == u64::MAX);
    fault("value outside the domain");
    ev("refuse?", &[c.tag(), v]);
    let before = choose(3) as usize;
    let mut sink = SimSink { bits: vec![false; before], ..Default::default() };
    set_step_limit(steps() + 100_000);
    let refused = match sut(|| c.encode(&mut sink, v)) { Ok(Ok(())) => false, Ok(Err(_)) => true, Err(Caught::Panic(_)) => true, Err(o) => return viol("panic", format!("{:?}", o)) };
    set_step_limit(steps() + 2_000_000);
    if refused {
        ensure!(sink.calls == 0 && sink.bits.len() == before, "refused-late", "{:?} of {}: refused after writing {} bits", c, v, sink.calls);
    } else if codable {
        let mut src = SimSource::new(sink.bits[before..].to_vec());
        let r = call("decode", || c.decode(&mut src))?;
        ensure!(matches!(r, Ok(Some(x)) if x == v), "wrong-value", "{:?} accepted {} and decodes it as {:?}", c, v, r);
    } else {
        return viol("not-refused", format!("{:?} accepted {}, which is outside its domain, as {:?}", c, v, sink.bits));
    }
    // and a value inside the domain still goes through
    let ok = c.draw_value();
    let mut s = SimSink::default();
    let r = call("encode", || c.encode(&mut s, ok))?;
    ensure!(r.is_ok(), "hidden-state", "{:?} of {} after a refusal: {:?}", c, ok, r);
    let mut src = SimSource::new(s.bits);
    let r = call("decode", || c.decode(&mut src))?;
    ensure!(matches!(r, Ok(Some(x)) if x == ok), "hidden-state", "{:?} of {} after a refusal decodes as {:?}", c, ok, r);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C04

pub fn c04() -> Res {
    if crate::far::patient(750_000) { return crate::far::long_run(0, true); }
    if crate::far::lengthy(8000) { return crate::far::long_run(0, false); }
    let msgs = draw_messages(4);
    let (bits, ends) = encode_all(&msgs)?;
    let mut src = SimSource::new(bits);
    let mut start = 0usize;
    for (i, &(c, v)) in msgs.iter().enumerate() {
        // a few failures inside this codeword (or none), then it goes through
        let failures = weighted(&[3, 3, 1, 1]);
        for _ in 0..failures {
            let at = range(start as u64, ends[i] as u64 - 1);
            let err = ErrSpec::draw();
            src.plan = Some(Plan { at, err, times: if chance(1, 2) { 1 } else { 1000 } });
            src.fired = 0;
            src.after_fire = 0;
            let r = call("decode from failing source", || c.decode(&mut src))?;
            log_dec(&r);
            match r {
                Err(e) => ensure!(err.is(&e), "error-changed", "{:?} of {}: source reported {:?}, decode {:?}", c, v, err, e),
                Ok(x) => return viol("error-swallowed", format!("{:?} of {}: source failed at bit {} of {}..{}, decode returned {:?}", c, v, at, start, ends[i], x)),
            }
            ensure!(src.after_fire == 0, "read-after-error", "{:?}: {} more reads after the error", c, src.after_fire);
            ensure!(src.pos as u64 == at, "read-after-error", "{:?}: source at {} after failing at {}", c, src.pos, at);
            src.plan = None;
            src.pos = start;
        }
        let r = call("decode", || c.decode(&mut src))?;
        log_dec(&r);
        ensure!(matches!(r, Ok(Some(x)) if x == v), "hidden-state", "{:?} of {} after {} failed attempts: {:?}", c, v, failures, r);
        ensure!(src.pos == ends[i], "hidden-state", "{:?} of {} after {} failed attempts: stopped at {}, not {}", c, v, failures, src.pos, ends[i]);
        start = ends[i];
    }
    // a failure where the stream would end is an error too
    if chance(1, 2) {
        let err = ErrSpec::draw();
        let c = Code::draw();
        src.plan = Some(Plan { at: start as u64, err, times: 1 });
        src.fired = 0;
        src.after_fire = 0;
        let r = call("decode", || c.decode(&mut src))?;
        match r {
            Err(e) => ensure!(err.is(&e), "error-changed", "{:?} at the end: source reported {:?}, decode {:?}", c, err, e),
            Ok(x) => return viol("error-swallowed", format!("{:?}: source failed at the end, decode returned {:?}", c, x)),
        }
        ensure!(src.after_fire == 0, "read-after-error", "{:?}: {} more reads after the error", c, src.after_fire);
        let r = call("decode", || c.decode(&mut src))?;
        ensure!(matches!(r, Ok(None)), "hidden-state", "{:?} at the end after an error: {:?}", c, r);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C05

pub fn c05() -> Res {
    if crate::far::patient(2_000_000) { return crate::far::long_run(2, true); }
    if crate::far::lengthy(20000) { return crate::far::long_run(2, false); }
    // media: encoded streams, numbers beyond 64 bits, noise
    let mut bits = vec![];
    let codes: Vec<Code> = { let one = Code::draw(); let mix = chance(1, 3); (0..6).map(|i| if i == 0 || !mix { one } else { Code::draw() }).collect() };
    let n = 1 + choose(4) as usize;
    for i in 0..n {
        span(|| match weighted(&[4, 3, 2, 2]) {
            0 => { let c = codes[i % codes.len()]; let v = c.draw_value(); ev("good", &[c.tag(), v]); reference_encode(c, v as u128, &mut bits) }
            1 => {
                // just around and far beyond what 64 bits hold
                let c = codes[i % codes.len()];
                let hi = 1u128 << (63 + skewed(24));
                let v = (hi + value64() as u128).saturating_sub(choose(3) as u128 * (1 << 62));
                let v = if matches!(c, Code::Unary | Code::L0Unary) { v & 255 } else { v };
                fault("number too large");
                reference_encode(c, v.max(1), &mut bits)
            }
            2 => {
                let k = skewed(300) + if chance(1, 400) { 1 << (8 + choose(9)) } else { 0 };
                let b = chance(1, 2);
                fault("stuck medium");
                for _ in 0..k { bits.push(b); }
            }
            _ => {
                fault("noise");
                for _ in 0..skewed(120) { bits.push(chance(1, 2)); }
            }
        });
    }
    // damage
    for _ in 0..weighted(&[2, 3, 2, 1]) {
        span(|| {
            if bits.is_empty() { return; }
            let at = choose(bits.len() as u64) as usize;
            let len = (1 + skewed(40) as usize).min(bits.len() - at);
            match choose(6) {
                0 => { fault("bit flip"); bits[at] = !bits[at]; }
                1 => { fault("lost bits"); bits.drain(at..at + len); }
                2 => { fault("inserted bits"); for _ in 0..len { let b = chance(1, 2); bits.insert(at, b); } }
                3 => { fault("duplicated bits"); let d = bits[at..at + len].to_vec(); for (k, b) in d.into_iter().enumerate() { bits.insert(at + len + k, b); } }
                4 => { fault("overwritten bits"); let b = chance(1, 2); for x in &mut bits[at..at + len] { *x = b; } }
                _ => { fault("cut"); bits.truncate(at); }
            }
        });
    }
    let mut src = SimSource::new(bits);
    for k in 0..40usize {
        let c = codes[k % codes.len()];
        let pos = src.pos;
        let want = reference_decode(c, &src.bits, pos);
        let r = call("decode of damaged bits", || c.decode(&mut src))?;
        log_dec(&r);
        let show = || format!("{:?} at {} of {}: definition says {:?}, library {:?}", c, pos, src.bits.len(), want, r);
        let is = |k: ErrorKind| matches!(&r, Err(e) if e.kind() == k);
        match want {
            Dec::End => { ensure!(matches!(r, Ok(None)), "no-clean-end", "{}", show()); break; }
            Dec::Cut { over: false } => { ensure!(is(ErrorKind::UnexpectedEof), "truncation-missed", "{}", show()); probe("cut"); break; }
            Dec::Cut { over: true } => { ensure!(is(ErrorKind::UnexpectedEof) || is(ErrorKind::InvalidData), "truncation-missed", "{}", show()); probe("cut and over"); break; }
            Dec::Value(Num::N(v), len) if v <= u64::MAX as u128 => {
                let fib_limit = matches!(c, Code::Fib | Code::L0Fib) && v >= FIB_MAX as u128;
                if fib_limit && is(ErrorKind::InvalidData) { probe("largest Fibonacci"); break; }
                ensure!(matches!(r, Ok(Some(x)) if x as u128 == v), "wrong-value", "{}", show());
                ensure!((src.pos - pos) as u64 == len, "wrong-consumption", "{} ({} bits taken, not {})", show(), src.pos - pos, len);
            }
            Dec::Value(..) => { ensure!(is(ErrorKind::InvalidData), "overflow-missed", "{}", show()); probe("refused number"); break; }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C06

/// Transfers of one integer type.
struct IntOps {
    width: u32,
    name: &'static str,
    write: fn(&mut SimSink, bool, usize, u128) -> io::Result<()>,
    /// the value, and whether every bit of the result beyond the transferred ones is zero by its unsigned view
    read: fn(&mut SimSource, bool, usize) -> io::Result<Option<u128>>,
}

macro_rules! int_ops {
    ($($t:ident $u:ident),*) => { [$(IntOps {
        width: std::mem::size_of::<$t>() as u32 * 8,
        name: stringify!($t),
        write: |s, be, n, v| if be { s.write_int_be::<$t>(n, v as $t) } else { s.write_int::<$t>(n, v as $t) },
        read: |s, be, n| (if be { s.read_int_be::<$t>(n) } else { s.read_int::<$t>(n) }).map(|o| o.map(|x| x as $u as u128)),
    }),*] };
}

static INTS: [IntOps; 12] = int_ops!(u8 u8, u16 u16, u32 u32, u64 u64, usize usize, u128 u128, i8 u8, i16 u16, i32 u32, i64 u64, isize usize, i128 u128);

fn low_bits(v: u128, n: usize) -> u128 { if n >= 128 { v } else { v & ((1 << n) - 1) } }

pub fn c06() -> Res {
    let mut sink = SimSink::default();
    let mut sent: Vec<(usize, bool, usize, u128, usize)> = vec![]; // type, be, n, value, end
    for _ in 0..1 + choose(6) {
        span(|| {
            let t = choose(INTS.len() as u64) as usize;
            let ops = &INTS[t];
            let w = ops.width as u64;
            let n = match weighted(&[4, 2, 1]) { 0 => choose(w + 1), 1 => w, _ => 0 } as usize;
            let be = chance(1, 2);
            let v = (value64() as u128 | (value64() as u128) << 64) & if w == 128 { u128::MAX } else { (1 << w) - 1 };
            let want: Vec<bool> = if be { (0..n).rev().map(|k| v >> k & 1 == 1).collect() } else { (0..n).map(|k| v >> k & 1 == 1).collect() };
            let before = sink.bits.len();
            ev("write", &[t as u64, be as u64, n as u64, v as u64]);
            // a failing attempt first?
            if n > 0 && chance(1, 3) {
                let at = before as u64 + choose(n as u64);
                let err = ErrSpec::draw();
                sink.plan = Some(Plan { at, err, times: if chance(1, 2) { 1 } else { 1000 } });
                sink.fired = 0;
                sink.after_fire = 0;
                let r = call("write_int to failing sink", || (ops.write)(&mut sink, be, n, v))?;
                match r {
                    Err(e) => ensure!(err.is(&e), "error-changed", "{} n={} be={}: sink {:?}, call {:?}", ops.name, n, be, err, e),
                    Ok(()) => return viol("error-swallowed", format!("{} n={} be={}: sink failed, call reported success", ops.name, n, be)),
                }
                ensure!(sink.after_fire == 0 && sink.bits.len() as u64 == at && sink.bits[before..] == want[..at as usize - before], "not-a-prefix",
                        "{} n={} be={} v={:#x}: sink failed at {}, holds {:?}", ops.name, n, be, v, at - before as u64, &sink.bits[before..]);
                sink.plan = None;
                sink.bits.truncate(before);
            }
            let r = call("write_int", || (ops.write)(&mut sink, be, n, v))?;
            ensure!(r.is_ok(), "write-failed", "{} n={} be={}: {:?}", ops.name, n, be, r);
            ensure!(sink.bits[before..] == want[..], "wrong-bits", "{} n={} be={} v={:#x}: wrote {:?}", ops.name, n, be, v, &sink.bits[before..]);
            sent.push((t, be, n, v, sink.bits.len()));
            Ok(())
        })?;
    }
    // read back, from a stream that may fail or end early
    let bits = sink.bits;
    let mut src = SimSource::new(bits.clone());
    let mut start = 0usize;
    for &(t, be, n, v, end) in &sent {
        span(|| {
            let ops = &INTS[t];
            if n > 0 && chance(1, 3) {
                let at = range(start as u64, end as u64 - 1);
                let err = ErrSpec::draw();
                src.plan = Some(Plan { at, err, times: if chance(1, 2) { 1 } else { 1000 } });
                src.fired = 0;
                src.after_fire = 0;
                let r = call("read_int from failing source", || (ops.read)(&mut src, be, n))?;
                match r {
                    Err(e) => ensure!(err.is(&e), "error-changed", "{} n={} be={}: source {:?}, call {:?}", ops.name, n, be, err, e),
                    Ok(x) => return viol("error-swallowed", format!("{} n={} be={}: source failed, call returned {:?}", ops.name, n, be, x)),
                }
                ensure!(src.after_fire == 0 && src.pos as u64 == at, "read-after-error", "{} n={} be={}: source at {} after failing at {}", ops.name, n, be, src.pos, at);
                src.plan = None;
                src.pos = start;
            }
            if n > 0 && chance(1, 3) {
                // the stream ends early
                let at = range(start as u64, end as u64 - 1) as usize;
                fault("cut");
                src.bits.truncate(at);
                let r = call("read_int from cut source", || (ops.read)(&mut src, be, n))?;
                if at == start {
                    ensure!(matches!(r, Ok(None)), "no-clean-end", "{} n={} be={}: nothing left: {:?}", ops.name, n, be, r);
                } else {
                    ensure!(matches!(&r, Err(e) if e.kind() == ErrorKind::UnexpectedEof), "truncation-missed", "{} n={} be={}: {} bits left: {:?}", ops.name, n, be, at - start, r);
                }
                src.bits = bits.clone();
                src.pos = start;
            }
            let r = call("read_int", || (ops.read)(&mut src, be, n))?;
            let want = low_bits(v, n);
            ensure!(matches!(r, Ok(Some(x)) if x == want), "wrong-value", "{} n={} be={} v={:#x}: read {:?}", ops.name, n, be, v, r);
            ensure!(src.pos == end, "wrong-consumption", "{} n={} be={}: stopped at {}, not {}", ops.name, n, be, src.pos, end);
            ev("read", &[t as u64, n as u64, want as u64]);
            start = end;
            Ok(())
        })?;
    }
    // at the very end: zero bits are always there, more are a clean end
    let ops = &INTS[choose(INTS.len() as u64) as usize];
    let be = chance(1, 2);
    let r = call("read_int of nothing", || (ops.read)(&mut src, be, 0))?;
    ensure!(matches!(r, Ok(Some(0))), "zero-width", "{} be={}: reading no bits gives {:?}", ops.name, be, r);
    let n = 1 + choose(ops.width as u64) as usize;
    let r = call("read_int at end", || (ops.read)(&mut src, be, n))?;
    ensure!(matches!(r, Ok(None)), "no-clean-end", "{} n={} be={} at the end: {:?}", ops.name, n, be, r);
    Ok(())
}
