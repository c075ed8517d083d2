//! Command line of a simulator binary: batches of runs, minimisation, replay.
use crate::rng::run_seed;
use crate::{cov, run_one, Mode, Outcome, Res, Violation};
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub scenario: fn() -> Res,
}

pub const PROFILE: &str = if cfg!(debug_assertions) { "chk" } else { "rel" };

struct Args(Vec<String>);
impl Args {
    fn opt(&self, name: &str) -> Option<&str> {
        self.0.iter().position(|a| a == name).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn num(&self, name: &str, default: u64) -> u64 {
        self.opt(name).map(|s| s.parse().expect("number")).unwrap_or(default)
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn stream_name(prop: &str, profile: &str) -> String { format!("{}/{}", prop, profile) }

pub fn main(props: &[Prop], profile: &'static str) -> ! {
    let args = Args(std::env::args().skip(1).collect());
    let cmd = args.0.first().cloned().unwrap_or_default();
    let find = |id: &str| -> &Prop {
        match props.iter().find(|p| p.id == id) { Some(p) => p, None => { eprintln!("no property {}", id); std::process::exit(2) } }
    };
    let code = match cmd.as_str() {
        "list" => { for p in props { println!("{}", p.id); } 0 }
        "worker" => worker(find(args.opt("--prop").expect("--prop")), profile, &args),
        "minimise" => minimise_cmd(find(args.opt("--prop").expect("--prop")), profile, &args),
        "log" => log_cmd(find(args.opt("--prop").expect("--prop")), profile, &args),
        "exec" => exec_cmd(find(args.opt("--prop").expect("--prop")), profile, &args),
        "replay" => replay_cmd(&find, &args),
        "distinct" => distinct(&args.0[1..]),
        _ => { eprintln!("usage: sim list|worker|minimise|log|exec|replay|distinct"); 2 }
    };
    std::process::exit(code)
}

fn worker(prop: &Prop, profile: &str, a: &Args) -> i32 {
    let master = a.num("--seed", 1);
    let (start, stride, end) = (a.num("--start", 0), a.num("--stride", 1), a.num("--end", 1000));
    let progress = a.opt("--progress").map(|p| std::fs::File::create(p).expect("progress file"));
    let mut hashes = a.opt("--hashes").map(|p| std::io::BufWriter::new(std::fs::File::create(p).expect("hash file")));
    let deadline = Duration::from_secs(a.num("--deadline", 100_000));
    let dump = a.opt("--dump").is_some(); // determinism check: print every run's digest
    let t0 = Instant::now();
    let name = stream_name(prop.id, profile);
    let (mut runs, mut nontrivial, mut events, mut switches, mut steps, mut clock, mut faulted) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut probes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut i = start;
    let mut found: Option<(u64, Violation)> = None;
    let mut cut = false;
    while i < end {
        if runs % 64 == 0 && t0.elapsed() > deadline { cut = true; break; }
        if let Some(p) = &progress { let _ = p.write_at(&i.to_le_bytes(), 0); }
        let o = run_one(prop.scenario, Mode::Seed(run_seed(master, &name, i)), false, None);
        runs += 1;
        events += o.events; switches += o.switches; steps += o.steps; clock += o.clock;
        let nf: u64 = o.faults.values().sum();
        if nf > 0 { faulted += 1; }
        for (k, v) in &o.faults { *faults.entry(k).or_insert(0) += v; }
        for (k, v) in &o.probes { *probes.entry(k).or_insert(0) += v; }
        if o.events > 0 && (nf > 0 || o.switches > 0) {
            nontrivial += 1;
            if let Some(h) = &mut hashes { let _ = h.write_all(&o.hash.to_le_bytes()); }
        }
        if dump { println!("{} {:016x} {} {} {}", i, o.hash, o.events, o.steps, o.tape.len()); }
        if let Some(v) = o.violation { found = Some((i, v)); break; }
        i += stride;
    }
    if let Some(h) = &mut hashes { let _ = h.flush(); }
    if dump { return 0; }
    let map = |m: &BTreeMap<&'static str, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
        format!("{{{}}}", v.join(","))
    };
    let (hit, total) = cov::reached();
    let cover: Vec<String> = if a.opt("--cover").is_some() { cov::reached_set().iter().map(|x| x.to_string()).collect() } else { vec![] };
    let viol = match &found {
        Some((i, v)) => format!("{{\"index\":{},\"class\":{},\"detail\":{}}}", i, json_str(&v.class), json_str(&v.detail)),
        None => "null".into(),
    };
    println!("{{\"runs\":{},\"nontrivial\":{},\"faulted\":{},\"events\":{},\"switches\":{},\"steps\":{},\"clock\":{},\"faults\":{},\"probes\":{},\"blocks_hit\":{},\"blocks_total\":{},\"cover\":[{}],\"cut\":{},\"seconds\":{:.3},\"violation\":{}}}",
        runs, nontrivial, faulted, events, switches, steps, clock, map(&faults), map(&probes), hit, total, cover.join(","), cut, t0.elapsed().as_secs_f64(), viol);
    if found.is_some() { 1 } else { 0 }
}

fn run_tape(prop: &Prop, tape: &[u64], log: bool) -> Outcome { run_one(prop.scenario, Mode::Tape(tape.to_vec()), log, None) }

/// Shrink a failing tape: fewer choices, then smaller ones, same violation class.
fn minimise(prop: &Prop, first: &Outcome, budget: u64, wall: Duration) -> (Outcome, u64) {
    let class = first.violation.as_ref().unwrap().class.clone();
    let t0 = Instant::now();
    let mut execs = 0u64;
    let mut best = run_tape(prop, &first.tape, false);
    match &best.violation { Some(v) if v.class == class => {}, _ => return (best, 0) }
    let try_tape = |t: &[u64], best: &mut Outcome, execs: &mut u64| -> bool {
        *execs += 1;
        let o = run_tape(prop, t, false);
        match &o.violation {
            Some(v) if v.class == class => {
                let better = (o.tape.len(), &o.tape) < (best.tape.len(), &best.tape);
                if better { *best = o; }
                better
            }
            _ => false,
        }
    };
    let left = |execs: u64| execs < budget && t0.elapsed() < wall;
    loop {
        let before = best.tape.clone();
        // 1. delete whole operations (spans), largest first
        loop {
            let mut spans = best.spans.clone();
            spans.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
            let mut hit = false;
            for (s, e) in spans {
                if !left(execs) { break; }
                if e > best.tape.len() || s >= e { continue; }
                let mut t = best.tape[..s].to_vec();
                t.extend_from_slice(&best.tape[e..]);
                if try_tape(&t, &mut best, &mut execs) { hit = true; break; }
                // the loop around the operation usually has a count or a "go on" choice before it
                if s > 0 && best.tape[s - 1] > 0 {
                    let mut t = best.tape[..s - 1].to_vec();
                    t.extend_from_slice(&best.tape[e..]);
                    if try_tape(&t, &mut best, &mut execs) { hit = true; break; }
                }
            }
            if !hit || !left(execs) { break; }
        }
        // 2. delete chunks
        let mut size = (best.tape.len() / 2).max(1);
        while left(execs) {
            let mut i = 0;
            while i < best.tape.len() && left(execs) {
                let e = (i + size).min(best.tape.len());
                let mut t = best.tape[..i].to_vec();
                t.extend_from_slice(&best.tape[e..]);
                if !try_tape(&t, &mut best, &mut execs) { i += size; }
            }
            if size == 1 { break; }
            size /= 2;
        }
        // 3. delete one and lower an earlier count
        // 4. lower entries
        let mut i = 0;
        while i < best.tape.len() && left(execs) {
            let v = best.tape[i];
            if v > 0 {
                let mut cands = vec![0, v / 2, v - 1];
                if v > 64 { cands.push(1 << (63 - v.leading_zeros())); }
                cands.dedup();
                for c in cands {
                    if c >= v || !left(execs) { continue; }
                    let mut t = best.tape.clone();
                    t[i] = c;
                    if try_tape(&t, &mut best, &mut execs) { break; }
                    // lowering a count often needs the surplus removed as well
                    if c + 1 == v && i + 1 < best.tape.len() {
                        let mut done = false;
                        for k in 1..=6usize {
                            if i + 1 + k > t.len() || !left(execs) { break; }
                            let mut t2 = t.clone();
                            t2.drain(i + 1..i + 1 + k);
                            if try_tape(&t2, &mut best, &mut execs) { done = true; break; }
                        }
                        if done { break; }
                    }
                }
            }
            i += 1;
        }
        if best.tape == before || !left(execs) { break; }
    }
    while best.tape.last() == Some(&0) {
        // an exhausted tape reads as zeros, so trailing zeros say nothing
        let n = best.tape.iter().rposition(|&x| x != 0).map(|p| p + 1).unwrap_or(0);
        let t = best.tape[..n].to_vec();
        let mut o = run_tape(prop, &t, false);
        o.tape = t;
        if o.violation.as_ref().map(|v| v.class == class).unwrap_or(false) { best = o; }
        break;
    }
    (best, execs)
}

fn render(prop: &str, profile: &str, seed: u64, index: u64, o: &Outcome, original_len: usize, execs: u64) -> String {
    let v = o.violation.as_ref().unwrap();
    let tape: Vec<String> = o.tape.iter().map(|x| x.to_string()).collect();
    let mut s = String::new();
    s.push_str("# replay of a simulated run; run: ./replay.sh <this file>\n");
    s.push_str(&format!("property {}\nprofile {}\nmaster_seed {}\nindex {}\n", prop, profile, seed, index));
    s.push_str(&format!("class {}\ndetail {}\nhash {:016x}\n", v.class, v.detail.replace('\n', " "), o.hash));
    s.push_str(&format!("minimised {} choices from {} in {} executions\n", o.tape.len(), original_len, execs));
    s.push_str(&format!("tape {}\n", tape.join(" ")));
    s.push_str("# schedule, operations and faults of the minimised run:\n");
    for l in &o.log { s.push_str("| "); s.push_str(l); s.push('\n'); }
    s
}

fn minimise_cmd(prop: &Prop, profile: &str, a: &Args) -> i32 {
    let master = a.num("--seed", 1);
    let index = a.num("--index", 0);
    let out = a.opt("--out").expect("--out");
    let seed = run_seed(master, &stream_name(prop.id, profile), index);
    let first = run_one(prop.scenario, Mode::Seed(seed), false, None);
    if first.violation.is_none() { println!("no violation at index {}", index); return 0; }
    let (best, execs) = minimise(prop, &first, a.num("--budget", 6000), Duration::from_secs(60));
    let mut last = run_tape(prop, &best.tape, true);
    last.tape = best.tape.clone();
    if last.violation.is_none() {
        // not reproducible by tape: report the unminimised run by seed
        last = run_one(prop.scenario, Mode::Seed(seed), true, None);
    }
    std::fs::write(out, render(prop.id, profile, master, index, &last, first.tape.len(), execs)).expect("write replay");
    println!("{}", out);
    1
}

fn log_cmd(prop: &Prop, profile: &str, a: &Args) -> i32 {
    let seed = run_seed(a.num("--seed", 1), &stream_name(prop.id, profile), a.num("--index", 0));
    let o = run_one(prop.scenario, Mode::Seed(seed), true, None);
    println!("hash {:016x} choices {} events {} switches {} faults {:?} violation {:?}", o.hash, o.tape.len(), o.events, o.switches, o.faults, o.violation);
    for l in &o.log { println!("{}", l); }
    0
}

/// Run one tape (or one seed, streaming its tape to a file as it grows): for crash minimisation.
fn exec_cmd(prop: &Prop, profile: &str, a: &Args) -> i32 {
    let stream = a.opt("--stream").map(|p| std::fs::File::create(p).expect("stream"));
    let mode = match a.opt("--tape") {
        Some(f) => Mode::Tape(parse_tape(&std::fs::read_to_string(f).expect("tape"))),
        None => Mode::Seed(run_seed(a.num("--seed", 1), &stream_name(prop.id, profile), a.num("--index", 0))),
    };
    let o = run_one(prop.scenario, mode, false, stream);
    match o.violation { Some(v) => { println!("{} {}", v.class, v.detail); 1 } None => 0 }
}

fn parse_tape(s: &str) -> Vec<u64> { s.split_whitespace().map(|x| x.parse().expect("tape entry")).collect() }

fn replay_cmd<'p>(find: &dyn Fn(&str) -> &'p Prop, a: &Args) -> i32 {
    let path = &a.0[1];
    let text = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| -> String {
        text.lines().find(|l| l.starts_with(&format!("{} ", k))).map(|l| l[k.len() + 1..].to_string()).unwrap_or_default()
    };
    let prop = find(&get("property"));
    let o = run_tape(prop, &parse_tape(&get("tape")), true);
    for l in &o.log { println!("| {}", l); }
    match o.violation {
        Some(v) => {
            let exact = format!("{:016x}", o.hash) == get("hash");
            println!("{}: {}", v.class, v.detail);
            println!("event digest {:016x} ({} the recorded run)", o.hash, if exact { "identical to" } else { "differs from" });
            println!("VIOLATION property={} replay={}", prop.id, path);
            1
        }
        None => { println!("no violation"); 0 }
    }
}

/// Count distinct digests over files of u64s.
fn distinct(files: &[String]) -> i32 {
    let mut all: Vec<u64> = Vec::new();
    for f in files {
        let b = std::fs::read(f).unwrap_or_default();
        all.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
    }
    all.sort_unstable();
    all.dedup();
    println!("{}", all.len());
    0
}
