//! What a worker carries along: counters, the journal, and the violations found.

use crate::alloc;
use crate::case::{encode_to, root_code, Act, Case, Env};
use crate::emit::Tok;
use crate::mem::Mem;
use crate::real::{self, Outcome};
use crate::spec::{self, build_cfg, Bad, Root, R};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// What a check holds against the library.
pub mod judge {
    /// A well-formed table must decode to exactly what the model says.
    pub const FAITHFUL: u32 = 1;
    /// A malformed table must be an error.
    pub const REJECT: u32 = 2;
    /// A table that needs bytes behind the end must be an error.
    pub const EOF: u32 = 4;
    /// No input may cause a panic.
    pub const PANIC: u32 = 8;
    pub const ALL: u32 = 15;
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub summary: String,
    pub case: Vec<u8>,
    /// Set if the violation is one that is on record.
    pub known: Option<String>,
}

/// A fast pass-through hasher for keys that are hashes already.
#[derive(Default, Clone)]
pub struct Pass(u64);
impl std::hash::Hasher for Pass {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}
pub type Seen = HashSet<u64, std::hash::BuildHasherDefault<Pass>>;

/// How much a thread remembers; beyond that counts are lower bounds and nothing is told apart.
const SEEN: usize = 25_000_000;

/// How many outcomes a thread keeps for comparing builds; of more, an even part.
const RECORD: usize = 24_000_000;

/// Remember something, and tell if it is new as far as is known.
pub fn note(seen: &mut Seen, h: u64) -> bool {
    if seen.len() < SEEN {
        seen.insert(h)
    } else {
        !seen.contains(&h)
    }
}

#[derive(Default)]
pub struct Stats {
    /// Executions of the library.
    pub runs: u64,
    /// Decisions taken by the generator.
    pub steps: u64,
    /// Bytes delivered to the library.
    pub bytes: u64,
    /// Inputs of which no claim is made.
    pub unspecified: u64,
    pub skipped: u64,
    /// States that are told apart elsewhere.
    pub distinct: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
}

impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.steps += o.steps;
        self.bytes += o.bytes;
        self.unspecified += o.unspecified;
        self.skipped += o.skipped;
        self.distinct += o.distinct;
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_default();
            *e = (*e).max(v);
        }
    }

    #[inline]
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_default() += n;
    }

    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_default();
        *e = (*e).max(n);
    }
}

pub struct Shared {
    pub prop: String,
    pub thorough: bool,
    pub judge: u32,
    pub stop: AtomicBool,
    pub started: Instant,
    pub violations: Mutex<Vec<Violation>>,
    pub samples: Mutex<BTreeMap<String, String>>,
    /// Start of the current execution of each worker in microseconds, or 0.
    pub beats: Vec<AtomicU64>,
}

/// The most states one worker keeps.
pub const STATES: usize = 6_000_000;
pub const SLOT: usize = 1 << 21;

pub struct Journal {
    pub base: *mut u8,
    pub len: usize,
}
unsafe impl Send for Journal {}

pub struct Ctx<'s> {
    pub shared: &'s Shared,
    pub index: usize,
    pub journal: Option<Journal>,
    pub stats: Stats,
    /// What the generator has produced.
    pub inputs: Seen,
    /// What the library has been run on.
    pub states: Seen,
    pub outcomes: Seen,
    /// Inputs and outcomes, if they are to be compared with those of other builds.
    pub record: Option<Vec<(u64, u64)>>,
    /// Which of them are kept.
    pub record_mask: u64,
    /// The input wanted.
    pub find: Option<u64>,
    pub scratch: Vec<Tok>,
    pub label: String,
    /// The largest value that is written out.
    pub max_out: usize,
    mem: Option<Mem>,
    coded: Vec<u8>,
}

/// What the model says about an input.
pub struct Expected {
    pub result: Result<(), Bad>,
    pub out: Vec<Tok>,
    pub zero: [u64; 3],
}

pub fn hash_tokens(v: &[Tok]) -> u64 {
    let mut h = 0x9E3779B97F4A7C15u64 ^ v.len() as u64;
    for t in v {
        h = (h ^ *t as u64).wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 32;
    }
    h
}

impl<'s> Ctx<'s> {
    pub fn new(shared: &'s Shared, index: usize, journal: Option<Journal>) -> Self {
        Ctx {
            shared,
            index,
            journal,
            stats: Stats::default(),
            inputs: Seen::default(),
            states: Seen::default(),
            record: None,
            record_mask: 0,
            find: None,
            outcomes: Seen::default(),
            scratch: vec![],
            label: String::new(),
            max_out: spec::MAX_OUT,
            mem: None,
            coded: Vec::with_capacity(1 << 16),
        }
    }

    pub fn thorough(&self) -> bool {
        self.shared.thorough
    }

    pub fn stopped(&self) -> bool {
        self.shared.stop.load(Ordering::Relaxed)
    }

    /// Write down what is about to be done, should it not come back.
    pub fn note(&mut self, act: &Act, env: &Env, mem: &Mem) {
        if let Some(j) = &self.journal {
            let b = &mut self.coded;
            b.clear();
            encode_to(act, env, mem, b);
            let n = b.len().min(j.len - 8);
            unsafe {
                std::ptr::copy_nonoverlapping(b.as_ptr(), j.base.add(8), n);
                std::ptr::write_volatile(j.base as *mut u64, n as u64);
            }
        }
        let now = self.shared.started.elapsed().as_micros() as u64 + 1;
        self.shared.beats[self.index].store(now, Ordering::Relaxed);
    }

    pub fn done(&mut self) {
        self.shared.beats[self.index].store(0, Ordering::Relaxed);
    }

    pub fn violation(&mut self, act: &Act, env: &Env, mem: &Mem, summary: String) {
        self.violation_known(act, env, mem, summary, None)
    }

    pub fn violation_known(
        &mut self,
        act: &Act,
        env: &Env,
        mem: &Mem,
        summary: String,
        known: Option<String>,
    ) {
        let mut all = self.shared.violations.lock().unwrap();
        let same = all.iter().filter(|v| v.known == known).count();
        if same < 40 {
            let case = Case { act: act.clone(), env: env.clone(), mem: mem.clone() };
            let summary = format!("[{}] {}", self.label, summary);
            all.push(Violation { summary, case: case.encode(), known: known.clone() });
        } else if known.is_none() {
            self.shared.stop.store(true, Ordering::Relaxed);
        }
    }

    /// Count what has been run on once.
    pub fn remember(&mut self, mem: &Mem, env: &Env, salt: u64) -> u64 {
        let mut h = mem.hash() ^ salt.wrapping_mul(0x9E3779B97F4A7C15);
        if *env != Env::default() {
            for v in [env.shift, env.tail, env.cut.unwrap_or(u64::MAX), env.chunk as u64] {
                h = (h ^ v).wrapping_mul(0xff51afd7ed558ccd).rotate_left(31);
            }
            for v in [env.fill, env.choppy as u8, env.kind] {
                h = (h ^ v as u64).wrapping_mul(0xff51afd7ed558ccd).rotate_left(31);
            }
            for (k, d) in &env.devs {
                h = (h ^ (*k as u64) << 8 ^ *d as u64).wrapping_mul(0xff51afd7ed558ccd);
                h = h.rotate_left(31);
            }
        }
        h ^= h >> 32;
        h = h.wrapping_mul(0xc4ceb9fe1a85ec53);
        h ^= h >> 29;
        if self.states.len() < STATES {
            note(&mut self.states, h);
        } else {
            self.stats.count("runs not looked up among the states, the table being full", 1);
        }
        h
    }

    /// The model's verdict on a file that ends at `limit`.
    pub fn expect(&mut self, root: Root, mem: &mut Mem, limit: u64) -> Expected {
        let taken = std::mem::replace(mem, self.mem.take().unwrap_or_else(Mem::new));
        let mut r = R::parse(taken, build_cfg());
        r.limit = limit;
        r.max_out = self.max_out;
        r.out = std::mem::take(&mut self.scratch);
        r.out.clear();
        let result = spec::run(&mut r, root);
        let dummy = std::mem::replace(mem, r.mem);
        self.mem = Some(dummy);
        Expected { result, out: r.out, zero: r.zero }
    }

    pub fn recycle(&mut self, e: Expected) {
        if e.out.capacity() <= 1 << 16 {
            self.scratch = e.out;
        }
    }

    /// Let the library read a table.
    pub fn read(&mut self, root: Root, env: &Env, mem: &Mem, out: &mut Vec<Tok>) -> Result<(), Outcome> {
        self.note(&Act::Table(root), env, mem);
        let mut tape = env.tape(mem);
        alloc::start(2 << 30);
        let result = real::outcome(root, &mut tape, out);
        alloc::peak(0);
        self.stats.runs += 1;
        self.stats.bytes += tape.delivered;
        self.done();
        let h = self.remember(mem, env, root_code(root) as u64);
        if self.record.is_some() {
            let outcome = match &result {
                Ok(()) => hash_tokens(out) | 1,
                Err(_) => 0,
            };
            let mask = self.record_mask;
            let record = self.record.as_mut().unwrap();
            if h >> 32 & mask == 0 {
                record.push((h, outcome));
            }
            if record.len() >= RECORD {
                self.record_mask = 2 * mask + 1;
                let mask = self.record_mask;
                record.retain(|(h, _)| h >> 32 & mask == 0);
                self.stats.max("outcomes compared between builds, one in", mask + 1);
            }
            if self.find == Some(h) {
                let text = "what this build makes of it is not what others do".to_string();
                self.violation(&Act::Table(root), env, mem, text);
            }
        }
        result
    }

    /// Compare the library's reading of a file with the model's.
    pub fn compare(&mut self, root: Root, env: &Env, mem: &mut Mem) {
        let limit = env.cut.unwrap_or(mem.len());
        let expected = self.expect(root, mem, limit);
        self.compare_with(root, env, mem, &expected, self.shared.judge);
        self.recycle(expected);
    }

    pub fn compare_with(
        &mut self,
        root: Root,
        env: &Env,
        mem: &Mem,
        expected: &Expected,
        judge: u32,
    ) {
        if expected.result == Err(Bad::Budget) {
            self.stats.skipped += 1;
            return;
        }
        if expected.result == Err(Bad::Unspecified)
            && judge & judge::PANIC == 0
            && self.record.is_none()
        {
            // Whatever comes of it is fine.
            self.stats.unspecified += 1;
            return;
        }
        let mut out = OUT.with(|o| std::mem::take(&mut *o.borrow_mut()));
        let got = self.read(root, env, mem, &mut out);
        if let Some(text) = disagree(expected, &got, &out, judge) {
            self.violation(&Act::Table(root), env, mem, format!("{root:?}: {text}"));
        }
        match &expected.result {
            Ok(()) => self.stats.count("model: value", 1),
            Err(Bad::Malformed) => self.stats.count("model: malformed", 1),
            Err(Bad::Eof) => self.stats.count("model: truncated", 1),
            Err(_) => self.stats.unspecified += 1,
        }
        if got.is_ok() && self.outcomes.len() < 4_000_000 {
            note(&mut self.outcomes, hash_tokens(&out));
        }
        if out.capacity() <= 1 << 16 {
            OUT.with(|o| *o.borrow_mut() = out);
        }
    }

    pub fn sample(&self, key: &str, f: impl FnOnce() -> String) {
        let mut all = self.shared.samples.lock().unwrap();
        if all.len() < 40 && !all.contains_key(key) {
            all.insert(key.to_string(), f());
        }
    }
}

thread_local! {
    static OUT: std::cell::RefCell<Vec<Tok>> = const { std::cell::RefCell::new(vec![]) };
}

/// The disagreement, if any, that a check with these demands objects to.
pub fn disagree(
    expected: &Expected,
    got: &Result<(), Outcome>,
    out: &[Tok],
    judge: u32,
) -> Option<String> {
    if let Err(Outcome::Panic(m)) = got {
        let blamed = judge & judge::PANIC != 0
            || expected.result.is_ok() && judge & judge::FAITHFUL != 0
            || expected.result == Err(Bad::Malformed) && judge & judge::REJECT != 0
            || expected.result == Err(Bad::Eof) && judge & judge::EOF != 0;
        return if blamed { Some(format!("panicked: {m}")) } else { None };
    }
    match (&expected.result, got) {
        (Ok(()), Ok(())) if judge & judge::FAITHFUL != 0 => {
            if expected.out == out {
                return None;
            }
            let i = expected.out.iter().zip(out).take_while(|(a, b)| a == b).count();
            let from = i.saturating_sub(3);
            Some(format!(
                "decoded to another value (item {i}): expected .. {} .., got .. {} ..",
                real::tokens(&expected.out[from..expected.out.len().min(i + 8)]),
                real::tokens(&out[from..out.len().min(i + 8)]),
            ))
        }
        (Ok(()), Err(e)) if judge & judge::FAITHFUL != 0 => {
            Some(format!("a well-formed table was not decoded: {}", e.brief()))
        }
        (Err(Bad::Malformed), Ok(())) if judge & judge::REJECT != 0 => {
            Some(format!("a malformed table was decoded: {}", real::tokens(out)))
        }
        (Err(Bad::Eof), Ok(())) if judge & judge::EOF != 0 => {
            Some(format!("a truncated table was decoded: {}", real::tokens(out)))
        }
        _ => None,
    }
}
