//! The child: explores, and writes down what it has found.

use crate::case::{Act, Case};
use crate::checks::{self, Job};
use crate::ctx::{disagree, judge, Ctx, Journal, Seen, Shared, Stats, SLOT};
use crate::explore::family;
use crate::monitors;
use crate::{flags, fonts, histories, lookup, real, registry, weave};
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Write as _;
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const WORKERS: usize = 8;
/// How long one execution may take until it is looked into, in seconds.
const PATIENCE: u64 = 40;
/// The exit code of a child that got stuck.
pub const STUCK: i32 = 9;

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, o: i64) -> *mut u8;
}

fn open_journal(path: &str) -> Option<Vec<Journal>> {
    let len = SLOT * WORKERS;
    let file = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(true)
        .open(path)
        .ok()?;
    file.set_len(len as u64).ok()?;
    // PROT_READ | PROT_WRITE, MAP_SHARED.
    let base = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, file.as_raw_fd(), 0) };
    if base as isize == -1 {
        return None;
    }
    Some((0..WORKERS).map(|i| Journal { base: unsafe { base.add(i * SLOT) }, len: SLOT }).collect())
}

/// The cases in a journal.
pub fn read_journal(path: &str) -> Vec<Vec<u8>> {
    let bytes = std::fs::read(path).unwrap_or_default();
    bytes
        .chunks(SLOT)
        .filter_map(|s| {
            let n = u64::from_le_bytes(s.get(..8)?.try_into().ok()?) as usize;
            if n == 0 {
                return None;
            }
            Some(s.get(8..8 + n)?.to_vec())
        })
        .collect()
}

fn shared(prop: &str, thorough: bool, judge: u32) -> Shared {
    Shared {
        prop: prop.to_string(),
        thorough,
        judge,
        stop: AtomicBool::new(false),
        started: Instant::now(),
        violations: Mutex::new(vec![]),
        samples: Mutex::new(BTreeMap::new()),
        beats: (0..WORKERS).map(|_| AtomicU64::new(0)).collect(),
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(2 * b.len());
    for v in b {
        let _ = write!(s, "{v:02x}");
    }
    s
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

fn line(s: &str) -> String {
    s.replace(['\n', '\t', '\r'], " ")
}

pub fn child(prop: &str, tier: &str, out: &str, journal: &str) -> i32 {
    real::install_hook();
    let thorough = tier == "thorough";
    let (demands, plan) = match checks::plan(prop, thorough) {
        Some(plan) => plan,
        None => return 2,
    };
    let journals = match open_journal(journal) {
        Some(journals) => journals,
        None => return 2,
    };
    let shared = shared(prop, thorough, demands);
    let total = plan.jobs.len();
    // Labels for a profile of where the time goes.
    let verbose = std::env::var("MC_VERBOSE").is_ok();
    let wanted: Option<u64> = std::env::var("MC_FIND").ok().and_then(|s| s.parse().ok());
    let only = std::env::var("MC_ONLY").ok();
    let jobs: VecDeque<(String, Job)> = plan
        .jobs
        .into_iter()
        .filter(|(l, _)| only.as_ref().map_or(true, |o| l.contains(o.as_str())))
        .collect();
    let queue = Mutex::new(jobs);
    let times: Mutex<BTreeMap<String, (f64, u64)>> = Mutex::new(BTreeMap::new());
    let results: Mutex<Vec<(Stats, Seen, Seen, Vec<(u64, u64)>)>> = Mutex::new(vec![]);
    let finished = AtomicBool::new(false);
    let record = prop == "C21";
    std::thread::scope(|scope| {
        let (shared, queue, times, results) = (&shared, &queue, &times, &results);
        let mut handles = vec![];
        for (index, journal) in journals.into_iter().enumerate() {
            let builder = std::thread::Builder::new().stack_size(16 << 20);
            let handle = builder
                .spawn_scoped(scope, move || {
                    let mut ctx = Ctx::new(shared, index, Some(journal));
                    if record {
                        ctx.record = Some(vec![]);
                        ctx.find = wanted;
                    }
                    loop {
                        let job = queue.lock().unwrap().pop_front();
                        let (label, job) = match job {
                            Some(job) => job,
                            None => break,
                        };
                        if ctx.stopped() {
                            break;
                        }
                        ctx.label = label;
                        let from = Instant::now();
                        let runs = ctx.stats.runs;
                        if let Err(text) = real::guard(|| job(&mut ctx)) {
                            eprintln!("a worker panicked in {}: {text}", ctx.label);
                            std::process::exit(2);
                        }
                        if verbose {
                            let mut all = times.lock().unwrap();
                            let e = all.entry(ctx.label.clone()).or_default();
                            e.0 += from.elapsed().as_secs_f64();
                            e.1 += ctx.stats.runs - runs;
                        }
                        // What is kept per worker is kept small.
                        ctx.inputs.clear();
                    }
                    ctx.done();
                    let record = ctx.record.take().unwrap_or_default();
                    let all = (ctx.stats, ctx.states, ctx.outcomes, record);
                    results.lock().unwrap().push(all);
                })
                .unwrap();
            handles.push(handle);
        }
        let finished = &finished;
        scope.spawn(move || {
            while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                let now = shared.started.elapsed().as_micros() as u64;
                for beat in &shared.beats {
                    let at = beat.load(Ordering::Relaxed);
                    if at != 0 && now > at + PATIENCE * 1_000_000 {
                        std::process::exit(STUCK);
                    }
                }
            }
        });
        let mut broken = false;
        for handle in handles {
            broken |= handle.join().is_err();
        }
        finished.store(true, Ordering::Relaxed);
        if broken {
            eprintln!("a worker panicked");
            std::process::exit(2);
        }
    });
    // Merge.
    let mut stats = Stats::default();
    let mut states = Seen::default();
    let mut outcomes = Seen::default();
    let mut records: Vec<(u64, u64)> = vec![];
    for (s, st, o, r) in results.into_inner().unwrap() {
        stats.merge(s);
        if states.is_empty() {
            states = st;
        } else {
            states.extend(st);
        }
        outcomes.extend(o);
        records.extend(r);
    }
    let mut text = String::new();
    let _ = writeln!(text, "jobs\t{total}");
    let _ = writeln!(text, "runs\t{}", stats.runs);
    let _ = writeln!(text, "steps\t{}", stats.steps);
    let _ = writeln!(text, "bytes\t{}", stats.bytes);
    let _ = writeln!(text, "unspecified\t{}", stats.unspecified);
    let _ = writeln!(text, "skipped\t{}", stats.skipped);
    let _ = writeln!(text, "states\t{}", states.len() as u64 + stats.distinct);
    let _ = writeln!(text, "outcomes\t{}", outcomes.len());
    for (k, v) in &stats.counts {
        let _ = writeln!(text, "count\t{k}\t{v}");
    }
    for (k, v) in &stats.maxima {
        let _ = writeln!(text, "max\t{k}\t{v}");
    }
    for (k, v) in shared.samples.into_inner().unwrap() {
        let _ = writeln!(text, "sample\t{}\t{}", line(&k), line(&v));
    }
    for (k, (t, n)) in times.into_inner().unwrap() {
        let _ = writeln!(text, "time\t{}\t{t:.2}\t{n}", line(&k));
    }
    let stopped = shared.stop.load(Ordering::Relaxed);
    let _ = writeln!(text, "stopped\t{}", stopped as u8);
    for v in shared.violations.into_inner().unwrap() {
        let known = v.known.unwrap_or_default();
        let summary: String = line(&v.summary).chars().take(1500).collect();
        let _ = writeln!(text, "violation\t{known}\t{}\t{summary}", hex(&v.case));
    }
    if record {
        records.sort_unstable();
        records.dedup();
        let mut b = Vec::with_capacity(16 * records.len());
        for (h, o) in records {
            b.extend(h.to_le_bytes());
            b.extend(o.to_le_bytes());
        }
        if std::fs::write(format!("{out}.rec"), b).is_err() {
            return 2;
        }
    }
    let _ = writeln!(text, "end");
    if std::fs::write(out, text).is_err() {
        return 2;
    }
    0
}

/// Run one case once more; 1 if the property does not hold on it.
pub fn again(prop: &str, file: &str) -> i32 {
    real::install_hook();
    let case = match std::fs::read(file).ok().and_then(|b| Case::decode(&b)) {
        Some(case) => case,
        None => return 2,
    };
    let demands = match checks::plan(prop, false) {
        Some((demands, _)) => demands,
        None => return 2,
    };
    let shared = shared(prop, false, demands);
    let mut ctx = Ctx::new(&shared, 0, None);
    ctx.label = "again".into();
    let Case { act, env, mut mem } = case;
    match &act {
        Act::Table(root) => {
            let f = family(*root, &[]);
            match prop {
                "C16" => {
                    ctx.compare(*root, &env, &mut mem);
                    monitors::exercise_env(&mut ctx, *root, &env, &mut mem);
                }
                "C18" => {
                    monitors::fault_once(&mut ctx, &f, &env, &mut mem);
                }
                "C19" => {
                    let limit = mem.len();
                    let expected = ctx.expect(*root, &mut mem, limit);
                    ctx.compare_with(*root, &env, &mem, &expected, judge::FAITHFUL);
                }
                "C23" => monitors::memory_cut(&mut ctx, &f, &mut mem, env.cut),
                "C08" => unreachable!(),
                _ => {
                    ctx.compare(*root, &env, &mut mem);
                    print_comparison(&mut ctx, *root, &env, &mut mem);
                }
            }
        }
        Act::History(ops) => {
            let names: Vec<String> = ops.iter().take(60).map(|o| fonts::op_name(*o)).collect();
            println!("history: {}", names.join(", "));
            if prop == "C18" && !env.devs.is_empty() {
                histories::fault(&mut ctx, ops, &env, &mem);
            } else {
                fonts::history(&mut ctx, ops, &env, &mem, demands);
            }
        }
        Act::Other(number) => match prop {
            "C01" => {
                let tag = opentype::truetype::Tag((*number as u32).to_be_bytes());
                let known = [0x0001_0000u64, 0x4F54_544F, 0x7472_7565, 0x7479_7031, 0x7474_6366];
                if opentype::accept(&tag) != known.contains(number) {
                    ctx.violation(&act, &env, &mem, "the helper is wrong about it".into());
                }
            }
            "C08" => lookup::again(&mut ctx, *number, &mem),
            "C20" => histories::again(&mut ctx, *number),
            "C22" => {
                let (r, tag) = ((number >> 32) as usize, (*number as u32).to_be_bytes());
                let all = registry::golden();
                let known = all.iter().find(|e| e.registry == r && e.tag == tag);
                registry::check(&mut ctx, r, tag, known);
                registry::registered(&mut ctx);
            }
            "C29" => weave::again(&mut ctx, *number),
            "C27" => flags::check(&mut ctx, number >> 16, *number as u16),
            _ => return 2,
        },
    }
    let all = shared.violations.into_inner().unwrap();
    for v in &all {
        println!("{}{}", v.known.as_ref().map_or(String::new(), |k| format!("({k}) ")), v.summary);
    }
    if all.iter().any(|v| v.known.is_none()) {
        1
    } else if all.is_empty() {
        0
    } else {
        4
    }
}

fn print_comparison(ctx: &mut Ctx, root: crate::spec::Root, env: &crate::case::Env, mem: &mut crate::mem::Mem) {
    let limit = env.cut.unwrap_or(mem.len());
    let expected = ctx.expect(root, mem, limit);
    let mut out = vec![];
    let got = ctx.read(root, env, mem, &mut out);
    match &expected.result {
        Ok(()) => println!("model:   {}", real::tokens(&expected.out)),
        Err(bad) => println!("model:   {bad:?}"),
    }
    match &got {
        Ok(()) => println!("library: {}", real::tokens(&out)),
        Err(e) => println!("library: {}", e.brief()),
    }
    let text = disagree(&expected, &got, &out, judge::ALL);
    println!("verdict: {}", text.unwrap_or_else(|| "no objection".into()));
}
