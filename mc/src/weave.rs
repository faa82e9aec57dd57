//! Two readings at the same time: one inside of the other, or in two threads in turn.
//!
//! The operations of the streams are the points at which control may pass from one reading to the
//! other. A process explores on its own, as what would be shared by two readings is shared by all of
//! those in a process.

use crate::case::{Act, Env};
use crate::checks::{small, Plan};
use crate::ctx::Ctx;
use crate::emit::Tok;
use crate::explore;
use crate::fonts::*;
use crate::mem::Mem;
use crate::real::{self, Outcome};
use crate::spec::Root;
use crate::tape::Tape;
use opentype::File;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone)]
enum What {
    Table(Root),
    Fonts(Vec<u16>),
}

#[derive(Clone)]
pub struct Program {
    what: What,
    /// Programs of one group have most in common.
    group: usize,
    mem: Mem,
}

type Results = Vec<Result<Vec<Tok>, Outcome>>;

impl Program {
    fn name(&self) -> String {
        match &self.what {
            What::Table(root) => format!("{root:?}"),
            What::Fonts(ops) => ops.iter().map(|o| op_name(*o)).collect::<Vec<_>>().join(" "),
        }
    }

    /// Run, calling `hook` in front of each operation of the stream.
    fn run(&self, hook: Option<&dyn Fn(u32)>, shared: Option<&File>) -> (Results, u32) {
        let mut tape = Tape::new(&self.mem);
        tape.hook = hook;
        let results = match &self.what {
            What::Table(root) => {
                let mut out = vec![];
                vec![match real::outcome(*root, &mut tape, &mut out) {
                    Ok(()) => Ok(out),
                    Err(error) => Err(error),
                }]
            }
            What::Fonts(ops) => {
                let mut file = None;
                ops.iter()
                    .map(|op| {
                        let mut out = vec![];
                        let result = real::guard(|| match shared {
                            Some(file) => ask(*op, file, &mut tape, &mut out),
                            None => perform(*op, &mut file, &mut tape, &mut out),
                        });
                        match result {
                            Ok(Ok(())) => Ok(out),
                            Ok(Err(error)) => Err(Outcome::Error(error.kind())),
                            Err(message) => Err(Outcome::Panic(message)),
                        }
                    })
                    .collect()
            }
        };
        (results, tape.ops)
    }
}

fn fonts() -> Vec<Vec<u8>> {
    let all = [GDEF, CPAL, GSUB, GPOS, FVAR];
    let font = |seed: u8, damaged: bool| {
        let mut entries: Vec<Entry> =
            all.iter().map(|t| entry(TAGS[*t as usize], &small(*t, seed))).collect();
        if damaged {
            entries[1].checksum = Some(0x12345678);
        }
        build(&entries).segs[0].data.clone()
    };
    vec![font(1, false), font(2, false), font(3, true)]
}

/// Tables and fonts to read, and how many of them there are of tables.
fn pool() -> Vec<Program> {
    let mut all: Vec<Program> = vec![];
    for (group, f) in crate::checks::everything().into_iter().enumerate() {
        let mut own: Vec<Mem> = vec![];
        for profile in [explore::wide(0), explore::shapes(0)] {
            let (r, result) = explore::generate(&f, &profile, &[], false);
            if result.is_ok() && !own.iter().any(|m| m.hash() == r.mem.hash()) {
                own.push(r.mem);
            }
        }
        let twin = twin(f.root, &own[0]);
        own.insert(1, twin);
        let bytes = &own[0].segs[0].data;
        own.push(Mem::from_bytes(&bytes[..bytes.len() - 1]));
        // Other flags, formats, and counts.
        let mut departures = 0;
        let profile = explore::wide(1);
        for prefix in explore::seeds(&f, &profile) {
            let (r, result) = explore::generate(&f, &profile, &prefix, false);
            if result.is_ok() && !own.iter().any(|m| m.hash() == r.mem.hash()) {
                own.push(r.mem);
                departures += 1;
            }
            if departures == 6 {
                break;
            }
        }
        for mem in own {
            all.push(Program { what: What::Table(f.root), group, mem });
        }
    }
    for bytes in fonts() {
        for t in [GDEF, CPAL, GSUB, GPOS, FVAR] {
            let ops = vec![OPEN, EXISTS | t, POSITION | t, TAKE | t];
            all.push(Program { what: What::Fonts(ops), group: 1000, mem: Mem::from_bytes(&bytes) });
        }
    }
    all
}

/// The same shape with other content.
fn twin(root: Root, mem: &Mem) -> Mem {
    let mut twin = mem.clone();
    for a in explore::accesses(root, mem) {
        if a.what == crate::spec::What::Leaf {
            for k in 0..a.width as u64 {
                let v = twin.byte(a.at + k);
                twin.set(a.at + k, v.wrapping_mul(5).wrapping_add(0x35));
            }
        }
    }
    twin
}

/// Tables of a kind with one long list each, and the same with other content.
fn long_pool(group: usize, f: &explore::Family) -> Vec<[Program; 2]> {
    let mut all = vec![];
    for count in [70, 1100] {
        let profile = explore::long(vec![1, count], 1);
        for prefix in explore::seeds(f, &profile) {
            let (r, result) = explore::generate(f, &profile, &prefix, false);
            if result.is_err() || r.mem.segs.len() != 1 || r.mem.len() > 1 << 17 {
                continue;
            }
            let other = twin(f.root, &r.mem);
            let what = What::Table(f.root);
            let one = Program { what: what.clone(), group, mem: r.mem };
            let pair = [one, Program { what, group, mem: other }];
            if pair[0].run(None, None).1 < 60_000 {
                all.push(pair);
            }
        }
    }
    all
}

/// Places in a reading: all in a short one, and else both ends and a grid in between.
fn places(ops: u32, grid: u32) -> Vec<u32> {
    let mut all: Vec<u32> = (0..ops)
        .filter(|k| *k < 4 || k + 4 >= ops || ops <= grid || k % (ops / grid) == 0)
        .collect();
    all.dedup();
    all
}

/// Readings on one font, each with a stream of its own.
fn shared_pool() -> Vec<Program> {
    let mut all = vec![];
    for bytes in fonts() {
        for t in [GDEF, CPAL, GSUB, GPOS, FVAR] {
            for ops in [vec![TAKE | t], vec![POSITION | t, EXISTS | t]] {
                all.push(Program { what: What::Fonts(ops), group: 0, mem: Mem::from_bytes(&bytes) });
            }
        }
    }
    all
}

// Ways of running two programs

/// The second one as a whole, in front of an operation of the first one.
fn nested(a: &Program, b: &Program, at: u32, shared: Option<&File>) -> (Results, Results) {
    let inner = std::cell::RefCell::new(vec![]);
    let hook = |k: u32| {
        if k == at {
            let results = b.run(None, shared).0;
            *inner.borrow_mut() = results;
        }
    };
    let outer = a.run(Some(&hook), shared).0;
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    (outer, inner.into_inner())
}

/// Whose turn it is, and who has ended.
struct Baton {
    turn: AtomicUsize,
    done: [AtomicBool; 2],
}

impl Baton {
    fn ended(&self, who: usize) -> bool {
        self.done[who].load(Ordering::Acquire)
    }

    fn pass(&self, to: usize) {
        self.turn.store(to, Ordering::Release);
    }

    fn wait(&self, me: usize) {
        let mut spins = 0u32;
        while self.turn.load(Ordering::Acquire) != me {
            spins += 1;
            if spins < 200 {
                std::hint::spin_loop();
            } else {
                std::thread::yield_now();
            }
        }
    }
}

/// Control passes to the other one in front of these operations, and where a reading ends.
struct Schedule<'a> {
    programs: [&'a Program; 2],
    switches: [Vec<u32>; 2],
}

/// Two threads that run one schedule after another; the first reading starts.
fn in_turn(all: &[Schedule], each: &mut dyn FnMut(usize, [Results; 2])) {
    let baton = Baton { turn: AtomicUsize::new(0), done: Default::default() };
    let second = Mutex::new(None);
    let (baton, second) = (&baton, &second);
    let side = move |me: usize, s: &Schedule| {
        let other = 1 - me;
        let hook = |k: u32| {
            if s.switches[me].contains(&k) && !baton.ended(other) {
                baton.pass(other);
                baton.wait(me);
            }
        };
        s.programs[me].run(Some(&hook), None).0
    };
    std::thread::scope(|scope| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(scope, move || {
                for s in all {
                    baton.wait(1);
                    let results = side(1, s);
                    *second.lock().unwrap() = Some(results);
                    baton.done[1].store(true, Ordering::Release);
                    baton.pass(0);
                }
            })
            .unwrap();
        for (n, s) in all.iter().enumerate() {
            baton.done[0].store(false, Ordering::Release);
            baton.done[1].store(false, Ordering::Release);
            let first = side(0, s);
            baton.done[0].store(true, Ordering::Release);
            if !baton.ended(1) {
                baton.pass(1);
                baton.wait(0);
            }
            let results = second.lock().unwrap().take().unwrap();
            PROGRESS.fetch_add(1, Ordering::Relaxed);
            each(n, [first, results]);
        }
    });
}

// Exploration

fn number(mode: u64, i: usize, j: usize, a: u32, b: u32) -> u64 {
    mode << 60 | (i as u64) << 46 | (j as u64) << 32 | (a as u64) << 16 | b as u64
}

fn brief(r: &Results) -> String {
    let all: Vec<String> = r
        .iter()
        .map(|r| match r {
            Ok(v) => real::tokens(v),
            Err(e) => e.brief(),
        })
        .collect();
    let text = all.join("; ");
    text.chars().take(400).collect()
}

fn differ(names: [&Program; 2], got: [&Results; 2], base: [&Results; 2], how: &str) -> Option<String> {
    for k in 0..2 {
        if got[k] != base[k] {
            return Some(format!(
                "{} and {} {how}: the {} gives {} and not {}",
                names[0].name(),
                names[1].name(),
                ["first", "second"][k],
                brief(got[k]),
                brief(base[k])
            ));
        }
    }
    None
}

static PROGRESS: AtomicUsize = AtomicUsize::new(0);

/// End a process in which two readings wait for each other.
fn watch() {
    let mut last = usize::MAX;
    loop {
        std::thread::sleep(std::time::Duration::from_secs(30));
        let now = PROGRESS.load(Ordering::Relaxed);
        if now == last {
            std::process::exit(crate::worker::STUCK);
        }
        last = now;
    }
}

/// A slice of the exploration, in a process of its own; a line for each thing to be known.
pub fn slice(tier: &str, part: usize, parts: usize) -> i32 {
    real::install_hook();
    std::thread::spawn(watch);
    let thorough = tier == "thorough";
    let all = pool();
    let base: Vec<(Results, u32)> = all.iter().map(|p| p.run(None, None)).collect();
    let mut found = 0;
    let (mut runs, mut switches) = (0u64, 0u64);
    let mut report = |number: u64, text: String| {
        println!("violation\t{number}\t{}", text.replace(['\n', '\t'], " "));
        found += 1;
        found < 20
    };
    let mut go = true;
    let n = all.len();
    // One inside of the other, everywhere.
    'nested: for i in 0..n {
        if i % parts != part {
            continue;
        }
        for j in 0..n {
            // Tables of other kinds are represented by two each.
            let near = all[i].group == all[j].group;
            if !near && !thorough && j > 0 && all[j - 1].group == all[j].group
                && (j < 2 || all[j - 2].group == all[j].group) && all[j].group < 1000
            {
                continue;
            }
            for at in 0..base[i].1 {
                let (a, b) = nested(&all[i], &all[j], at, None);
                runs += 2;
                switches += 2;
                if let Some(text) =
                    differ([&all[i], &all[j]], [&a, &b], [&base[i].0, &base[j].0], "inside")
                {
                    go = report(number(0, i, j, at, 0), text);
                    if !go {
                        break 'nested;
                    }
                }
            }
        }
    }
    // One font, and two streams.
    let shared = shared_pool();
    for i in 0..shared.len() {
        if i % parts != part || !go {
            continue;
        }
        for j in 0..shared.len() {
            if shared[i].mem.hash() != shared[j].mem.hash() {
                continue;
            }
            let file = File::read(&mut Tape::new(&shared[i].mem)).unwrap();
            let (first, ops) = shared[i].run(None, Some(&file));
            let (second, _) = shared[j].run(None, Some(&file));
            for at in 0..ops {
                let (a, b) = nested(&shared[i], &shared[j], at, Some(&file));
                runs += 2;
                switches += 2;
                if let Some(text) =
                    differ([&shared[i], &shared[j]], [&a, &b], [&first, &second], "on one font, inside")
                {
                    go = report(number(2, i, j, at, 0), text) && go;
                }
            }
        }
    }
    // Long tables of one kind, one inside of the other.
    for (group, f) in crate::checks::everything().into_iter().enumerate() {
        if group % parts != part || !go {
            continue;
        }
        let grid = if thorough { 400 } else { 24 };
        for (k, pair) in long_pool(group, &f).iter().enumerate() {
            let alone = [pair[0].run(None, None), pair[1].run(None, None)];
            for (i, j) in [(0, 1), (0, 0), (1, 0)] {
                for at in places(alone[i].1, grid) {
                    let (a, b) = nested(&pair[i], &pair[j], at, None);
                    runs += 2;
                    switches += 2;
                    let names = [&pair[i], &pair[j]];
                    if let Some(text) = differ(names, [&a, &b], [&alone[i].0, &alone[j].0], "inside") {
                        let at = at | (2 * i as u32 + j as u32) << 16;
                        go = report(4 << 60 | (group as u64) << 46 | (k as u64) << 32 | at as u64, text) && go;
                        break;
                    }
                }
            }
        }
    }
    // In two threads, control passing up to three times.
    for i in 0..n {
        if i % parts != part || !go {
            continue;
        }
        for j in 0..n {
            let near = all[i].group == all[j].group;
            let few = j % 5 == i % 5;
            if !near && !(thorough && few) {
                continue;
            }
            let (most_i, most_j) = (base[i].1, base[j].1);
            // Long readings, on a grid in quick runs.
            let step = |most: u32| if thorough { 1 } else { 1 + most / 24 };
            let mut plan: Vec<(u32, u32)> = vec![];
            let mut a = 0;
            while a < most_i {
                let mut b = 0;
                while b < most_j {
                    plan.push((a, b));
                    b += if near { step(most_j) } else { most_j.max(1) };
                }
                plan.push((a, most_j));
                a += step(most_i);
            }
            let schedules: Vec<Schedule> = plan
                .iter()
                .map(|(a, b)| Schedule {
                    programs: [&all[i], &all[j]],
                    switches: [vec![*a], vec![*b]],
                })
                .collect();
            let mut stop = false;
            in_turn(&schedules, &mut |k, [x, y]| {
                runs += 2;
                switches += 3;
                if stop {
                    return;
                }
                if let Some(text) =
                    differ([&all[i], &all[j]], [&x, &y], [&base[i].0, &base[j].0], "in two threads")
                {
                    stop = !report(number(1, i, j, plan[k].0, plan[k].1), text);
                }
            });
            if stop {
                go = false;
                break;
            }
        }
    }
    println!("runs\t{runs}");
    println!("switches\t{switches}");
    println!("end");
    0
}

const PARTS: usize = 64;

pub fn plan(p: &mut Plan) {
    let tier = if p.thorough { "thorough" } else { "quick" };
    for part in 0..PARTS {
        p.push("schedules", move |ctx| slice_of(ctx, tier, part));
    }
}

/// The number of a slice that did not come to its end.
const SLICE: u64 = 3 << 60;

fn slice_of(ctx: &mut Ctx, tier: &str, part: usize) {
    let me = match std::env::current_exe() {
        Ok(me) => me,
        Err(_) => std::process::exit(2),
    };
    let output = std::process::Command::new(me)
        .args(["slice", tier, &part.to_string(), &PARTS.to_string()])
        .output();
    let output = match output {
        Ok(output) => output,
        Err(_) => std::process::exit(2),
    };
    let text = String::from_utf8_lossy(&output.stdout).into_owned();
    let none = Mem::from_bytes(&[]);
    let mut complete = false;
    for line in text.lines() {
        let f: Vec<&str> = line.split('\t').collect();
        match f[..] {
            ["violation", number, text] => {
                let number = number.parse().unwrap_or(0);
                ctx.violation(&Act::Other(number), &Env::default(), &none, text.to_string());
            }
            ["runs", n] => {
                let n: u64 = n.parse().unwrap_or(0);
                ctx.stats.runs += n;
                ctx.stats.count("schedules", n / 2);
                // Each schedule is one of its kind.
                ctx.stats.distinct += n / 2;
            }
            ["switches", n] => ctx.stats.steps += n.parse().unwrap_or(0),
            ["end"] => complete = true,
            _ => {}
        }
    }
    if !complete {
        let text = format!("a process that reads two tables at a time ended with {}", output.status);
        ctx.violation(&Act::Other(SLICE | part as u64), &Env::default(), &none, text);
    }
}

/// One schedule once more.
pub fn again(ctx: &mut Ctx, number: u64) {
    if number >> 60 == 3 {
        slice_of(ctx, "quick", (number & 0xFFFF) as usize);
        return;
    }
    let (i, j) = ((number >> 46 & 0x3FFF) as usize, (number >> 32 & 0x3FFF) as usize);
    let (a, b) = ((number >> 16 & 0xFFFF) as u32, (number & 0xFFFF) as u32);
    if number >> 60 == 4 {
        let all = crate::checks::everything();
        if let Some(pair) = all.get(i).and_then(|f| long_pool(i, f).into_iter().nth(j)) {
            let (p, q) = (&pair[a as usize >> 1 & 1], &pair[a as usize & 1]);
            let base = [&p.run(None, None).0, &q.run(None, None).0];
            let (x, y) = nested(p, q, b, None);
            if let Some(text) = differ([p, q], [&x, &y], base, "inside") {
                ctx.violation(&Act::Other(number), &Env::default(), &Mem::from_bytes(&[]), text);
            }
        }
        return;
    }
    let all = if number >> 60 == 2 { shared_pool() } else { pool() };
    if i >= all.len() || j >= all.len() {
        return;
    }
    let (p, q) = (&all[i], &all[j]);
    let mut text = None;
    match number >> 60 {
        2 => {
            let file = File::read(&mut Tape::new(&p.mem)).unwrap();
            let base = [&p.run(None, Some(&file)).0, &q.run(None, Some(&file)).0];
            let (x, y) = nested(p, q, a, Some(&file));
            text = differ([p, q], [&x, &y], base, "on one font, inside");
        }
        mode => {
            let base = [&p.run(None, None).0, &q.run(None, None).0];
            if mode == 0 {
                let (x, y) = nested(p, q, a, None);
                text = differ([p, q], [&x, &y], base, "inside");
            } else {
                let one = [Schedule { programs: [p, q], switches: [vec![a], vec![b]] }];
                in_turn(&one, &mut |_, [x, y]| {
                    text = differ([p, q], [&x, &y], base, "in two threads");
                });
            }
        }
    }
    if let Some(text) = text {
        ctx.violation(&Act::Other(number), &Env::default(), &Mem::from_bytes(&[]), text);
    }
}
