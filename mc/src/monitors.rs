//! What is checked on an enumerated input.

use crate::alloc;
use crate::case::{Act, Env, KINDS};
use crate::ctx::{disagree, judge, Ctx, Expected};
use crate::emit::Tok;
use crate::explore::{self, Family};
use crate::mem::Mem;
use crate::real::{self, Outcome};
use crate::spec::{self, build_cfg, Bad, Root, What, R};
use crate::tape::Dev;
use std::cell::RefCell;

pub type Visit = fn(&mut Ctx, &Family, &mut Mem);

/// Agreement with the model.
pub fn diff(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    ctx.compare(f.root, &Env::default(), mem);
}

/// Agreement with the model for every word of the table taking every boundary value.
pub fn boundary(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    diff(ctx, f, mem);
    explore::sweep(ctx, f, mem, &|_| true, Some(&explore::BOUNDARY), &mut |c, f, m| diff(c, f, m));
}

/// Agreement with the model for every word taking every value.
pub fn every(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    explore::sweep(ctx, f, mem, &|_| true, None, &mut |c, f, m| diff(c, f, m));
}

pub fn every_scalar(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    let only = |w| matches!(w, What::Leaf | What::Pick);
    explore::sweep(ctx, f, mem, &only, None, &mut |c, f, m| diff(c, f, m));
}

pub fn every_count(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    explore::sweep(ctx, f, mem, &|w| w == What::Count, None, &mut |c, f, m| diff(c, f, m));
}

/// Every discriminator (format, version, constant, flags, lookup type) taking every value.
pub fn every_format(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    let only = |w| matches!(w, What::Format | What::Flags | What::Pick);
    explore::sweep(ctx, f, mem, &only, None, &mut |c, f, m| diff(c, f, m));
}

/// Every pair of words of a table, of the kinds asked for, taking every pair of values of a list.
pub fn word_pairs(
    ctx: &mut Ctx,
    f: &Family,
    mem: &mut Mem,
    only: &dyn Fn(What) -> bool,
    values: &[u16],
    visit: &mut dyn FnMut(&mut Ctx, &Family, &mut Mem),
) {
    let mut words = vec![];
    for a in explore::accesses(f.root, mem) {
        if only(a.what) {
            words.push(if a.width == 1 { a.at & !1 } else { a.at });
            if a.width == 4 {
                words.push(a.at + 2);
            }
        }
    }
    words.sort();
    words.dedup();
    for (i, a) in words.iter().enumerate() {
        let old = mem.u16(*a);
        for v in values {
            explore::set16(mem, *a, *v);
            for b in &words[i + 1..] {
                if *b < *a + 2 {
                    continue;
                }
                let other = mem.u16(*b);
                for w in values {
                    explore::set16(mem, *b, *w);
                    visit(ctx, f, mem);
                }
                explore::set16(mem, *b, other);
            }
            if ctx.stopped() {
                break;
            }
        }
        explore::set16(mem, *a, old);
    }
}

/// Agreement with the model for every pair of words taking every pair of certain values.
pub fn any_pair(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    const V: [u16; 7] = [0, 1, 2, 3, 0x7FFF, 0x8000, 0xFFFF];
    word_pairs(ctx, f, mem, &|_| true, &V, &mut |c, f, m| diff(c, f, m));
}

/// The same for scalars only, which take further values.
pub fn scalar_pair(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    const V: [u16; 14] = [
        0, 1, 2, 3, 0x7F, 0x80, 0xFF, 0x100, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF,
    ];
    let only = |w| matches!(w, What::Leaf | What::Pick | What::Flags);
    word_pairs(ctx, f, mem, &only, &V, &mut |c, f, m| diff(c, f, m));
}

/// Scalars in windows of neighbours taking every combination of few small values, as values that
/// are equal, adjacent, or in order may be treated in a way that unrelated ones are not.
pub fn small_world(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    let most = if ctx.thorough() { 300_000 } else { 30_000 };
    small_world_of(ctx, f, mem, &[0, 1, 2, 3, 0xFFFF], most);
    small_world_of(ctx, f, mem, &[0xFFFF, 0xFFFE, 0], most / 4);
}

fn small_world_of(ctx: &mut Ctx, f: &Family, mem: &mut Mem, domain: &[u16], most: usize) {
    let mut words = vec![];
    for a in explore::accesses(f.root, mem) {
        if matches!(a.what, What::Leaf | What::Flags) && a.width <= 2 {
            words.push(if a.width == 1 { a.at & !1 } else { a.at });
        }
    }
    words.sort();
    words.dedup();
    words.dedup_by(|b, a| *b < *a + 2);
    // As many values as the scalars there are admit; but three if there are too many scalars.
    let mut d = domain.len();
    while d > 3.min(domain.len()) && d.checked_pow(words.len() as u32).map_or(true, |n| n > most) {
        d -= 1;
    }
    let mut width = 1;
    while width < words.len() && d.pow(width as u32 + 1) <= most {
        width += 1;
    }
    let step = (width / 3).max(1);
    let mut from = 0;
    while from < words.len() {
        let to = (from + width).min(words.len());
        let window = &words[to.saturating_sub(width)..to];
        let old: Vec<u16> = window.iter().map(|a| mem.u16(*a)).collect();
        for n in 0..d.pow(window.len() as u32) {
            let mut k = n;
            for a in window {
                explore::set16(mem, *a, domain[k % d]);
                k /= d;
            }
            diff(ctx, f, mem);
            if n % 1000 == 0 && ctx.stopped() {
                break;
            }
        }
        for (a, v) in window.iter().zip(&old) {
            explore::set16(mem, *a, *v);
        }
        if to == words.len() {
            break;
        }
        from += step;
    }
}

/// The same with few values.
pub fn scalar_pair_coarse(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    const V: [u16; 5] = [0, 1, 0x7FFF, 0x8000, 0xFFFF];
    let only = |w| matches!(w, What::Leaf | What::Pick | What::Flags);
    word_pairs(ctx, f, mem, &only, &V, &mut |c, f, m| diff(c, f, m));
}

/// Every pair of neighbouring words taking every pair of boundary values.
pub fn neighbours(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    const V: [u16; 12] = [0, 1, 2, 3, 4, 0xFF, 0x100, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF];
    let n = mem.segs[0].data.len() as u64 / 2;
    for i in 0..n.saturating_sub(1) {
        let (a, b) = (2 * i, 2 * i + 2);
        let old = (mem.u16(a), mem.u16(b));
        for v in V {
            for w in V {
                explore::set16(mem, a, v);
                explore::set16(mem, b, w);
                diff(ctx, f, mem);
            }
        }
        explore::set16(mem, a, old.0);
        explore::set16(mem, b, old.1);
        if ctx.stopped() {
            return;
        }
    }
}

/// Where a file can be cut to some effect: everywhere, or around every item of a large table.
fn cuts(root: Root, mem: &Mem) -> Vec<u64> {
    let len = mem.len();
    if len <= 2048 {
        return (0..len).collect();
    }
    let mut all = vec![];
    for a in explore::accesses(root, mem) {
        for d in 0..=a.width as u64 {
            all.push((a.at + d).min(len));
        }
    }
    all.sort();
    all.dedup();
    all.retain(|c| *c < len);
    if all.len() > 6000 {
        let step = all.len() / 3000;
        let n = all.len();
        let mut i = 0;
        all.retain(|_| {
            i += 1;
            i < 1500 || i + 1500 > n || i % step == 0
        });
    }
    all
}

/// The file ending at every point.
pub fn truncate(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    diff(ctx, f, mem);
    for cut in cuts(f.root, mem) {
        let env = Env { cut: Some(cut), ..Env::default() };
        ctx.stats.count("truncations", 1);
        ctx.compare(f.root, &env, mem);
        if ctx.stopped() {
            return;
        }
    }
}

/// The exact file, and the one lacking its last byte.
pub fn exact(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    diff(ctx, f, mem);
    let len = mem.len();
    if len > 0 {
        let env = Env { cut: Some(len - 1), ..Env::default() };
        ctx.compare(f.root, &env, mem);
    }
}

pub const SHIFTS: [u64; 16] = [
    1,
    2,
    3,
    4,
    7,
    0x60,
    0xFFFE,
    0x1_0000,
    0x1_0001,
    0x7FFF_FFFE,
    0x8000_0000,
    0xFFFF_FFF0,
    0xFFFF_FFFF,
    0x1_0000_0000,
    0x1_0000_0005,
    0x100_0000_0001,
];

/// The table anywhere in a file with anything around it.
pub fn shift(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    let limit = mem.len();
    let expected = ctx.expect(f.root, mem, limit);
    if expected.result.is_ok() {
        for shift in SHIFTS {
            for (fill, tail) in [(0x00, 0), (0xFF, 0x10), (0x01, 0x20000)] {
                let env = Env { shift, fill, tail, ..Env::default() };
                ctx.stats.count("placements", 1);
                ctx.compare_with(f.root, &env, mem, &expected, judge::FAITHFUL);
            }
        }
    }
    ctx.recycle(expected);
}

/// Every fault at every operation.
pub fn faults(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    faults_with(ctx, f, mem, false)
}

pub fn faults_twice(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    faults_with(ctx, f, mem, true)
}

/// One run under deviations, held against the healthy one.
fn fault_against(
    ctx: &mut Ctx,
    root: Root,
    env: &Env,
    mem: &Mem,
    base: &(Result<(), Outcome>, Vec<Tok>),
    out: &mut Vec<Tok>,
) -> bool {
    // Whether a run came out like the healthy one.
    let same = |got: &Result<(), Outcome>, out: &[Tok]| match (&base.0, got) {
        (Ok(()), Ok(())) => out == base.1,
        (Err(a), Err(b)) => a == b,
        _ => false,
    };
    let act = Act::Table(root);
    ctx.note(&act, env, mem);
    let mut tape = env.tape(mem);
    let got = real::outcome(root, &mut tape, out);
    ctx.stats.runs += 1;
    ctx.stats.count("faults injected", env.devs.len() as u64);
    let text = match tape.hit {
        Some(Dev::Fail) => {
            let kind = KINDS[env.kind as usize];
            if got == Err(Outcome::Error(kind)) {
                None
            } else {
                Some(format!("a stream error of kind {kind:?} was not reported"))
            }
        }
        Some(_) => match &got {
            Err(Outcome::Error(_)) => None,
            Ok(()) if same(&got, out) => None,
            _ => Some("the end of the stream was not reported".to_string()),
        },
        None if same(&got, out) => None,
        None => Some("short or interrupted reads changed the result".to_string()),
    };
    if let Some(text) = text {
        let got = match got {
            Ok(()) => format!("value {}", real::tokens(out)),
            Err(e) => e.brief(),
        };
        ctx.done();
        ctx.violation(&act, env, mem, format!("{root:?}: {text}: {got}"));
        return false;
    }
    if tape.hit.is_some() {
        // Once the stream is well again, so is the result.
        tape.devs = &[];
        tape.hit = None;
        tape.pos = tape.shift;
        let again = real::outcome(root, &mut tape, out);
        ctx.stats.runs += 1;
        if !same(&again, out) {
            ctx.done();
            let text = format!("{root:?}: after a failed call the result is another one");
            ctx.violation(&act, env, mem, text);
            return false;
        }
    }
    ctx.done();
    ctx.remember(mem, env, crate::case::root_code(root) as u64);
    true
}

/// What a healthy stream gives, and which of its operations are reads.
fn fault_base(
    ctx: &mut Ctx,
    root: Root,
    mem: &mut Mem,
) -> Option<((Result<(), Outcome>, Vec<Tok>), Vec<bool>)> {
    let limit = mem.len();
    let expected = ctx.expect(root, mem, limit);
    if expected.result == Err(Bad::Budget) {
        return None;
    }
    let act = Act::Table(root);
    let mut out = vec![];
    let env = Env::default();
    let mut tape = env.tape(mem);
    tape.log = Some(vec![]);
    ctx.note(&act, &env, mem);
    let healthy = real::outcome(root, &mut tape, &mut out);
    ctx.done();
    let log = tape.log.take().unwrap();
    ctx.stats.runs += 1;
    if let Some(text) = disagree(&expected, &healthy, &out, judge::FAITHFUL) {
        ctx.violation(&act, &env, mem, format!("{root:?}: {text}"));
        return None;
    }
    ctx.recycle(expected);
    Some(((healthy, out), log))
}

/// One run on record, once more.
pub fn fault_once(ctx: &mut Ctx, f: &Family, env: &Env, mem: &mut Mem) {
    if let Some((base, _)) = fault_base(ctx, f.root, mem) {
        fault_against(ctx, f.root, env, mem, &base, &mut vec![]);
    }
}

fn faults_with(ctx: &mut Ctx, f: &Family, mem: &mut Mem, twice: bool) {
    let root = f.root;
    let (base, log) = match fault_base(ctx, root, mem) {
        Some(both) => both,
        None => return,
    };
    let mut out = vec![];
    let mut one =
        |ctx: &mut Ctx, env: &Env| -> bool { fault_against(ctx, root, env, mem, &base, &mut out) };
    for (chunk, choppy) in [(1, false), (1, true), (2, false), (3, true), (7, false)] {
        let env = Env { chunk, choppy, ..Env::default() };
        if !one(ctx, &env) {
            return;
        }
    }
    for (k, read) in log.iter().enumerate() {
        let k = k as u32;
        for kind in 0..KINDS.len() as u8 {
            if kind as u32 != k % KINDS.len() as u32 && !(twice && log.len() < 200) {
                continue;
            }
            let env = Env { devs: vec![(k, Dev::Fail)], kind, ..Env::default() };
            if !one(ctx, &env) {
                return;
            }
        }
        if *read {
            for d in [Dev::Interrupt, Dev::Short, Dev::End] {
                let env = Env { devs: vec![(k, d)], ..Env::default() };
                if !one(ctx, &env) {
                    return;
                }
            }
        }
    }
    if twice && log.len() <= 400 {
        for (i, read) in log.iter().enumerate() {
            if !*read || ctx.stopped() {
                continue;
            }
            for first in [Dev::Interrupt, Dev::Short] {
                // Each of these inserts an operation at most.
                for j in i + 1..=log.len() {
                    for second in [Dev::Fail, Dev::Interrupt, Dev::Short, Dev::End] {
                        let devs = vec![(i as u32, first), (j as u32, second)];
                        let env =
                            Env { devs, kind: ((i + j) % KINDS.len()) as u8, ..Env::default() };
                        if !one(ctx, &env) {
                            return;
                        }
                    }
                }
            }
        }
    }
}

/// The allowance of a call, and what each byte delivered adds to it.
pub const ALLOWANCE: u64 = 64 << 20;
pub const PER_BYTE: u64 = 1024;
/// An upper bound of what one record without any encoded byte takes in memory, including slack.
pub const PER_ZERO: u64 = 1536;

pub fn memory(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    memory_cut(ctx, f, mem, None);
}

/// Memory use over the table and over every truncation of it.
pub fn memory_cuts(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    memory_cut(ctx, f, mem, None);
    for cut in cuts(f.root, mem) {
        memory_cut(ctx, f, mem, Some(cut));
    }
}

pub fn memory_boundary(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    memory(ctx, f, mem);
    explore::sweep(ctx, f, mem, &|_| true, Some(&explore::BOUNDARY), &mut |c, f, m| memory(c, f, m));
}

pub fn memory_neighbours(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    const V: [u16; 9] = [0, 1, 2, 0x100, 0x3FFF, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF];
    let n = mem.segs[0].data.len() as u64 / 2;
    for i in 0..n {
        for j in i + 1..(i + 4).min(n) {
            let (a, b) = (2 * i, 2 * j);
            let old = (mem.u16(a), mem.u16(b));
            for v in V {
                for w in V {
                    explore::set16(mem, a, v);
                    explore::set16(mem, b, w);
                    memory(ctx, f, mem);
                }
            }
            explore::set16(mem, a, old.0);
            explore::set16(mem, b, old.1);
        }
        if ctx.stopped() {
            return;
        }
    }
}

/// The allowance exceeded, and the listed finding that accounts for it, if any does.
pub fn excess(root: Root, peak: u64, delivered: u64, zero: &[u64; 3]) -> Option<(String, Option<String>)> {
    let allowed = ALLOWANCE + PER_BYTE * delivered;
    if peak <= allowed {
        return None;
    }
    let text = format!("{root:?}: {peak} bytes of memory for {delivered} bytes of input");
    let total: u64 = zero.iter().sum();
    let sites: Vec<&str> =
        spec::ZERO_SITES.iter().zip(zero).filter(|(_, n)| **n > 0).map(|(s, _)| *s).collect();
    let known = if total > 0 && peak <= allowed.saturating_add(PER_ZERO.saturating_mul(total)) {
        Some(sites.join(" "))
    } else {
        None
    };
    Some((text, known))
}

pub fn memory_cut(ctx: &mut Ctx, f: &Family, mem: &mut Mem, cut: Option<u64>) {
    // How many records without any byte the table announces; those are a matter of their own.
    let limit = cut.unwrap_or(mem.len());
    let expected = ctx.expect(f.root, mem, limit);
    let zero = expected.zero;
    let budget = expected.result == Err(Bad::Budget);
    ctx.recycle(expected);
    let total: u64 = zero.iter().sum();
    // What is decoded in full from few bytes through sharing is not an announcement.
    if budget && total == 0 {
        ctx.stats.skipped += 1;
        return;
    }
    if budget || total > 3_000_000 {
        // The listed findings are demonstrated at moderate sizes.
        ctx.stats.count("tables of millions of records without bytes, not read", 1);
        return;
    }
    let env = Env { cut, ..Env::default() };
    let (peak, delivered) = measure(ctx, f.root, &env, mem);
    ctx.stats.max("peak bytes", peak);
    if delivered > 0 && total == 0 {
        let excess = peak.saturating_sub(1 << 20);
        ctx.stats.max("peak bytes above 1 MiB, per byte delivered", excess / delivered.max(1));
    }
    if let Some((text, known)) = excess(f.root, peak, delivered, &zero) {
        ctx.violation_known(&Act::Table(f.root), &env, mem, text, known);
    }
}

/// The whole of a long table, and parts of it.
pub fn memory_ends(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    memory_cut(ctx, f, mem, None);
    let len = mem.len();
    for cut in (2..34).step_by(2).chain([64, 100, 1000, 10000, len / 2, len.saturating_sub(1)]) {
        if cut < len {
            memory_cut(ctx, f, mem, Some(cut));
        }
    }
}

/// The findings on record, each with a table that shows it.
pub fn known_demonstrations(p: &mut crate::checks::Plan) {
    let words = |v: &[u16]| -> Vec<u8> { v.iter().flat_map(|w| w.to_be_bytes()).collect() };
    // A coverage of no glyph and classes of no range.
    let tail = [1u16, 0, 2, 0];
    let mut all: Vec<(&'static str, Root, Vec<u8>)> = vec![];
    let mut pairs = vec![2u16, 16, 0, 0, 20, 20, 600, 600];
    pairs.extend(tail);
    all.push((spec::ZERO_SITES[spec::PAIR], Root::GposType(2), words(&pairs)));
    // Lookups with many subtables that are one and the same.
    let lookup = |kind: u16, count: u16, table: &[u16]| {
        let mut all = vec![1u16, 4, kind, 0, count];
        all.extend(vec![6 + 2 * count; count as usize]);
        all.extend(table);
        words(&all)
    };
    let mut singles = vec![2u16, 8, 0, 65535];
    singles.extend(tail);
    let site = spec::ZERO_SITES[spec::SINGLE];
    all.push((site, Root::GposLookups, lookup(1, 10, &singles)));
    // Marks of no class attached to many bases, or to ligatures of many components.
    let site = spec::ZERO_SITES[spec::MATRIX];
    for kind in [4, 6] {
        let table = [1u16, 12, 12, 0, 16, 18, 1, 0, 0, 65535];
        all.push((site, Root::GposLookups, lookup(kind, 40, &table)));
    }
    let mut table = vec![1u16, 12, 12, 0, 16, 18, 1, 0, 0, 60];
    table.extend([122u16; 60]);
    table.extend([40000u16]);
    all.push((site, Root::GposType(5), words(&table)));
    for (site, root, bytes) in all {
        p.push("findings on record", move |ctx| {
            let f = explore::family(root, &[]);
            let mut mem = Mem::from_bytes(&bytes);
            ctx.max_out = 40_000_000;
            memory_cut(ctx, &f, &mut mem, None);
            ctx.max_out = spec::MAX_OUT;
            ctx.sample(site, || format!("{site}: {bytes:02x?}").chars().take(300).collect());
        });
    }
}

/// The peak of memory held while reading, and the number of bytes delivered.
pub fn measure(ctx: &mut Ctx, root: Root, env: &Env, mem: &Mem) -> (u64, u64) {
    ctx.note(&Act::Table(root), env, mem);
    let mut tape = env.tape(mem);
    let base = alloc::start(2 << 30);
    let _ = real::guard(|| real::decode(root, &mut tape, None).is_ok());
    let peak = alloc::peak(base).max(0) as u64;
    ctx.stats.runs += 1;
    ctx.stats.bytes += tape.delivered;
    ctx.done();
    ctx.remember(mem, env, 0x23 ^ crate::case::root_code(root) as u64);
    (peak, tape.delivered)
}

thread_local! {
    static BASE: RefCell<Option<(String, Vec<Tok>)>> = const { RefCell::new(None) };
}

/// The model's value without the raw offsets.
fn stripped(r: &R) -> Vec<Tok> {
    let mut out = r.out.clone();
    for i in &r.offsets {
        out[*i as usize] = 0;
    }
    out
}

/// However its subtables are laid out, the table has the value of its plainest layout.
pub fn same_value(ctx: &mut Ctx, f: &Family, mem: &mut Mem, profile: &spec::Profile) {
    let key = format!("{} {} {:?} {:?}", f.name(), profile.name, profile.counts, profile.values);
    let known = BASE.with(|b| b.borrow().as_ref().map_or(false, |b| b.0 == key));
    if !known {
        let (r, result) = explore::generate(f, profile, &[], false);
        assert!(result.is_ok(), "no plain layout of {key}");
        let mut p = R::parse(r.mem, build_cfg());
        assert!(spec::run(&mut p, f.root).is_ok());
        BASE.with(|b| *b.borrow_mut() = Some((key, stripped(&p))));
    }
    let mut r = R::parse(mem.clone(), build_cfg());
    let result = spec::run(&mut r, f.root);
    if result.is_err() {
        return;
    }
    let value = stripped(&r);
    let equal = BASE.with(|b| b.borrow().as_ref().unwrap().1 == value);
    let expected = Expected { result, out: std::mem::take(&mut r.out), zero: [0; 3] };
    ctx.compare_with(f.root, &Env::default(), mem, &expected, judge::FAITHFUL);
    // Where distant subtables run into each other, bytes are shared and values may differ.
    let key = if equal { "layouts with the value of the plainest one" } else { "layouts that overlap" };
    ctx.stats.count(key, 1);
}

/// As `diff`, for tables of moderate size.
pub fn diff_small(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    ctx.max_out = 600_000;
    diff(ctx, f, mem);
    ctx.max_out = spec::MAX_OUT;
}

/// Read and use.
pub fn exercise(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    diff(ctx, f, mem);
    exercise_env(ctx, f.root, &Env::default(), mem);
}

pub fn exercise_env(ctx: &mut Ctx, root: Root, env: &Env, mem: &mut Mem) {
    ctx.max_out = 20_000;
    let limit = env.cut.unwrap_or(mem.len());
    let expected = ctx.expect(root, mem, limit);
    ctx.max_out = spec::MAX_OUT;
    let large = expected.result == Err(Bad::Budget);
    ctx.recycle(expected);
    if large {
        ctx.stats.skipped += 1;
        return;
    }
    let act = Act::Table(root);
    ctx.note(&act, env, mem);
    let mut tape = env.tape(mem);
    let got = real::guard(|| real::exercise(root, &mut tape).is_ok());
    ctx.stats.runs += 1;
    ctx.stats.bytes += tape.delivered;
    ctx.done();
    match got {
        Ok(true) => ctx.stats.count("values used", 1),
        Ok(false) => {}
        Err(message) => {
            ctx.violation(&act, env, mem, format!("{root:?}: panicked in use: {message}"));
        }
    }
}

pub fn exercise_boundary(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    explore::sweep(ctx, f, mem, &|_| true, Some(&explore::BOUNDARY), &mut |c, f, m| exercise(c, f, m));
}

/// Any two words of a table taking any two of these values.
pub fn pairs(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    const V: [u16; 8] = [0, 1, 2, 8, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF];
    let n = (mem.segs[0].data.len() as u64 / 2).min(40);
    for i in 0..n {
        for j in i + 1..n {
            let (a, b) = (2 * i, 2 * j);
            let old = (mem.u16(a), mem.u16(b));
            for v in V {
                explore::set16(mem, a, v);
                for w in V {
                    explore::set16(mem, b, w);
                    diff_small(ctx, f, mem);
                }
            }
            explore::set16(mem, a, old.0);
            explore::set16(mem, b, old.1);
        }
        if ctx.stopped() {
            return;
        }
    }
}

/// Any three words of a table taking any three of these values.
pub fn triples(ctx: &mut Ctx, f: &Family, mem: &mut Mem) {
    const V: [u16; 6] = [0, 1, 2, 0x7FFF, 0x8000, 0xFFFF];
    let n = (mem.segs[0].data.len() as u64 / 2).min(22);
    for i in 0..n {
        for j in i + 1..n {
            for k in j + 1..n {
                let at = [2 * i, 2 * j, 2 * k];
                let old = at.map(|a| mem.u16(a));
                for mut c in 0..V.len().pow(3) {
                    for a in at {
                        explore::set16(mem, a, V[c % V.len()]);
                        c /= V.len();
                    }
                    diff_small(ctx, f, mem);
                }
                for (a, v) in at.iter().zip(old) {
                    explore::set16(mem, *a, v);
                }
            }
            if ctx.stopped() {
                return;
            }
        }
    }
}
