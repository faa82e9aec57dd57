//! Histories: nothing that was done before has a bearing on what is done now.

use crate::case::{Act, Env, KINDS};
use crate::checks::{small, Plan};
use crate::ctx::{judge, Ctx};
use crate::emit::Tok;
use crate::explore::{self, Family};
use crate::fonts::*;
use crate::mem::Mem;
use crate::real::{self, Outcome};
use crate::spec::Root;
use crate::tape::{Dev, Tape};
use opentype::File;
use std::sync::Arc;

// Faults during a history

/// The number of stream operations of a history, and its healthy outcomes.
fn healthy(ops: &[u16], mem: &Mem, cut: Option<u64>) -> (Vec<Result<Vec<Tok>, Outcome>>, Vec<bool>) {
    let mut tape = Tape::new(mem);
    tape.len = cut.unwrap_or(tape.len);
    tape.log = Some(vec![]);
    let mut file = None;
    let all = ops.iter().map(|op| attempt(*op, &mut file, &mut tape)).collect();
    (all, tape.log.take().unwrap())
}

fn attempt(op: u16, file: &mut Option<File>, tape: &mut Tape) -> Result<Vec<Tok>, Outcome> {
    let mut out = vec![];
    match real::guard(|| perform(op, file, tape, &mut out)) {
        Ok(Ok(())) => Ok(out),
        Ok(Err(error)) => Err(Outcome::Error(error.kind())),
        Err(message) => Err(Outcome::Panic(message)),
    }
}

/// One history with deviations of the stream, compared with the healthy one.
pub fn fault(ctx: &mut Ctx, ops: &[u16], env: &Env, mem: &Mem) -> bool {
    let (base, _) = healthy(ops, mem, env.cut);
    fault_against(ctx, ops, env, mem, &base)
}

fn fault_against(
    ctx: &mut Ctx,
    ops: &[u16],
    env: &Env,
    mem: &Mem,
    base: &[Result<Vec<Tok>, Outcome>],
) -> bool {
    let act = Act::History(ops.to_vec());
    ctx.note(&act, env, mem);
    let mut tape = env.tape(mem);
    let mut file = None;
    let mut text = None;
    for (op, base) in ops.iter().zip(base) {
        let from = tape.pos;
        let got = attempt(*op, &mut file, &mut tape);
        ctx.stats.runs += 1;
        match tape.hit {
            None => {
                if got != *base && !excused(*op) {
                    text = Some(format!("{}: the deviations show", op_name(*op)));
                }
            }
            Some(dev) => {
                let kind = KINDS[env.kind as usize];
                let fine = match (dev, &got) {
                    (Dev::Fail, got) => *got == Err(Outcome::Error(kind)),
                    (_, Err(Outcome::Error(_))) => true,
                    (_, got) => got == base,
                };
                // How the decoders of other packages go about errors is not under test.
                if !fine && !excused(*op) {
                    text = Some(format!("{}: {dev:?} ({kind:?}) came out as {got:?}", op_name(*op)));
                } else {
                    tape.devs = &[];
                    tape.hit = None;
                    tape.pos = from;
                    let again = attempt(*op, &mut file, &mut tape);
                    ctx.stats.runs += 1;
                    if again != *base && !excused(*op) {
                        text = Some(format!("{}: repeated, it gives {again:?}", op_name(*op)));
                    }
                }
            }
        }
        if text.is_some() {
            break;
        }
    }
    ctx.done();
    ctx.remember(mem, env, ops.iter().fold(9, |h, o| (h ^ *o as u64).wrapping_mul(0x100000001b3)));
    match text {
        Some(text) => {
            ctx.violation(&act, env, mem, text);
            false
        }
        None => true,
    }
}

/// Every fault at every operation of the stream.
pub fn faults(ctx: &mut Ctx, ops: &[u16], mem: &Mem) {
    let (base, log) = healthy(ops, mem, None);
    for (k, read) in log.iter().enumerate() {
        let k = k as u32;
        for kind in 0..KINDS.len() as u8 {
            let env = Env { devs: vec![(k, Dev::Fail)], kind, ..Env::default() };
            ctx.stats.count("faults injected", 1);
            if !fault_against(ctx, ops, &env, mem, &base) {
                return;
            }
        }
        if *read {
            for d in [Dev::Interrupt, Dev::Short, Dev::End] {
                let env = Env { devs: vec![(k, d)], ..Env::default() };
                ctx.stats.count("faults injected", 1);
                if !fault_against(ctx, ops, &env, mem, &base) {
                    return;
                }
            }
        }
    }
    if log.len() < 120 || ctx.thorough() {
        // Two deviations: one that passes, and any other behind it.
        for (i, read) in log.iter().enumerate() {
            if !*read {
                continue;
            }
            for first in [Dev::Interrupt, Dev::Short] {
                for j in i + 1..log.len() {
                    for second in [Dev::Fail, Dev::Interrupt, Dev::Short, Dev::End] {
                        let devs = vec![(i as u32, first), (j as u32, second)];
                        let env = Env { devs, kind: ((i + j) % KINDS.len()) as u8, ..Env::default() };
                        ctx.stats.count("faults injected", 2);
                        if !fault_against(ctx, ops, &env, mem, &base) {
                            return;
                        }
                    }
                }
            }
        }
    }
}

// Tables after tables

/// A pool of tables, sound and unsound, of every kind.
pub fn pool() -> Vec<(Root, Mem)> {
    let mut all: Vec<(Root, Mem)> = vec![];
    for f in crate::checks::everything() {
        let mut own: Vec<Mem> = vec![];
        for profile in [explore::shapes(0), explore::wide(0), explore::scalars(0, 1)] {
            let (r, result) = explore::generate(&f, &profile, &[], false);
            if result.is_ok() && !own.iter().any(|m| m.hash() == r.mem.hash()) {
                own.push(r.mem);
            }
        }
        let mem = own.last().unwrap().clone();
        // The same shape with other content, at the same places.
        let mut twin = mem.clone();
        for a in explore::accesses(f.root, &mem) {
            if a.what == crate::spec::What::Leaf {
                for k in 0..a.width as u64 {
                    let v = twin.byte(a.at + k);
                    twin.set(a.at + k, v.wrapping_mul(5).wrapping_add(0x35));
                }
            }
        }
        own.push(twin);
        // Short by some.
        let bytes = &mem.segs[0].data;
        own.push(Mem::from_bytes(&bytes[..bytes.len() - bytes.len() / 3]));
        own.push(Mem::from_bytes(&bytes[..bytes.len() - 1]));
        // Of no known format.
        let mut bad = mem.clone();
        explore::set16(&mut bad, 0, 0x7707);
        own.push(bad);
        all.extend(own.into_iter().map(|m| (f.root, m)));
    }
    all
}

type Result1 = (Result<(), Outcome>, Vec<Tok>);

fn alone(root: Root, tape: &mut Tape) -> Result1 {
    let mut out = vec![];
    let got = real::outcome(root, tape, &mut out);
    (got, out)
}

/// Tables read one after another, each with the outcome it has in a process of its own making.
fn chain(ctx: &mut Ctx, all: &[(Root, Mem)], base: &[Result1], order: &[usize]) -> bool {
    let number = order.iter().fold(0u64, |n, i| n << 16 | (*i as u64 + 1));
    let (root, mem) = &all[*order.last().unwrap()];
    ctx.note(&Act::Other(number), &Env::default(), mem);
    let mut bad = None;
    for (k, i) in order.iter().enumerate() {
        let (root, mem) = &all[*i];
        let mut tape = Tape::new(mem);
        let got = alone(*root, &mut tape);
        ctx.stats.runs += 1;
        if got != base[*i] {
            bad = Some((k, got));
            break;
        }
    }
    ctx.done();
    ctx.remember(mem, &Env::default(), number);
    if let Some((k, got)) = bad {
        let names: Vec<String> = order[..=k].iter().map(|i| format!("{:?}", all[*i].0)).collect();
        let text = format!(
            "{}: the last one is {:?} and not {:?}",
            names.join(", "),
            brief(&got),
            brief(&base[order[k]])
        );
        let _ = root;
        ctx.violation(&Act::Other(number), &Env::default(), mem, text);
        return false;
    }
    true
}

fn brief(r: &Result1) -> String {
    match &r.0 {
        Ok(()) => real::tokens(&r.1),
        Err(e) => e.brief(),
    }
}

/// The outcome of each table as the model has it, or as a first read has it.
fn bases(ctx: &mut Ctx, all: &[(Root, Mem)]) -> Vec<Result1> {
    all.iter()
        .map(|(root, mem)| {
            let mut mem = mem.clone();
            let limit = mem.len();
            let expected = ctx.expect(*root, &mut mem, limit);
            match expected.result {
                Ok(()) => (Ok(()), expected.out),
                _ => alone(*root, &mut Tape::new(&mem)),
            }
        })
        .collect()
}

/// Two tables in one file, read in turn.
fn together(ctx: &mut Ctx, all: &[(Root, Mem)], base: &[Result1], i: usize, j: usize) -> bool {
    // The first one in front: a table that lacks its end would find some here.
    let (a, b) = (&all[i], &all[j]);
    if base[i].0.is_err() || a.1.segs.len() > 1 || b.1.segs.len() > 1 {
        return true;
    }
    let mut bytes = a.1.segs[0].data.clone();
    if bytes.len() % 2 == 1 {
        bytes.push(0);
    }
    let at = bytes.len() as u64;
    bytes.extend(&b.1.segs[0].data);
    let number = 1 << 63 | (i as u64 + 1) << 16 | (j as u64 + 1);
    let mem = Mem::from_bytes(&bytes);
    ctx.note(&Act::Other(number), &Env::default(), &mem);
    let mut tape = Tape::new(&mem);
    let mut bad = None;
    for (k, which) in [0, 1, 0, 1, 1, 0].into_iter().enumerate() {
        let (root, pos, base) = if which == 0 { (a.0, 0, &base[i]) } else { (b.0, at, &base[j]) };
        tape.pos = pos;
        let got = alone(root, &mut tape);
        ctx.stats.runs += 1;
        if got != *base {
            bad = Some((k, brief(&got), brief(base)));
            break;
        }
    }
    ctx.done();
    ctx.remember(&mem, &Env::default(), number);
    if let Some((k, got, base)) = bad {
        let text = format!("{:?} and {:?} in turn: read {k} gives {got} and not {base}", a.0, b.0);
        ctx.violation(&Act::Other(number), &Env::default(), &mem, text);
        return false;
    }
    true
}

pub fn again(ctx: &mut Ctx, number: u64) {
    let all = pool();
    let base = bases(ctx, &all);
    if number >> 63 != 0 {
        let (i, j) = ((number >> 16 & 0xFFFF) as usize - 1, (number & 0xFFFF) as usize - 1);
        together(ctx, &all, &base, i, j);
        return;
    }
    let order: Vec<usize> = (0..4)
        .rev()
        .map(|k| (number >> (16 * k) & 0xFFFF) as usize)
        .filter(|i| *i > 0)
        .map(|i| i - 1)
        .collect();
    chain(ctx, &all, &base, &order);
}

// Fonts

fn sound(seed: u8) -> Vec<Entry> {
    [GDEF, CPAL, GSUB, HEAD, GPOS].iter().map(|t| entry(TAGS[*t as usize], &small(*t, seed))).collect()
}

/// Fonts with one directory and various contents, and others.
fn fonts() -> Vec<Mem> {
    let mut all = vec![];
    let base = build(&sound(1));
    all.push(base.clone());
    // The same with other content at the same places, under right checksums.
    all.push(build(&sound(2)));
    // The same directory to the letter: words of tables in another order keep their sums.
    let mut twin = base.clone();
    let recs = directory(&base, base.len(), 0).unwrap().1;
    for r in &recs {
        // The glyph classes of one, the colors of another.
        let d = &mut twin.segs[0].data;
        let o = r.offset as usize;
        let delta = match &r.tag {
            b"GDEF" => Some((o + 12, o + 16)),
            b"CPAL" => Some((o + 8, o + 12)),
            b"GSUB" | b"GPOS" => Some((o + 12, o + 16)),
            _ => None,
        };
        if let Some((a, b)) = delta {
            // Add to one word what is taken from another.
            let v = u32::from_be_bytes(d[a..a + 4].try_into().unwrap()).wrapping_add(1);
            let w = u32::from_be_bytes(d[b..b + 4].try_into().unwrap()).wrapping_sub(1);
            d[a..a + 4].copy_from_slice(&v.to_be_bytes());
            d[b..b + 4].copy_from_slice(&w.to_be_bytes());
        }
    }
    all.push(twin);
    // One table damaged, one of no known version, one missing, one cut short.
    let mut mixed = sound(3);
    mixed[1].checksum = Some(0x12345678);
    mixed[2].data[1] = 9;
    mixed.pop();
    mixed.push(entry(TAGS[FVAR as usize], &small(FVAR, 3)[..20]));
    all.push(build(&mixed));
    // In reverse.
    let mut turned = sound(4);
    turned.reverse();
    all.push(build(&turned));
    // Two of each.
    let mut doubled = sound(5);
    doubled.extend(sound(6));
    all.push(build(&doubled));
    // None.
    all.push(build(&[]));
    // No font.
    all.push(Mem::from_bytes(b"ttcf\0\x01\0\0\0\0\0\x01"));
    all
}

fn tree(ctx: &mut Ctx, head: &[u16], alphabet: &[u16], depth: usize, mem: &Mem) {
    let n = alphabet.len();
    let mut ops = head.to_vec();
    let start = ops.len();
    for k in 0..n.pow(depth as u32) {
        let mut k = k;
        ops.truncate(start);
        for _ in 0..depth {
            ops.push(alphabet[k % n]);
            k /= n;
        }
        history(ctx, &ops, &Env::default(), mem, ctx.shared.judge & !judge::PANIC);
        ctx.stats.steps += depth as u64;
        if ctx.stopped() {
            return;
        }
    }
}

pub fn plan(p: &mut Plan) {
    // Operations on one font.
    let mut alphabet = vec![];
    for t in [GDEF, CPAL, GSUB, FVAR, HEAD] {
        alphabet.extend([EXISTS | t, POSITION | t, TAKE | t]);
    }
    alphabet.extend([TAKE | GPOS, GOTO, GOTO | 77, OPEN, FAIL, FAIL | 1, FAIL | 3]);
    let depth = p.pick(2, 3);
    for mem in fonts() {
        for a in alphabet.clone() {
            let (mem, alphabet) = (mem.clone(), alphabet.clone());
            p.push("histories", move |ctx| tree(ctx, &[OPEN, a], &alphabet, depth, &mem));
        }
    }
    // Two fonts, each on its own stream, or on the other's.
    let mut two = vec![];
    for t in [GDEF, CPAL, GSUB] {
        two.extend([EXISTS | t, POSITION | t, TAKE | t]);
    }
    two.extend([OPEN, FAIL | 2]);
    let mut alphabet = vec![];
    for other in [0, OTHER] {
        for op in &two {
            alphabet.push(op | other);
            if op & 0x0F00 != EXISTS {
                alphabet.push(op | other | CROSS);
            }
        }
    }
    let all = fonts();
    let depth = p.pick(1, 2);
    for i in 0..all.len() {
        for j in 0..all.len() {
            let mem = join(&all[i], &all[j]);
            for a in alphabet.clone() {
                let (mem, alphabet) = (mem.clone(), alphabet.clone());
                p.push("histories of two", move |ctx| {
                    // Positions of streams are set anew, as opening is where they stand.
                    let head = [OPEN, OPEN | OTHER, GOTO, GOTO | OTHER, a];
                    tree(ctx, &head, &alphabet, depth + 1, &mem);
                });
            }
        }
    }
    // The same again and again.
    for t in [GDEF, CPAL, GSUB, HEAD, FVAR] {
        for op in [EXISTS, POSITION, TAKE] {
            let thorough = p.thorough;
            p.push("repetitions", move |ctx| {
                let mem = fonts().swap_remove(3);
                let n = if thorough { 66_000 } else { 3_000 };
                let mut ops = vec![OPEN];
                ops.resize(n, op | t);
                ops.extend([GOTO, OPEN, TAKE | GDEF, TAKE | CPAL]);
                history(ctx, &ops, &Env::default(), &mem, judge::ALL & !judge::PANIC);
            });
        }
    }
    endurance(p);
    failures(p);
    crossed(p);
    // Tables.
    let all = Arc::new(pool());
    let n = all.len();
    for i in 0..n {
        let all = all.clone();
        p.push("tables in turn", move |ctx| {
            let base = bases(ctx, &all);
            for j in 0..n {
                if !chain(ctx, &all, &base, &[i, j, i]) || !together(ctx, &all, &base, i, j) {
                    return;
                }
                if ctx.thorough() {
                    for k in 0..n {
                        if !chain(ctx, &all, &base, &[i, j, k]) {
                            return;
                        }
                    }
                }
            }
            for _ in 0..if ctx.thorough() { 30_000 } else { 300 } {
                if !chain(ctx, &all, &base, &[i]) {
                    return;
                }
            }
        });
    }
    // Tables of one kind in turn, of every shape, compared with the model: reading is not a matter
    // of what was read before, in this order or another.
    for f in crate::checks::everything() {
        for profile in [explore::shapes(p.pick(1, 2)), explore::nulls(&[2], p.pick(2, 3))] {
            let f = f.clone();
            p.push("shapes in turn", move |ctx| shapes_in_turn(ctx, &f, profile));
        }
    }
}

fn shapes_in_turn(ctx: &mut Ctx, f: &Family, profile: crate::spec::Profile) {
    let mut all = vec![];
    explore::search(ctx, f, &profile, vec![], true, &mut |_, _, m| all.push(m.clone()));
    all.truncate(if ctx.thorough() { 400 } else { 60 });
    for i in 0..all.len() {
        for j in 0..all.len() {
            let mut a = all[i].clone();
            ctx.compare(f.root, &Env::default(), &mut a);
            let mut b = all[j].clone();
            ctx.compare(f.root, &Env::default(), &mut b);
        }
        if ctx.stopped() {
            return;
        }
    }
}

/// One or two requests over and over again, some of which fail, and then every other request.
pub fn endurance(p: &mut Plan) {
    let all = [GDEF, CPAL, GSUB, GPOS, FVAR];
    for bad in all {
        let rounds = p.pick(70, 1200);
        p.push("endurance", move |ctx| {
            let mut entries: Vec<Entry> =
                all.iter().map(|t| entry(TAGS[*t as usize], &small(*t, 5))).collect();
            let k = all.iter().position(|t| *t == bad).unwrap();
            let mut damaged = vec![];
            // Of no version under a right checksum, under a wrong checksum, cut short, and sound.
            let mut data = small(bad, 5);
            data[1] = 9;
            damaged.push(entry(TAGS[bad as usize], &data));
            damaged.push(Entry { checksum: Some(0x12345678), ..entry(TAGS[bad as usize], &small(bad, 5)) });
            let data = small(bad, 5);
            damaged.push(entry(TAGS[bad as usize], &data[..data.len() / 2]));
            damaged.push(entry(TAGS[bad as usize], &data));
            for one in damaged {
                entries[k] = one;
                let mem = build(&entries);
                for other in all {
                    for (f, g) in [(TAKE, TAKE), (POSITION, POSITION), (TAKE, POSITION), (POSITION, EXISTS)] {
                        for alternating in [false, true] {
                            let mut ops = vec![OPEN];
                            for _ in 0..rounds {
                                ops.push(f | bad);
                                if alternating {
                                    ops.push(g | other);
                                }
                            }
                            for t in all {
                                ops.extend([EXISTS | t, POSITION | t, TAKE | t]);
                            }
                            ops.extend([FAIL | 1, TAKE | bad, TAKE | other, GOTO, OPEN, TAKE | other]);
                            history(ctx, &ops, &Env::default(), &mem, ctx.shared.judge);
                            if ctx.stopped() {
                                return;
                            }
                        }
                    }
                }
            }
        });
    }
}

/// Two streams with the same directory, the table of one of them damaged; requests through one font
/// reach either.
pub fn crossed(p: &mut Plan) {
    for t in 0..16u16 {
        let depth = p.pick(3, 4);
        p.push("crossed", move |ctx| {
            let u = (t + 5) % 16;
            let all = [entry(TAGS[t as usize], &small(t, 1)), entry(TAGS[u as usize], &small(u, 1))];
            let sound = build(&all);
            let records = directory(&sound, sound.len(), 0).unwrap().1;
            for k in [0, 3] {
                let mut damaged = sound.clone();
                damaged.segs[0].data[records[0].offset as usize + k] ^= 1;
                for (a, b) in [(&sound, &damaged), (&damaged, &sound)] {
                    let mem = join(a, b);
                    let mut alphabet = vec![];
                    for of in [0, CROSS, OTHER] {
                        alphabet.extend([POSITION | t | of, TAKE | t | of, POSITION | u | of]);
                    }
                    tree(ctx, &[OPEN, OPEN | OTHER], &alphabet, depth, &mem);
                }
            }
        });
    }
}

/// Requests that fail over and over again as the stream does, and then on a healthy stream.
pub fn failures(p: &mut Plan) {
    let all = [GDEF, CPAL, GSUB, GPOS, FVAR, HEAD];
    for t in all {
        let rounds = p.pick(70, 1200);
        p.push("endurance", move |ctx| {
            let entries: Vec<Entry> =
                all.iter().map(|t| entry(TAGS[*t as usize], &small(*t, 5))).collect();
            let mem = build(&entries);
            for k in 0..12 {
                for op in [POSITION, TAKE] {
                    for between in [None, Some(TAKE | t), Some(EXISTS | GDEF), Some(OPEN | OTHER)] {
                        let mut ops = vec![OPEN];
                        for _ in 0..rounds {
                            ops.extend([FAIL | k, op | t]);
                            ops.extend(between);
                        }
                        for t in all {
                            ops.extend([EXISTS | t, POSITION | t, TAKE | t]);
                        }
                        ops.extend([GOTO, OPEN, TAKE | GPOS]);
                        history(ctx, &ops, &Env::default(), &mem, ctx.shared.judge);
                        if ctx.stopped() {
                            return;
                        }
                    }
                }
            }
        });
    }
}
