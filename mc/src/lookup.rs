//! Records asked for by tag.

use crate::case::{Act, Env};
use crate::checks::Plan;
use crate::ctx::Ctx;
use crate::explore::family;
use crate::mem::Mem;
use crate::real;
use crate::registry;
use crate::spec::Root;
use crate::tape::Tape;
use opentype::layout::{script, Feature, Features, Language, Script, Scripts};
use opentype::tape::Read;
use opentype::truetype::Tag;

pub const SCRIPTS: u64 = 0;
pub const SCRIPT: u64 = 1;
pub const FEATURES: u64 = 2;

/// A list with these tags, the record of each of which bears a number of its own.
pub fn table(kind: u64, tags: &[[u8; 4]], default: bool) -> Vec<u8> {
    let n = tags.len();
    let head = if kind == SCRIPT { 4 } else { 2 } + 6 * n;
    let size = if kind == SCRIPTS { 10 } else { 6 };
    // The default language system comes first.
    let first = head + if kind == SCRIPT && default { 6 } else { 0 };
    // Records beyond reach are those of their neighbours.
    let reach = (0xFFFF - first) / size;
    let mut words: Vec<u16> = vec![];
    if kind == SCRIPT {
        words.push(if default { head as u16 } else { 0 });
    }
    words.push(n as u16);
    for (i, tag) in tags.iter().enumerate() {
        words.push(u16::from_be_bytes([tag[0], tag[1]]));
        words.push(u16::from_be_bytes([tag[2], tag[3]]));
        words.push((first + (i % reach) * size) as u16);
    }
    if kind == SCRIPT && default {
        words.extend([0, 0xDEFA, 0]);
    }
    for i in 0..n.min(reach) as u16 {
        match kind {
            SCRIPTS => words.extend([4, 0, 0, i, 0]),
            SCRIPT => words.extend([0, i, 0]),
            _ => words.extend([0, 1, i]),
        }
    }
    words.iter().flat_map(|w| w.to_be_bytes()).collect()
}

/// The number of the record expected.
fn wanted(kind: u64, mem: &Mem, tag: [u8; 4]) -> Option<u16> {
    let p = if kind == SCRIPT { 2 } else { 0 };
    let n = mem.u16(p) as u64;
    for i in 0..n {
        let q = p + 2 + 6 * i;
        let this = (mem.u16(q) as u32) << 16 | mem.u16(q + 2) as u32;
        if this.to_be_bytes() == tag {
            let r = mem.u16(q + 4) as u64;
            let marker = match kind {
                SCRIPTS => r + 6,
                SCRIPT => r + 2,
                _ => r + 4,
            };
            return Some(mem.u16(marker));
        }
    }
    None
}

enum List {
    Scripts(Scripts),
    Script(script::Record),
    Features(Features),
}

fn read(kind: u64, mem: &Mem) -> std::io::Result<List> {
    let mut tape = Tape::new(mem);
    Ok(match kind {
        SCRIPTS => List::Scripts(tape.take()?),
        SCRIPT => List::Script(tape.take()?),
        _ => List::Features(tape.take()?),
    })
}

impl List {
    /// Ask for a tag, given as it is and by name.
    fn get(&self, tag: [u8; 4]) -> [Option<u16>; 2] {
        let t = Tag(tag);
        let of_script = |r: Option<&script::Record>| {
            r.map(|r| r.default_language.as_ref().map_or(0xBAD, |l| l.required_feature_index))
        };
        match self {
            List::Scripts(v) => [of_script(v.get(t)), of_script(v.get(Script::from_tag(&t)))],
            List::Script(v) => [
                v.get(t).map(|r| r.required_feature_index),
                v.get(Language::from_tag(&t)).map(|r| r.required_feature_index),
            ],
            List::Features(v) => [
                v.get(t).map(|r| r.lookup_indices.first().map_or(0xBAD, |i| *i)),
                v.get(Feature::from_tag(&t)).map(|r| r.lookup_indices.first().map_or(0xBAD, |i| *i)),
            ],
        }
    }
}

/// Ask a list for each of these tags.
pub fn ask(ctx: &mut Ctx, kind: u64, mem: &Mem, tags: &[[u8; 4]]) {
    let env = Env::default();
    ctx.note(&Act::Other(kind << 32), &env, mem);
    match real::guard(|| read(kind, mem)) {
        Ok(Ok(list)) => {
            for tag in tags {
                let expected = wanted(kind, mem, *tag);
                let got = real::guard(|| list.get(*tag));
                ctx.stats.runs += 2;
                ctx.stats.count(if expected.is_some() { "found" } else { "not found" }, 1);
                let text = match got {
                    Ok(got) if got == [expected; 2] => continue,
                    Ok(got) => format!(
                        "asked for {:?}, expected {expected:?}, got {:?} by tag and {:?} by name",
                        String::from_utf8_lossy(tag),
                        got[0],
                        got[1]
                    ),
                    Err(m) => format!("asked for {:?}, panicked: {m}", String::from_utf8_lossy(tag)),
                };
                let act = Act::Other(kind << 32 | u32::from_be_bytes(*tag) as u64);
                ctx.violation(&act, &env, mem, text);
            }
        }
        other => {
            let text = format!("a list was not read: {:?}", other.map(|r| r.map(|_| ())));
            ctx.violation(&Act::Other(kind << 32), &env, mem, text);
        }
    }
    ctx.done();
    ctx.remember(mem, &env, kind + 77);
}

fn alphabet(kind: u64) -> [[u8; 4]; 8] {
    match kind {
        SCRIPTS => [*b"latn", *b"DFLT", *b"arab", *b"kana", *b"dflt", *b"zzzz", *b"math", *b"LATN"],
        SCRIPT => [*b"ENG ", *b"DFLT", *b"TUL ", *b"TUM ", *b"dflt", *b"ZZZZ", *b"eng ", *b"ROM "],
        _ => [*b"kern", *b"liga", *b"ss01", *b"cv99", *b"DFLT", *b"zzzz", *b"KERN", *b"aalt"],
    }
}

pub fn plan(p: &mut Plan) {
    for kind in [SCRIPTS, SCRIPT, FEATURES] {
        let a = alphabet(kind);
        let depth = if p.thorough { 7 } else { 6 };
        // Every list over the alphabet; the first tag makes a job.
        for first in 0..a.len() {
            p.push("lists", move |ctx| {
                if first == 0 {
                    let mem = Mem::from_bytes(&table(kind, &[], true));
                    ask(ctx, kind, &mem, &a);
                    let mem = Mem::from_bytes(&table(kind, &[], false));
                    ask(ctx, kind, &mem, &a);
                }
                for length in 1..=depth {
                    // Long lists are over a part of the alphabet.
                    let m = if length <= if ctx.thorough() { 6 } else { 5 } { a.len() } else { 6 };
                    if first >= m {
                        continue;
                    }
                    for n in 0..m.pow(length - 1) {
                        let mut k = n;
                        let mut tags = vec![a[first]];
                        for _ in 1..length {
                            tags.push(a[k % m]);
                            k /= m;
                        }
                        ctx.stats.steps += 1;
                        let mem = Mem::from_bytes(&table(kind, &tags, n % 2 == 0));
                        ask(ctx, kind, &mem, &a);
                    }
                }
            });
        }
        // All registered tags in one list, in some orders, and each on its own.
        p.push("registered tags", move |ctx| {
            let mut all: Vec<[u8; 4]> = registry::golden()
                .iter()
                .filter(|e| e.registry as u64 == kind)
                .map(|e| e.tag)
                .collect();
            let mut asked = all.clone();
            for t in all.clone() {
                let mut t = t;
                t[3] = t[3].wrapping_add(1);
                asked.push(t);
                t[0] ^= 0x20;
                asked.push(t);
            }
            all.sort();
            for order in 0..4 {
                match order {
                    1 => all.reverse(),
                    2 => {
                        let n = all.len() / 3;
                        all.rotate_left(n)
                    }
                    3 => {
                        let twice = all.clone();
                        all.extend(twice);
                    }
                    _ => {}
                }
                ask(ctx, kind, &Mem::from_bytes(&table(kind, &all, true)), &asked);
            }
            for t in &asked {
                ask(ctx, kind, &Mem::from_bytes(&table(kind, &[*t], true)), &[*t, *b"DFLT", *b"zzzz"]);
                let two = [*b"zzzz", *t];
                ask(ctx, kind, &Mem::from_bytes(&table(kind, &two, false)), &[*t, *b"dflt"]);
            }
            if kind == SCRIPTS {
                // The two that share a tag.
                let mem = Mem::from_bytes(&table(kind, &[*b"latn", *b"kana"], false));
                if let Ok(List::Scripts(v)) = read(kind, &mem) {
                    for s in [Script::Hiragana, Script::Katakana] {
                        let got = real::guard(|| v.get(s).is_some());
                        ctx.stats.runs += 1;
                        if got != Ok(true) {
                            let act = Act::Other(u32::from_be_bytes(*b"kana") as u64);
                            ctx.violation(&act, &Env::default(), &mem, format!("no record for {s:?}"));
                        }
                    }
                }
            }
        });
        // Long lists of tags that differ in any byte.
        for n in [1u32, 2, 255, 256, 257, 1000, 3000, 10000] {
            p.push("long lists", move |ctx| {
                for byte in 0..4usize {
                    let tags: Vec<[u8; 4]> = (0..n)
                        .map(|i| {
                            let mut t = [b'a', b'b', b'c', b'd'];
                            t[byte] = i as u8;
                            t[(byte + 1) % 4] = (i >> 8) as u8;
                            t
                        })
                        .collect();
                    let mut asked = tags.clone();
                    asked.extend([[0; 4], *b"abcd", [0xFF; 4]]);
                    let step = if ctx.thorough() || n < 2000 { 1 } else { 17 };
                    let asked: Vec<_> = asked.into_iter().step_by(step).collect();
                    ask(ctx, kind, &Mem::from_bytes(&table(kind, &tags, false)), &asked);
                }
            });
        }
        // Any one tag against any other that differs in up to two bytes.
        p.push("near tags", move |ctx| {
            for tag in a.iter() {
                let mut asked = vec![];
                for i in 0..4 {
                    for j in i + 1..4 {
                        for v in 0..=0xFFFFu32 {
                            let mut t = *tag;
                            t[i] = v as u8;
                            t[j] = (v >> 8) as u8;
                            asked.push(t);
                        }
                    }
                }
                let mem = Mem::from_bytes(&table(kind, &[*tag], true));
                ask(ctx, kind, &mem, &asked);
            }
        });
    }
    // Lists decoded from tables of any form.
    let depth = if p.thorough { 4 } else { 3 };
    for (root, kind) in [(Root::Scripts, SCRIPTS), (Root::Features, FEATURES)] {
        let f = family(root, &[]);
        p.search(&f, crate::explore::shapes(depth), "asked", move |ctx, _, mem| {
            all_get(ctx, kind, mem);
        });
        p.search(&f, crate::explore::counts(depth), "asked", move |ctx, _, mem| {
            all_get(ctx, kind, mem);
        });
    }
}

/// Ask for all tags there are, for a record at the very place that belongs to the first of them.
fn all_get(ctx: &mut Ctx, kind: u64, mem: &Mem) {
    let env = Env::default();
    ctx.note(&Act::Other(kind << 32), &env, mem);
    let bad = real::guard(|| {
        let list = match read(kind, mem) {
            Ok(list) => list,
            _ => return None,
        };
        fn first<T>(tags: &[Tag], all: &[T], get: &dyn Fn(Tag) -> Option<*const T>) -> Option<Tag> {
            for t in tags {
                let i = tags.iter().position(|o| o == t).unwrap();
                if get(*t) != Some(&all[i] as *const T) {
                    return Some(*t);
                }
            }
            None
        }
        match &list {
            List::Scripts(v) => {
                let tags: Vec<Tag> = v.headers.iter().map(|h| h.tag).collect();
                let bad = first(&tags, &v.records, &|t| v.get(t).map(|r| r as *const _));
                bad.or_else(|| {
                    v.records.iter().find_map(|s| {
                        let tags: Vec<Tag> = s.language_headers.iter().map(|h| h.tag).collect();
                        first(&tags, &s.language_records, &|t| s.get(t).map(|r| r as *const _))
                    })
                })
            }
            List::Features(v) => {
                let tags: Vec<Tag> = v.headers.iter().map(|h| h.tag).collect();
                first(&tags, &v.records, &|t| v.get(t).map(|r| r as *const _))
            }
            List::Script(_) => None,
        }
    });
    ctx.stats.runs += 1;
    ctx.done();
    ctx.remember(mem, &env, kind + 99);
    match bad {
        Ok(None) => {}
        Ok(Some(t)) => {
            let act = Act::Other(kind << 32 | u32::from_be_bytes(t.0) as u64);
            ctx.violation(&act, &env, mem, format!("not the first record of {t:?}"));
        }
        Err(m) => ctx.violation(&Act::Other(kind << 32), &env, mem, format!("panicked: {m}")),
    }
}

/// Once more, for a replay.
pub fn again(ctx: &mut Ctx, number: u64, mem: &Mem) {
    let kind = number >> 32;
    ask(ctx, kind, mem, &[(number as u32).to_be_bytes()]);
    if kind != SCRIPT {
        all_get(ctx, kind, mem);
    }
}
