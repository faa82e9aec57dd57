//! Enumeration of inputs: exhaustive within the bounds each function states.

use crate::ctx::Ctx;
use crate::mem::Mem;
use crate::spec::{self, build_cfg, kind::*, Access, Bad, Gap, Prefix, Profile, Root, Values, What, R};

/// A family of tables: a root, the formats its outermost tables have, and the lookup types used.
#[derive(Clone, Debug)]
pub struct Family {
    pub root: Root,
    pub forced: Vec<u16>,
    pub types: &'static [u16],
}

pub fn family(root: Root, forced: &[u16]) -> Family {
    Family { root, forced: forced.to_vec(), types: &[1] }
}

pub fn typed(root: Root, forced: &[u16], types: &'static [u16]) -> Family {
    Family { root, forced: forced.to_vec(), types }
}

impl Family {
    pub fn name(&self) -> String {
        let mut s = format!("{:?}", self.root);
        if !self.forced.is_empty() {
            s.push_str(&format!("/{:?}", self.forced));
        }
        if self.types != [1] {
            s.push_str(&format!("/types{:?}", self.types));
        }
        s
    }
}

/// One run of the generator under a prefix of decisions.
pub fn generate<'p>(f: &Family, profile: &'p Profile, prefix: &[(u32, u32)], log: bool) -> (R<'p>, spec::S) {
    let mut r = R::generate(profile, prefix, build_cfg());
    r.types = f.types;
    r.forced = f.forced.clone();
    if log {
        r.log = Some(vec![]);
    }
    let result = spec::run(&mut r, f.root);
    (r, result)
}

/// How many decisions a prefix settles.
fn length(prefix: &[(u32, u32)]) -> usize {
    prefix.last().map_or(0, |p| p.0 as usize + 1)
}

/// The prefixes that depart once more from the decisions of a run than its own prefix does.
fn departures(r: &R, prefix: &[(u32, u32)], bound: usize, out: &mut Vec<Prefix>) {
    if prefix.len() >= bound {
        return;
    }
    let trail = &r.gen.as_ref().unwrap().1.trail;
    for i in length(prefix)..trail.len() {
        for alt in 1..trail[i].n {
            let mut next = Vec::with_capacity(prefix.len() + 1);
            next.extend_from_slice(prefix);
            next.push((i as u32, alt));
            out.push(next);
        }
    }
}

/// The first level of the search tree: the default run and everything one departure away.
pub fn seeds(f: &Family, profile: &Profile) -> Vec<Prefix> {
    let (r, _) = generate(f, profile, &[], false);
    let mut all = vec![];
    departures(&r, &[], profile.bound, &mut all);
    all
}

/// All runs whose decisions start with `prefix` and depart from the defaults at most `bound` times.
pub fn search(
    ctx: &mut Ctx,
    f: &Family,
    profile: &Profile,
    prefix: Prefix,
    below: bool,
    visit: &mut dyn FnMut(&mut Ctx, &Family, &mut Mem),
) {
    let mut stack = vec![prefix];
    while let Some(prefix) = stack.pop() {
        if ctx.stopped() {
            return;
        }
        let (mut r, result) = generate(f, profile, &prefix, false);
        let fresh = r.gen.as_ref().unwrap().1.trail.len() as u64 - length(&prefix) as u64;
        ctx.stats.steps += fresh + 1;
        if below {
            departures(&r, &prefix, profile.bound, &mut stack);
        }
        if result == Err(Bad::Prune) {
            ctx.stats.count("generator: pruned", 1);
            continue;
        }
        let mut mem = std::mem::replace(&mut r.mem, Mem { segs: vec![] });
        let h = mem.hash();
        let h = h ^ (crate::case::root_code(f.root) as u64).wrapping_mul(0x9E3779B97F4A7C15);
        if !crate::ctx::note(&mut ctx.inputs, h) {
            ctx.stats.count("generator: repeated", 1);
            continue;
        }
        visit(ctx, f, &mut mem);
    }
}

/// Where the items of a table are, according to the model.
pub fn accesses(f: Root, mem: &Mem) -> Vec<Access> {
    let mut r = R::parse(mem.clone(), build_cfg());
    r.log = Some(vec![]);
    let _ = spec::run(&mut r, f);
    let mut all = r.log.take().unwrap();
    all.sort_by_key(|a| (a.at, a.width));
    all.dedup_by_key(|a| (a.at, a.width));
    all
}

pub const BOUNDARY: [u16; 30] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 0x7F, 0x80, 0xFF, 0x100, 0x101,
    0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFF00, 0xFFFE, 0xFFFF,
];

/// Every word of a table, on its own, takes every value of a list (or every value there is).
pub fn sweep(
    ctx: &mut Ctx,
    f: &Family,
    mem: &mut Mem,
    only: &dyn Fn(What) -> bool,
    values: Option<&[u16]>,
    visit: &mut dyn FnMut(&mut Ctx, &Family, &mut Mem),
) {
    let all = accesses(f.root, mem);
    for a in all {
        if !only(a.what) {
            continue;
        }
        let words: Vec<u64> = match a.width {
            1 => vec![a.at & !1],
            2 => vec![a.at],
            _ => vec![a.at, a.at + 2],
        };
        for w in words {
            let old = mem.u16(w);
            let mut put = |ctx: &mut Ctx, mem: &mut Mem, v: u16| {
                if v == old {
                    return;
                }
                set16(mem, w, v);
                visit(ctx, f, mem);
            };
            match values {
                Some(values) => {
                    for v in values {
                        put(ctx, mem, *v);
                    }
                    for d in [1u16, 2, 0x100] {
                        put(ctx, mem, old.wrapping_add(d));
                        put(ctx, mem, old.wrapping_sub(d));
                    }
                }
                None => {
                    for v in 0..=0xFFFF {
                        put(ctx, mem, v);
                        if v & 0xFFF == 0 && ctx.stopped() {
                            break;
                        }
                    }
                }
            }
            set16(mem, w, old);
            if ctx.stopped() {
                return;
            }
        }
    }
}

pub fn set16(mem: &mut Mem, a: u64, v: u16) {
    for s in mem.segs.iter_mut() {
        if a >= s.start && a + 1 < s.start + s.data.len() as u64 {
            let k = (a - s.start) as usize;
            s.data[k] = (v >> 8) as u8;
            s.data[k + 1] = v as u8;
            return;
        }
    }
    // The last byte of a table of odd length.
    for s in mem.segs.iter_mut() {
        if a >= s.start && a < s.start + s.data.len() as u64 {
            s.data[(a - s.start) as usize] = (v >> 8) as u8;
        }
    }
}

/// Every string of words over an alphabet, of a given length, behind a given beginning.
pub fn strings(
    ctx: &mut Ctx,
    f: &Family,
    head: &[u16],
    first: Option<u16>,
    alphabet: &[u16],
    length: usize,
    visit: &mut dyn FnMut(&mut Ctx, &Family, &mut Mem),
) {
    let mut words: Vec<u16> = head.to_vec();
    let mut free = length;
    if let Some(w) = first {
        words.push(w);
        free -= 1;
    }
    let start = words.len();
    words.resize(start + free, alphabet[0]);
    let mut digits = vec![0usize; free];
    let mut bytes = vec![0u8; 2 * words.len()];
    let mut mem = Mem::from_bytes(&bytes);
    loop {
        for (i, w) in words.iter().enumerate() {
            bytes[2 * i] = (w >> 8) as u8;
            bytes[2 * i + 1] = *w as u8;
        }
        mem.segs[0].data.clear();
        mem.segs[0].data.extend_from_slice(&bytes);
        ctx.stats.steps += 1;
        visit(ctx, f, &mut mem);
        let mut i = free;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            digits[i] += 1;
            if digits[i] < alphabet.len() {
                words[start + i] = alphabet[digits[i]];
                break;
            }
            digits[i] = 0;
            words[start + i] = alphabet[0];
        }
        if i == 0 && ctx.stopped() {
            return;
        }
    }
}

// Profiles

fn base(name: &'static str) -> Profile {
    Profile {
        name,
        kinds: 0,
        counts: vec![1, 0, 2, 3],
        gaps: vec![],
        auto_alias: false,
        leaves: vec![],
        bound: 1,
        size: 1 << 20,
        values: Values::Varied,
        absent: false,
    }
}

/// Small tables of every shape.
pub fn shapes(bound: usize) -> Profile {
    Profile {
        kinds: COUNT | FORMAT | NULL | ALIAS | PICK | FLAGS,
        bound,
        ..base("shapes")
    }
}

/// Tables in which every list has two entries by default.
pub fn wide(bound: usize) -> Profile {
    Profile {
        kinds: COUNT | FORMAT | NULL | ALIAS | PICK | FLAGS,
        counts: vec![2, 0, 1, 3],
        bound,
        ..base("wide")
    }
}

/// As `wide`, with fewer decisions and more departures.
pub fn counts(bound: usize) -> Profile {
    Profile { kinds: COUNT | FORMAT, counts: vec![2, 0, 1, 3], bound, ..base("counts") }
}

/// Null or not, independently everywhere, and nothing else.
pub fn nulls(counts: &[u16], bound: usize) -> Profile {
    Profile { kinds: NULL, counts: counts.to_vec(), bound, ..base("nulls") }
}

/// Null where it is not allowed as well.
pub fn bad_nulls(bound: usize) -> Profile {
    Profile {
        kinds: NULL | BADNULL,
        counts: vec![2],
        bound,
        ..base("bad nulls")
    }
}

/// Subtables anywhere, in any order, shared or not.
pub fn layouts(bound: usize, count: u16) -> Profile {
    Profile {
        kinds: ALIAS | GAP,
        counts: vec![count],
        gaps: vec![Gap::Plus(1), Gap::Plus(2), Gap::Plus(7), Gap::At(0x300), Gap::At(0x301)],
        bound,
        ..base("layouts")
    }
}

/// Subtables as far as offsets reach.
pub fn distant(bound: usize, count: u16) -> Profile {
    Profile {
        kinds: GAP | NULL,
        counts: vec![count],
        gaps: vec![
            Gap::At(0x7FFF),
            Gap::At(0x8000),
            Gap::At(0xFFFE),
            Gap::At(0xFFFF),
            Gap::At(0x10000),
            Gap::At(0x7FFF_FFFF),
            Gap::At(0x8000_0000),
            Gap::At(0xFFFF_FF00),
            Gap::At(0xFFFF_FFFF),
        ],
        bound,
        ..base("distant")
    }
}

/// One list at a time is long; equal subtables are shared.
pub fn long(counts: Vec<u16>, bound: usize) -> Profile {
    Profile {
        kinds: COUNT,
        counts,
        auto_alias: true,
        bound,
        ..base("long")
    }
}

/// Scalars at the ends of their ranges.
pub fn scalars(bound: usize, count: u16) -> Profile {
    Profile {
        kinds: LEAF | FORMAT | PICK | FLAGS,
        counts: vec![count],
        leaves: vec![
            0, 1, 0xFFFF_FFFF, 0x7FFF_FFFF, 0x8000_0000, 0x7FFF_7FFF, 0x8000_8000, 0x0000_FFFF,
            0xFFFF_0000, 0x00FF_00FF, 0xFF00_FF00,
        ],
        bound,
        ..base("scalars")
    }
}

/// Scalars that are all alike or that follow one another.
pub fn uniform(values: Values, bound: usize, count: u16) -> Profile {
    Profile { values, name: "uniform", ..shapes(bound) }.with_counts(count)
}

/// Whatever can be absent is, but for a few.
pub fn absent(bound: usize, count: u16) -> Profile {
    Profile { absent: true, name: "absent", ..shapes(bound) }.with_counts(count)
}

impl Profile {
    fn with_counts(mut self, count: u16) -> Self {
        self.counts.retain(|c| *c != count);
        self.counts.insert(0, count);
        self
    }
}

/// Tags that have a meaning of their own, wherever there is a scalar, along with sharing and nulls.
pub fn tags(bound: usize, count: u16) -> Profile {
    let all: [&[u8; 4]; 16] = [
        b"DFLT", b"dflt", b"latn", b"arab", b"DEV ", b"ROM ", b"aalt", b"kern", b"size", b"ss01", b"cv01",
        b"mark", b"rvrn", b"wght", b"ital", b"ZZZZ",
    ];
    Profile {
        kinds: LEAF | ALIAS | NULL,
        counts: vec![count],
        leaves: all.into_iter().map(|t| u32::from_be_bytes(*t)).collect(),
        bound,
        ..base("tags")
    }
}

/// Forms and nulls along with sharing.
pub fn shared(bound: usize, count: u16) -> Profile {
    Profile { kinds: FORMAT | NULL | ALIAS | PICK | FLAGS, counts: vec![count], bound, ..base("shared") }
}

/// Null or not, allowed or not, along with scalars at the ends of their ranges.
pub fn null_scalars(bound: usize, count: u16) -> Profile {
    let mut all = scalars(bound, count);
    all.kinds |= NULL | BADNULL;
    all.name = "nulls and scalars";
    all
}

/// Subtables far away along with sharing.
pub fn distant_shared(bound: usize, count: u16) -> Profile {
    let mut all = distant(bound, count);
    all.kinds |= ALIAS;
    all
}

/// Formats, constants, flags, and counts that are not allowed.
pub fn wrong(bound: usize, count: u16) -> Profile {
    Profile {
        kinds: BAD | BADNULL | COUNT | FORMAT | FLAGS | PICK | NULL,
        counts: vec![count, 0],
        bound,
        ..base("wrong")
    }
}

pub fn long_counts(thorough: bool) -> Vec<u16> {
    let mut all: Vec<u16> = vec![1];
    all.extend([0]);
    let dense = if thorough { 300 } else { 40 };
    all.extend(2..dense);
    for k in 5..16u32 {
        for d in [-1i32, 0, 1] {
            let v = (1i32 << k) + d;
            if v >= dense as i32 {
                all.push(v as u16);
            }
        }
    }
    all.extend([1000, 3000, 10000, 20000, 40000, 50000, 65533, 65534, 65535]);
    // The most that leaves room for something behind a list of offsets or of headers.
    for size in [2u16, 4, 6, 8] {
        let most = 65535 / size;
        all.extend([most / 4 * 3, most / 32 * 31, most - 20]);
        all.extend(most - 10..=most + 1);
    }
    all
}

/// As `layouts`, for tables whose subtables of one kind are all equal.
pub fn sharing(bound: usize, count: u16) -> Profile {
    Profile { values: Values::Same(0x5A3C), name: "sharing", ..layouts(bound, count) }
}
