//! The reference model: what the OpenType specification says the bytes of a table mean.
//!
//! Every table is one function from a position to the sequence of numbers that `emit.rs` writes
//! for the decoded value. The same functions serve in two ways. Parsing: all bytes are given, and
//! reading behind the end or finding an impossible value is an outcome. Generating: a byte not
//! decided yet is decided on first access, by asking the chooser of the explorer; so that the set
//! of all runs of the chooser is the set of all tables within the bounds of the profile.

use crate::emit::{var, Tok, ITER, NONE, SOME};
use crate::mem::Mem;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    /// A byte behind the end is needed.
    Eof,
    /// The specification does not allow a value found, and the library is to reject it.
    Malformed,
    /// The specification does not say; nothing is claimed about the outcome.
    Unspecified,
    /// The value is too large to be written out.
    Budget,
    /// The generator painted itself into a corner.
    Prune,
}

pub type S<T = ()> = Result<T, Bad>;

/// What is being decided; a profile enables some of them.
pub mod kind {
    pub const COUNT: u32 = 1;
    pub const FORMAT: u32 = 2;
    pub const NULL: u32 = 4;
    pub const ALIAS: u32 = 8;
    pub const GAP: u32 = 16;
    pub const LEAF: u32 = 32;
    pub const FLAGS: u32 = 64;
    pub const PICK: u32 = 128;
    /// Values that make a table malformed.
    pub const BAD: u32 = 256;
    /// Null where it is not allowed.
    pub const BADNULL: u32 = 512;
}
use kind::*;

/// The tolerance features the library was built with.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Cfg {
    pub directories: bool,
    pub marks: bool,
}

pub fn build_cfg() -> Cfg {
    Cfg {
        directories: cfg!(feature = "ignore-incomplete-directories"),
        marks: cfg!(feature = "ignore-incomplete-marks"),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Gap {
    /// So many bytes behind the next free byte.
    Plus(u64),
    /// At exactly this distance from the start of the table holding the offset.
    At(u64),
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub name: &'static str,
    pub kinds: u32,
    pub counts: Vec<u16>,
    pub gaps: Vec<Gap>,
    /// Subtables share the latest one of their kind unless decided otherwise.
    pub auto_alias: bool,
    pub leaves: Vec<u32>,
    /// The number of departures from the default decision.
    pub bound: usize,
    /// The longest file.
    pub size: u64,
    pub values: Values,
    /// Optional subtables are absent unless decided otherwise.
    pub absent: bool,
}

/// What scalars are unless decided otherwise.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Values {
    /// All different, in no order.
    Varied,
    /// All alike, so that equal tables have equal bytes.
    Same(u16),
    /// One after the other.
    Rising(u16),
    Falling(u16),
}

/// One decision taken: number of options, kind, and option.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Step {
    pub n: u32,
    pub kind: u32,
    pub pick: u32,
}

/// What is decided otherwise than by default: places, in order, and options.
pub type Prefix = Vec<(u32, u32)>;

#[derive(Clone, Debug, Default)]
pub struct Chooser {
    pub prefix: Prefix,
    /// How many departures have been made.
    pub made: usize,
    pub trail: Vec<Step>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum What {
    Leaf,
    Count,
    Format,
    Flags,
    Offset,
    Pick,
}

#[derive(Clone, Copy, Debug)]
pub struct Access {
    pub at: u64,
    pub width: u8,
    pub what: What,
    /// Whether an offset may be null.
    pub nullable: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Coverage,
    Class,
    Correction,
    Anchor,
    Records(u8),
    Record(u8),
    Sequence,
    Alternates,
    Ligatures,
    Ligature,
    PairSet(u32),
    Mark1s,
    Matrix(u16),
    LigatureArray(u16),
    LigatureAttach(u16),
    Scripts,
    Script,
    Language,
    Features,
    Feature,
    Parameters,
    Lookups,
    Lookup,
    Variations,
    Subtable(u16),
    Attachments,
    Attachment,
    GdefLigatures,
    GdefLigature,
    Caret,
    Marks,
    Store,
    StoreRecord,
    Colors,
    Axes,
    Raw,
}

#[derive(Clone, Copy, Debug)]
pub struct Off {
    at: u64,
    width: u8,
    tok: usize,
    /// u64::MAX: not decided yet.
    val: u64,
}

pub struct R<'a> {
    pub mem: Mem,
    pub limit: u64,
    pub cfg: Cfg,
    pub out: Vec<Tok>,
    /// Positions in `out` that hold raw offsets.
    pub offsets: Vec<u32>,
    pub max_out: usize,
    /// Records without any encoded byte, by where they are: `ZERO_SITES`.
    pub zero: [u64; 3],
    pub log: Option<Vec<Access>>,
    pub gen: Option<(&'a Profile, Chooser)>,
    pool: Vec<(Kind, u64)>,
    fresh: u32,
    /// Lookup types to generate.
    pub types: &'static [u16],
    /// Formats to generate first, outermost first.
    pub forced: Vec<u16>,
}

pub const MAX_OUT: usize = 3_000_000;

pub const SINGLE: usize = 0;
pub const PAIR: usize = 1;
pub const MATRIX: usize = 2;
pub const ZERO_SITES: [&str; 3] = [
    "gpos-single-2-without-fields",
    "gpos-pair-2-without-fields",
    "gpos-attachment-matrix-without-classes",
];

impl<'a> R<'a> {
    pub fn parse(mem: Mem, cfg: Cfg) -> Self {
        let limit = mem.len();
        R {
            mem,
            limit,
            cfg,
            out: vec![],
            offsets: vec![],
            max_out: MAX_OUT,
            zero: [0; 3],
            log: None,
            gen: None,
            pool: vec![],
            fresh: 0,
            types: &[1],
            forced: vec![],
        }
    }

    pub fn generate(profile: &'a Profile, prefix: &[(u32, u32)], cfg: Cfg) -> R<'a> {
        let mut r = R::parse(Mem::new(), cfg);
        r.limit = u64::MAX;
        r.gen = Some((profile, Chooser { prefix: prefix.to_vec(), made: 0, trail: Vec::with_capacity(64) }));
        r
    }

    // Decisions

    fn choose(&mut self, kind: u32, n: usize) -> usize {
        let (profile, chooser) = self.gen.as_mut().unwrap();
        if n <= 1 || profile.kinds & kind == 0 {
            return 0;
        }
        let i = chooser.trail.len();
        let pick = match chooser.prefix.get(chooser.made) {
            Some((at, pick)) if *at as usize == i => {
                chooser.made += 1;
                *pick
            }
            _ => 0,
        };
        if pick as usize >= n {
            panic!("diverged while replaying a prefix of decisions");
        }
        chooser.trail.push(Step { n: n as u32, kind, pick });
        pick as usize
    }

    fn enabled(&self, kind: u32) -> bool {
        self.gen.as_ref().map_or(false, |g| g.0.kinds & kind != 0)
    }

    /// Whether the item at `p` is still to be decided.
    #[inline]
    fn open(&self, p: u64) -> bool {
        self.gen.is_some() && !self.mem.decided(p)
    }

    fn grow(&mut self, p: u64, n: u64) -> S {
        let i = self.mem.home(p);
        if let Some(next) = self.mem.segs.get(i + 1) {
            if p + n > next.start {
                return Err(Bad::Prune);
            }
        }
        if p - self.mem.segs[i].start + n > self.gen.as_ref().unwrap().0.size {
            return Err(Bad::Prune);
        }
        self.mem.grow(p, n);
        Ok(())
    }

    fn write(&mut self, p: u64, width: u8, v: u64) -> S {
        self.grow(p, width as u64)?;
        for k in 0..width as u64 {
            self.mem.set(p + k, (v >> (8 * (width as u64 - 1 - k))) as u8);
        }
        Ok(())
    }

    // Access

    #[inline]
    fn raw(&mut self, p: u64, width: u8, what: What) -> S<u64> {
        if p + width as u64 > self.limit {
            return Err(Bad::Eof);
        }
        if let Some(log) = self.log.as_mut() {
            log.push(Access { at: p, width, what, nullable: false });
        }
        Ok(match width {
            2 => self.mem.u16(p) as u64,
            1 => self.mem.byte(p) as u64,
            _ => (self.mem.u16(p) as u64) << 16 | self.mem.u16(p + 2) as u64,
        })
    }

    #[inline]
    fn put(&mut self, v: Tok) -> S {
        if self.out.len() >= self.max_out {
            return Err(Bad::Budget);
        }
        self.out.push(v);
        Ok(())
    }

    fn next(&mut self) -> u16 {
        self.fresh += 1;
        match self.gen.as_ref().unwrap().0.values {
            Values::Same(v) => return v,
            Values::Rising(v) => return (v as u32).wrapping_add(self.fresh) as u16,
            Values::Falling(v) => return (v as u32).wrapping_sub(self.fresh) as u16,
            Values::Varied => {}
        }
        (0x1B36u32.wrapping_add(self.fresh.wrapping_mul(0x9E4B)) & 0xFFFF) as u16
    }

    fn leaf(&mut self, p: u64, width: u8) -> S<u64> {
        if self.open(p) {
            let n = if self.enabled(LEAF) { self.gen.as_ref().unwrap().0.leaves.len() } else { 0 };
            let v = match self.choose(LEAF, n + 1) {
                0 => match width {
                    1 => (self.next() >> 4) as u64 & 0xFF,
                    2 => self.next() as u64,
                    _ => (self.next() as u64) << 16 | self.next() as u64,
                },
                i => {
                    let v = self.gen.as_ref().unwrap().0.leaves[i - 1];
                    match width {
                        1 => v as u64 & 0xFF,
                        2 => v as u64 & 0xFFFF,
                        _ => v as u64,
                    }
                }
            };
            self.write(p, width, v)?;
        }
        self.raw(p, width, What::Leaf)
    }

    fn u16(&mut self, p: u64) -> S<u16> {
        let v = self.leaf(p, 2)? as u16;
        self.put(v as Tok)?;
        Ok(v)
    }

    fn i16(&mut self, p: u64) -> S {
        let v = self.leaf(p, 2)? as u16;
        self.put(v as i16 as Tok)
    }

    fn u32(&mut self, p: u64) -> S<u32> {
        let v = self.leaf(p, 4)? as u32;
        self.put(v as Tok)?;
        Ok(v)
    }

    fn i32(&mut self, p: u64) -> S {
        let v = self.leaf(p, 4)? as u32;
        self.put(v as i32 as Tok)
    }

    fn u8(&mut self, p: u64) -> S {
        let v = self.leaf(p, 1)?;
        self.put(v as Tok)
    }

    /// A word that the generator takes from a list.
    fn pick(&mut self, p: u64, values: &[u16]) -> S<u16> {
        if self.open(p) {
            let i = self.choose(PICK, values.len());
            self.write(p, 2, values[i] as u64)?;
        }
        let v = self.raw(p, 2, What::Pick)? as u16;
        self.put(v as Tok)?;
        Ok(v)
    }

    fn count(&mut self, p: u64) -> S<u16> {
        if self.open(p) {
            let n = self.gen.as_ref().unwrap().0.counts.len();
            let i = self.choose(COUNT, n);
            let v = self.gen.as_ref().unwrap().0.counts[i];
            self.write(p, 2, v as u64)?;
        }
        let v = self.raw(p, 2, What::Count)? as u16;
        self.put(v as Tok)?;
        Ok(v)
    }

    /// The count of a sequence that cannot be empty and whose first entry is stored elsewhere.
    fn count_from_one(&mut self, p: u64) -> S<u16> {
        if self.open(p) {
            let counts = &self.gen.as_ref().unwrap().0.counts;
            let mut values: Vec<u16> = counts.iter().map(|c| c.saturating_add(1)).collect();
            if self.enabled(BAD) {
                values.push(0);
            }
            let i = self.choose(COUNT, values.len());
            self.write(p, 2, values[i] as u64)?;
        }
        let v = self.raw(p, 2, What::Count)? as u16;
        if v == 0 {
            return Err(Bad::Malformed);
        }
        self.put(v as Tok)?;
        Ok(v)
    }

    fn bad(&mut self, p: u64, good: u16, values: &[u16]) -> S<u16> {
        let mut all = vec![good];
        if self.enabled(BAD) {
            all.extend(values.iter().filter(|v| **v != good));
        }
        let i = self.choose(BAD, all.len());
        self.write(p, 2, all[i] as u64)?;
        Ok(all[i])
    }

    fn constant(&mut self, p: u64, value: u16) -> S {
        if self.open(p) {
            self.bad(p, value, &[0, 1, 2, 3, 4, 0x8000, 0xFFFF, value ^ 0x100])?;
        }
        if self.raw(p, 2, What::Format)? as u16 != value {
            return Err(Bad::Malformed);
        }
        self.put(value as Tok)
    }

    /// The index of the format in the list; its number is left in place without being written out.
    fn discriminant(&mut self, p: u64, values: &[u16]) -> S<usize> {
        if self.open(p) {
            let v = if !self.forced.is_empty() {
                self.forced.remove(0)
            } else {
                let i = self.choose(FORMAT, values.len());
                values[i]
            };
            self.bad(p, v, &[0, values[values.len() - 1].wrapping_add(1), 0xFFFF, v | 0x100])?;
        }
        let v = self.raw(p, 2, What::Format)? as u16;
        values.iter().position(|x| *x == v).ok_or(Bad::Malformed)
    }

    fn format(&mut self, p: u64, values: &[u16]) -> S<u16> {
        let i = self.discriminant(p, values)?;
        self.put(var(i as i64))?;
        self.put(values[i] as Tok)?;
        Ok(values[i])
    }

    fn flags(&mut self, p: u64, reserved: u16, values: &[u16], bad: &[u16]) -> S<u16> {
        if self.open(p) {
            let mut all = values.to_vec();
            if self.enabled(BAD) {
                all.extend(bad);
            }
            let i = self.choose(FLAGS, all.len());
            self.write(p, 2, all[i] as u64)?;
        }
        let v = self.raw(p, 2, What::Flags)? as u16;
        if v & reserved != 0 {
            return Err(Bad::Malformed);
        }
        self.put(v as Tok)?;
        Ok(v)
    }

    fn off(&mut self, p: u64, width: u8, nullable: bool) -> S<Off> {
        let tok = self.out.len();
        if self.open(p) {
            self.write(p, width, 0)?;
            self.put(0)?;
            self.offsets.push(tok as u32);
            if let Some(log) = self.log.as_mut() {
                log.push(Access { at: p, width, what: What::Offset, nullable });
            }
            return Ok(Off { at: p, width, tok, val: u64::MAX });
        }
        let val = self.raw(p, width, What::Offset)?;
        if let Some(log) = self.log.as_mut() {
            log.last_mut().unwrap().nullable = nullable;
        }
        self.put(val as Tok)?;
        if self.offsets.len() < 4096 {
            self.offsets.push(tok as u32);
        }
        Ok(Off { at: p, width, tok, val })
    }

    fn off16(&mut self, p: u64) -> S<Off> {
        self.off(p, 2, false)
    }

    fn off16n(&mut self, p: u64) -> S<Off> {
        self.off(p, 2, true)
    }

    fn offs(&mut self, p: u64, n: u16, width: u8, nullable: bool) -> S<Vec<Off>> {
        self.put(n as Tok)?;
        let mut all = vec![];
        for i in 0..n as u64 {
            all.push(self.off(p + i * width as u64, width, nullable)?);
        }
        Ok(all)
    }

    fn u16s(&mut self, p: u64, n: u64) -> S {
        self.put(n as Tok)?;
        for i in 0..n {
            self.u16(p + 2 * i)?;
        }
        Ok(())
    }

    fn reserve(&mut self, p: u64, n: u64) -> S {
        if self.gen.is_some() {
            self.grow(p, n)?;
        }
        Ok(())
    }

    fn resolve(&mut self, o: Off, base: u64, kind: Kind, nullable: bool) -> S<Option<u64>> {
        if o.val != u64::MAX {
            return Ok(if o.val == 0 { None } else { Some(base + o.val) });
        }
        let max = if o.width == 2 { 0xFFFF } else { 0xFFFF_FFFFu64 };
        #[derive(Clone, Copy)]
        enum P {
            Null,
            Alias(u64),
            Gap(Gap),
        }
        let mut options = vec![];
        let profile = self.gen.as_ref().unwrap().0;
        let mut shared: Vec<u64> = self
            .pool
            .iter()
            .rev()
            .filter(|e| e.0 == kind && e.1 > base && e.1 - base <= max)
            .map(|e| e.1)
            .take(2)
            .collect();
        if profile.auto_alias && !shared.is_empty() {
            options.push((ALIAS, P::Alias(shared.remove(0))));
        }
        options.push((0, P::Gap(Gap::Plus(0))));
        if nullable && (profile.kinds & NULL != 0 || profile.absent) || !nullable && profile.kinds & BADNULL != 0 {
            options.push((NULL, P::Null));
        }
        if profile.kinds & ALIAS != 0 {
            for a in shared {
                options.push((ALIAS, P::Alias(a)));
            }
        }
        if profile.kinds & GAP != 0 {
            for g in &profile.gaps {
                if matches!(g, Gap::At(n) if *n > max) {
                    continue;
                }
                options.push((GAP, P::Gap(*g)));
            }
        }
        if profile.absent && nullable {
            options.swap(0, 1);
        }
        let i = self.choose(NULL | BADNULL | ALIAS | GAP, options.len());
        let a = match options[i].1 {
            P::Null => None,
            P::Alias(a) => Some(a),
            P::Gap(Gap::Plus(n)) => Some(self.mem.end_of(base) + n),
            P::Gap(Gap::At(n)) => {
                let a = base + n;
                let end = self.mem.end_of(base);
                if a < end {
                    return Err(Bad::Prune);
                }
                if a > end {
                    if self.mem.home(a) != self.mem.home(base) {
                        return Err(Bad::Prune);
                    }
                    self.mem.new_seg(a);
                }
                Some(a)
            }
        };
        let v = match a {
            None => 0,
            Some(a) => a - base,
        };
        if v > max {
            return Err(Bad::Prune);
        }
        self.write(o.at, o.width, v)?;
        self.out[o.tok] = v as Tok;
        Ok(a)
    }

    fn inside(&mut self, kind: Kind, a: u64, f: impl FnOnce(&mut Self, u64) -> S) -> S {
        f(self, a)?;
        if self.gen.is_some() && !self.pool.contains(&(kind, a)) {
            self.pool.push((kind, a));
        }
        Ok(())
    }

    fn child(&mut self, o: Off, base: u64, kind: Kind, f: impl FnOnce(&mut Self, u64) -> S) -> S {
        match self.resolve(o, base, kind, false)? {
            Some(a) => self.inside(kind, a, f),
            None => Err(Bad::Unspecified),
        }
    }

    fn child_maybe(
        &mut self,
        o: Off,
        base: u64,
        kind: Kind,
        f: impl FnOnce(&mut Self, u64) -> S,
    ) -> S {
        match self.resolve(o, base, kind, true)? {
            Some(a) => {
                self.put(SOME)?;
                self.inside(kind, a, f)
            }
            None => self.put(NONE),
        }
    }

    /// A subtable that may be missing only if the library was built to tolerate that.
    fn child_or(
        &mut self,
        o: Off,
        base: u64,
        kind: Kind,
        tolerate: bool,
        default: &[Tok],
        f: impl FnOnce(&mut Self, u64) -> S,
    ) -> S {
        match self.resolve(o, base, kind, tolerate)? {
            Some(a) => self.inside(kind, a, f),
            None if tolerate => {
                for v in default {
                    self.put(*v)?;
                }
                Ok(())
            }
            None => Err(Bad::Malformed),
        }
    }

    fn children(
        &mut self,
        all: &[Off],
        base: u64,
        kind: Kind,
        f: impl Fn(&mut Self, u64) -> S,
    ) -> S {
        self.put(all.len() as Tok)?;
        for o in all {
            self.child(*o, base, kind, &f)?;
        }
        Ok(())
    }

    fn children_maybe(
        &mut self,
        all: &[Off],
        base: u64,
        kind: Kind,
        f: impl Fn(&mut Self, u64) -> S,
    ) -> S {
        self.put(all.len() as Tok)?;
        for o in all {
            self.child_maybe(*o, base, kind, &f)?;
        }
        Ok(())
    }
}

// Common layout tables

pub fn coverage(r: &mut R, p: u64) -> S {
    let format = r.format(p, &[1, 2])?;
    let n = r.count(p + 2)?;
    if format == 1 {
        r.u16s(p + 4, n as u64)
    } else {
        ranges(r, p + 4, n)
    }
}

fn ranges(r: &mut R, p: u64, n: u16) -> S {
    r.put(n as Tok)?;
    for i in 0..n as u64 {
        for k in 0..3 {
            r.u16(p + 6 * i + 2 * k)?;
        }
    }
    Ok(())
}

pub fn class(r: &mut R, p: u64) -> S {
    if r.format(p, &[1, 2])? == 1 {
        r.u16(p + 2)?;
        let n = r.count(p + 4)?;
        r.u16s(p + 6, n as u64)
    } else {
        let n = r.count(p + 2)?;
        ranges(r, p + 4, n)
    }
}

pub fn correction(r: &mut R, p: u64) -> S {
    // The whole head is there in either case.
    r.reserve(p, 6)?;
    let i = match r.discriminant(p + 4, &[1, 2, 3, 0x8000])? {
        3 => 1,
        _ => 0,
    };
    r.put(var(i))?;
    if i == 1 {
        r.u16(p)?;
        r.u16(p + 2)?;
        r.put(0x8000)?;
        return Ok(());
    }
    device_body(r, p)
}

/// A device table that is asked for as such.
pub fn device(r: &mut R, p: u64) -> S {
    r.reserve(p, 6)?;
    r.discriminant(p + 4, &[1, 2, 3])?;
    device_body(r, p)
}

fn device_body(r: &mut R, p: u64) -> S {
    let format = r.raw(p + 4, 2, What::Format)? as u32;
    let start = r.pick(p, &[9, 0, 1, 0xFFFF, 0x7FFF])?;
    let end = if r.open(p + 2) {
        let mut ends = vec![];
        for d in [2u16, 0, 1, 3, 6, 7, 8, 15, 16, 31] {
            if let Some(end) = start.checked_add(d) {
                ends.push(end);
            }
        }
        if r.enabled(BAD) && start > 0 {
            ends.push(start - 1);
            ends.push(0);
        }
        r.pick(p + 2, &ends)?
    } else {
        r.pick(p + 2, &[])?
    };
    r.put(format as Tok)?;
    if start > end {
        return Err(Bad::Malformed);
    }
    let bits = (end as u64 - start as u64 + 1) * (1u64 << format);
    r.u16s(p + 6, bits.div_ceil(16))
}

fn actions(r: &mut R, p: u64, n: u16) -> S {
    r.put(n as Tok)?;
    for i in 0..n as u64 {
        r.u16(p + 4 * i)?;
        r.u16(p + 4 * i + 2)?;
    }
    Ok(())
}

fn rule(r: &mut R, p: u64) -> S {
    let n = r.count_from_one(p)?;
    let m = r.count(p + 2)?;
    r.u16s(p + 4, n as u64 - 1)?;
    actions(r, p + 4 + 2 * (n as u64 - 1), m)
}

fn chained_rule(r: &mut R, p: u64) -> S {
    let mut p = p;
    let n = r.count(p)? as u64;
    r.u16s(p + 2, n)?;
    p += 2 + 2 * n;
    let n = r.count_from_one(p)? as u64 - 1;
    r.u16s(p + 2, n)?;
    p += 2 + 2 * n;
    let n = r.count(p)? as u64;
    r.u16s(p + 2, n)?;
    p += 2 + 2 * n;
    let n = r.count(p)?;
    actions(r, p + 2, n)
}

fn rules(r: &mut R, p: u64, chained: bool) -> S {
    let n = r.count(p)?;
    let o = r.offs(p + 2, n, 2, false)?;
    let kind = Kind::Record(chained as u8);
    r.children(&o, p, kind, if chained { chained_rule } else { rule })
}

pub fn context(r: &mut R, p: u64) -> S {
    let sets = Kind::Records(0);
    match r.format(p, &[1, 2, 3])? {
        1 => {
            let c = r.off16(p + 2)?;
            let n = r.count(p + 4)?;
            let o = r.offs(p + 6, n, 2, true)?;
            r.child(c, p, Kind::Coverage, coverage)?;
            r.children_maybe(&o, p, sets, |r, p| rules(r, p, false))
        }
        2 => {
            let c = r.off16(p + 2)?;
            let k = r.off16(p + 4)?;
            let n = r.count(p + 6)?;
            let o = r.offs(p + 8, n, 2, true)?;
            r.child(c, p, Kind::Coverage, coverage)?;
            r.child(k, p, Kind::Class, class)?;
            r.children_maybe(&o, p, sets, |r, p| rules(r, p, false))
        }
        _ => {
            let n = r.count(p + 2)?;
            let m = r.count(p + 4)?;
            let o = r.offs(p + 6, n, 2, false)?;
            actions(r, p + 6 + 2 * n as u64, m)?;
            r.children(&o, p, Kind::Coverage, coverage)
        }
    }
}

pub fn chained_context(r: &mut R, p: u64) -> S {
    let sets = Kind::Records(1);
    match r.format(p, &[1, 2, 3])? {
        1 => {
            let c = r.off16(p + 2)?;
            let n = r.count(p + 4)?;
            let o = r.offs(p + 6, n, 2, true)?;
            r.child(c, p, Kind::Coverage, coverage)?;
            r.children_maybe(&o, p, sets, |r, p| rules(r, p, true))
        }
        2 => {
            let c = r.off16(p + 2)?;
            let b = r.off16(p + 4)?;
            let k = r.off16(p + 6)?;
            let f = r.off16(p + 8)?;
            let n = r.count(p + 10)?;
            let o = r.offs(p + 12, n, 2, true)?;
            r.child(c, p, Kind::Coverage, coverage)?;
            r.child(b, p, Kind::Class, class)?;
            r.child(k, p, Kind::Class, class)?;
            r.child(f, p, Kind::Class, class)?;
            r.children_maybe(&o, p, sets, |r, p| rules(r, p, true))
        }
        _ => {
            let mut q = p + 2;
            let mut lists = vec![];
            for _ in 0..3 {
                let n = r.count(q)?;
                lists.push(r.offs(q + 2, n, 2, false)?);
                q += 2 + 2 * n as u64;
            }
            let m = r.count(q)?;
            actions(r, q + 2, m)?;
            for o in lists {
                r.children(&o, p, Kind::Coverage, coverage)?;
            }
            Ok(())
        }
    }
}

// Layout directories

pub fn language(r: &mut R, p: u64) -> S {
    r.constant(p, 0)?;
    r.u16(p + 2)?;
    let n = r.count(p + 4)?;
    r.u16s(p + 6, n as u64)
}

fn headers(r: &mut R, p: u64, n: u16) -> S<Vec<Off>> {
    r.put(n as Tok)?;
    let mut all = vec![];
    for i in 0..n as u64 {
        r.u32(p + 6 * i)?;
        all.push(r.off16(p + 6 * i + 4)?);
    }
    Ok(all)
}

fn script(r: &mut R, p: u64) -> S {
    let d = r.off16n(p)?;
    let n = r.count(p + 2)?;
    let o = headers(r, p + 4, n)?;
    r.child_maybe(d, p, Kind::Language, language)?;
    r.children(&o, p, Kind::Language, language)
}

pub fn scripts(r: &mut R, p: u64) -> S {
    let n = r.count(p)?;
    let o = headers(r, p + 2, n)?;
    r.children(&o, p, Kind::Script, script)
}

fn feature(r: &mut R, p: u64) -> S {
    let o = r.off16n(p)?;
    let n = r.count(p + 2)?;
    r.u16s(p + 4, n as u64)?;
    // What the parameters consist of depends on the feature and is not decoded.
    r.child_maybe(o, p, Kind::Parameters, |_, _| Ok(()))
}

pub fn features(r: &mut R, p: u64) -> S {
    let n = r.count(p)?;
    let o = headers(r, p + 2, n)?;
    r.children(&o, p, Kind::Feature, feature)
}

fn feature_variations(r: &mut R, p: u64) -> S {
    r.constant(p, 1)?;
    r.constant(p + 2, 0)?;
    r.u32(p + 4)?;
    Ok(())
}

pub type Subtable = fn(&mut R, u64, u16) -> S;

fn lookup(r: &mut R, p: u64, f: Subtable) -> S {
    let types = r.types;
    let t = r.pick(p, types)?;
    let flags = r.flags(
        p + 2,
        0x00E0,
        &[0x0000, 0x0010, 0x001F, 0x0001, 0x0002, 0x0004, 0x0008, 0xFF00, 0x0110, 0xFF1F, 0x5500],
        &[0x0020, 0x0040, 0x0080, 0xFFFF],
    )?;
    let n = r.count(p + 4)?;
    let o = r.offs(p + 6, n, 2, false)?;
    if flags & 0x10 != 0 {
        r.put(SOME)?;
        r.u16(p + 6 + 2 * n as u64)?;
    } else {
        r.put(NONE)?;
    }
    r.put(n as Tok)?;
    for o in o {
        r.child(o, p, Kind::Subtable(t), |r, p| f(r, p, t))?;
    }
    Ok(())
}

pub fn lookups(r: &mut R, p: u64, f: Subtable) -> S {
    let n = r.count(p)?;
    let o = r.offs(p + 2, n, 2, false)?;
    r.children(&o, p, Kind::Lookup, |r, p| lookup(r, p, f))
}

pub fn directory(r: &mut R, p: u64, f: Subtable) -> S {
    r.constant(p, 1)?;
    let minor = r.discriminant(p + 2, &[0, 1])?;
    r.put(minor as Tok)?;
    let tolerate = r.cfg.directories;
    let s = r.off(p + 4, 2, tolerate)?;
    let e = r.off(p + 6, 2, tolerate)?;
    let l = r.off(p + 8, 2, tolerate)?;
    let v = if minor == 1 {
        Some(r.off(p + 10, 4, true)?)
    } else {
        r.put(0)?;
        None
    };
    r.child_or(s, p, Kind::Scripts, tolerate, &[0, 0, 0], scripts)?;
    r.child_or(e, p, Kind::Features, tolerate, &[0, 0, 0], features)?;
    r.child_or(l, p, Kind::Lookups, tolerate, &[0, 0, 0], |r, p| lookups(r, p, f))?;
    match v {
        Some(v) => r.child_maybe(v, p, Kind::Variations, feature_variations),
        None => r.put(NONE),
    }
}

// Glyph substitution

fn list(r: &mut R, p: u64) -> S {
    let n = r.count(p)?;
    r.u16s(p + 2, n as u64)
}

fn ligature(r: &mut R, p: u64) -> S {
    r.u16(p)?;
    let n = r.count_from_one(p + 2)?;
    r.u16s(p + 4, n as u64 - 1)
}

fn ligatures(r: &mut R, p: u64) -> S {
    let n = r.count(p)?;
    let o = r.offs(p + 2, n, 2, false)?;
    r.children(&o, p, Kind::Ligature, ligature)
}

fn sets(r: &mut R, p: u64, kind: Kind, f: impl Fn(&mut R, u64) -> S) -> S {
    r.constant(p, 1)?;
    let c = r.off16(p + 2)?;
    let n = r.count(p + 4)?;
    let o = r.offs(p + 6, n, 2, false)?;
    r.child(c, p, Kind::Coverage, coverage)?;
    r.children(&o, p, kind, f)
}

fn extension(r: &mut R, p: u64) -> S {
    r.constant(p, 1)?;
    r.u16(p + 2)?;
    r.u32(p + 4)?;
    Ok(())
}

pub fn gsub(r: &mut R, p: u64, t: u16) -> S {
    if !(1..=8).contains(&t) {
        return Err(Bad::Malformed);
    }
    r.put(var(t as i64 - 1))?;
    match t {
        1 => {
            let format = r.format(p, &[1, 2])?;
            let c = r.off16(p + 2)?;
            if format == 1 {
                r.i16(p + 4)?;
            } else {
                let n = r.count(p + 4)?;
                r.u16s(p + 6, n as u64)?;
            }
            r.child(c, p, Kind::Coverage, coverage)
        }
        2 => sets(r, p, Kind::Sequence, list),
        3 => sets(r, p, Kind::Alternates, list),
        4 => sets(r, p, Kind::Ligatures, ligatures),
        5 => context(r, p),
        6 => chained_context(r, p),
        7 => extension(r, p),
        _ => {
            r.constant(p, 1)?;
            let c = r.off16(p + 2)?;
            let n = r.count(p + 4)?;
            let b = r.offs(p + 6, n, 2, false)?;
            let q = p + 6 + 2 * n as u64;
            let n = r.count(q)?;
            let f = r.offs(q + 2, n, 2, false)?;
            let q = q + 2 + 2 * n as u64;
            let n = r.count(q)?;
            r.u16s(q + 2, n as u64)?;
            r.child(c, p, Kind::Coverage, coverage)?;
            r.children(&b, p, Kind::Coverage, coverage)?;
            r.children(&f, p, Kind::Coverage, coverage)
        }
    }
}

// Glyph positioning

pub fn anchor(r: &mut R, p: u64) -> S {
    let format = r.format(p, &[1, 2, 3])?;
    r.i16(p + 2)?;
    r.i16(p + 4)?;
    match format {
        1 => Ok(()),
        2 => r.u16(p + 6).map(|_| ()),
        _ => {
            let x = r.off16n(p + 6)?;
            let y = r.off16n(p + 8)?;
            r.child_maybe(x, p, Kind::Correction, correction)?;
            r.child_maybe(y, p, Kind::Correction, correction)
        }
    }
}

const VALUES: [u16; 13] = [
    0x0005, 0x0000, 0x0001, 0x0002, 0x0004, 0x0008, 0x0010, 0x0020, 0x0040, 0x0080, 0x00F0,
    0x000F, 0x00FF,
];
const SECOND_VALUES: [u16; 7] = [0x0000, 0x0001, 0x0004, 0x0012, 0x0080, 0x00FF, 0x00A5];
const BAD_VALUES: [u16; 9] =
    [0x0100, 0x0200, 0x0400, 0x0800, 0x1000, 0x2000, 0x4000, 0x8000, 0xFF00];

fn value_flags(r: &mut R, p: u64, second: bool) -> S<u16> {
    let values: &[u16] = if second { &SECOND_VALUES } else { &VALUES };
    r.flags(p, 0xFF00, values, &BAD_VALUES)
}

fn value_size(flags: u16) -> u64 {
    2 * flags.count_ones() as u64
}

/// A value record at `p` whose corrections are found from `base`.
fn value(r: &mut R, p: u64, base: u64, flags: u16) -> S {
    let mut q = p;
    for bit in 0..4 {
        if flags & (1 << bit) != 0 {
            r.put(SOME)?;
            r.i16(q)?;
            q += 2;
        } else {
            r.put(NONE)?;
        }
    }
    let mut all = [None; 4];
    for bit in 0..4 {
        if flags & (0x10 << bit) != 0 {
            r.put(SOME)?;
            all[bit] = Some(r.off16n(q)?);
            q += 2;
        } else {
            r.put(NONE)?;
        }
    }
    for o in all {
        match o {
            Some(o) => r.child_maybe(o, base, Kind::Correction, correction)?,
            None => r.put(NONE)?,
        }
    }
    Ok(())
}

fn value_maybe(r: &mut R, p: u64, base: u64, flags: u16) -> S {
    if flags != 0 {
        r.put(SOME)?;
        value(r, p, base, flags)
    } else {
        r.put(NONE)
    }
}

fn pair_set(r: &mut R, p: u64, flags1: u16, flags2: u16) -> S {
    let n = r.count(p)?;
    let size = 2 + value_size(flags1) + value_size(flags2);
    r.reserve(p + 2, n as u64 * size)?;
    r.put(n as Tok)?;
    for i in 0..n as u64 {
        let q = p + 2 + i * size;
        r.u16(q)?;
        value_maybe(r, q + 2, p, flags1)?;
        value_maybe(r, q + 2 + value_size(flags1), p, flags2)?;
    }
    Ok(())
}

fn mark1s(r: &mut R, p: u64) -> S {
    let n = r.count(p)?;
    r.reserve(p + 2, 4 * n as u64)?;
    r.put(n as Tok)?;
    let tolerate = r.cfg.marks;
    for i in 0..n as u64 {
        r.u16(p + 2 + 4 * i)?;
        let o = r.off(p + 4 + 4 * i, 2, tolerate)?;
        r.child_or(o, p, Kind::Anchor, tolerate, &[var(0), 0, 0, 0], anchor)?;
    }
    Ok(())
}

/// An array of rows of anchors, found from the start of the array.
fn matrix(r: &mut R, p: u64, classes: u16) -> S {
    let n = r.count(p)?;
    r.reserve(p + 2, 2 * n as u64 * classes as u64)?;
    r.put(n as Tok)?;
    for i in 0..n as u64 {
        let o = r.offs(p + 2 + 2 * i * classes as u64, classes, 2, true)?;
        r.children_maybe(&o, p, Kind::Anchor, anchor)?;
        r.zero[MATRIX] += (classes == 0) as u64;
    }
    Ok(())
}

fn ligature_array(r: &mut R, p: u64, classes: u16) -> S {
    let n = r.count(p)?;
    let o = r.offs(p + 2, n, 2, false)?;
    r.children(&o, p, Kind::LigatureAttach(classes), |r, p| matrix(r, p, classes))
}

pub fn gpos(r: &mut R, p: u64, t: u16) -> S {
    if !(1..=9).contains(&t) {
        return Err(Bad::Malformed);
    }
    r.put(var(t as i64 - 1))?;
    match t {
        1 => {
            let format = r.format(p, &[1, 2])?;
            let c = r.off16(p + 2)?;
            let flags = value_flags(r, p + 4, false)?;
            let size = value_size(flags);
            if format == 1 {
                r.reserve(p + 6, size)?;
                value(r, p + 6, p, flags)?;
            } else {
                let n = r.count(p + 6)?;
                r.reserve(p + 8, n as u64 * size)?;
                r.put(n as Tok)?;
                for i in 0..n as u64 {
                    r.zero[SINGLE] += (size == 0) as u64;
                    value(r, p + 8 + i * size, p, flags)?;
                }
            }
            r.child(c, p, Kind::Coverage, coverage)
        }
        2 => {
            let format = r.format(p, &[1, 2])?;
            let c = r.off16(p + 2)?;
            let flags1 = value_flags(r, p + 4, false)?;
            let flags2 = value_flags(r, p + 6, true)?;
            if format == 1 {
                let n = r.count(p + 8)?;
                let o = r.offs(p + 10, n, 2, false)?;
                r.child(c, p, Kind::Coverage, coverage)?;
                let kind = Kind::PairSet((flags1 as u32) << 16 | flags2 as u32);
                r.children(&o, p, kind, |r, p| pair_set(r, p, flags1, flags2))
            } else {
                let k1 = r.off16(p + 8)?;
                let k2 = r.off16(p + 10)?;
                let n1 = r.count(p + 12)?;
                let n2 = r.count(p + 14)?;
                let (size1, size2) = (value_size(flags1), value_size(flags2));
                r.reserve(p + 16, n1 as u64 * n2 as u64 * (size1 + size2))?;
                r.put(n1 as Tok)?;
                let mut q = p + 16;
                for _ in 0..n1 {
                    r.put(n2 as Tok)?;
                    for _ in 0..n2 {
                        r.zero[PAIR] += (size1 + size2 == 0) as u64;
                        value_maybe(r, q, p, flags1)?;
                        value_maybe(r, q + size1, p, flags2)?;
                        q += size1 + size2;
                    }
                }
                r.child(c, p, Kind::Coverage, coverage)?;
                r.child(k1, p, Kind::Class, class)?;
                r.child(k2, p, Kind::Class, class)
            }
        }
        3 => {
            r.constant(p, 1)?;
            let c = r.off16(p + 2)?;
            let n = r.count(p + 4)?;
            r.reserve(p + 6, 4 * n as u64)?;
            r.put(n as Tok)?;
            for i in 0..n as u64 {
                let s = r.off16n(p + 6 + 4 * i)?;
                let e = r.off16n(p + 8 + 4 * i)?;
                r.child_maybe(s, p, Kind::Anchor, anchor)?;
                r.child_maybe(e, p, Kind::Anchor, anchor)?;
            }
            r.child(c, p, Kind::Coverage, coverage)
        }
        4 | 5 | 6 => {
            r.constant(p, 1)?;
            let c1 = r.off16(p + 2)?;
            let c2 = r.off16(p + 4)?;
            let n = r.count(p + 6)?;
            let o1 = r.off16(p + 8)?;
            let o2 = r.off16(p + 10)?;
            r.child(c1, p, Kind::Coverage, coverage)?;
            r.child(c2, p, Kind::Coverage, coverage)?;
            r.child(o1, p, Kind::Mark1s, mark1s)?;
            if t == 5 {
                r.child(o2, p, Kind::LigatureArray(n), |r, p| ligature_array(r, p, n))
            } else {
                r.child(o2, p, Kind::Matrix(n), |r, p| matrix(r, p, n))
            }
        }
        7 => context(r, p),
        8 => chained_context(r, p),
        _ => extension(r, p),
    }
}

// Glyph definition

fn attachments(r: &mut R, p: u64) -> S {
    let c = r.off16(p)?;
    let n = r.count(p + 2)?;
    let o = r.offs(p + 4, n, 2, false)?;
    r.child(c, p, Kind::Coverage, coverage)?;
    r.children(&o, p, Kind::Attachment, list)
}

pub fn caret(r: &mut R, p: u64) -> S {
    match r.format(p, &[1, 2, 3])? {
        1 => r.i16(p + 2),
        2 => r.u16(p + 2).map(|_| ()),
        _ => {
            r.i16(p + 2)?;
            let o = r.off16(p + 4)?;
            r.child(o, p, Kind::Correction, correction)
        }
    }
}

fn gdef_ligature(r: &mut R, p: u64) -> S {
    let n = r.count(p)?;
    let o = r.offs(p + 2, n, 2, false)?;
    r.children(&o, p, Kind::Caret, caret)
}

fn gdef_ligatures(r: &mut R, p: u64) -> S {
    let c = r.off16(p)?;
    let n = r.count(p + 2)?;
    let o = r.offs(p + 4, n, 2, false)?;
    r.child(c, p, Kind::Coverage, coverage)?;
    r.children(&o, p, Kind::GdefLigature, gdef_ligature)
}

fn marks(r: &mut R, p: u64) -> S {
    r.constant(p, 1)?;
    let n = r.count(p + 2)?;
    let o = r.offs(p + 4, n, 4, false)?;
    r.children(&o, p, Kind::Coverage, coverage)
}

pub fn gdef(r: &mut R, p: u64) -> S {
    r.constant(p, 1).map_err(|e| e)?;
    r.out.pop();
    let i = r.discriminant(p + 2, &[0, 2, 3])?;
    r.put(var(i as i64))?;
    r.put(1)?;
    r.put([0, 2, 3][i])?;
    let a = r.off16n(p + 4)?;
    let b = r.off16n(p + 6)?;
    let c = r.off16n(p + 8)?;
    let d = r.off16n(p + 10)?;
    let e = if i > 0 { Some(r.off16n(p + 12)?) } else { None };
    let f = if i > 1 { Some(r.off(p + 14, 4, true)?) } else { None };
    r.child_maybe(a, p, Kind::Class, class)?;
    r.child_maybe(b, p, Kind::Attachments, attachments)?;
    r.child_maybe(c, p, Kind::GdefLigatures, gdef_ligatures)?;
    r.child_maybe(d, p, Kind::Class, class)?;
    match e {
        Some(e) => r.child_maybe(e, p, Kind::Marks, marks)?,
        None => r.put(NONE)?,
    }
    match f {
        Some(f) => r.child_maybe(f, p, Kind::Store, store),
        None => r.put(NONE),
    }
}

// Variations

fn store_record(r: &mut R, p: u64) -> S {
    let items = r.count(p)?;
    r.reserve(p, 6)?;
    // The generator decides the number of regions first.
    let regions = if r.open(p + 4) {
        let mark = r.out.len();
        let n = r.count(p + 4)?;
        r.out.truncate(mark);
        n
    } else {
        r.raw(p + 4, 2, What::Count)? as u16
    };
    let words = if r.open(p + 2) {
        let mut options = vec![regions, 0, 0x8000 | regions, 0x8000];
        if regions > 1 {
            options.push(1);
            options.push(0x8001);
        }
        r.pick(p + 2, &options)?
    } else {
        r.pick(p + 2, &[])?
    };
    r.put(regions as Tok)?;
    if words & 0x7FFF > regions {
        return Err(Bad::Unspecified);
    }
    r.u16s(p + 6, regions as u64)?;
    let unit = if words & 0x8000 != 0 { 2 } else { 1 };
    let row = unit * ((words & 0x7FFF) as u64 + regions as u64);
    let size = items as u64 * row;
    let q = p + 6 + 2 * regions as u64;
    if q + size > r.limit {
        return Err(Bad::Eof);
    }
    r.put(size as Tok)?;
    for i in 0..size {
        r.u8(q + i)?;
    }
    Ok(())
}

pub fn store(r: &mut R, p: u64) -> S {
    r.constant(p, 1)?;
    // The list of regions is not decoded.
    let tok = r.out.len() as u32;
    r.u32(p + 2)?;
    r.offsets.push(tok);
    let n = r.count(p + 6)?;
    let o = r.offs(p + 8, n, 4, false)?;
    r.children(&o, p, Kind::StoreRecord, store_record)
}

fn fixed_size(r: &mut R, p: u64, least: u16, extra: &[u16]) -> S<u16> {
    let values: Vec<u16> =
        std::iter::once(0).chain(extra.iter().copied()).map(|e| least.wrapping_add(e)).collect();
    r.pick(p, &values)
}

pub fn fvar(r: &mut R, p: u64) -> S {
    r.constant(p, 1)?;
    r.constant(p + 2, 0)?;
    r.reserve(p, 16)?;
    let mark = r.offsets.len();
    let o = r.off16(p + 4)?;
    let _ = mark;
    r.constant(p + 6, 2)?;
    let axes = r.count(p + 8)?;
    let axis_size = fixed_size(r, p + 10, 20, &[4, 1, 200, 0xFFFF])?;
    let instances = r.count(p + 12)?;
    let least = (4u32 + 4 * axes as u32).min(0xFFFF) as u16;
    let instance_size = fixed_size(r, p + 14, least, &[2, 1, 3, 4, 300, 0xFFFE])?;
    let a = match r.resolve(o, p, Kind::Axes, false)? {
        Some(a) => a,
        None => return Err(Bad::Unspecified),
    };
    if axes > 0 && axis_size < 20 || instances > 0 && (instance_size as u32) < 4 + 4 * axes as u32 {
        return Err(Bad::Unspecified);
    }
    let b = a + axes as u64 * axis_size as u64;
    r.reserve(a, axes as u64 * axis_size as u64)?;
    r.put(axes as Tok)?;
    for i in 0..axes as u64 {
        let q = a + i * axis_size as u64;
        r.u32(q)?;
        for k in 1..4 {
            r.i32(q + 4 * k)?;
        }
        r.flags(q + 16, 0xFFFE, &[0, 1], &[2, 0x8000, 0xFFFF])?;
        r.u16(q + 18)?;
    }
    r.reserve(b, instances as u64 * instance_size as u64)?;
    r.put(instances as Tok)?;
    for i in 0..instances as u64 {
        let q = b + i * instance_size as u64;
        r.u16(q)?;
        r.flags(q + 2, 0xFFFF, &[0], &[1, 0x8000, 0xFFFF])?;
        r.put(axes as Tok)?;
        for k in 0..axes as u64 {
            r.i32(q + 4 + 4 * k)?;
        }
        if instance_size as u32 >= 6 + 4 * axes as u32 {
            r.put(SOME)?;
            r.u16(q + 4 + 4 * axes as u64)?;
        } else {
            r.put(NONE)?;
        }
    }
    Ok(())
}

pub fn cpal(r: &mut R, p: u64) -> S {
    let i = r.discriminant(p, &[0, 1])?;
    r.put(var(i as i64))?;
    r.put(i as Tok)?;
    let entries = r.count(p + 2)?;
    let palettes = r.count(p + 4)?;
    let colors = r.pick(
        p + 6,
        &[
            entries,
            entries.saturating_add(1),
            entries.saturating_add(2),
            entries.saturating_sub(1),
            0,
            entries.saturating_mul(2),
        ],
    )?;
    let o = r.off(p + 8, 4, false)?;
    r.put(palettes as Tok)?;
    let mut first = vec![];
    for k in 0..palettes as u64 {
        let slack = colors.saturating_sub(entries);
        first.push(r.pick(p + 12 + 2 * k, &[slack, 0, slack / 2, slack.saturating_add(1), 0xFFFF])?);
    }
    if i == 1 {
        // Three more offsets, which are not decoded.
        r.reserve(p + 12 + 2 * palettes as u64, 12)?;
    }
    let a = match r.resolve(o, p, Kind::Colors, false)? {
        Some(a) => a,
        None => return Err(Bad::Unspecified),
    };
    r.reserve(a, 4 * colors as u64)?;
    r.put(colors as Tok)?;
    let mark = r.out.len();
    for k in 0..4 * colors as u64 {
        r.u8(a + k)?;
    }
    if entries > 0 && first.iter().any(|f| *f as u32 + entries as u32 > colors as u32) {
        return Err(Bad::Malformed);
    }
    r.put(ITER)?;
    for f in first {
        r.put(ITER)?;
        for k in 0..4 * entries as usize {
            let v = r.out[mark + 4 * f as usize + k];
            r.put(v)?;
        }
    }
    r.put(ITER)
}

// Roots

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Root {
    Gsub,
    Gpos,
    GsubType(u16),
    GposType(u16),
    GsubLookups,
    GposLookups,
    Scripts,
    Features,
    Language,
    Coverage,
    Class,
    Correction,
    Context,
    ChainedContext,
    Gdef,
    Caret,
    Anchor,
    Store,
    Fvar,
    Cpal,
    Device,
}

pub fn run(r: &mut R, root: Root) -> S {
    run_at(r, root, 0)
}

pub fn run_at(r: &mut R, root: Root, p: u64) -> S {
    match root {
        Root::Gsub => directory(r, p, gsub),
        Root::Gpos => directory(r, p, gpos),
        Root::GsubType(t) => gsub(r, p, t),
        Root::GposType(t) => gpos(r, p, t),
        Root::GsubLookups => lookups(r, p, gsub),
        Root::GposLookups => lookups(r, p, gpos),
        Root::Scripts => scripts(r, p),
        Root::Features => features(r, p),
        Root::Language => language(r, p),
        Root::Coverage => coverage(r, p),
        Root::Class => class(r, p),
        Root::Correction => correction(r, p),
        Root::Context => context(r, p),
        Root::ChainedContext => chained_context(r, p),
        Root::Gdef => gdef(r, p),
        Root::Caret => caret(r, p),
        Root::Anchor => anchor(r, p),
        Root::Store => store(r, p),
        Root::Fvar => fvar(r, p),
        Root::Cpal => cpal(r, p),
        Root::Device => device(r, p),
    }
}
