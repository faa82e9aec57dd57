//! Fonts as wholes: the directory, table requests, checksums, and histories of operations.

use crate::case::{Act, Env};
use crate::ctx::{disagree, Ctx, Expected};
use crate::emit::{Emit, Tok, NONE, SOME};
use crate::mem::Mem;
use crate::real::{self, Outcome};
use crate::spec::{self, build_cfg, Bad, Root, R};
use crate::tape::Tape;
use opentype::postscript::compact1::FontSet;
use opentype::tables::{
    ColorPalettes, FontVariations, GlyphDefinition, GlyphPositioning, GlyphSubstitution,
};
use opentype::truetype::tables::{
    CharacterMapping, FontHeader, GlyphData, GlyphMapping, HorizontalHeader, HorizontalMetrics,
    MaximumProfile, Names, PostScript, WindowsMetrics,
};
use opentype::{value, File};

pub const TAGS: [&[u8; 4]; 16] = [
    b"CFF ", b"CPAL", b"GDEF", b"GPOS", b"GSUB", b"OS/2", b"cmap", b"fvar", b"glyf", b"head",
    b"hhea", b"hmtx", b"loca", b"maxp", b"name", b"post",
];
pub const CPAL: u16 = 1;
pub const GDEF: u16 = 2;
pub const GPOS: u16 = 3;
pub const GSUB: u16 = 4;
pub const FVAR: u16 = 7;
pub const HEAD: u16 = 9;
pub const HHEA: u16 = 10;
pub const HMTX: u16 = 11;
pub const LOCA: u16 = 12;
pub const MAXP: u16 = 13;

// Operations: the kind in the upper byte, the argument in the lower one.
pub const OPEN: u16 = 0x000;
pub const EXISTS: u16 = 0x100;
pub const POSITION: u16 = 0x200;
pub const TAKE: u16 = 0x300;
/// Move the stream.
pub const GOTO: u16 = 0x400;
/// Let an operation of the stream fail during the next operation on the font.
pub const FAIL: u16 = 0x500;
/// It is about the other font.
pub const OTHER: u16 = 0x8000;
/// It is on the other stream than the font's own.
pub const CROSS: u16 = 0x4000;

/// The content of the other stream, if there is one, is in segments from here on.
pub const SECOND: u64 = 1 << 40;

/// Two streams as one memory.
pub fn join(a: &Mem, b: &Mem) -> Mem {
    let mut all = a.clone();
    for s in &b.segs {
        let mut s = s.clone();
        s.start += SECOND;
        all.segs.push(s);
    }
    all
}

fn split(mem: &Mem) -> (Mem, Mem) {
    let mut a = Mem { segs: vec![] };
    let mut b = Mem { segs: vec![] };
    for s in &mem.segs {
        if s.start < SECOND {
            a.segs.push(s.clone());
        } else {
            let mut s = s.clone();
            s.start -= SECOND;
            b.segs.push(s);
        }
    }
    (a, b)
}

#[inline]
pub fn kind(op: u16) -> u16 {
    op & 0x0F00
}

pub fn op_name(op: u16) -> String {
    let tag = || String::from_utf8_lossy(TAGS[(op & 0xFF) as usize % 16]).into_owned();
    let of = match op & (OTHER | CROSS) {
        0 => "",
        OTHER => "other ",
        CROSS => "crossed ",
        _ => "other crossed ",
    };
    let name: String = match kind(op) {
        OPEN => "open".into(),
        EXISTS => format!("exists({})", tag()),
        POSITION => format!("position({})", tag()),
        TAKE => format!("take({})", tag()),
        GOTO => format!("goto({})", op & 0xFF),
        FAIL => format!("fail({})", op & 0xFF),
        _ => "?".into(),
    };
    format!("{of}{name}")
}

pub const SIGNATURES: [[u8; 4]; 4] = [[0, 1, 0, 0], *b"OTTO", *b"true", *b"typ1"];

fn known_root(t: u16) -> Option<Root> {
    Some(match t {
        CPAL => Root::Cpal,
        GDEF => Root::Gdef,
        GPOS => Root::Gpos,
        GSUB => Root::Gsub,
        FVAR => Root::Fvar,
        _ => return None,
    })
}

// The model

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Rec {
    pub tag: [u8; 4],
    pub checksum: u32,
    pub offset: u32,
    pub size: u32,
}

fn u32_at(mem: &Mem, p: u64) -> u32 {
    (mem.u16(p) as u32) << 16 | mem.u16(p + 2) as u32
}

/// What a directory at `p` says.
pub fn directory(mem: &Mem, limit: u64, p: u64) -> Result<(Vec<Tok>, Vec<Rec>), Bad> {
    if p + 4 > limit {
        return Err(Bad::Eof);
    }
    let signature = u32_at(mem, p).to_be_bytes();
    if !SIGNATURES.contains(&signature) {
        return Err(Bad::Malformed);
    }
    if p + 12 > limit {
        return Err(Bad::Eof);
    }
    let count = mem.u16(p + 4) as u64;
    let mut out = vec![1, u32_at(mem, p) as Tok];
    for k in 2..6 {
        out.push(mem.u16(p + 2 * k) as Tok);
    }
    if p + 12 + 16 * count > limit {
        return Err(Bad::Eof);
    }
    out.push(count as Tok);
    let mut all = vec![];
    for i in 0..count {
        let q = p + 12 + 16 * i;
        for k in 0..4 {
            out.push(u32_at(mem, q + 4 * k) as Tok);
        }
        all.push(Rec {
            tag: u32_at(mem, q).to_be_bytes(),
            checksum: u32_at(mem, q + 4),
            offset: u32_at(mem, q + 8),
            size: u32_at(mem, q + 12),
        });
    }
    Ok((out, all))
}

/// The checksum of a table.
pub fn checksum(mem: &Mem, limit: u64, rec: &Rec) -> Result<u32, Bad> {
    let (start, size) = (rec.offset as u64, rec.size as u64);
    if start + size > limit {
        // Nothing is a table, too, wherever that is.
        return Err(if size == 0 { Bad::Unspecified } else { Bad::Eof });
    }
    if start + size.div_ceil(4) * 4 > limit {
        // The padding of the last table is missing.
        return Err(Bad::Unspecified);
    }
    let mut sum = 0u32;
    for i in 0..size.div_ceil(4) {
        if rec.tag == *b"head" && i == 2 {
            continue;
        }
        let mut word = [0; 4];
        for k in 0..4 {
            if 4 * i + k < size {
                word[k as usize] = mem.byte(start + 4 * i + k);
            }
        }
        sum = sum.wrapping_add(u32::from_be_bytes(word));
    }
    Ok(sum)
}

pub fn checked() -> bool {
    !cfg!(feature = "ignore-invalid-checksums")
}

/// Where a table request leads.
fn find(mem: &Mem, limit: u64, recs: &[Rec], t: u16) -> Result<Option<u64>, Bad> {
    for rec in recs {
        if rec.tag == *TAGS[t as usize] {
            if checked() && checksum(mem, limit, rec)? != rec.checksum {
                return Err(Bad::Malformed);
            }
            return Ok(Some(rec.offset as u64));
        }
    }
    Ok(None)
}

/// The two fonts and the two streams, of which one each is the rule.
pub struct Model<'m> {
    mems: [&'m Mem; 2],
    limits: [u64; 2],
    pub recs: [Option<Vec<Rec>>; 2],
    pub pos: [u64; 2],
    /// The outcome of the next operation on the stream is not predicted.
    pub disturbed: [bool; 2],
}

impl<'m> Model<'m> {
    pub fn new(mems: [&'m Mem; 2], limits: [u64; 2]) -> Self {
        Model { mems, limits, recs: [None, None], pos: [0; 2], disturbed: [false; 2] }
    }

    pub fn step(&mut self, op: u16) -> Expected {
        let mut result = self.answer(op);
        let stream = stream(op);
        if self.disturbed[stream] && kind(op) != FAIL && kind(op) != GOTO {
            self.disturbed[stream] = false;
            result = Err(Bad::Unspecified);
        }
        let (result, out) = match result {
            Ok(out) => (Ok(()), out),
            Err(bad) => (Err(bad), vec![]),
        };
        Expected { result, out, zero: [0; 3] }
    }

    fn answer(&mut self, op: u16) -> Result<Vec<Tok>, Bad> {
        let t = op & 0xFF;
        let (font, stream) = (font(op), stream(op));
        let (mem, limit) = (self.mems[stream], self.limits[stream]);
        match kind(op) {
            GOTO => {
                self.pos[stream] = t as u64;
                return Ok(vec![]);
            }
            FAIL => {
                self.disturbed[stream] = true;
                return Ok(vec![]);
            }
            OPEN => {
                self.recs[font] = None;
                if self.disturbed[stream] {
                    return Err(Bad::Unspecified);
                }
                let (out, recs) = directory(mem, limit, self.pos[stream])?;
                self.recs[font] = Some(recs);
                return Ok(out);
            }
            _ => {}
        }
        let recs = match &self.recs[font] {
            Some(recs) => recs,
            None => return Ok(vec![NONE, NONE]),
        };
        match kind(op) {
            EXISTS => Ok(vec![recs.iter().any(|r| r.tag == *TAGS[t as usize]) as Tok]),
            POSITION => Ok(match find(mem, limit, recs, t)? {
                Some(a) => vec![SOME, a as Tok],
                None => vec![NONE],
            }),
            _ => match find(mem, limit, recs, t)? {
                None => Ok(vec![NONE]),
                Some(a) => {
                    let mut out = vec![SOME];
                    match known_root(t) {
                        Some(root) => {
                            let mut r = R::parse(mem.clone(), build_cfg());
                            r.limit = limit;
                            spec::run_at(&mut r, root, a)?;
                            out.append(&mut r.out);
                        }
                        None => {
                            let mut tape = Tape::new(mem);
                            tape.len = limit;
                            tape.pos = a;
                            // The decoders of other tables are not under test here.
                            match real::guard(|| foreign(t, None, &mut tape)) {
                                Ok(Ok(Some(v))) => out.push(v),
                                Ok(Ok(None)) => unreachable!(),
                                _ => return Err(Bad::Unspecified),
                            }
                        }
                    }
                    Ok(out)
                }
            },
        }
    }
}

fn font(op: u16) -> usize {
    (op & OTHER != 0) as usize
}

fn stream(op: u16) -> usize {
    ((op & OTHER != 0) != (op & CROSS != 0)) as usize
}

// The library

fn digest<T: std::fmt::Debug>(v: &T) -> Tok {
    let mut h = 0xcbf29ce484222325u64;
    for b in format!("{v:?}").bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    (h >> 2) as Tok
}

fn one<U>(file: Option<&File>, tape: &mut Tape) -> std::io::Result<Option<Tok>>
where
    U: opentype::Table + value::Read + std::fmt::Debug,
{
    Ok(match file {
        Some(file) => file.fonts[0].take::<_, U>(tape)?.as_ref().map(digest),
        None => Some(digest(&U::read(tape)?)),
    })
}

/// A table that this library passes on, from a font or from where the tape stands.
fn foreign(t: u16, file: Option<&File>, tape: &mut Tape) -> std::io::Result<Option<Tok>> {
    use opentype::tape::Read;
    match t {
        0 => Ok(match file {
            Some(file) => file.fonts[0].take::<_, FontSet>(tape)?.map(|_| 0),
            None => {
                let _: FontSet = tape.take()?;
                Some(0)
            }
        }),
        5 => one::<WindowsMetrics>(file, tape),
        6 => one::<CharacterMapping>(file, tape),
        HEAD => one::<FontHeader>(file, tape),
        HHEA => one::<HorizontalHeader>(file, tape),
        MAXP => one::<MaximumProfile>(file, tape),
        14 => one::<Names>(file, tape),
        15 => one::<PostScript>(file, tape),
        HMTX => {
            let (header, profile) = metrics_parameters();
            let given = (&header, &profile);
            Ok(match file {
                Some(file) => file.fonts[0]
                    .take_given::<_, HorizontalMetrics>(tape, given)?
                    .as_ref()
                    .map(digest),
                None => Some(digest(&tape.take_given::<HorizontalMetrics>(given)?)),
            })
        }
        LOCA | 8 => {
            let (_, profile) = metrics_parameters();
            let header = FontHeader::default();
            let given = (&header, &profile);
            if t == LOCA {
                return Ok(match file {
                    Some(file) => file.fonts[0]
                        .take_given::<_, GlyphMapping>(tape, given)?
                        .as_ref()
                        .map(digest),
                    None => Some(digest(&tape.take_given::<GlyphMapping>(given)?)),
                });
            }
            let mapping = GlyphMapping::HalfOffsets(vec![0, 0, 0, 0]);
            Ok(match file {
                Some(file) => file.fonts[0]
                    .take_given::<_, GlyphData>(tape, &mapping)?
                    .as_ref()
                    .map(digest),
                None => Some(digest(&tape.take_given::<GlyphData>(&mapping)?)),
            })
        }
        _ => unreachable!(),
    }
}

fn metrics_parameters() -> (HorizontalHeader, MaximumProfile) {
    use opentype::truetype::tables::maximum_profile::MaximumProfile0;
    let mut header = HorizontalHeader::default();
    header.horizontal_metric_count = 2;
    let mut profile = MaximumProfile0::default();
    profile.glyph_count = 3;
    (header, MaximumProfile::Version0(profile))
}

macro_rules! with(($t:expr, $name:ident => $body:expr) => (match $t {
    0 => { type $name = FontSet; $body }
    1 => { type $name = ColorPalettes; $body }
    2 => { type $name = GlyphDefinition; $body }
    3 => { type $name = GlyphPositioning; $body }
    4 => { type $name = GlyphSubstitution; $body }
    5 => { type $name = WindowsMetrics; $body }
    6 => { type $name = CharacterMapping; $body }
    7 => { type $name = FontVariations; $body }
    8 => { type $name = GlyphData; $body }
    9 => { type $name = FontHeader; $body }
    10 => { type $name = HorizontalHeader; $body }
    11 => { type $name = HorizontalMetrics; $body }
    12 => { type $name = GlyphMapping; $body }
    13 => { type $name = MaximumProfile; $body }
    14 => { type $name = Names; $body }
    _ => { type $name = PostScript; $body }
}));

fn own<U>(file: &File, tape: &mut Tape, out: &mut Vec<Tok>) -> std::io::Result<()>
where
    U: opentype::Table + value::Read + Emit,
{
    file.fonts[0].take::<_, U>(tape)?.emit(out);
    Ok(())
}

pub fn exists(file: &File, t: u16) -> bool {
    with!(t, U => file.fonts[0].exists::<U>())
}

/// Perform one operation.
pub fn perform(
    op: u16,
    file: &mut Option<File>,
    tape: &mut Tape,
    out: &mut Vec<Tok>,
) -> std::io::Result<()> {
    let t = op & 0xFF;
    match kind(op) {
        GOTO => {
            tape.pos = t as u64;
            return Ok(());
        }
        FAIL => {
            tape.fail_at = tape.ops + t as u32;
            return Ok(());
        }
        OPEN => {
            *file = None;
            let new = File::read(tape)?;
            out.push(new.fonts.len() as Tok);
            new.fonts[0].offsets.emit(out);
            *file = Some(new);
            return Ok(());
        }
        _ => {}
    }
    let file = match file {
        Some(file) => &*file,
        None => {
            out.extend([NONE, NONE]);
            return Ok(());
        }
    };
    ask(op, file, tape, out)
}

/// Perform one operation on a font that has been opened.
pub fn ask(op: u16, file: &File, tape: &mut Tape, out: &mut Vec<Tok>) -> std::io::Result<()> {
    let t = op & 0xFF;
    match kind(op) {
        EXISTS => out.push(exists(file, t) as Tok),
        POSITION => {
            let found = with!(t, U => file.fonts[0].position::<_, U>(tape)?);
            match found {
                Some(()) => out.extend([SOME, tape.pos as Tok]),
                None => out.push(NONE),
            }
        }
        _ => match t {
            CPAL => own::<ColorPalettes>(file, tape, out)?,
            GDEF => own::<GlyphDefinition>(file, tape, out)?,
            GPOS => own::<GlyphPositioning>(file, tape, out)?,
            GSUB => own::<GlyphSubstitution>(file, tape, out)?,
            FVAR => own::<FontVariations>(file, tape, out)?,
            _ => match foreign(t, Some(file), tape)? {
                Some(v) => out.extend([SOME, v]),
                None => out.push(NONE),
            },
        },
    }
    Ok(())
}

/// The decoders of other packages may panic on nonsense, which is not for this library to answer.
pub fn excused(op: u16) -> bool {
    kind(op) == TAKE && known_root(op & 0xFF).is_none()
}

/// Perform a history of operations, each compared with the model.
///
/// The outcome is summed up in a number.
pub fn history(ctx: &mut Ctx, ops: &[u16], env: &Env, mem: &Mem, judge: u32) -> u64 {
    let act = Act::History(ops.to_vec());
    ctx.note(&act, env, mem);
    let parts;
    let mems = if mem.segs.last().unwrap().start >= SECOND {
        parts = split(mem);
        [&parts.0, &parts.1]
    } else {
        [mem, mem]
    };
    let limits = [env.cut.unwrap_or(mems[0].len()), mems[1].len()];
    let mut model = Model::new(mems, limits);
    let mut files: [Option<File>; 2] = [None, None];
    let mut tapes = [env.tape(mems[0]), Tape::new(mems[1])];
    let mut out = vec![];
    let mut sum = 0u64;
    for (i, op) in ops.iter().enumerate() {
        // Where the stream stands is plain to see.
        model.pos[stream(*op)] = tapes[stream(*op)].pos - tapes[stream(*op)].shift;
        let expected = model.step(*op);
        out.clear();
        let tape = &mut tapes[stream(*op)];
        let file = &mut files[font(*op)];
        let got = match real::guard(|| perform(*op, file, tape, &mut out)) {
            Ok(Ok(())) => Ok(()),
            Ok(Err(error)) => Err(Outcome::Error(error.kind())),
            Err(message) => Err(Outcome::Panic(message)),
        };
        if kind(*op) != FAIL && kind(*op) != GOTO {
            tape.fail_at = u32::MAX;
        }
        ctx.stats.runs += 1;
        match &expected.result {
            Ok(()) => ctx.stats.count("model: answer", 1),
            Err(Bad::Unspecified) => ctx.stats.unspecified += 1,
            Err(_) => ctx.stats.count("model: error", 1),
        }
        let mut h = crate::ctx::hash_tokens(&out);
        if let Err(e) = &got {
            h = match e {
                Outcome::Error(k) => 1 + *k as u64,
                _ => 0xFFFF,
            };
        }
        sum = (sum ^ h).wrapping_mul(0xff51afd7ed558ccd).rotate_left(23);
        if excused(*op) && matches!(got, Err(Outcome::Panic(_))) {
            break;
        }
        if expected.result == Err(Bad::Unspecified) && !matches!(got, Err(Outcome::Panic(_))) {
            if kind(*op) == OPEN && model.recs[font(*op)].is_none() && file.is_some() {
                // Disturbed, but not so much as to fail.
                break;
            }
            continue;
        }
        if let Some(text) = disagree(&expected, &got, &out, judge) {
            let names: Vec<String> = ops[..=i].iter().map(|op| op_name(*op)).collect();
            ctx.violation(&act, env, mem, format!("{}: {text}", names.join(", ")));
            break;
        }
    }
    ctx.stats.bytes += tapes[0].delivered + tapes[1].delivered;
    ctx.done();
    ctx.remember(mem, env, ops.iter().fold(7, |h, o| (h ^ *o as u64).wrapping_mul(0x100000001b3)));
    if ctx.outcomes.len() < 4_000_000 {
        crate::ctx::note(&mut ctx.outcomes, sum);
    }
    sum
}

// Construction

#[derive(Clone, Debug, Default)]
pub struct Entry {
    pub tag: [u8; 4],
    pub checksum: Option<u32>,
    pub offset: Option<u32>,
    pub size: Option<u32>,
    pub data: Vec<u8>,
}

pub fn entry(tag: &[u8; 4], data: &[u8]) -> Entry {
    Entry { tag: *tag, data: data.to_vec(), ..Entry::default() }
}

/// A font file at a position, with right offsets, sizes, and checksums unless told otherwise.
pub fn build_at(p: u64, signature: [u8; 4], entries: &[Entry]) -> Mem {
    let mut b = vec![0xA5u8; p as usize];
    b.extend(signature);
    b.extend((entries.len() as u16).to_be_bytes());
    b.extend([0x12, 0x34, 0x56, 0x78, 0x9A, 0xBC]);
    let start = b.len();
    b.resize(start + 16 * entries.len(), 0);
    for (i, e) in entries.iter().enumerate() {
        while b.len() % 4 != 0 {
            b.push(0);
        }
        let offset = e.offset.unwrap_or(b.len() as u32);
        let size = e.size.unwrap_or(e.data.len() as u32);
        b.extend(&e.data);
        while b.len() % 4 != 0 {
            b.push(0);
        }
        let q = start + 16 * i;
        b[q..q + 4].copy_from_slice(&e.tag);
        b[q + 8..q + 12].copy_from_slice(&offset.to_be_bytes());
        b[q + 12..q + 16].copy_from_slice(&size.to_be_bytes());
    }
    let mut mem = Mem::from_bytes(&b);
    let limit = mem.len();
    for (i, e) in entries.iter().enumerate() {
        let q = start + 16 * i;
        let rec = Rec {
            tag: e.tag,
            checksum: 0,
            offset: u32_at(&mem, q as u64 + 8),
            size: u32_at(&mem, q as u64 + 12),
        };
        let sum = e.checksum.unwrap_or_else(|| checksum(&mem, limit, &rec).unwrap_or(0));
        mem.segs[0].data[q + 4..q + 8].copy_from_slice(&sum.to_be_bytes());
    }
    mem
}

pub fn build(entries: &[Entry]) -> Mem {
    build_at(0, SIGNATURES[0], entries)
}
