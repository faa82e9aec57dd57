//! Flags, all values of them.

use crate::case::{Act, Env};
use crate::checks::Plan;
use crate::ctx::Ctx;
use crate::explore::{self, family, typed};
use crate::mem::Mem;
use crate::monitors as m;
use crate::real;
use crate::spec::Root;
use crate::tape::Tape;
use opentype::layout::lookup;
use opentype::tables::{font_variations as fvar, glyph_positioning as gpos};
use opentype::tape::{Read, Write};

macro_rules! words(($type:ty, $value:expr, $($name:ident),*) => ({
    let flags = <$type>::default();
    let fresh = u16::from(flags);
    let mut flags = flags;
    flags.0 = $value;
    (fresh, u16::from(flags), vec![$((stringify!($name), flags.$name())),*])
}));

/// What each bit is called.
fn documented(kind: u64) -> &'static [(&'static str, u16)] {
    match kind {
        0 => &[
            ("is_right_to_left", 0x0001),
            ("should_ignore_base_glyphs", 0x0002),
            ("should_ignore_ligature", 0x0004),
            ("should_ignore_marks", 0x0008),
            ("has_mark_filtering", 0x0010),
            ("is_invalid", 0x00E0),
        ],
        1 => &[
            ("has_x_placement", 0x0001),
            ("has_y_placement", 0x0002),
            ("has_x_advance", 0x0004),
            ("has_y_advance", 0x0008),
            ("has_x_placement_correction", 0x0010),
            ("has_y_placement_correction", 0x0020),
            ("has_x_advance_correction", 0x0040),
            ("has_y_advance_correction", 0x0080),
            ("is_invalid", 0xFF00),
        ],
        2 => &[("is_hidden", 0x0001), ("is_invalid", 0xFFFE)],
        _ => &[("is_invalid", 0xFFFF)],
    }
}

const NAMES: [&str; 4] = ["lookup flags", "value flags", "axis flags", "instance flags"];

/// The objection to what becomes of a value.
fn objection(kind: u64, value: u16) -> Option<String> {
    let documented = documented(kind);
    let (fresh, raw, bits) = match kind {
        0 => words!(
            lookup::Flags, value, is_right_to_left, should_ignore_base_glyphs,
            should_ignore_ligature, should_ignore_marks, has_mark_filtering, is_invalid
        ),
        1 => words!(
            gpos::Flags, value, has_x_placement, has_y_placement, has_x_advance, has_y_advance,
            has_x_placement_correction, has_y_placement_correction, has_x_advance_correction,
            has_y_advance_correction, is_invalid
        ),
        2 => words!(fvar::AxisFlags, value, is_hidden, is_invalid),
        _ => words!(fvar::InstanceFlags, value, is_invalid),
    };
    if fresh != 0 {
        return Some(format!("are {fresh:#x} by default"));
    }
    if raw != value {
        return Some(format!("become {raw:#x}"));
    }
    for ((name, got), (_, mask)) in bits.iter().zip(documented) {
        if *got != (value & mask != 0) {
            return Some(format!("answer {got} to {name}"));
        }
    }
    // Written to a file.
    let mut bytes = vec![];
    let written = match kind {
        0 => bytes.give(&lookup::Flags(value)),
        1 => bytes.give(&gpos::Flags(value)),
        2 => bytes.give(&fvar::AxisFlags(value)),
        _ => bytes.give(&fvar::InstanceFlags(value)),
    };
    if written.is_err() || bytes != value.to_be_bytes() {
        return Some(format!("are written as {bytes:x?}"));
    }
    // Read from a file.
    let mem = Mem::from_bytes(&value.to_be_bytes());
    let mut tape = Tape::new(&mem);
    let got = match kind {
        0 => tape.take::<lookup::Flags>().map(u16::from),
        1 => tape.take::<gpos::Flags>().map(u16::from),
        2 => tape.take::<fvar::AxisFlags>().map(u16::from),
        _ => tape.take::<fvar::InstanceFlags>().map(u16::from),
    };
    let reserved = documented.last().unwrap().1;
    match (value & reserved != 0, got) {
        (true, Ok(_)) => Some("are read in spite of reserved bits".into()),
        (false, Ok(got)) if got != value => Some(format!("are read as {got:#x}")),
        (false, Err(e)) => Some(format!("are not read: {e}")),
        _ => None,
    }
}

pub fn check(ctx: &mut Ctx, kind: u64, value: u16) {
    ctx.stats.runs += 1;
    let text = match real::guard(|| objection(kind, value)) {
        Ok(None) => return,
        Ok(Some(text)) => text,
        Err(message) => format!("panic: {message}"),
    };
    let text = format!("{} {value:#x} {text}", NAMES[kind as usize]);
    let act = Act::Other(kind << 16 | value as u64);
    ctx.violation(&act, &Env::default(), &Mem::new(), text);
}

pub fn plan(p: &mut Plan) {
    for kind in 0..4 {
        p.push("all values", move |ctx| {
            for value in 0..=0xFFFF {
                check(ctx, kind, value);
                let mem = Mem::from_bytes(&[kind as u8, (value >> 8) as u8, value as u8]);
                ctx.remember(&mem, &Env::default(), 5);
            }
            ctx.stats.count("flag words", 0x10000);
        });
    }
    // In place.
    let mut all = vec![family(Root::Fvar, &[])];
    for k in 1..=2 {
        all.push(family(Root::GposType(1), &[k]));
        all.push(family(Root::GposType(2), &[k]));
    }
    for t in 0..8 {
        all.push(typed(Root::GsubLookups, &[], crate::checks::EACH[t]));
    }
    for t in 0..9 {
        all.push(typed(Root::GposLookups, &[], crate::checks::EACH[t]));
    }
    for f in all {
        p.search(&f, explore::shapes(0), "flags", every_flags);
        p.search(&f, explore::wide(p.pick(0, 1)), "flags", every_flags);
        p.search(&f, explore::shapes(p.pick(2, 3)), "value", m::diff);
        // Reserved bits in tables of every shape, lists without entries included.
        use crate::spec::kind::*;
        for count in [1, 2] {
            let kinds = FLAGS | BAD | COUNT | FORMAT | PICK | NULL;
            let wrong = explore::wrong(p.pick(2, 3), count);
            let counts = if count == 1 { vec![1, 0, 2] } else { vec![2, 0, 1] };
            let kinds_of = kinds & !BAD;
            p.search(&f, crate::spec::Profile { kinds, counts: counts.clone(), ..wrong.clone() }, "value", m::diff);
            // The rest of the table is there, whatever the flags.
            let shapes = crate::spec::Profile { kinds: kinds_of, counts, ..wrong };
            p.search(&f, shapes, "reserved", |ctx, f, mem| {
                let only = |w| w == crate::spec::What::Flags;
                explore::sweep(ctx, f, mem, &only, Some(&RESERVED), &mut |c, f, m| m::diff(c, f, m));
            });
        }
        if p.thorough {
            p.search(&f, explore::shapes(1), "flags", every_flags);
        }
    }
}

/// Words with bits that are reserved somewhere, one of them at a time or several.
const RESERVED: [u16; 12] = [
    0x20, 0x40, 0x80, 0xE0, 0x100, 0x200, 0x400, 0x800, 0x1000, 0x8000, 0xFF00, 0xFFFF,
];

fn every_flags(ctx: &mut Ctx, f: &explore::Family, mem: &mut Mem) {
    let only = |w| w == crate::spec::What::Flags;
    explore::sweep(ctx, f, mem, &only, None, &mut |c, f, m| m::diff(c, f, m));
}
