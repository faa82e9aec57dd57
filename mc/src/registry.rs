//! Tags of scripts, language systems, and features.

use crate::case::{Act, Env};
use crate::ctx::Ctx;
use crate::mem::Mem;
use crate::real;
use opentype::layout::feature::Feature;
use opentype::layout::language::Language;
use opentype::layout::script::Script;
use opentype::truetype::Tag;
use std::collections::HashMap;

/// The registered tags with their variants, names, and codes.
pub const GOLDEN: &str = include_str!("../registry.tsv");

#[derive(Clone, Debug)]
pub struct Entry {
    pub registry: usize,
    pub tag: [u8; 4],
    pub variant: &'static str,
    pub name: &'static str,
    pub codes: Vec<&'static str>,
}

pub const REGISTRIES: [&str; 3] = ["script", "language", "feature"];

pub fn golden() -> Vec<Entry> {
    let mut all = vec![];
    for line in GOLDEN.lines() {
        let f: Vec<&str> = line.split('\t').collect();
        if f[2] == "Default" && f[0] == "language" && !cfg!(feature = "default-language") {
            continue;
        }
        all.push(Entry {
            registry: REGISTRIES.iter().position(|r| *r == f[0]).unwrap(),
            tag: f[1].as_bytes().try_into().unwrap(),
            variant: f[2],
            name: f[3],
            codes: f[4].split(", ").filter(|c| !c.is_empty()).collect(),
        });
    }
    all
}

pub struct Face {
    pub back: [u8; 4],
    pub variant: String,
    pub name: Option<&'static str>,
    pub codes: Vec<&'static str>,
    pub other: Option<[u8; 4]>,
}

pub fn face(registry: usize, tag: [u8; 4]) -> Face {
    let t = Tag(tag);
    match registry {
        0 => {
            let v = Script::from_tag(&t);
            let other = if let Script::Other(t) = v { Some(t.0) } else { None };
            let back: Tag = v.into();
            Face { back: back.0, variant: format!("{v:?}"), name: v.name(), codes: vec![], other }
        }
        1 => {
            let v = Language::from_tag(&t);
            let other = if let Language::Other(t) = v { Some(t.0) } else { None };
            let codes = v.codes().collect();
            let back: Tag = v.into();
            Face { back: back.0, variant: format!("{v:?}"), name: v.name(), codes, other }
        }
        _ => {
            let v = Feature::from_tag(&t);
            let other = if let Feature::Other(t) = v { Some(t.0) } else { None };
            let back: Tag = v.into();
            Face { back: back.0, variant: format!("{v:?}"), name: v.name(), codes: vec![], other }
        }
    }
}

pub fn number(registry: usize, tag: [u8; 4]) -> u64 {
    (registry as u64) << 32 | u32::from_be_bytes(tag) as u64
}

/// The objection to what the library makes of a tag, if there is any.
pub fn objection(registry: usize, tag: [u8; 4], known: Option<&Entry>) -> Option<String> {
    let f = match real::guard(|| face(registry, tag)) {
        Ok(f) => f,
        Err(message) => return Some(format!("panicked: {message}")),
    };
    if f.back != tag {
        return Some(format!("comes back as {:?} via {}", String::from_utf8_lossy(&f.back), f.variant));
    }
    match known {
        Some(e) => {
            if f.other.is_some() || f.variant != e.variant {
                return Some(format!("is {} and not {}", f.variant, e.variant));
            }
            if f.name != Some(e.name) {
                return Some(format!("is named {:?} and not {:?}", f.name, e.name));
            }
            if f.codes != e.codes {
                return Some(format!("has the codes {:?} and not {:?}", f.codes, e.codes));
            }
        }
        None => {
            if f.other != Some(tag) {
                return Some(format!("is {} and not unregistered", f.variant));
            }
            if f.name.is_some() || !f.codes.is_empty() {
                return Some(format!("is unregistered, but named {:?}, {:?}", f.name, f.codes));
            }
        }
    }
    None
}

pub fn check(ctx: &mut Ctx, registry: usize, tag: [u8; 4], known: Option<&Entry>) {
    ctx.stats.runs += 1;
    if ctx.states.len() < crate::ctx::STATES {
        crate::ctx::note(&mut ctx.states, number(registry, tag).wrapping_mul(0x9E3779B97F4A7C15));
    }
    if let Some(text) = objection(registry, tag, known) {
        let text = format!(
            "{} tag {:?}: {text}",
            REGISTRIES[registry],
            String::from_utf8_lossy(&tag)
        );
        let act = Act::Other(number(registry, tag));
        ctx.violation(&act, &Env::default(), &Mem::new(), text);
    }
}

/// The registered tags one by one, and against each other.
pub fn registered(ctx: &mut Ctx) {
    let all = golden();
    for registry in 0..3 {
        let mut variants: HashMap<String, [u8; 4]> = HashMap::new();
        for e in all.iter().filter(|e| e.registry == registry) {
            check(ctx, registry, e.tag, Some(e));
            ctx.stats.count("registered tags", 1);
            if let Ok(f) = real::guard(|| face(registry, e.tag)) {
                if let Some(other) = variants.insert(f.variant.clone(), e.tag) {
                    if other != e.tag {
                        let text = format!(
                            "{} tags {:?} and {:?} share the variant {}",
                            REGISTRIES[registry],
                            String::from_utf8_lossy(&other),
                            String::from_utf8_lossy(&e.tag),
                            f.variant
                        );
                        let act = Act::Other(number(registry, e.tag));
                        ctx.violation(&act, &Env::default(), &Mem::new(), text);
                    }
                }
            }
        }
    }
    // Variants that no tag leads to still have to lead to their tags.
    for (variant, tag, name) in [(Script::Hiragana, b"kana", "Hiragana"), (Script::Katakana, b"kana", "Katakana")] {
        ctx.stats.runs += 1;
        let back: Tag = variant.into();
        if back.0 != *tag || variant.name() != Some(name) {
            let text = format!("{variant:?} is {back:?} named {:?}", variant.name());
            ctx.violation(&Act::Other(number(0, *tag)), &Env::default(), &Mem::new(), text);
        }
    }
}

/// All tags that start with these bytes.
pub fn block(ctx: &mut Ctx, registry: usize, high: u16, known: &HashMap<(usize, [u8; 4]), Entry>) {
    let before = ctx.stats.runs;
    for low in 0..=0xFFFFu32 {
        let tag = ((high as u32) << 16 | low).to_be_bytes();
        // The cheap way out for the bulk of unregistered tags.
        let plain = match registry {
            0 => matches!(Script::from_tag(&Tag(tag)), Script::Other(t) if t.0 == tag),
            1 => matches!(Language::from_tag(&Tag(tag)), Language::Other(t) if t.0 == tag),
            _ => matches!(Feature::from_tag(&Tag(tag)), Feature::Other(t) if t.0 == tag),
        };
        let entry = known.get(&(registry, tag));
        if plain && entry.is_none() && low % 0x100 != 0x20 {
            ctx.stats.runs += 1;
            continue;
        }
        check(ctx, registry, tag, entry);
    }
    ctx.stats.count("tags", ctx.stats.runs - before);
}

/// The file of registered tags as this build has it.
pub fn print() {
    // Printable tags only; everything else is covered by the check.
    for (registry, name) in REGISTRIES.iter().enumerate() {
        for a in 0x20..0x7Fu8 {
            for b in 0x20..0x7Fu8 {
                for c in 0x20..0x7Fu8 {
                    for d in 0x20..0x7Fu8 {
                        let tag = [a, b, c, d];
                        let f = face(registry, tag);
                        if f.other.is_none() {
                            println!(
                                "{name}\t{}\t{}\t{}\t{}",
                                String::from_utf8_lossy(&tag),
                                f.variant,
                                f.name.unwrap_or(""),
                                f.codes.join(", ")
                            );
                        }
                    }
                }
            }
        }
    }
}
