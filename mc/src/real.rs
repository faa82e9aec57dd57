//! The library under test.

use crate::emit::{Emit, Tok};
use crate::spec::Root;
use crate::tape::Tape;
use opentype::layout::correction::Device;
use opentype::layout::{
    language, Class, ChainedContext, Context, Correction, Coverage, Features, Lookups, Scripts,
};
use opentype::tables::glyph_definition::Caret;
use opentype::tables::glyph_positioning::Anchor;
use opentype::tables::{glyph_positioning as gpos, glyph_substitution as gsub};
use opentype::tables::{
    ColorPalettes, FontVariations, GlyphDefinition, GlyphPositioning, GlyphSubstitution,
};
use opentype::tape::Read as _;
use opentype::value::Read;
use opentype::variations::item::Store;
use std::cell::RefCell;
use std::io::ErrorKind;

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Value(Vec<Tok>),
    Error(ErrorKind),
    Panic(String),
}

impl Outcome {
    pub fn brief(&self) -> String {
        match self {
            Outcome::Value(v) => format!("value {}", tokens(v)),
            Outcome::Error(k) => format!("error {k:?}"),
            Outcome::Panic(m) => format!("panic: {m}"),
        }
    }
}

/// Tokens in readable form, shortened.
pub fn tokens(v: &[Tok]) -> String {
    use crate::emit::{ITER, NONE, SOME};
    let mut s = String::new();
    for (i, t) in v.iter().enumerate() {
        if i == 160 {
            s.push_str(&format!(".. ({} in total)", v.len()));
            break;
        }
        if i > 0 {
            s.push(' ');
        }
        match *t {
            NONE => s.push_str("none"),
            SOME => s.push_str("some"),
            ITER => s.push('|'),
            t if t < i64::MIN + 1000 => s.push_str(&format!("#{}", t - i64::MIN - 100)),
            t => s.push_str(&t.to_string()),
        }
    }
    s
}

thread_local! {
    static MESSAGE: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Keep panics of the library quiet and remember what they say.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = format!("{info}");
        if std::env::var_os("MC_TRACE").is_some() {
            eprintln!("{text}\n{}", std::backtrace::Backtrace::force_capture());
        }
        MESSAGE.with(|m| *m.borrow_mut() = text);
    }));
}

pub fn message() -> String {
    MESSAGE.with(|m| m.borrow().clone())
}

/// Run something that may panic.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| message())
}

fn keep<T: Emit>(value: T, out: Option<&mut Vec<Tok>>) -> std::io::Result<()> {
    if let Some(out) = out {
        value.emit(out);
    }
    Ok(())
}

fn read<T: Read + Emit>(tape: &mut Tape, out: Option<&mut Vec<Tok>>) -> std::io::Result<()> {
    keep(T::read(tape)?, out)
}

/// Read a table, and write its value out if wanted.
pub fn decode(root: Root, tape: &mut Tape, out: Option<&mut Vec<Tok>>) -> std::io::Result<()> {
    match root {
        Root::Gsub => read::<GlyphSubstitution>(tape, out),
        Root::Gpos => read::<GlyphPositioning>(tape, out),
        Root::GsubType(t) => keep(tape.take_given::<gsub::Type>(t)?, out),
        Root::GposType(t) => keep(tape.take_given::<gpos::Type>(t)?, out),
        Root::GsubLookups => read::<Lookups<gsub::Type>>(tape, out),
        Root::GposLookups => read::<Lookups<gpos::Type>>(tape, out),
        Root::Scripts => read::<Scripts>(tape, out),
        Root::Features => read::<Features>(tape, out),
        Root::Language => read::<language::Record>(tape, out),
        Root::Coverage => read::<Coverage>(tape, out),
        Root::Class => read::<Class>(tape, out),
        Root::Correction => read::<Correction>(tape, out),
        Root::Context => read::<Context>(tape, out),
        Root::ChainedContext => read::<ChainedContext>(tape, out),
        Root::Gdef => read::<GlyphDefinition>(tape, out),
        Root::Caret => read::<Caret>(tape, out),
        Root::Anchor => read::<Anchor>(tape, out),
        Root::Store => read::<Store>(tape, out),
        Root::Fvar => read::<FontVariations>(tape, out),
        Root::Cpal => read::<ColorPalettes>(tape, out),
        Root::Device => read::<Device>(tape, out),
    }
}

/// Read a table and write its value out; `out` is scratch space for the value.
pub fn outcome(root: Root, tape: &mut Tape, out: &mut Vec<Tok>) -> Result<(), Outcome> {
    out.clear();
    match guard(|| decode(root, tape, Some(out))) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(error)) => Err(Outcome::Error(error.kind())),
        Err(message) => Err(Outcome::Panic(message)),
    }
}

/// Everything that can be done with a value: printing, copying, and asking.
fn shown<T: Clone + std::fmt::Debug>(v: &T) -> usize {
    let copy = v.clone();
    format!("{copy:?}").len() + format!("{v:#?}").len()
}

fn ask_scripts(v: &Scripts) -> usize {
    use opentype::layout::{Language, Script};
    let mut n = 0;
    for h in &v.headers {
        let s = Script::from_tag(&h.tag);
        n += s.name().map_or(0, |n| n.len());
        n += v.get(h.tag).is_some() as usize + v.get(s).is_some() as usize;
    }
    n += v.get(Script::Latin).is_some() as usize;
    for r in &v.records {
        for h in &r.language_headers {
            let l = Language::from_tag(&h.tag);
            n += l.name().map_or(0, |n| n.len()) + l.codes().count();
            n += r.get(h.tag).is_some() as usize + r.get(l).is_some() as usize;
        }
        n += r.get(Language::English).is_some() as usize;
    }
    n
}

fn ask_features(v: &Features) -> usize {
    use opentype::layout::Feature;
    let mut n = v.get(Feature::Kerning).is_some() as usize;
    for h in &v.headers {
        let f = Feature::from_tag(&h.tag);
        n += f.name().map_or(0, |n| n.len());
        n += v.get(h.tag).is_some() as usize + v.get(f).is_some() as usize;
    }
    n
}

fn ask_lookups<T>(v: &Lookups<T>) -> usize {
    let mut n = 0;
    for r in &v.records {
        let f = r.flags;
        for b in [
            f.is_right_to_left(),
            f.should_ignore_base_glyphs(),
            f.should_ignore_ligature(),
            f.should_ignore_marks(),
            f.has_mark_filtering(),
            f.is_invalid(),
        ] {
            n += b as usize;
        }
        n += format!("{f} {f:?} {}", u16::from(f)).len();
    }
    n
}

fn ask_fvar(v: &FontVariations) -> usize {
    let mut n = 0;
    for a in &v.axis_records {
        n += a.flags.is_hidden() as usize + a.flags.is_invalid() as usize;
        let all = [f32::from(a.min_value), f32::from(a.default_value), f32::from(a.max_value)];
        n += format!("{all:?}").len();
    }
    for i in &v.instance_records {
        n += i.flags.is_invalid() as usize;
        for c in &i.coordinates {
            n += (f32::from(*c) > 0.0) as usize;
        }
    }
    n
}

fn ask_cpal(v: &ColorPalettes) -> usize {
    let mut n = 0;
    for p in v.iter() {
        for c in p {
            n += c.red as usize;
        }
    }
    // Partly, in another order, and all at once.
    let all: Vec<_> = v.iter().collect();
    for p in all.into_iter().rev() {
        n += p.last().map_or(0, |c| c.blue as usize);
    }
    n += v.iter().skip(1).map(|p| p.skip(1).count()).sum::<usize>();
    n + v.iter().last().map_or(0, |p| p.size_hint().0)
}

/// Read a table and use it in every way there is.
pub fn exercise(root: Root, tape: &mut Tape) -> std::io::Result<usize> {
    Ok(match root {
        Root::Gsub => {
            let v: GlyphSubstitution = tape.take()?;
            ask_scripts(&v.scripts) + ask_features(&v.features) + ask_lookups(&v.lookups) + shown(&v)
        }
        Root::Gpos => {
            let v: GlyphPositioning = tape.take()?;
            ask_scripts(&v.scripts) + ask_features(&v.features) + ask_lookups(&v.lookups) + shown(&v)
        }
        Root::GsubType(t) => shown(&tape.take_given::<gsub::Type>(t)?),
        Root::GposType(t) => shown(&tape.take_given::<gpos::Type>(t)?),
        Root::GsubLookups => {
            let v: Lookups<gsub::Type> = tape.take()?;
            ask_lookups(&v) + shown(&v)
        }
        Root::GposLookups => {
            let v: Lookups<gpos::Type> = tape.take()?;
            ask_lookups(&v) + shown(&v)
        }
        Root::Scripts => {
            let v: Scripts = tape.take()?;
            ask_scripts(&v) + shown(&v)
        }
        Root::Features => {
            let v: Features = tape.take()?;
            ask_features(&v) + shown(&v)
        }
        Root::Language => shown(&tape.take::<language::Record>()?),
        Root::Coverage => shown(&tape.take::<Coverage>()?),
        Root::Class => shown(&tape.take::<Class>()?),
        Root::Correction => shown(&tape.take::<Correction>()?),
        Root::Context => shown(&tape.take::<Context>()?),
        Root::ChainedContext => shown(&tape.take::<ChainedContext>()?),
        Root::Gdef => shown(&tape.take::<GlyphDefinition>()?),
        Root::Caret => shown(&tape.take::<Caret>()?),
        Root::Anchor => shown(&tape.take::<Anchor>()?),
        Root::Store => shown(&tape.take::<Store>()?),
        Root::Fvar => {
            let v: FontVariations = tape.take()?;
            ask_fvar(&v) + shown(&v)
        }
        Root::Device => shown(&tape.take::<Device>()?),
        Root::Cpal => {
            let v: ColorPalettes = tape.take()?;
            ask_cpal(&v) + shown(&v.header) + shown(&v.colors)
        }
    })
}
