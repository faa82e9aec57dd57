//! Values of the library written out as flat sequences of numbers.
//!
//! The reference model (`spec.rs`) produces the same sequences from the bytes alone.

use opentype::layout::{class, context, correction, coverage, feature, language, lookup, script};
use opentype::layout::{Class, ChainedContext, Context, Correction, Coverage, Directory};
use opentype::tables::{color_palettes as cpal, font_variations as fvar};
use opentype::tables::{glyph_definition as gdef, glyph_positioning as gpos};
use opentype::tables::glyph_substitution as gsub;
use opentype::truetype::tables::names::NameID;
use opentype::truetype::tables::offsets;
use opentype::truetype::{q32, Tag};
use opentype::variations::item;

pub type Tok = i64;
pub const NONE: Tok = i64::MIN;
pub const SOME: Tok = i64::MIN + 1;
/// The n-th variant of an enumeration.
pub const fn var(n: i64) -> Tok {
    i64::MIN + 100 + n
}
pub const ITER: Tok = i64::MIN + 2;

pub trait Emit {
    fn emit(&self, out: &mut Vec<Tok>);
}

macro_rules! numbers(($($type:ty),*) => ($(impl Emit for $type {
    #[inline]
    fn emit(&self, out: &mut Vec<Tok>) {
        out.push(*self as Tok);
    }
})*));
// Including those that no field has, so that a changed type is judged by its values.
numbers!(u8, i8, u16, i16, u32, i32, u64, i64, usize, bool);

impl<T: Emit + ?Sized> Emit for Box<T> {
    fn emit(&self, out: &mut Vec<Tok>) {
        (**self).emit(out);
    }
}

impl Emit for Tag {
    fn emit(&self, out: &mut Vec<Tok>) {
        out.push(u32::from_be_bytes(self.0) as Tok);
    }
}

impl Emit for q32 {
    fn emit(&self, out: &mut Vec<Tok>) {
        out.push(self.0 as Tok);
    }
}

impl Emit for NameID {
    fn emit(&self, out: &mut Vec<Tok>) {
        out.push(u16::from(*self) as Tok);
    }
}

impl<T: Emit> Emit for Vec<T> {
    fn emit(&self, out: &mut Vec<Tok>) {
        out.push(self.len() as Tok);
        for value in self {
            value.emit(out);
        }
    }
}

impl<T: Emit> Emit for Option<T> {
    fn emit(&self, out: &mut Vec<Tok>) {
        match self {
            Some(value) => {
                out.push(SOME);
                value.emit(out);
            }
            None => out.push(NONE),
        }
    }
}

macro_rules! flags(($($type:ty),*) => ($(impl Emit for $type {
    #[inline]
    fn emit(&self, out: &mut Vec<Tok>) {
        out.push(self.0 as Tok);
    }
})*));
flags!(lookup::Flags, gpos::Flags, fvar::AxisFlags, fvar::InstanceFlags);

macro_rules! structs(($($type:ty { $($field:ident),* })*) => ($(impl Emit for $type {
    fn emit(&self, out: &mut Vec<Tok>) {
        $(self.$field.emit(out);)*
    }
})*));

macro_rules! enums(($($type:ty { $($variant:ident),* })*) => ($(impl Emit for $type {
    fn emit(&self, out: &mut Vec<Tok>) {
        let mut k = -1;
        $(
            k += 1;
            if let Self::$variant(value) = self {
                out.push(var(k));
                value.emit(out);
            }
        )*
        let _ = k;
    }
})*));

structs! {
    offsets::Header { version, table_count, search_range, entry_selector, range_shift }
    offsets::Record { tag, checksum, offset, size }
    offsets::Offsets { header, records }

    coverage::Coverage1 { format, glyph_count, glyph_ids }
    coverage::Coverage2 { format, record_count, records }
    coverage::Record { start_glyph_id, end_glyph_id, index }
    class::Class1 { format, start_glyph_id, glyph_count, indices }
    class::Class2 { format, record_count, records }
    class::Record { start_glyph_id, end_glyph_id, index }
    correction::Device { start_size, end_size, format, deltas }
    correction::Variation { outer_index, inner_index, format }

    context::Context1 { format, coverage_offset, record_count, record_offsets, coverage, records }
    context::Context2 {
        format, coverage_offset, class_offset, record_count, record_offsets, coverage, class, records
    }
    context::Context3 { format, glyph_count, action_count, coverage_offsets, actions, coverages }
    context::ChainedContext1 {
        format, coverage_offset, record_count, record_offsets, coverage, records
    }
    context::ChainedContext2 {
        format, coverage_offset, backward_class_offset, class_offset, forward_class_offset,
        record_count, record_offsets, coverage, backward_class, class, forward_class, records
    }
    context::ChainedContext3 {
        format, backward_glyph_count, backward_coverage_offsets, glyph_count, coverage_offsets,
        forward_glyph_count, forward_coverage_offsets, action_count, actions, backward_coverages,
        coverages, forward_coverages
    }
    context::Record { glyph_count, action_count, glyph_ids, actions }
    context::Records { count, offsets, records }
    context::ClassRecord { glyph_count, action_count, indices, actions }
    context::ClassRecords { count, offsets, records }
    context::ChainedRecord {
        backward_glyph_count, backward_glyph_ids, glyph_count, glyph_ids, forward_glyph_count,
        forward_glyph_ids, action_count, actions
    }
    context::ChainedRecords { count, offsets, records }
    context::ChainedClassRecord {
        backward_glyph_count, backward_indices, glyph_count, indices, forward_glyph_count,
        forward_indices, action_count, actions
    }
    context::ChainedClassRecords { count, offsets, records }
    context::Action { position_index, lookup_index }

    feature::Features { count, headers, records }
    feature::Header { tag, offset }
    feature::Variations { major_version, minor_version, count }
    script::Scripts { count, headers, records }
    script::Header { tag, offset }
    script::Record {
        default_language_offset, language_count, language_headers, default_language,
        language_records
    }
    language::Header { tag, offset }
    language::Record {
        lookup_order_offset, required_feature_index, feature_index_count, feature_indices
    }

    item::Store { format, region_offset, count, offsets, records }
    item::Record { item_count, short_delta_count, region_count, region_indices, deltas }

    cpal::Header0 {
        version, entry_count, palette_count, color_count, color_offset, color_indices
    }
    cpal::Header1 {
        version, entry_count, palette_count, color_count, color_offset, color_indices
    }
    cpal::Color { blue, green, red, alpha }

    fvar::FontVariations { header, axis_records, instance_records }
    fvar::Header {
        major_version, minor_version, axis_offset, reserved, axis_count, axis_size,
        instance_count, instance_size
    }
    fvar::AxisRecord { tag, min_value, default_value, max_value, flags, name_id }
    fvar::InstanceRecord { subfamily_name_id, flags, coordinates, postscript_name_id }

    gdef::GlyphDefinition {
        header, glyph_class, attachments, ligatures, mark_class, marks, variations
    }
    gdef::Header1 {
        major_version, minor_version, glyph_class_offset, attachment_offset, ligature_offset,
        mark_class_offset
    }
    gdef::Header12 {
        major_version, minor_version, glyph_class_offset, attachment_offset, ligature_offset,
        mark_class_offset, mark_offset
    }
    gdef::Header13 {
        major_version, minor_version, glyph_class_offset, attachment_offset, ligature_offset,
        mark_class_offset, mark_offset, variation_offset
    }
    gdef::Attachment { index_count, indices }
    gdef::Attachments { coverage_offset, count, offsets, coverage, records }
    gdef::Caret1 { format, coordinate }
    gdef::Caret2 { format, index }
    gdef::Caret3 { format, coordinate, correction_offset, correction }
    gdef::Ligature { caret_count, caret_offsets, carets }
    gdef::Ligatures { coverage_offset, count, offsets, coverage, records }
    gdef::Marks { format, count, coverage_offsets, coverages }

    gsub::SingleSubstitution1 { format, coverage_offset, delta_glyph_id, coverage }
    gsub::SingleSubstitution2 { format, coverage_offset, glyph_count, glyph_ids, coverage }
    gsub::MultipleSubstitution {
        format, coverage_offset, record_count, record_offsets, coverage, records
    }
    gsub::AlternateSubstitution {
        format, coverage_offset, record_count, record_offsets, coverage, records
    }
    gsub::LigatureSubstitution {
        format, coverage_offset, record_count, record_offsets, coverage, records
    }
    gsub::ExtensionSubstitution { format, r#type, offset }
    gsub::ReverseChainedContextualSubstibution {
        format, coverage_offset, backward_glyph_count, backward_coverage_offsets,
        forward_glyph_count, forward_coverage_offsets, glyph_count, glyph_ids, coverage,
        backward_coverages, forward_coverages
    }
    gsub::Alternates { glyph_count, glyph_ids }
    gsub::Ligature { glyph_id, glyph_count, glyph_ids }
    gsub::Ligatures { count, offsets, records }
    gsub::Sequence { glyph_count, glyph_ids }

    gpos::SingleAdjustment1 { format, coverage_offset, value_flags, value, coverage }
    gpos::SingleAdjustment2 {
        format, coverage_offset, value_flags, value_count, values, coverage
    }
    gpos::PairAdjustment1 {
        format, coverage_offset, value1_flags, value2_flags, record_count, record_offsets,
        coverage, records
    }
    gpos::PairAdjustment2 {
        format, coverage_offset, value1_flags, value2_flags, class1_offset, class2_offset,
        class1_count, class2_count, records, coverage, class1, class2
    }
    gpos::CursiveAttachment { format, coverage_offset, connection_count, connections, coverage }
    gpos::MarkToBaseAttachment {
        format, mark_coverage_offset, base_coverage_offset, mark_class_count, marks_offset,
        bases_offset, mark_coverage, base_coverage, marks, bases
    }
    gpos::MarkToLigatureAttachment {
        format, mark_coverage_offset, ligature_coverage_offset, mark_class_count, marks_offset,
        ligatures_offset, mark_coverage, ligature_coverage, marks, ligatures
    }
    gpos::MarkToMarkAttachment {
        format, mark1_coverage_offset, mark2_coverage_offset, mark_class_count, mark1s_offset,
        mark2s_offset, mark1_coverage, mark2_coverage, mark1s, mark2s
    }
    gpos::ExtensionPositioning { format, r#type, offset }
    gpos::Anchor1 { format, x, y }
    gpos::Anchor2 { format, x, y, index }
    gpos::Anchor3 {
        format, x, y, x_correction_offset, y_correction_offset, x_correction, y_correction
    }
    gpos::Base { anchor_offsets, anchors }
    gpos::Bases { count, records }
    gpos::Component { anchor_offsets, anchors }
    gpos::Connection { start_anchor_offset, end_anchor_offset, start_anchor, end_anchor }
    gpos::Ligature { count, components }
    gpos::Ligatures { count, offsets, records }
    gpos::Mark1 { class_id, anchor_offset, anchor }
    gpos::Mark1s { count, records }
    gpos::Mark2 { anchor_offsets, anchors }
    gpos::Mark2s { count, records }
    gpos::Pair1 { glyph2_id, value1, value2 }
    gpos::Pair1s { count, records }
    gpos::Pair2 { value1, value2 }
    gpos::Pair2s { records }
    gpos::Single {
        x_placement, y_placement, x_advance, y_advance, x_placement_correction_offset,
        y_placement_correction_offset, x_advance_correction_offset, y_advance_correction_offset,
        x_placement_correction, y_placement_correction, x_advance_correction,
        y_advance_correction
    }
}

enums! {
    Coverage { Format1, Format2 }
    Class { Format1, Format2 }
    Correction { Device, Variation }
    Context { Format1, Format2, Format3 }
    ChainedContext { Format1, Format2, Format3 }
    cpal::Header { Version0, Version1 }
    gdef::Header { Version1, Version12, Version13 }
    gdef::Caret { Format1, Format2, Format3 }
    gsub::SingleSubstitution { Format1, Format2 }
    gpos::Anchor { Format1, Format2, Format3 }
    gpos::SingleAdjustment { Format1, Format2 }
    gpos::PairAdjustment { Format1, Format2 }
    gsub::Type {
        SingleSubstitution, MultipleSubstitution, AlternateSubstitution, LigatureSubstitution,
        ContextualSubstitution, ChainedContextualSubstitution, ExtensionSubstitution,
        ReverseChainedContextualSubstibution
    }
    gpos::Type {
        SingleAdjustment, PairAdjustment, CursiveAttachment, MarkToBaseAttachment,
        MarkToLigatureAttachment, MarkToMarkAttachment, ContextualPositioning,
        ChainedContextualPositioning, ExtensionPositioning
    }
}

/// The layout of the parameters of a feature depends on the feature; only presence is compared.
impl Emit for feature::Record {
    fn emit(&self, out: &mut Vec<Tok>) {
        self.parameter_offset.emit(out);
        self.lookup_index_count.emit(out);
        self.lookup_indices.emit(out);
        out.push(if self.parameters.is_some() { SOME } else { NONE });
    }
}

impl<T: Emit> Emit for lookup::Lookups<T> {
    fn emit(&self, out: &mut Vec<Tok>) {
        self.count.emit(out);
        self.offsets.emit(out);
        self.records.emit(out);
    }
}

impl<T: Emit> Emit for lookup::Record<T> {
    fn emit(&self, out: &mut Vec<Tok>) {
        self.r#type.emit(out);
        self.flags.emit(out);
        self.table_count.emit(out);
        self.table_offsets.emit(out);
        self.mark_filtering_set.emit(out);
        self.tables.emit(out);
    }
}

impl<T: Emit> Emit for Directory<T> {
    fn emit(&self, out: &mut Vec<Tok>) {
        self.major_version.emit(out);
        self.minor_version.emit(out);
        self.script_offset.emit(out);
        self.feature_offset.emit(out);
        self.lookup_offset.emit(out);
        self.variation_offset.emit(out);
        self.scripts.emit(out);
        self.features.emit(out);
        self.lookups.emit(out);
        self.variations.emit(out);
    }
}

/// The palettes as stored, followed by what the iterator yields.
impl Emit for cpal::ColorPalettes {
    fn emit(&self, out: &mut Vec<Tok>) {
        self.header.emit(out);
        self.colors.emit(out);
        out.push(ITER);
        for palette in self.iter() {
            out.push(ITER);
            for color in palette {
                color.emit(out);
            }
        }
        out.push(ITER);
        let (palettes, entries) = match self.header {
            cpal::Header::Version0(ref h) => (h.color_indices.len(), h.entry_count as usize),
            cpal::Header::Version1(ref h) => (h.color_indices.len(), h.entry_count as usize),
        };
        if palettes <= 4 && entries <= 8 && !walks_agree(self) {
            out.push(ITER);
        }
    }
}

/// Whether the other ways to walk the palettes agree with the plain one.
fn walks_agree(table: &cpal::ColorPalettes) -> bool {
    let tokens = |c: &cpal::Color| {
        let mut out = vec![];
        c.emit(&mut out);
        out
    };
    let mut all = vec![];
    for palette in table.iter() {
        let mut colors = vec![];
        for color in palette {
            colors.push(tokens(color));
        }
        all.push(colors);
    }
    let sound = |(low, high): (usize, Option<usize>), n: usize| low <= n && high.map_or(true, |h| h >= n);
    if table.iter().count() != all.len()
        || !sound(table.iter().size_hint(), all.len())
        || table.iter().last().map(|p| p.map(tokens).collect::<Vec<_>>()) != all.last().cloned()
    {
        return false;
    }
    // All palettes held at once, walked in step and from the last one back.
    let mut held: Vec<_> = table.iter().collect();
    if held.len() != all.len() {
        return false;
    }
    for k in 0..all.iter().map(Vec::len).max().unwrap_or(0) {
        for (palette, colors) in held.iter_mut().zip(&all) {
            if palette.next().map(tokens).as_ref() != colors.get(k) {
                return false;
            }
        }
    }
    let mut held: Vec<_> = table.iter().collect();
    while let Some(palette) = held.pop() {
        if palette.map(tokens).collect::<Vec<_>>() != all[held.len()] {
            return false;
        }
    }
    for k in 0..=all.len() {
        let mut palettes = table.iter();
        let rest = all.get(k + 1..).unwrap_or(&[]);
        match (palettes.nth(k), all.get(k)) {
            (None, None) => continue,
            (Some(palette), Some(colors)) => {
                if !sound(palette.size_hint(), colors.len()) || palette.count() != colors.len() {
                    return false;
                }
            }
            _ => return false,
        }
        if palettes.map(|p| p.map(tokens).collect::<Vec<_>>()).collect::<Vec<_>>() != rest {
            return false;
        }
        let Some(colors) = all.get(k) else { continue };
        for j in 0..=colors.len() {
            let Some(mut palette) = table.iter().nth(k) else { return false };
            if palette.nth(j).map(tokens).as_ref() != colors.get(j) {
                return false;
            }
            if j < colors.len() && palette.map(tokens).collect::<Vec<_>>() != colors[j + 1..] {
                return false;
            }
        }
    }
    true
}
