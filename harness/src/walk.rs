//! A walk through the result of the library, comparing it with what is expected.

use opentype::layout::*;
use opentype::tables::*;
use opentype::truetype::tables::names::NameID;
use opentype::truetype::tables::offsets;
use opentype::truetype::{q32, Tag};
use opentype::variations::item;

use crate::spec::Spec;
use crate::sym;

/// A consumer of values.
pub struct Walker<'l> {
    expected: Option<&'l [(u64, u32)]>,
    at: usize,
    /// The values seen so far if nothing is expected.
    pub hash: u64,
}

impl<'l> Walker<'l> {
    pub fn new(spec: &'l Spec) -> Self {
        Walker { expected: Some(&spec.out), at: 0, hash: 0 }
    }

    pub fn tracer() -> Self {
        Walker { expected: None, at: 0, hash: 0 }
    }

    #[inline(never)]
    pub fn put(&mut self, value: u64) {
        if let Some(expected) = self.expected {
            // More values than expected.
            sym::check(self.at < expected.len());
            let (expected, line) = expected[self.at];
            sym::check_at(value == expected, line);
            self.at += 1;
        }
        sym::trace(value);
    }

    pub fn end(&self) {
        if let Some(expected) = self.expected {
            // Fewer values than expected.
            sym::check(self.at == expected.len());
        }
    }
}

pub trait Walk {
    fn walk(&self, walker: &mut Walker);
}

/// Compare a result with what is expected.
#[inline(never)]
pub fn compare<T: Walk>(spec: &Spec, value: &T) {
    let mut walker = Walker::new(spec);
    value.walk(&mut walker);
    walker.end();
}

macro_rules! numbers(
    ($($type:ty as $via:ty,)*) => (
        $(impl Walk for $type {
            #[inline]
            fn walk(&self, walker: &mut Walker) {
                walker.put(*self as $via as u64);
            }
        })*
    );
);

numbers! { u8 as u8, u16 as u16, i16 as u16, u32 as u32, }

impl Walk for Tag {
    fn walk(&self, walker: &mut Walker) {
        walker.put(u32::from_be_bytes(self.0) as u64);
    }
}

impl Walk for q32 {
    fn walk(&self, walker: &mut Walker) {
        walker.put(self.0 as u32 as u64);
    }
}

impl Walk for NameID {
    fn walk(&self, walker: &mut Walker) {
        walker.put(u16::from(*self) as u64);
    }
}

impl<T: Walk> Walk for Vec<T> {
    fn walk(&self, walker: &mut Walker) {
        walker.put(self.len() as u64);
        for value in self {
            value.walk(walker);
        }
    }
}

impl<T: Walk> Walk for Option<T> {
    fn walk(&self, walker: &mut Walker) {
        match self {
            Some(value) => {
                walker.put(1);
                value.walk(walker);
            }
            _ => walker.put(0),
        }
    }
}

macro_rules! structs(
    ($($type:ty { $($field:ident),* })*) => (
        $(impl Walk for $type {
            #[inline(never)]
            fn walk(&self, walker: &mut Walker) {
                $(self.$field.walk(walker);)*
            }
        })*
    );
);

macro_rules! enums(
    ($($type:ty { $($variant:ident = $value:expr),* })*) => (
        $(impl Walk for $type {
            #[inline(never)]
            fn walk(&self, walker: &mut Walker) {
                type This = $type;
                match self {
                    $(This::$variant(value) => {
                        walker.put($value);
                        value.walk(walker);
                    })*
                }
            }
        })*
    );
);

macro_rules! flags(
    ($($type:ty,)*) => (
        $(impl Walk for $type {
            fn walk(&self, walker: &mut Walker) {
                walker.put(self.0 as u64);
            }
        })*
    );
);

flags! {
    lookup::Flags,
    glyph_positioning::Flags,
    font_variations::AxisFlags,
    font_variations::InstanceFlags,
}

enums! {
    Class { Format1 = 1, Format2 = 2 }
    Coverage { Format1 = 1, Format2 = 2 }
    Context { Format1 = 1, Format2 = 2, Format3 = 3 }
    ChainedContext { Format1 = 1, Format2 = 2, Format3 = 3 }
    Correction { Device = 1, Variation = 2 }
    glyph_substitution::Type {
        SingleSubstitution = 1,
        MultipleSubstitution = 2,
        AlternateSubstitution = 3,
        LigatureSubstitution = 4,
        ContextualSubstitution = 5,
        ChainedContextualSubstitution = 6,
        ExtensionSubstitution = 7,
        ReverseChainedContextualSubstibution = 8
    }
    glyph_substitution::SingleSubstitution { Format1 = 1, Format2 = 2 }
    glyph_positioning::Type {
        SingleAdjustment = 1,
        PairAdjustment = 2,
        CursiveAttachment = 3,
        MarkToBaseAttachment = 4,
        MarkToLigatureAttachment = 5,
        MarkToMarkAttachment = 6,
        ContextualPositioning = 7,
        ChainedContextualPositioning = 8,
        ExtensionPositioning = 9
    }
    glyph_positioning::SingleAdjustment { Format1 = 1, Format2 = 2 }
    glyph_positioning::PairAdjustment { Format1 = 1, Format2 = 2 }
    glyph_positioning::Anchor { Format1 = 1, Format2 = 2, Format3 = 3 }
    glyph_definition::Caret { Format1 = 1, Format2 = 2, Format3 = 3 }
    glyph_definition::Header { Version1 = 0, Version12 = 2, Version13 = 3 }
    color_palettes::Header { Version0 = 0, Version1 = 1 }
}

structs! {
    class::Class1 { format, start_glyph_id, glyph_count, indices }
    class::Class2 { format, record_count, records }
    class::Record { start_glyph_id, end_glyph_id, index }
    coverage::Coverage1 { format, glyph_count, glyph_ids }
    coverage::Coverage2 { format, record_count, records }
    coverage::Record { start_glyph_id, end_glyph_id, index }
    correction::Device { start_size, end_size, format, deltas }
    correction::Variation { outer_index, inner_index, format }

    context::Context1 { format, coverage_offset, record_count, record_offsets, coverage, records }
    context::Context2 {
        format, coverage_offset, class_offset, record_count, record_offsets, coverage, class,
        records
    }
    context::Context3 { format, glyph_count, action_count, coverage_offsets, actions, coverages }
    context::ChainedContext1 {
        format, coverage_offset, record_count, record_offsets, coverage, records
    }
    context::ChainedContext2 {
        format, coverage_offset, backward_class_offset, class_offset, forward_class_offset,
        record_count, record_offsets, coverage, backward_class, class, forward_class, records
    }
    context::ChainedContext3 {
        format, backward_glyph_count, backward_coverage_offsets, glyph_count, coverage_offsets,
        forward_glyph_count, forward_coverage_offsets, action_count, actions, backward_coverages,
        coverages, forward_coverages
    }
    context::Record { glyph_count, action_count, glyph_ids, actions }
    context::Records { count, offsets, records }
    context::ClassRecord { glyph_count, action_count, indices, actions }
    context::ClassRecords { count, offsets, records }
    context::ChainedRecord {
        backward_glyph_count, backward_glyph_ids, glyph_count, glyph_ids, forward_glyph_count,
        forward_glyph_ids, action_count, actions
    }
    context::ChainedRecords { count, offsets, records }
    context::ChainedClassRecord {
        backward_glyph_count, backward_indices, glyph_count, indices, forward_glyph_count,
        forward_indices, action_count, actions
    }
    context::ChainedClassRecords { count, offsets, records }
    context::Action { position_index, lookup_index }

    language::Header { tag, offset }
    language::Record {
        lookup_order_offset, required_feature_index, feature_index_count, feature_indices
    }
    script::Header { tag, offset }
    script::Record {
        default_language_offset, language_count, language_headers, default_language,
        language_records
    }
    Scripts { count, headers, records }
    feature::Header { tag, offset }
    Features { count, headers, records }
    feature::Variations { major_version, minor_version, count }

    glyph_substitution::SingleSubstitution1 { format, coverage_offset, delta_glyph_id, coverage }
    glyph_substitution::SingleSubstitution2 {
        format, coverage_offset, glyph_count, glyph_ids, coverage
    }
    glyph_substitution::MultipleSubstitution {
        format, coverage_offset, record_count, record_offsets, coverage, records
    }
    glyph_substitution::AlternateSubstitution {
        format, coverage_offset, record_count, record_offsets, coverage, records
    }
    glyph_substitution::LigatureSubstitution {
        format, coverage_offset, record_count, record_offsets, coverage, records
    }
    glyph_substitution::ExtensionSubstitution { format, r#type, offset }
    glyph_substitution::ReverseChainedContextualSubstibution {
        format, coverage_offset, backward_glyph_count, backward_coverage_offsets,
        forward_glyph_count, forward_coverage_offsets, glyph_count, glyph_ids, coverage,
        backward_coverages, forward_coverages
    }
    glyph_substitution::Alternates { glyph_count, glyph_ids }
    glyph_substitution::Sequence { glyph_count, glyph_ids }
    glyph_substitution::Ligature { glyph_id, glyph_count, glyph_ids }
    glyph_substitution::Ligatures { count, offsets, records }

    glyph_positioning::SingleAdjustment1 { format, coverage_offset, value_flags, value, coverage }
    glyph_positioning::SingleAdjustment2 {
        format, coverage_offset, value_flags, value_count, values, coverage
    }
    glyph_positioning::PairAdjustment1 {
        format, coverage_offset, value1_flags, value2_flags, record_count, record_offsets,
        coverage, records
    }
    glyph_positioning::PairAdjustment2 {
        format, coverage_offset, value1_flags, value2_flags, class1_offset, class2_offset,
        class1_count, class2_count, records, coverage, class1, class2
    }
    glyph_positioning::CursiveAttachment {
        format, coverage_offset, connection_count, connections, coverage
    }
    glyph_positioning::MarkToBaseAttachment {
        format, mark_coverage_offset, base_coverage_offset, mark_class_count, marks_offset,
        bases_offset, mark_coverage, base_coverage, marks, bases
    }
    glyph_positioning::MarkToLigatureAttachment {
        format, mark_coverage_offset, ligature_coverage_offset, mark_class_count, marks_offset,
        ligatures_offset, mark_coverage, ligature_coverage, marks, ligatures
    }
    glyph_positioning::MarkToMarkAttachment {
        format, mark1_coverage_offset, mark2_coverage_offset, mark_class_count, mark1s_offset,
        mark2s_offset, mark1_coverage, mark2_coverage, mark1s, mark2s
    }
    glyph_positioning::ExtensionPositioning { format, r#type, offset }
    glyph_positioning::Anchor1 { format, x, y }
    glyph_positioning::Anchor2 { format, x, y, index }
    glyph_positioning::Anchor3 {
        format, x, y, x_correction_offset, y_correction_offset, x_correction, y_correction
    }
    glyph_positioning::Base { anchor_offsets, anchors }
    glyph_positioning::Bases { count, records }
    glyph_positioning::Component { anchor_offsets, anchors }
    glyph_positioning::Connection {
        start_anchor_offset, end_anchor_offset, start_anchor, end_anchor
    }
    glyph_positioning::Ligature { count, components }
    glyph_positioning::Ligatures { count, offsets, records }
    glyph_positioning::Mark1 { class_id, anchor_offset, anchor }
    glyph_positioning::Mark1s { count, records }
    glyph_positioning::Mark2 { anchor_offsets, anchors }
    glyph_positioning::Mark2s { count, records }
    glyph_positioning::Pair1 { glyph2_id, value1, value2 }
    glyph_positioning::Pair1s { count, records }
    glyph_positioning::Pair2 { value1, value2 }
    glyph_positioning::Pair2s { records }
    glyph_positioning::Single {
        x_placement, y_placement, x_advance, y_advance, x_placement_correction_offset,
        y_placement_correction_offset, x_advance_correction_offset, y_advance_correction_offset,
        x_placement_correction, y_placement_correction, x_advance_correction, y_advance_correction
    }

    glyph_definition::Attachment { index_count, indices }
    glyph_definition::Attachments { coverage_offset, count, offsets, coverage, records }
    glyph_definition::Caret1 { format, coordinate }
    glyph_definition::Caret2 { format, index }
    glyph_definition::Caret3 { format, coordinate, correction_offset, correction }
    glyph_definition::Ligature { caret_count, caret_offsets, carets }
    glyph_definition::Ligatures { coverage_offset, count, offsets, coverage, records }
    glyph_definition::Marks { format, count, coverage_offsets, coverages }
    glyph_definition::Header1 {
        major_version, minor_version, glyph_class_offset, attachment_offset, ligature_offset,
        mark_class_offset
    }
    glyph_definition::Header12 {
        major_version, minor_version, glyph_class_offset, attachment_offset, ligature_offset,
        mark_class_offset, mark_offset
    }
    glyph_definition::Header13 {
        major_version, minor_version, glyph_class_offset, attachment_offset, ligature_offset,
        mark_class_offset, mark_offset, variation_offset
    }
    GlyphDefinition {
        header, glyph_class, attachments, ligatures, mark_class, marks, variations
    }

    item::Store { format, region_offset, count, offsets, records }
    item::Record { item_count, short_delta_count, region_count, region_indices, deltas }

    color_palettes::Header0 {
        version, entry_count, palette_count, color_count, color_offset, color_indices
    }
    color_palettes::Header1 {
        version, entry_count, palette_count, color_count, color_offset, color_indices
    }
    color_palettes::Color { blue, green, red, alpha }
    ColorPalettes { header, colors }

    font_variations::Header {
        major_version, minor_version, axis_offset, reserved, axis_count, axis_size,
        instance_count, instance_size
    }
    font_variations::AxisRecord { tag, min_value, default_value, max_value, flags, name_id }
    font_variations::InstanceRecord { subfamily_name_id, flags, coordinates, postscript_name_id }
    FontVariations { header, axis_records, instance_records }

    offsets::Header { version, table_count, search_range, entry_selector, range_shift }
    offsets::Record { tag, checksum, offset, size }
    offsets::Offsets { header, records }
}

impl Walk for feature::Record {
    fn walk(&self, walker: &mut Walker) {
        self.parameter_offset.walk(walker);
        self.lookup_index_count.walk(walker);
        self.lookup_indices.walk(walker);
        walker.put(self.parameters.is_some() as u64);
    }
}

impl<T: Walk> Walk for lookup::Record<T> {
    fn walk(&self, walker: &mut Walker) {
        self.r#type.walk(walker);
        self.flags.walk(walker);
        self.table_count.walk(walker);
        self.table_offsets.walk(walker);
        self.mark_filtering_set.walk(walker);
        self.tables.walk(walker);
    }
}

impl<T: Walk> Walk for Lookups<T> {
    fn walk(&self, walker: &mut Walker) {
        self.count.walk(walker);
        self.offsets.walk(walker);
        self.records.walk(walker);
    }
}

impl<T: Walk> Walk for Directory<T> {
    fn walk(&self, walker: &mut Walker) {
        self.major_version.walk(walker);
        self.minor_version.walk(walker);
        self.script_offset.walk(walker);
        self.feature_offset.walk(walker);
        self.lookup_offset.walk(walker);
        self.variation_offset.walk(walker);
        self.scripts.walk(walker);
        self.features.walk(walker);
        self.lookups.walk(walker);
        self.variations.walk(walker);
    }
}
