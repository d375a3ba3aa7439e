//! Unknown formats, versions, and types are rejected whatever follows.

use opentype::layout::*;
use opentype::tables::*;
use opentype::tape::Read as TapeRead;
use opentype::value::Read as ValueRead;
use opentype::variations::item;
use opentype::walue::Read as WalueRead;

use crate::decode::position;
use crate::probe::Probe;
use crate::spec::Spec;
use crate::sym;
use crate::tape::Tape;

/// A table with an unknown header cannot be read.
#[inline(never)]
fn reject<T: ValueRead>(known: impl Fn(&Spec, u64) -> bool) {
    let at = position();
    let spec = Spec::new(0);
    sym::assume(!known(&spec, at));
    finish(Tape::new(0, at).take::<T>(), &spec, at);
}

/// A subtable of a type with an unknown header cannot be read.
#[inline(never)]
fn reject_given<T: WalueRead<'static, Parameter = u16>>(
    kind: u16,
    known: impl Fn(&Spec, u64) -> bool,
) {
    let at = position();
    let spec = Spec::new(0);
    sym::assume(!known(&spec, at));
    finish(Tape::new(0, at).take_given::<T>(kind), &spec, at);
}

fn finish<T>(result: opentype::Result<T>, spec: &Spec, at: u64) {
    sym::trace(spec.u16(at));
    sym::trace(result.is_ok() as u64);
    sym::reach(1);
    sym::check(result.is_err());
    std::mem::forget(result);
}

fn one(spec: &Spec, at: u64) -> bool {
    spec.u16(at) == 1
}

fn two(spec: &Spec, at: u64) -> bool {
    (1..=2).contains(&spec.u16(at))
}

fn three(spec: &Spec, at: u64) -> bool {
    (1..=3).contains(&spec.u16(at))
}

fn device(spec: &Spec, at: u64) -> bool {
    let format = spec.u16(at + 4);
    (1..=3).contains(&format) || format == 0x8000
}

fn none(_: &Spec, _: u64) -> bool {
    false
}

harnesses! {
    reject_coverage { reject::<Coverage>(two) }
    reject_class { reject::<Class>(two) }
    reject_correction { reject::<Correction>(device) }
    reject_context { reject::<Context>(three) }
    reject_chained_context { reject::<ChainedContext>(three) }
    reject_anchor { reject::<glyph_positioning::Anchor>(three) }
    reject_caret { reject::<glyph_definition::Caret>(three) }
    reject_mark_sets { reject::<glyph_definition::Marks>(one) }
    reject_store { reject::<item::Store>(one) }
    reject_language { reject::<language::Record>(|spec, at| spec.u16(at) == 0) }
    reject_feature_variations { reject::<feature::Variations>(|spec, at| spec.u32(at) == 0x00010000) }
    reject_definition {
        reject::<GlyphDefinition>(|spec, at| {
            matches!(spec.u32(at), 0x00010000 | 0x00010002 | 0x00010003)
        })
    }
    reject_palettes { reject::<ColorPalettes>(|spec, at| spec.u16(at) <= 1) }
    reject_font_variations {
        reject::<FontVariations>(|spec, at| {
            spec.u32(at) == 0x00010000 && spec.u16(at + 6) == 2
        })
    }
    reject_directory {
        reject::<Directory<Probe>>(|spec, at| matches!(spec.u32(at), 0x00010000 | 0x00010001))
    }
    /// A substitution of an unknown type
    reject_substitution_type {
        let kind = sym::var(16, 0, 0xffff) as u16;
        sym::assume(kind < 1 || kind > 8);
        reject_given::<glyph_substitution::Type>(kind, none)
    }
    /// A substitution of an unknown format
    reject_substitution {
        let kind = sym::param(7) as u16;
        match kind {
            1 => reject_given::<glyph_substitution::Type>(kind, two),
            5 | 6 => reject_given::<glyph_substitution::Type>(kind, three),
            _ => reject_given::<glyph_substitution::Type>(kind, one),
        }
    }
    /// A positioning of an unknown type
    reject_positioning_type {
        let kind = sym::var(16, 0, 0xffff) as u16;
        sym::assume(kind < 1 || kind > 9);
        reject_given::<glyph_positioning::Type>(kind, none)
    }
    /// A positioning of an unknown format
    reject_positioning {
        let kind = sym::param(7) as u16;
        match kind {
            1 | 2 => reject_given::<glyph_positioning::Type>(kind, two),
            7 | 8 => reject_given::<glyph_positioning::Type>(kind, three),
            _ => reject_given::<glyph_positioning::Type>(kind, one),
        }
    }
    /// A value record with reserved fields
    reject_value_flags {
        let kind = 1 + (sym::param(7) > 0) as u16;
        reject_given::<glyph_positioning::Type>(kind, |spec, at| {
            let first = spec.u16(at + 4);
            let second = if kind == 2 { spec.u16(at + 6) } else { 0 };
            (first | second) & 0xff00 == 0
        })
    }
    /// A lookup with reserved flags
    reject_lookup_flags {
        reject::<lookup::Record<Probe>>(|spec, at| spec.u16(at + 2) & 0x00e0 == 0)
    }
}
