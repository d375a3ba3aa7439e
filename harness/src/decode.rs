//! Decoding agrees with the specification.

use opentype::layout::*;
use opentype::tables::*;
use opentype::tape::Read as TapeRead;
use opentype::value::Read as ValueRead;
use opentype::variations::item;
use opentype::walue::Read as WalueRead;
use opentype::Result;

use crate::probe::Probe;
use crate::spec::Spec;
use crate::sym;
use crate::tape::{Fault, Faulty, Tape};
use crate::walk::{compare, Walk, Walker};

/// The largest position of a table in a file.
pub const FAR: u64 = 1 << 40;

/// A position.
pub fn position() -> u64 {
    sym::var(64, 0, FAR)
}

/// The library agrees with the reference decoder.
#[inline(never)]
pub fn agree<T: Walk>(
    expect: impl FnOnce(&mut Spec, u64),
    read: impl FnOnce(&mut Tape) -> Result<T>,
) {
    let at = position();
    let mut spec = Spec::new(0);
    spec.root = at;
    sym::phase(1);
    expect(&mut spec, at);
    if spec.long {
        sym::assume(spec.over);
    }
    sym::phase(2);
    let mut tape = Tape::new(0, at);
    tape.end = spec.end;
    tape.frugal();
    let result = read(&mut tape);
    tape.generous();
    sym::phase(0);
    sym::trace(result.is_ok() as u64);
    sym::check(result.is_ok() == !spec.bad);
    if sym::param(9) > 0 && sym::param(2) > 0 {
        // It is not because of the length as such.
        sym::check(tape.over);
    }
    if let Ok(ref value) = result {
        sym::reach(1);
        compare(&spec, value);
        sym::extent(1, 2);
    } else {
        sym::reach(2);
    }
    std::mem::forget(result);
    std::mem::forget(spec);
}

/// A misbehaving tape makes reading fail or makes no difference.
#[inline(never)]
pub fn endure<T: Walk>(
    expect: impl FnOnce(&mut Spec, u64),
    read: impl FnOnce(&mut Faulty) -> Result<T>,
) {
    let at = position();
    let mut spec = Spec::new(0);
    expect(&mut spec, at);
    let when = sym::var(64, 0, u64::MAX);
    let fault = match sym::param(8) {
        0 => Fault::Error,
        1 => Fault::Interruption,
        2 => Fault::Piece(sym::var(64, 1, u64::MAX)),
        _ => Fault::End(sym::var(64, 0, u64::MAX)),
    };
    let mut tape = Faulty::new(Tape::new(0, at), when, fault);
    let result = read(&mut tape);
    sym::trace(result.is_ok() as u64);
    sym::trace(tape.failed as u64);
    sym::check(result.is_ok() == !(spec.bad || tape.failed));
    if let Ok(ref value) = result {
        sym::reach(1);
        compare(&spec, value);
    } else if tape.failed {
        sym::reach(2);
    }
    std::mem::forget(result);
    std::mem::forget(spec);
}

/// Reading arbitrary content terminates without panicking.
#[inline(never)]
pub fn survive<T: Walk>(read: impl FnOnce(&mut Tape) -> Result<T>) {
    let mut tape = Tape::new(0, position());
    tape.budget = sym::param(0);
    tape.patience = sym::param(1);
    tape.frugal();
    let result = read(&mut tape);
    tape.generous();
    sym::idle(1 << 40);
    sym::trace(result.is_ok() as u64);
    if let Ok(ref value) = result {
        sym::reach(1);
        value.walk(&mut Walker::tracer());
    } else {
        sym::reach(2);
    }
    std::mem::forget(result);
}

/// What has been read before, successfully or not, makes no difference.
#[inline(never)]
pub fn repeat<T: Walk>(
    expect_before: impl FnOnce(&mut Spec, u64),
    read_before: impl Fn(&mut Faulty) -> Result<T>,
    expect: impl FnOnce(&mut Spec, u64),
    read: impl FnOnce(&mut Tape) -> Result<T>,
) {
    let at = position();
    let mut spec = Spec::new(1);
    spec.budget = sym::param(13);
    expect_before(&mut spec, at);
    let when = if sym::param(8) > 0 {
        u64::MAX
    } else {
        sym::var(64, 0, u64::MAX)
    };
    let mut before = true;
    for _ in 0..1 + sym::param(14) {
        let mut tape = Faulty::new(Tape::new(1, at), when, Fault::Error);
        let result = read_before(&mut tape);
        sym::check(result.is_ok() == !(spec.bad || tape.failed));
        before = result.is_ok();
        std::mem::forget(result);
    }
    sym::trace(before as u64);
    std::mem::forget(spec);
    let at = position();
    let mut spec = Spec::new(0);
    expect(&mut spec, at);
    let result = read(&mut Tape::new(0, at));
    sym::trace(result.is_ok() as u64);
    sym::check(result.is_ok() == !spec.bad);
    if let Ok(ref value) = result {
        if before {
            sym::reach(1);
        } else {
            sym::reach(2);
        }
        compare(&spec, value);
    } else {
        sym::reach(3);
    }
    std::mem::forget(result);
    std::mem::forget(spec);
}

macro_rules! tables(
    ($(($name:ident, $endure:ident, $survive:ident, $repeat:ident): $type:ty, $expect:expr, $read:ident;)*) => (
        harnesses! {
            $(
                $name { agree::<$type>($expect, $read); }
                $endure { endure::<$type>($expect, $read); }
                $survive { survive::<$type>($read); }
                $repeat { repeat::<$type>($expect, $read, $expect, $read); }
            )*
        }
    );
);

/// Read a table.
fn table<T: TapeRead, U: ValueRead>(tape: &mut T) -> Result<U> {
    tape.take()
}

/// Read a table given its type.
fn typed<T: TapeRead, U: WalueRead<'static, Parameter = u16>>(tape: &mut T) -> Result<U> {
    tape.take_given(sym::param(7) as u16)
}

tables! {
    (coverage, coverage_endure, coverage_survive, coverage_repeat): Coverage, Spec::coverage, table;
    (class, class_endure, class_survive, class_repeat): Class, Spec::class, table;
    (correction, correction_endure, correction_survive, correction_repeat): Correction, Spec::correction, table;
    (context, context_endure, context_survive, context_repeat): Context, Spec::context, table;
    (chained_context, chained_context_endure, chained_context_survive, chained_context_repeat):
        ChainedContext, Spec::chained_context, table;
    (scripts, scripts_endure, scripts_survive, scripts_repeat): Scripts, Spec::scripts, table;
    (features, features_endure, features_survive, features_repeat): Features, Spec::features, table;
    (lookups, lookups_endure, lookups_survive, lookups_repeat):
        Lookups<Probe>, |spec, at| spec.lookups(at, Probe::expect), table;
    (directory, directory_endure, directory_survive, directory_repeat):
        Directory<Probe>, |spec, at| spec.directory(at, Probe::expect), table;
    (definition, definition_endure, definition_survive, definition_repeat):
        GlyphDefinition, Spec::definition, table;
    (attachments, attachments_endure, attachments_survive, attachments_repeat):
        glyph_definition::Attachments, Spec::attachments, table;
    (ligature_carets, ligature_carets_endure, ligature_carets_survive, ligature_carets_repeat):
        glyph_definition::Ligatures, Spec::ligature_carets, table;
    (caret, caret_endure, caret_survive, caret_repeat): glyph_definition::Caret, Spec::caret, table;
    (mark_sets, mark_sets_endure, mark_sets_survive, mark_sets_repeat):
        glyph_definition::Marks, Spec::mark_sets, table;
    (store, store_endure, store_survive, store_repeat): item::Store, Spec::store, table;
    (palettes, palettes_endure, palettes_survive, palettes_repeat): ColorPalettes, Spec::palettes, table;
    (font_variations, font_variations_endure, font_variations_survive, font_variations_repeat):
        FontVariations, Spec::font_variations, table;
    (anchor, anchor_endure, anchor_survive, anchor_repeat): glyph_positioning::Anchor, Spec::anchor, table;
    (substitution, substitution_endure, substitution_survive, substitution_repeat):
        glyph_substitution::Type, |spec, at| spec.substitution(at, sym::param(7)), typed;
    (positioning, positioning_endure, positioning_survive, positioning_repeat):
        glyph_positioning::Type, |spec, at| spec.positioning(at, sym::param(7)), typed;
    (substitutions, substitutions_endure, substitutions_survive, substitutions_repeat):
        GlyphSubstitution, |spec, at| spec.directory(at, Spec::substitution), table;
    (positionings, positionings_endure, positionings_survive, positionings_repeat):
        GlyphPositioning, |spec, at| spec.directory(at, Spec::positioning), table;
}
