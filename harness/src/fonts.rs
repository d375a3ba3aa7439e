//! Files, fonts, and the tables in them.

use opentype::postscript::compact1::FontSet;
use opentype::tables::*;
use opentype::tape::Read as TapeRead;
use opentype::truetype::tables::offsets::{Header, Offsets, Record};
use opentype::truetype::tables::*;
use opentype::truetype::Tag;
use opentype::{File, Font, Table};

use crate::decode::position;
use crate::probe::{Probe, TAG};
use crate::spec::Spec;
use crate::sym;
use crate::tape::{Fault, Faulty, Tape};
use crate::walk::compare;

fn tag() -> Tag {
    Tag((sym::var(32, 0, u32::MAX as u64) as u32).to_be_bytes())
}

/// A font with a number of arbitrary records.
fn font(count: u64) -> Font {
    let header = Header::default();
    let mut records = Vec::with_capacity(8);
    for _ in 0..count {
        records.push(Record {
            tag: tag(),
            checksum: sym::var(32, 0, u32::MAX as u64) as u32,
            offset: sym::var(32, 0, u32::MAX as u64) as u32,
            size: sym::var(32, 0, u32::MAX as u64) as u32,
        });
    }
    Font {
        offsets: Offsets { header, records },
    }
}

/// Choose a number in a range.
fn choose(most: u64) -> u64 {
    sym::fix(sym::var(64, sym::param(12), most))
}

/// The checksum according to the specification, which is that of the content padded with zeros and
/// with the adjustment in the font header taken as zero.
fn checksum(tape: u32, record: &mut Record, most: u64) -> Option<u32> {
    let expected = sym::param(3);
    if expected > 0 {
        sym::assume(record.size as u64 == expected);
    }
    let mut size = expected;
    if expected == 0 {
        if record.size >= u32::MAX - 3 {
            // There is no room for padding.
            return None;
        }
        sym::assume(record.size as u64 <= most);
        size = sym::fix(record.size as u64);
    }
    // It is the same number.
    record.size = size as u32;
    let head = record.tag.0 == *b"head";
    let mut total = 0u32;
    let mut i = 0;
    while i < size {
        let mut word = [0; 4];
        for j in 0..4 {
            if i + j < size {
                word[j as usize] = sym::byte(tape, record.offset as u64 + i + j);
            }
        }
        if !(head && i == 8) {
            total = total.wrapping_add(u32::from_be_bytes(word));
        }
        i += 4;
    }
    Some(total)
}

/// The first record with a tag.
fn first(font: &mut Font, tag: &[u8; 4]) -> Option<usize> {
    let mut i = 0;
    while i < font.offsets.records.len() {
        if font.offsets.records[i].tag.0 == *tag {
            // It is the same tag.
            font.offsets.records[i].tag = Tag(*tag);
            return Some(i);
        }
        i += 1;
    }
    None
}

fn locate<T: Table>(name: &[u8; 4]) {
    let mut font = font(choose(sym::param(1)));
    let expected = first(&mut font, name);
    sym::check(font.exists::<T>() == expected.is_some());
    // The tape can be over before the table is, whatever the size of the latter.
    let mut end = u64::MAX;
    let sound = match expected {
        Some(i) if sym::param(9) > 0 => {
            let record = &font.offsets.records[i];
            sym::assume(record.size as u64 > sym::param(0));
            end = record.offset as u64 + sym::param(0);
            cfg!(feature = "checksums")
        }
        Some(i) if !cfg!(feature = "checksums") => {
            let record = &mut font.offsets.records[i];
            checksum(0, record, sym::param(0)) == Some(record.checksum)
        }
        _ => true,
    };
    // The current position of the tape and what has been done before are of no importance.
    for _ in 0..1 + sym::param(8) {
        let mut tape = Tape::new(0, position());
        tape.end = end;
        let result = font.position::<_, T>(&mut tape);
        sym::trace(result.is_ok() as u64);
        sym::check(result.is_ok() == sound);
        if let Ok(result) = result {
            sym::check(result.is_some() == expected.is_some());
            sym::trace(result.is_some() as u64);
            if let Some(i) = expected {
                sym::reach(1);
                sym::check(tape.position == font.offsets.records[i].offset as u64);
            } else {
                sym::reach(2);
            }
        } else {
            sym::reach(3);
            std::mem::forget(result);
        }
    }
    sym::check(font.exists::<T>() == expected.is_some());
    std::mem::forget(font);
}

harnesses! {
    /// Reading a file
    file {
        let at = position();
        let mut spec = Spec::new(0);
        spec.root = at;
        let collection = spec.u32(at) == 0x74746366;
        if collection {
            spec.fail();
        } else {
            spec.offsets(at);
        }
        if spec.long {
            sym::assume(spec.over);
        }
        let mut tape = Tape::new(0, at);
        tape.end = spec.end;
        let result = File::read(&mut tape);
        sym::trace(result.is_ok() as u64);
        sym::check(result.is_ok() == !spec.bad);
        if spec.long && sym::param(2) > 0 {
            // It is not because of the length as such.
            sym::check(tape.over);
        }
        if let Ok(ref file) = result {
            sym::reach(1);
            sym::check(file.fonts.len() == 1);
            // A file is a list of fonts.
            sym::check(file.len() == 1);
            sym::check(std::ptr::eq(&file[0], &file.fonts[0]));
            compare(&spec, &file[0].offsets);
        } else if collection {
            sym::reach(3);
        } else {
            sym::reach(2);
        }
        // A file is read only if its tag is recognized.
        let tag = Tag((spec.u32(at) as u32).to_be_bytes());
        sym::check(!result.is_ok() || opentype::accept(&tag));
        std::mem::forget(result);
        std::mem::forget(spec);
    }
    /// Reading a font
    typeface {
        let at = position();
        let mut spec = Spec::new(0);
        spec.offsets(at);
        let result = Font::read(&mut Tape::new(0, at));
        sym::trace(result.is_ok() as u64);
        sym::check(result.is_ok() == !spec.bad);
        if let Ok(ref font) = result {
            sym::reach(1);
            compare(&spec, &font.offsets);
        } else {
            sym::reach(2);
        }
        std::mem::forget(result);
        std::mem::forget(spec);
    }
    /// Recognizing a tag
    recognition {
        let tag = tag();
        let expected = matches!(
            u32::from_be_bytes(tag.0),
            0x00010000 | 0x4f54544f | 0x74727565 | 0x74797031 | 0x74746366
        );
        let result = opentype::accept(&tag);
        sym::trace(result as u64);
        sym::check(result == expected);
        if result {
            sym::reach(1);
        } else {
            sym::reach(2);
        }
    }
    /// Locating a table
    location {
        match sym::param(7) {
            0 => locate::<Probe>(&TAG.0),
            1 => locate::<FontSet>(b"CFF "),
            2 => locate::<ColorPalettes>(b"CPAL"),
            3 => locate::<GlyphDefinition>(b"GDEF"),
            4 => locate::<GlyphPositioning>(b"GPOS"),
            5 => locate::<GlyphSubstitution>(b"GSUB"),
            6 => locate::<WindowsMetrics>(b"OS/2"),
            7 => locate::<CharacterMapping>(b"cmap"),
            8 => locate::<FontVariations>(b"fvar"),
            9 => locate::<GlyphData>(b"glyf"),
            10 => locate::<FontHeader>(b"head"),
            11 => locate::<HorizontalHeader>(b"hhea"),
            12 => locate::<HorizontalMetrics>(b"hmtx"),
            13 => locate::<GlyphMapping>(b"loca"),
            14 => locate::<MaximumProfile>(b"maxp"),
            15 => locate::<Names>(b"name"),
            _ => locate::<PostScript>(b"post"),
        }
    }
    /// Taking tables one after another
    succession {
        let mut font = font(choose(sym::param(1)));
        let mut tape = Tape::new(0, position());
        let expected = first(&mut font, &TAG.0);
        if let (Some(i), false) = (expected, cfg!(feature = "checksums")) {
            let record = &mut font.offsets.records[i];
            sym::assume(checksum(0, record, sym::param(0)) == Some(record.checksum));
        }
        for i in 0..sym::param(8) {
            let kind = sym::var(16, 0, 0xffff) as u16;
            let result = if i & 1 == 0 {
                font.take_given::<_, Probe>(&mut tape, kind)
            } else {
                font.take::<_, Probe>(&mut tape)
            };
            sym::check(result.is_ok());
            if let Ok(result) = result {
                sym::check(result.is_some() == expected.is_some());
                if let (Some(result), Some(j)) = (result, expected) {
                    sym::reach(1);
                    let offset = font.offsets.records[j].offset as u64;
                    sym::check(result.value as u64 == Spec::new(0).u32(offset));
                    sym::check(result.kind == if i & 1 == 0 { kind } else { 0 });
                    sym::trace(result.value as u64);
                } else {
                    sym::reach(2);
                }
            }
            // Use the tape for something else.
            let _ = tape.jump(position());
        }
        std::mem::forget(font);
    }
    /// Taking a table from a misbehaving tape
    location_endure {
        let mut font = font(1);
        let record = &mut font.offsets.records[0];
        sym::assume(record.tag.0 == TAG.0);
        let sound = cfg!(feature = "checksums")
            || checksum(0, record, sym::param(0)) == Some(record.checksum);
        let offset = record.offset as u64;
        let when = sym::var(64, 0, u64::MAX);
        let fault = match sym::param(8) {
            0 => Fault::Error,
            1 => Fault::Interruption,
            2 => Fault::Piece(sym::var(64, 1, u64::MAX)),
            _ => Fault::End(sym::var(64, 0, u64::MAX)),
        };
        let mut tape = Faulty::new(Tape::new(0, position()), when, fault);
        let result = font.take::<_, Probe>(&mut tape);
        sym::trace(result.is_ok() as u64);
        sym::check(result.is_ok() == (sound && !tape.failed));
        if let Ok(result) = result {
            sym::reach(1);
            sym::check(result.is_some());
            if let Some(result) = result {
                sym::check(result.value as u64 == Spec::new(0).u32(offset));
            }
        } else {
            sym::reach(2);
            std::mem::forget(result);
        }
        std::mem::forget(font);
    }
    /// Reading a file from a misbehaving tape
    file_endure {
        let at = position();
        let mut spec = Spec::new(0);
        if spec.u32(at) == 0x74746366 {
            spec.fail();
        } else {
            spec.offsets(at);
        }
        let when = sym::var(64, 0, u64::MAX);
        let fault = match sym::param(8) {
            0 => Fault::Error,
            1 => Fault::Interruption,
            2 => Fault::Piece(sym::var(64, 1, u64::MAX)),
            _ => Fault::End(sym::var(64, 0, u64::MAX)),
        };
        let mut tape = Faulty::new(Tape::new(0, at), when, fault);
        let result = File::read(&mut tape);
        sym::trace(result.is_ok() as u64);
        sym::check(result.is_ok() == !(spec.bad || tape.failed));
        if let Ok(ref file) = result {
            sym::reach(1);
            sym::check(file.fonts.len() == 1);
            compare(&spec, &file.fonts[0].offsets);
        } else if tape.failed {
            sym::reach(2);
        }
        std::mem::forget(result);
        std::mem::forget(spec);
    }
    /// Reading an arbitrary file
    file_survive {
        let mut tape = Tape::new(0, position());
        tape.budget = sym::param(0);
        let result = File::read(&mut tape);
        sym::trace(result.is_ok() as u64);
        if let Ok(ref file) = result {
            sym::reach(1);
            let _ = file.fonts[0].exists::<GlyphDefinition>();
            let result = file.fonts[0].position::<_, GlyphDefinition>(&mut tape);
            sym::trace(result.is_ok() as u64);
            std::mem::forget(result);
        } else {
            sym::reach(2);
        }
        std::mem::forget(result);
    }
}
