//! Flags, and other derived information.

use opentype::layout::lookup;
use opentype::tables::{font_variations, glyph_positioning, ColorPalettes};
use opentype::tape::{Read as TapeRead, Write as TapeWrite};

use crate::decode::position;
use crate::spec::Spec;
use crate::sym;
use crate::tape::Tape;
use crate::walk::{Walk, Walker};

macro_rules! flags(
    ($type:ty, $invalid:expr, { $($method:ident = $mask:expr),* }) => ({
        let at = position();
        let bits = Spec::new(0).u16(at) as u16;
        let result: opentype::Result<$type> = Tape::new(0, at).take();
        sym::trace(result.is_ok() as u64);
        sym::check(result.is_ok() == (bits & $invalid == 0));
        if let Ok(ref flags) = result {
            sym::reach(1);
            sym::check(u16::from(*flags) == bits);
            $(
                sym::check(flags.$method() == (bits & $mask != 0));
                sym::trace(flags.$method() as u64);
            )*
            // Written back, they are the same.
            let mut content: Vec<u8> = Vec::with_capacity(4);
            let written = content.give(flags);
            sym::check(written.is_ok());
            sym::check(content.len() == 2);
            sym::check(u16::from_be_bytes([content[0], content[1]]) == bits);
            std::mem::forget(written);
            std::mem::forget(content);
        } else {
            sym::reach(2);
        }
        std::mem::forget(result);
    });
);

harnesses! {
    lookup_flags {
        flags!(lookup::Flags, 0x00e0, {
            is_right_to_left = 0x0001,
            should_ignore_base_glyphs = 0x0002,
            should_ignore_ligature = 0x0004,
            should_ignore_marks = 0x0008,
            has_mark_filtering = 0x0010
        })
    }
    value_flags {
        flags!(glyph_positioning::Flags, 0xff00, {
            has_x_placement = 0x0001,
            has_y_placement = 0x0002,
            has_x_advance = 0x0004,
            has_y_advance = 0x0008,
            has_x_placement_correction = 0x0010,
            has_y_placement_correction = 0x0020,
            has_x_advance_correction = 0x0040,
            has_y_advance_correction = 0x0080
        })
    }
    axis_flags {
        flags!(font_variations::AxisFlags, 0xfffe, { is_hidden = 0x0001 })
    }
    instance_flags {
        flags!(font_variations::InstanceFlags, 0xffff, {})
    }
    /// Iterating over palettes
    palettes_iterate {
        let at = position();
        let mut spec = Spec::new(0);
        spec.adverse = false;
        spec.palettes(at);
        let result: opentype::Result<ColorPalettes> = Tape::new(0, at).take();
        sym::check(result.is_ok());
        if let Ok(ref palettes) = result {
            let count = spec.u16(at + 4);
            let offset = spec.u32(at + 8);
            if sym::param(2) > 0 {
                // Either few colors or almost all of them.
                let (entries, total) = (spec.u16(at + 2), spec.u16(at + 6));
                sym::assume(entries <= 1 || entries + 2 >= total);
            }
            let entries = if count > 0 { sym::fix(spec.u16(at + 2)) } else { 0 };
            let mut iterator = palettes.iter();
            for i in 0..count {
                let first = if entries > 0 { sym::fix(spec.u16(at + 12 + 2 * i)) } else { 0 };
                let palette = iterator.next();
                sym::check(palette.is_some());
                let Some(mut palette) = palette else { continue };
                for j in 0..entries {
                    let color = palette.next();
                    sym::check(color.is_some());
                    let Some(color) = color else { continue };
                    sym::reach(1);
                    let record = at + offset + 4 * (first + j);
                    sym::check(color.blue as u64 == spec.u8(record));
                    sym::check(color.green as u64 == spec.u8(record + 1));
                    sym::check(color.red as u64 == spec.u8(record + 2));
                    sym::check(color.alpha as u64 == spec.u8(record + 3));
                    color.walk(&mut Walker::tracer());
                }
                sym::check(palette.next().is_none());
                sym::reach(2);
            }
            sym::check(iterator.next().is_none());
        }
        std::mem::forget(result);
        std::mem::forget(spec);
    }
}
