//! A table of our own.

use opentype::tape::Read as TapeRead;
use opentype::truetype::Tag;
use opentype::{value, walue, Result, Table};

use crate::spec::Spec;
use crate::walk::{Walk, Walker};

/// A table that shows where it is read and what it is given.
#[derive(Clone, Copy)]
pub struct Probe {
    pub kind: u16,
    pub value: u32,
}

/// The tag of the table.
pub const TAG: Tag = Tag(*b"PRBE");

impl Probe {
    pub fn expect(spec: &mut Spec, at: u64, kind: u64) {
        spec.put(kind);
        spec.put32(at);
    }
}

impl Table for Probe {
    fn tag() -> Tag {
        TAG
    }
}

impl value::Read for Probe {
    fn read<T: TapeRead>(tape: &mut T) -> Result<Self> {
        Ok(Probe { kind: 0, value: tape.take()? })
    }
}

impl walue::Read<'static> for Probe {
    type Parameter = u16;

    fn read<T: TapeRead>(tape: &mut T, kind: u16) -> Result<Self> {
        Ok(Probe { kind, value: tape.take()? })
    }
}

impl Walk for Probe {
    fn walk(&self, walker: &mut Walker) {
        walker.put(self.kind as u64);
        walker.put(self.value as u64);
    }
}
