//! Tapes with arbitrary content.

use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};

use crate::sym;

/// An endless tape with arbitrary content.
pub struct Tape {
    pub id: u32,
    pub position: u64,
    /// The number of reads before the path is cut.
    pub budget: u64,
    /// The number of instructions without reading before the path is cut, if not zero.
    pub patience: u64,
    /// The position at which the tape ends.
    pub end: u64,
    /// The end has been hit.
    pub over: bool,
    /// The memory that can be requested at once.
    pub memory: u64,
}

impl Tape {
    pub fn new(id: u32, position: u64) -> Self {
        Tape {
            id,
            position,
            budget: u64::MAX,
            patience: 0,
            end: u64::MAX,
            over: false,
            memory: u64::MAX,
        }
    }

    /// From now on, the requests for memory are in proportion to what is read.
    pub fn frugal(&mut self) {
        if sym::param(10) > 0 {
            self.memory = sym::param(10) << 10;
            sym::memory(self.memory);
        }
    }

    pub fn generous(&mut self) {
        if self.memory != u64::MAX {
            self.memory = u64::MAX;
            sym::memory(u64::MAX);
        }
    }
}

impl Read for Tape {
    #[inline(never)]
    fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
        if self.budget == 0 {
            sym::bound(1);
        }
        self.budget -= 1;
        if self.patience > 0 {
            sym::idle(self.patience);
        }
        if self.end != u64::MAX && self.position.wrapping_add(buffer.len() as u64) > self.end {
            self.over = true;
            return Err(Error::from(ErrorKind::UnexpectedEof));
        }
        for (i, byte) in buffer.iter_mut().enumerate() {
            // Reading in bulk is like reading number by number.
            if i >= 4 && i & 1 == 0 && self.patience > 0 {
                if self.budget == 0 {
                    sym::bound(1);
                }
                self.budget -= 1;
            }
            *byte = sym::byte(self.id, self.position.wrapping_add(i as u64));
        }
        self.position = self.position.wrapping_add(buffer.len() as u64);
        if self.memory != u64::MAX {
            self.memory += (buffer.len() as u64) << 10;
            sym::memory(self.memory);
        }
        Ok(buffer.len())
    }

    #[inline]
    fn read_exact(&mut self, buffer: &mut [u8]) -> Result<()> {
        if !buffer.is_empty() {
            self.read(buffer)?;
        }
        Ok(())
    }
}

impl Seek for Tape {
    #[inline(never)]
    fn seek(&mut self, target: SeekFrom) -> Result<u64> {
        self.position = match target {
            SeekFrom::Start(position) if self.end != u64::MAX => sym::plain(position),
            SeekFrom::Start(position) => position,
            SeekFrom::Current(offset) => self.position.wrapping_add(offset as u64),
            SeekFrom::End(_) => return Err(Error::from(ErrorKind::Unsupported)),
        };
        Ok(self.position)
    }

    #[inline]
    fn stream_position(&mut self) -> Result<u64> {
        Ok(self.position)
    }
}

/// A tape that fails and delivers in pieces.
pub struct Faulty {
    pub tape: Tape,
    /// The operation that misbehaves, counting reads and seeks.
    pub when: u64,
    /// The number of operations in a row that are interrupted or deliver in pieces.
    pub times: u64,
    /// What happens.
    pub fault: Fault,
    /// The number of operations so far.
    pub count: u64,
    /// A failure has been reported.
    pub failed: bool,
}

#[derive(Clone, Copy, Eq, PartialEq)]
pub enum Fault {
    /// The operation returns an error.
    Error,
    /// The operation is interrupted and can be retried.
    Interruption,
    /// The operation delivers only so many bytes.
    Piece(u64),
    /// The operation delivers so many bytes, and then the tape is over.
    End(u64),
}

impl Faulty {
    pub fn new(tape: Tape, when: u64, fault: Fault) -> Self {
        let times = match fault {
            Fault::Interruption | Fault::Piece(_) => sym::var(64, 1, sym::param(11).max(1)),
            _ => 1,
        };
        Faulty {
            tape,
            when,
            times,
            fault,
            count: 0,
            failed: false,
        }
    }

    fn step(&mut self) -> bool {
        let now = self.count;
        self.count += 1;
        now.wrapping_sub(self.when) < self.times
    }
}

impl Read for Faulty {
    #[inline(never)]
    fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
        let mut count = buffer.len();
        if let Fault::End(_) = self.fault {
            if self.count > self.when {
                self.failed = true;
                return Ok(0);
            }
        }
        if self.step() {
            match self.fault {
                Fault::Error => {
                    self.failed = true;
                    return Err(Error::from(ErrorKind::PermissionDenied));
                }
                Fault::Interruption => return Err(Error::from(ErrorKind::Interrupted)),
                Fault::Piece(limit) | Fault::End(limit) => {
                    if (limit as usize) < count {
                        count = limit as usize;
                    }
                    if count == 0 {
                        self.failed = true;
                    }
                }
            }
        }
        for i in 0..count {
            buffer[i] = sym::byte(self.tape.id, self.tape.position.wrapping_add(i as u64));
        }
        self.tape.position = self.tape.position.wrapping_add(count as u64);
        Ok(count)
    }
}

impl Seek for Faulty {
    #[inline(never)]
    fn seek(&mut self, target: SeekFrom) -> Result<u64> {
        if self.step() && self.fault == Fault::Error {
            self.failed = true;
            return Err(Error::from(ErrorKind::PermissionDenied));
        }
        self.tape.seek(target)
    }
}
