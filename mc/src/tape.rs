//! The stream under the library: every answer it gives is decided by the harness.

use crate::mem::Mem;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};

/// A deviation of the environment from "deliver everything at once".
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dev {
    /// A read or seek fails.
    Fail,
    /// A read is interrupted once (to be retried by the reader).
    Interrupt,
    /// A read delivers one byte only.
    Short,
    /// A read reports the end of the stream.
    End,
}

pub struct Tape<'a> {
    pub mem: &'a Mem,
    /// The file ends here (relative to the shift).
    pub len: u64,
    /// Where the first byte of `mem` is in the file.
    pub shift: u64,
    /// Content of the file before `shift`, and behind `len` up to `len + tail`.
    pub fill: u8,
    pub tail: u64,
    pub pos: u64,
    /// Number of stream operations so far.
    pub ops: u32,
    pub reads: u64,
    /// Bytes delivered so far.
    pub delivered: u64,
    pub devs: &'a [(u32, Dev)],
    /// One more operation that fails, once.
    pub fail_at: u32,
    /// Every read delivers at most this much.
    pub chunk: usize,
    /// Every other read is interrupted.
    pub choppy: bool,
    toggle: bool,
    pub kind: ErrorKind,
    /// Whether a deviation of kind Fail or End has been delivered.
    pub hit: Option<Dev>,
    /// Which operations were reads (recorded if wanted).
    pub log: Option<Vec<bool>>,
    /// Called in front of each operation.
    pub hook: Option<&'a dyn Fn(u32)>,
}

impl<'a> Tape<'a> {
    pub fn new(mem: &'a Mem) -> Self {
        Tape {
            mem,
            len: mem.len(),
            shift: 0,
            fill: 0xEE,
            tail: 0,
            pos: 0,
            ops: 0,
            reads: 0,
            delivered: 0,
            devs: &[],
            fail_at: u32::MAX,
            chunk: usize::MAX,
            choppy: false,
            toggle: false,
            kind: ErrorKind::PermissionDenied,
            hit: None,
            log: None,
            hook: None,
        }
    }

    pub fn at(mut self, shift: u64, fill: u8) -> Self {
        self.shift = shift;
        self.pos = shift;
        self.fill = fill;
        self
    }

    pub fn cut(mut self, len: u64) -> Self {
        self.len = len;
        self
    }

    #[inline]
    fn step(&mut self, read: bool) -> Option<Dev> {
        let k = self.ops;
        self.ops += 1;
        if let Some(hook) = self.hook {
            hook(k);
        }
        if let Some(log) = self.log.as_mut() {
            log.push(read);
        }
        if k == self.fail_at {
            self.fail_at = u32::MAX;
            return Some(Dev::Fail);
        }
        if self.devs.is_empty() {
            return None;
        }
        self.devs.iter().find(|d| d.0 == k).map(|d| d.1)
    }
}

impl Read for Tape<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut limit = self.chunk;
        match self.step(true) {
            None => {}
            Some(Dev::Fail) => {
                self.hit = Some(Dev::Fail);
                return Err(Error::from(self.kind));
            }
            Some(Dev::Interrupt) => return Err(Error::from(ErrorKind::Interrupted)),
            Some(Dev::Short) => limit = 1,
            Some(Dev::End) => {
                self.hit = Some(Dev::End);
                return Ok(0);
            }
        }
        if self.choppy {
            self.toggle = !self.toggle;
            if self.toggle {
                return Err(Error::from(ErrorKind::Interrupted));
            }
        }
        self.reads += 1;
        let end = self.shift + self.len + self.tail;
        if self.pos >= end {
            return Ok(0);
        }
        let n = (buf.len() as u64).min(end - self.pos).min(limit as u64) as usize;
        if self.pos >= self.shift && self.pos + n as u64 <= self.shift + self.len {
            self.mem.read(self.pos - self.shift, &mut buf[..n]);
        } else {
            for (i, b) in buf[..n].iter_mut().enumerate() {
                let a = self.pos + i as u64;
                *b = if a < self.shift || a >= self.shift + self.len {
                    self.fill
                } else {
                    self.mem.byte(a - self.shift)
                };
            }
        }
        self.pos += n as u64;
        self.delivered += n as u64;
        Ok(n)
    }
}

impl Seek for Tape<'_> {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        if let Some(Dev::Fail) = self.step(false) {
            self.hit = Some(Dev::Fail);
            return Err(Error::from(self.kind));
        }
        let next = match to {
            SeekFrom::Start(a) => Some(a),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            SeekFrom::End(d) => (self.shift + self.len + self.tail).checked_add_signed(d),
        };
        match next {
            Some(a) => {
                self.pos = a;
                Ok(a)
            }
            None => Err(Error::from(ErrorKind::InvalidInput)),
        }
    }
}
