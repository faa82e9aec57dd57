//! One execution of the library: an input, an environment, and how to write both down.

use crate::mem::Mem;
use crate::spec::Root;
use crate::tape::{Dev, Tape};
use std::io::ErrorKind;

#[derive(Clone, Debug, PartialEq)]
pub struct Env {
    pub shift: u64,
    pub fill: u8,
    pub tail: u64,
    /// Where the file ends, if earlier than its content.
    pub cut: Option<u64>,
    pub devs: Vec<(u32, Dev)>,
    pub chunk: u32,
    pub choppy: bool,
    pub kind: u8,
}

pub const KINDS: [ErrorKind; 10] = [
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::WouldBlock,
    ErrorKind::NotFound,
    ErrorKind::UnexpectedEof,
    ErrorKind::Other,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::BrokenPipe,
];

impl Default for Env {
    fn default() -> Self {
        Env {
            shift: 0,
            fill: 0xEE,
            tail: 0,
            cut: None,
            devs: vec![],
            chunk: u32::MAX,
            choppy: false,
            kind: 0,
        }
    }
}

impl Env {
    pub fn tape<'a>(&'a self, mem: &'a Mem) -> Tape<'a> {
        let mut tape = Tape::new(mem).at(self.shift, self.fill);
        if let Some(cut) = self.cut {
            tape.len = cut;
        }
        tape.tail = self.tail;
        tape.devs = &self.devs;
        tape.chunk = self.chunk as usize;
        tape.choppy = self.choppy;
        tape.kind = KINDS[self.kind as usize % KINDS.len()];
        tape
    }

    fn encode(&self, o: &mut Vec<u8>) {
        o.extend(self.shift.to_le_bytes());
        o.extend(self.tail.to_le_bytes());
        o.extend(self.cut.unwrap_or(u64::MAX).to_le_bytes());
        o.extend(self.chunk.to_le_bytes());
        o.push(self.fill);
        o.push(self.choppy as u8);
        o.push(self.kind);
        o.push(self.devs.len() as u8);
        for (k, d) in &self.devs {
            o.extend(k.to_le_bytes());
            o.push(*d as u8);
        }
    }

    fn decode(b: &[u8]) -> Option<(Env, usize)> {
        let u64_at = |i: usize| Some(u64::from_le_bytes(b.get(i..i + 8)?.try_into().ok()?));
        let cut = u64_at(16)?;
        let n = *b.get(31)? as usize;
        let mut devs = vec![];
        let mut i = 32;
        for _ in 0..n {
            let k = u32::from_le_bytes(b.get(i..i + 4)?.try_into().ok()?);
            let d = [Dev::Fail, Dev::Interrupt, Dev::Short, Dev::End][*b.get(i + 4)? as usize % 4];
            devs.push((k, d));
            i += 5;
        }
        Some((
            Env {
                shift: u64_at(0)?,
                tail: u64_at(8)?,
                cut: if cut == u64::MAX { None } else { Some(cut) },
                chunk: u32::from_le_bytes(b.get(24..28)?.try_into().ok()?),
                fill: *b.get(28)?,
                choppy: *b.get(29)? != 0,
                kind: *b.get(30)?,
                devs,
            },
            i,
        ))
    }
}

pub fn root_code(root: Root) -> u32 {
    let (a, b) = match root {
        Root::Gsub => (0, 0),
        Root::Gpos => (1, 0),
        Root::GsubType(t) => (2, t),
        Root::GposType(t) => (3, t),
        Root::GsubLookups => (4, 0),
        Root::GposLookups => (5, 0),
        Root::Scripts => (6, 0),
        Root::Features => (7, 0),
        Root::Language => (8, 0),
        Root::Coverage => (9, 0),
        Root::Class => (10, 0),
        Root::Correction => (11, 0),
        Root::Context => (12, 0),
        Root::ChainedContext => (13, 0),
        Root::Gdef => (14, 0),
        Root::Caret => (15, 0),
        Root::Anchor => (16, 0),
        Root::Store => (17, 0),
        Root::Fvar => (18, 0),
        Root::Cpal => (19, 0),
        Root::Device => (20, 0),
    };
    (a as u32) << 16 | b as u32
}

pub fn root_of(code: u32) -> Option<Root> {
    let t = (code & 0xFFFF) as u16;
    Some(match code >> 16 {
        0 => Root::Gsub,
        1 => Root::Gpos,
        2 => Root::GsubType(t),
        3 => Root::GposType(t),
        4 => Root::GsubLookups,
        5 => Root::GposLookups,
        6 => Root::Scripts,
        7 => Root::Features,
        8 => Root::Language,
        9 => Root::Coverage,
        10 => Root::Class,
        11 => Root::Correction,
        12 => Root::Context,
        13 => Root::ChainedContext,
        14 => Root::Gdef,
        15 => Root::Caret,
        16 => Root::Anchor,
        17 => Root::Store,
        18 => Root::Fvar,
        19 => Root::Cpal,
        20 => Root::Device,
        _ => return None,
    })
}

/// What to do with an input.
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    /// Read a table.
    Table(Root),
    /// Perform a history of operations on fonts; the meaning of the numbers is in `fonts.rs`.
    History(Vec<u16>),
    /// Anything else that is identified by a number.
    Other(u64),
}

#[derive(Clone, Debug)]
pub struct Case {
    pub act: Act,
    pub env: Env,
    pub mem: Mem,
}

impl Case {
    pub fn encode(&self) -> Vec<u8> {
        encode(&self.act, &self.env, &self.mem)
    }

    pub fn decode(b: &[u8]) -> Option<Case> {
        let mut i = 1;
        let act = match *b.first()? {
            0 => {
                i += 4;
                Act::Table(root_of(u32::from_le_bytes(b.get(1..5)?.try_into().ok()?))?)
            }
            1 => {
                let n = u16::from_le_bytes(b.get(1..3)?.try_into().ok()?) as usize;
                i += 2 + 2 * n;
                let ops = b.get(3..3 + 2 * n)?;
                Act::History(
                    ops.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect(),
                )
            }
            2 => {
                i += 8;
                Act::Other(u64::from_le_bytes(b.get(1..9)?.try_into().ok()?))
            }
            _ => return None,
        };
        let (env, n) = Env::decode(b.get(i..)?)?;
        Some(Case { act, env, mem: Mem::decode(b.get(i + n..)?)? })
    }
}

pub fn encode(act: &Act, env: &Env, mem: &Mem) -> Vec<u8> {
    let mut o = vec![];
    encode_to(act, env, mem, &mut o);
    o
}

pub fn encode_to(act: &Act, env: &Env, mem: &Mem, o: &mut Vec<u8>) {
    match act {
        Act::Table(root) => {
            o.push(0);
            o.extend(root_code(*root).to_le_bytes());
        }
        Act::History(ops) => {
            o.push(1);
            o.extend((ops.len() as u16).to_le_bytes());
            for op in ops {
                o.extend(op.to_le_bytes());
            }
        }
        Act::Other(n) => {
            o.push(2);
            o.extend(n.to_le_bytes());
        }
    }
    env.encode(o);
    mem.encode(o);
}
