//! A sparse byte memory in which bytes may still be undecided.

pub const FILL: u8 = 0xEE;

#[derive(Clone, Debug, Default)]
pub struct Seg {
    pub start: u64,
    pub data: Vec<u8>,
    /// 0: undecided, 1: decided.
    pub def: Vec<u8>,
}

/// Segments sorted by start; the first one starts at 0.
#[derive(Clone, Debug)]
pub struct Mem {
    pub segs: Vec<Seg>,
}

impl Mem {
    pub fn new() -> Self {
        Mem { segs: vec![Seg::default()] }
    }

    pub fn from_bytes(bytes: &[u8]) -> Self {
        Mem { segs: vec![Seg { start: 0, data: bytes.to_vec(), def: vec![] }] }
    }

    pub fn clear(&mut self) {
        self.segs.truncate(1);
        self.segs[0].data.clear();
        self.segs[0].def.clear();
    }

    /// The position just behind the last byte.
    pub fn len(&self) -> u64 {
        let s = &self.segs[self.segs.len() - 1];
        s.start + s.data.len() as u64
    }

    #[inline]
    fn seg(&self, a: u64) -> Option<(usize, usize)> {
        if a < self.segs[0].data.len() as u64 {
            return Some((0, a as usize));
        }
        for (i, s) in self.segs.iter().enumerate().skip(1) {
            if a >= s.start && a - s.start < s.data.len() as u64 {
                return Some((i, (a - s.start) as usize));
            }
        }
        None
    }

    /// Index of the segment that `a` belongs to or extends.
    pub fn home(&self, a: u64) -> usize {
        let mut k = 0;
        for (i, s) in self.segs.iter().enumerate() {
            if a >= s.start {
                k = i;
            }
        }
        k
    }

    /// The byte at `a` of the finished file (gaps between segments hold filler).
    #[inline]
    pub fn byte(&self, a: u64) -> u8 {
        match self.seg(a) {
            Some((i, k)) => self.segs[i].data[k],
            None => FILL,
        }
    }

    #[inline]
    pub fn decided(&self, a: u64) -> bool {
        match self.seg(a) {
            Some((i, k)) => self.segs[i].def[k] != 0,
            None => false,
        }
    }

    /// Extend the segment of `a` so that `[a, a + n)` exists.
    pub fn grow(&mut self, a: u64, n: u64) {
        let i = self.home(a);
        let s = &mut self.segs[i];
        let end = (a - s.start + n) as usize;
        if s.data.len() < end {
            s.data.resize(end, FILL);
            s.def.resize(end, 0);
        }
    }

    pub fn set(&mut self, a: u64, v: u8) {
        self.grow(a, 1);
        let (i, k) = self.seg(a).unwrap();
        self.segs[i].data[k] = v;
        if k < self.segs[i].def.len() {
            self.segs[i].def[k] = 1;
        }
    }

    pub fn end_of(&self, a: u64) -> u64 {
        let s = &self.segs[self.home(a)];
        s.start + s.data.len() as u64
    }

    pub fn new_seg(&mut self, start: u64) {
        if start <= self.segs[0].data.len() as u64 || self.segs.iter().any(|s| s.start == start) {
            return;
        }
        self.segs.push(Seg { start, data: vec![], def: vec![] });
        self.segs.sort_by_key(|s| s.start);
    }

    #[inline]
    pub fn u16(&self, a: u64) -> u16 {
        let s = &self.segs[0].data;
        if a + 1 < s.len() as u64 {
            let a = a as usize;
            return u16::from_be_bytes([s[a], s[a + 1]]);
        }
        u16::from_be_bytes([self.byte(a), self.byte(a + 1)])
    }

    pub fn read(&self, a: u64, buf: &mut [u8]) {
        let s = &self.segs[0].data;
        if a + buf.len() as u64 <= s.len() as u64 {
            buf.copy_from_slice(&s[a as usize..a as usize + buf.len()]);
        } else {
            for (i, b) in buf.iter_mut().enumerate() {
                *b = self.byte(a + i as u64);
            }
        }
    }

    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for s in &self.segs {
            h = (h ^ s.start).wrapping_mul(0x100000001b3);
            h = (h ^ s.data.len() as u64).wrapping_mul(0x100000001b3);
            for c in s.data.chunks(8) {
                let mut b = [0u8; 8];
                b[..c.len()].copy_from_slice(c);
                h = (h ^ u64::from_le_bytes(b)).wrapping_mul(0x9E3779B97F4A7C15);
                h ^= h >> 29;
            }
        }
        h
    }

    pub fn encode(&self, o: &mut Vec<u8>) {
        o.extend((self.segs.len() as u32).to_le_bytes());
        for s in &self.segs {
            o.extend(s.start.to_le_bytes());
            o.extend((s.data.len() as u64).to_le_bytes());
            o.extend(&s.data);
        }
    }

    pub fn decode(b: &[u8]) -> Option<Mem> {
        let n = u32::from_le_bytes(b.get(..4)?.try_into().ok()?) as usize;
        let mut i = 4;
        let mut segs = vec![];
        for _ in 0..n {
            let start = u64::from_le_bytes(b.get(i..i + 8)?.try_into().ok()?);
            let len = u64::from_le_bytes(b.get(i + 8..i + 16)?.try_into().ok()?) as usize;
            i += 16;
            segs.push(Seg { start, data: b.get(i..i + len)?.to_vec(), def: vec![] });
            i += len;
        }
        if segs.is_empty() {
            return None;
        }
        Some(Mem { segs })
    }
}
