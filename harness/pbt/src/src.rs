use crate::rng::Rng;

/// Source of choices. 0 is always the simplest choice.
pub struct Src {
    rng: Option<Rng>,
    data: Vec<u64>,
    pos: usize,
    record: Option<std::fs::File>,
}

/// More choices than this and the rest are all zero, so that every generator
/// terminates.
const LIMIT: usize = 200_000;

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), data: Vec::new(), pos: 0, record: None }
    }

    pub fn replay(data: Vec<u64>) -> Self {
        Src { rng: None, data, pos: 0, record: None }
    }

    /// Replay a prefix, then continue at random.
    pub fn extend(data: Vec<u64>, seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), data, pos: 0, record: None }
    }

    /// Write every choice to a file as it is made.
    pub(crate) fn record(&mut self, f: std::fs::File) {
        self.record = Some(f);
    }

    pub fn choices(&self) -> &[u64] {
        &self.data[..self.pos.min(self.data.len())]
    }

    /// A choice in 0..=max.
    pub fn upto(&mut self, max: u64) -> u64 {
        let v = if self.pos < self.data.len() {
            let v = if max == u64::MAX { self.data[self.pos] } else { self.data[self.pos].min(max) };
            self.data[self.pos] = v;
            v
        } else {
            let v = match &mut self.rng {
                Some(rng) if self.pos < LIMIT => rng.upto(max),
                _ => 0,
            };
            self.data.push(v);
            v
        };
        self.pos += 1;
        if let Some(f) = &mut self.record {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }

    /// A choice in lo..=hi, shrinking towards lo.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.upto(hi - lo)
    }

    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }

    pub fn index(&mut self, len: usize) -> usize {
        self.upto(len as u64 - 1) as usize
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.index(items.len());
        &items[i]
    }

    /// True with probability `num / den`; shrinks towards false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.upto(den - 1);
        v >= den - num
    }

    pub fn bool(&mut self) -> bool {
        self.upto(1) == 1
    }

    /// Choice of an alternative by weight.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.upto(total - 1);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        0
    }

    /// A length which is usually small, sometimes around a power of two and
    /// seldom large.
    pub fn len(&mut self, max: usize) -> usize {
        let n = match self.weighted(&[10, 5, 2, 1]) {
            0 => self.size(0, 4),
            1 => self.size(0, 17),
            2 => {
                let k = self.size(3, 9);
                let d = self.size(0, 4);
                ((1usize << k) + d).saturating_sub(2)
            }
            _ => self.size(0, max),
        };
        n.min(max)
    }

    /// An unsigned integer of the given width biased towards boundaries.
    pub fn unsigned(&mut self, bits: u32) -> u128 {
        let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        let v = match self.weighted(&[6, 5, 4, 4, 3]) {
            0 => self.upto(64) as u128,
            // around a power of two
            1 => {
                let k = self.upto(bits as u64) as u32;
                let d = self.upto(4) as u128;
                let base = if k >= 128 { 0 } else { 1u128 << k };
                base.wrapping_add(d).wrapping_sub(2)
            }
            // uniform
            2 => {
                let lo = self.upto(u64::MAX);
                let hi = if bits > 64 { self.upto(u64::MAX) } else { 0 };
                (hi as u128) << 64 | lo as u128
            }
            // random number of significant bits
            3 => {
                let n = self.range(1, bits as u64) as u32;
                let lo = self.upto(u64::MAX);
                let hi = if n > 64 { self.upto(u64::MAX) } else { 0 };
                let v = (hi as u128) << 64 | lo as u128;
                let m = if n == 128 { u128::MAX } else { (1u128 << n) - 1 };
                v & m
            }
            // near the maximum
            _ => mask.wrapping_sub(self.upto(40) as u128),
        };
        v & mask
    }

    /// A signed integer of the given width biased towards boundaries.
    pub fn signed(&mut self, bits: u32) -> i128 {
        let neg = self.bool();
        let v = self.unsigned(bits);
        let v = if neg { (!v).wrapping_add(1) } else { v };
        // sign extend
        let sh = 128 - bits;
        ((v << sh) as i128) >> sh
    }

    pub fn f64_bits(&mut self) -> u64 {
        match self.weighted(&[4, 4, 2, 3, 3]) {
            0 => (self.signed(16) as f64 / *self.pick(&[1.0, 2.0, 10.0, 1000.0, 3.0])).to_bits(),
            1 => self.upto(u64::MAX),
            2 => self.pick(&[
                0.0f64, -0.0, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, f64::INFINITY,
                f64::NEG_INFINITY, 5e-324, 1.0, -1.0, 0.1, 1e22, 1e23, 9007199254740993.0,
                2.2250738585072011e-308, 1.7976931348623157e308,
            ])
            .map_bits(),
            3 => {
                let e = self.range(0, 2046);
                let m = self.unsigned(52) as u64;
                let s = self.upto(1);
                (s << 63) | (e << 52) | m
            }
            _ => (self.unsigned(64) as u64 as f64).to_bits(),
        }
    }

    pub fn f32_bits(&mut self) -> u32 {
        match self.weighted(&[4, 4, 2, 3]) {
            0 => (self.signed(12) as f32 / *self.pick(&[1.0, 2.0, 10.0, 1000.0, 3.0])).to_bits(),
            1 => self.upto(u32::MAX as u64) as u32,
            2 => self
                .pick(&[
                    0.0f32, -0.0, f32::MIN_POSITIVE, f32::MAX, f32::MIN, f32::EPSILON, f32::INFINITY,
                    f32::NEG_INFINITY, 1e-45, 1.0, 16777217.0, 0.1,
                ])
                .to_bits(),
            _ => {
                let e = self.range(0, 254) as u32;
                let m = self.unsigned(23) as u32;
                let s = self.upto(1) as u32;
                (s << 31) | (e << 23) | m
            }
        }
    }

    pub fn char(&mut self) -> char {
        match self.weighted(&[8, 4, 2, 2, 2, 1]) {
            0 => (b'a' + self.upto(25) as u8) as char,
            1 => self.upto(0x7f) as u8 as char,
            2 => char::from_u32(self.range(0x80, 0x7ff) as u32).unwrap(),
            3 => char::from_u32(self.range(0x800, 0xffff) as u32).unwrap_or('\u{fffd}'),
            4 => char::from_u32(self.range(0x10000, 0x10ffff) as u32).unwrap(),
            _ => *self.pick(&[
                '"', '\\', '/', '\0', '\u{8}', '\u{c}', '\n', '\r', '\t', '\u{7f}', '\u{80}', '\u{d7ff}',
                '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{2028}', '\u{feff}', '\u{1b}', '\u{1f}',
            ]),
        }
    }

    pub fn string(&mut self, max: usize) -> String {
        let n = self.len(max);
        // runs of one kind of character, so that fast paths get exercised too
        let plain = self.chance(1, 3);
        (0..n)
            .map(|_| if plain { (b'a' + self.upto(25) as u8) as char } else { self.char() })
            .collect()
    }

    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = self.len(max);
        (0..n).map(|_| self.upto(255) as u8).collect()
    }
}

trait MapBits {
    fn map_bits(&self) -> u64;
}

impl MapBits for f64 {
    fn map_bits(&self) -> u64 {
        self.to_bits()
    }
}
