//! An independent model of LLVM's bit-level encoding: a writer, and bit extraction.

#[derive(Clone, Default)]
pub struct BitWriter {
    pub bytes: Vec<u8>,
    nbits: usize,
}

impl BitWriter {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn pos(&self) -> usize {
        self.nbits
    }
    pub fn bit(&mut self, b: bool) {
        if self.nbits % 8 == 0 {
            self.bytes.push(0);
        }
        if b {
            *self.bytes.last_mut().unwrap() |= 1 << (self.nbits % 8);
        }
        self.nbits += 1;
    }
    pub fn fixed(&mut self, v: u64, width: usize) {
        for i in 0..width {
            self.bit(i < 64 && (v >> i) & 1 == 1);
        }
    }
    /// The canonical VBR encoding, followed by `pad` redundant zero chunks.
    pub fn vbr_padded(&mut self, mut v: u64, width: usize, pad: usize) {
        let payload = width - 1;
        let mask = if payload >= 64 { u64::MAX } else { (1u64 << payload) - 1 };
        let mut chunks = vec![];
        loop {
            chunks.push(v & mask);
            v = if payload >= 64 { 0 } else { v >> payload };
            if v == 0 {
                break;
            }
        }
        chunks.extend(std::iter::repeat(0).take(pad));
        let n = chunks.len();
        for (i, c) in chunks.into_iter().enumerate() {
            self.fixed(c, payload);
            self.bit(i + 1 < n);
        }
    }
    pub fn vbr(&mut self, v: u64, width: usize) {
        self.vbr_padded(v, width, 0)
    }
    pub fn align32(&mut self) {
        while self.nbits % 32 != 0 {
            self.bit(false);
        }
    }
    /// Overwrites the 32-bit word at byte position `at`.
    pub fn patch32(&mut self, at: usize, v: u32) {
        self.bytes[at..at + 4].copy_from_slice(&v.to_le_bytes());
    }
}

pub fn bit_at(bytes: &[u8], i: usize) -> bool {
    (bytes[i / 8] >> (i % 8)) & 1 == 1
}

/// The `n <= 64` bits at bit position `pos`, least significant first.
pub fn get_bits(bytes: &[u8], pos: usize, n: usize) -> u64 {
    let mut v = 0u64;
    for i in 0..n {
        v |= (bit_at(bytes, pos + i) as u64) << i;
    }
    v
}

/// The magnitude-and-sign encoding that LLVM's signed VBRs use.
pub fn svbr_encode(v: i64) -> u64 {
    if v == i64::MIN {
        1
    } else if v < 0 {
        ((-v) as u64) << 1 | 1
    } else {
        (v as u64) << 1
    }
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Vbr {
    /// The value, and the bits consumed.
    Value(u64, usize),
    /// Must be refused.
    Bad,
    /// Redundant encoding that extends past 64 bits: either refused, or exactly this.
    Lax(u64, usize),
}

/// Decodes the VBR at `pos` in `bytes[..limit bits]`.
pub fn vbr_decode(bytes: &[u8], limit: usize, pos: usize, width: usize) -> Vbr {
    let mut v: u128 = 0;
    let mut shift = 0usize;
    let mut at = pos;
    let mut lax = false;
    loop {
        if at + width > limit {
            return Vbr::Bad;
        }
        let c = get_bits(bytes, at, width);
        at += width;
        let payload = (c & !(1 << (width - 1))) as u128;
        if payload != 0 {
            if shift >= 64 || (payload << shift) >> 64 != 0 {
                return Vbr::Bad;
            }
            v |= payload << shift;
        }
        if shift >= 64 {
            lax = true;
        }
        if c >> (width - 1) & 1 == 0 {
            return if lax { Vbr::Lax(v as u64, at - pos) } else { Vbr::Value(v as u64, at - pos) };
        }
        shift += width - 1;
    }
}
