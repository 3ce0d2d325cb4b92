//! An independent decoder for LLVM's bitstream format, used as the reference for arbitrary (in
//! particular mutated) streams. It works on a plain bit array and follows the format's
//! documentation, not the structure of the code under test.

use std::collections::HashMap;

use crate::bits::{get_bits, vbr_decode, Vbr};
use crate::stream::{Abbrev, Ent, Op};

#[derive(Debug, Clone, PartialEq)]
pub enum Status {
    /// The stream ends cleanly.
    End,
    /// The stream must be refused at this point.
    Err(&'static str),
    /// The data ends inside of a block: the reader may end or fail.
    Eof,
    /// The format leaves this open (or LLVM and the code under test legitimately differ): nothing
    /// is asserted from here on.
    Open(&'static str),
}

struct Scope {
    width: usize,
    abbrevs: Vec<Abbrev>,
    is_info: bool,
    bid: Option<u64>,
}

pub struct Dec<'a> {
    b: &'a [u8],
    pos: usize,
    limit: usize,
    scopes: Vec<Scope>,
    info: HashMap<u64, Vec<Abbrev>>,
    pub ents: Vec<Ent>,
    /// Bit position after each entry.
    pub ends: Vec<usize>,
    /// Total work allowed (fields decoded).
    fuel: usize,
}

type R<T> = Result<T, Status>;

impl<'a> Dec<'a> {
    fn fixed(&mut self, n: usize) -> R<u64> {
        if self.pos + n > self.limit {
            return Err(Status::Err("data ends inside of a fixed-width field"));
        }
        let v = get_bits(self.b, self.pos, n);
        self.pos += n;
        Ok(v)
    }
    fn vbr(&mut self, w: usize) -> R<u64> {
        match vbr_decode(self.b, self.limit, self.pos, w) {
            Vbr::Value(v, n) => {
                self.pos += n;
                Ok(v)
            }
            Vbr::Bad => Err(Status::Err("bad VBR")),
            Vbr::Lax(..) => Err(Status::Open("redundant VBR beyond 64 bits")),
        }
    }
    fn align(&mut self) {
        self.pos = ((self.pos + 31) / 32 * 32).min(self.limit);
    }

    fn define(&mut self) -> R<Abbrev> {
        let n = self.vbr(5)?;
        if n == 0 {
            return Err(Status::Err("abbreviation without operands"));
        }
        let mut ops: Abbrev = vec![];
        let mut i = 0;
        while i < n {
            if self.fixed(1)? == 1 {
                ops.push(Op::Lit(self.vbr(8)?));
                i += 1;
                continue;
            }
            match self.fixed(3)? {
                1 => {
                    let w = self.vbr(5)?;
                    if w > 32 {
                        return Err(Status::Open("fixed operand wider than 32 bits"));
                    }
                    ops.push(Op::Fixed(w as u32));
                }
                2 => {
                    let w = self.vbr(5)?;
                    if w > 32 || w == 1 {
                        return Err(Status::Open("VBR operand of unusable width"));
                    }
                    ops.push(Op::Vbr(w as u32));
                }
                3 => {
                    if i + 2 != n {
                        return Err(Status::Err("array operand is not second to last"));
                    }
                    if self.fixed(1)? == 1 {
                        return Err(Status::Err("literal array element"));
                    }
                    let e = match self.fixed(3)? {
                        1 => {
                            let w = self.vbr(5)?;
                            if w > 32 || w == 0 {
                                return Err(Status::Open("array element of unusable width"));
                            }
                            Op::Fixed(w as u32)
                        }
                        2 => {
                            let w = self.vbr(5)?;
                            if w > 32 || w < 2 {
                                return Err(Status::Open("array element of unusable width"));
                            }
                            Op::Vbr(w as u32)
                        }
                        4 => Op::Char6,
                        _ => return Err(Status::Err("bad array element encoding")),
                    };
                    ops.push(Op::Array(Box::new(e)));
                    i += 1;
                }
                4 => ops.push(Op::Char6),
                5 => {
                    if i + 1 != n {
                        return Err(Status::Err("blob operand is not last"));
                    }
                    ops.push(Op::Blob);
                }
                _ => return Err(Status::Err("unknown operand encoding")),
            }
            i += 1;
        }
        Ok(ops)
    }

    fn scalar(&mut self, op: &Op) -> R<u64> {
        if self.fuel == 0 {
            return Err(Status::Open("too much work"));
        }
        self.fuel -= 1;
        match op {
            Op::Lit(v) => Ok(*v),
            Op::Fixed(0) | Op::Vbr(0) => Ok(0),
            Op::Fixed(w) => self.fixed(*w as usize),
            Op::Vbr(w) => self.vbr(*w as usize),
            Op::Char6 => {
                let v = self.fixed(6)?;
                Ok(crate::llvm::CHAR6[v as usize] as u64)
            }
            _ => unreachable!(),
        }
    }

    fn abbreviated(&mut self, ops: &Abbrev) -> R<(u64, Vec<u64>)> {
        let mut vals = vec![];
        for op in ops {
            match op {
                Op::Array(e) => {
                    let n = self.vbr(6)?;
                    for _ in 0..n {
                        let v = self.scalar(e)?;
                        vals.push(v);
                    }
                }
                Op::Blob => {
                    let n = self.vbr(6)?;
                    self.align();
                    for _ in 0..n {
                        if self.fuel == 0 {
                            return Err(Status::Open("too much work"));
                        }
                        self.fuel -= 1;
                        let v = self.fixed(8)?;
                        vals.push(v);
                    }
                    self.align();
                }
                op => {
                    let v = self.scalar(op)?;
                    vals.push(v);
                }
            }
        }
        if vals.is_empty() {
            return Err(Status::Err("record without a code"));
        }
        if matches!(ops[0], Op::Array(_) | Op::Blob) {
            return Err(Status::Open("record code from an array or blob"));
        }
        let code = vals.remove(0);
        Ok((code, vals))
    }

    fn unabbreviated(&mut self) -> R<(u64, Vec<u64>)> {
        let code = self.vbr(6)?;
        let n = self.vbr(6)?;
        let mut vals = vec![];
        for _ in 0..n {
            if self.fuel == 0 {
                return Err(Status::Open("too much work"));
            }
            self.fuel -= 1;
            let v = self.vbr(6)?;
            vals.push(v);
        }
        Ok((code, vals))
    }

    fn push(&mut self, e: Ent) {
        self.ents.push(e);
        self.ends.push(self.pos);
    }

    fn run(&mut self) -> Status {
        loop {
            match self.step() {
                Ok(true) => {}
                Ok(false) => return Status::End,
                Err(s) => return s,
            }
        }
    }

    fn step(&mut self) -> R<bool> {
        let top = self.scopes.is_empty();
        if self.pos >= self.limit {
            return if top { Ok(false) } else { Err(Status::Eof) };
        }
        if self.fuel == 0 {
            return Err(Status::Open("too much work"));
        }
        self.fuel -= 1;
        let width = self.scopes.last().map_or(2, |s| s.width);
        if self.pos + width > self.limit {
            return Err(Status::Eof);
        }
        let id = self.fixed(width)?;
        let is_info = self.scopes.last().map_or(false, |s| s.is_info);
        match id {
            0 => {
                if top {
                    return Err(Status::Err("end of block outside of any block"));
                }
                self.align();
                self.scopes.pop();
                if !is_info {
                    self.push(Ent::End);
                }
            }
            1 => {
                let bid = self.vbr(8)?;
                let w = self.vbr(4)?;
                self.align();
                if is_info {
                    return Err(Status::Open("block inside of BLOCKINFO"));
                }
                let words = self.fixed(32);
                if w == 0 {
                    return Err(Status::Err("zero abbreviation id width"));
                }
                let words = words?;
                if w > 32 {
                    return Err(Status::Open("abbreviation id wider than 32 bits"));
                }
                if bid >= 1 << 32 {
                    return Err(Status::Open("block id wider than 32 bits"));
                }
                let abbrevs = self.info.get(&bid).cloned().unwrap_or_default();
                if bid == 0 {
                    // Each BLOCKINFO block replaces the one before.
                    self.info.clear();
                }
                self.scopes.push(Scope { width: w as usize, abbrevs, is_info: bid == 0, bid: None });
                if bid != 0 {
                    self.push(Ent::Enter { id: bid, len: words * 4 });
                }
            }
            2 => {
                if top {
                    return Err(Status::Err("abbreviation outside of any block"));
                }
                if is_info && self.scopes.last().unwrap().bid.is_none() {
                    return Err(Status::Err("abbreviation before SETBID"));
                }
                let a = self.define()?;
                let s = self.scopes.last_mut().unwrap();
                if is_info {
                    let bid = s.bid.unwrap();
                    self.info.entry(bid).or_default().push(a);
                } else {
                    s.abbrevs.push(a);
                }
            }
            id => {
                if top {
                    return Err(Status::Err("record outside of any block"));
                }
                let (abbrev, (code, fields)) = if id == 3 {
                    (None, self.unabbreviated()?)
                } else {
                    let s = self.scopes.last().unwrap();
                    let Some(a) = s.abbrevs.get((id - 4) as usize).cloned() else {
                        return Err(Status::Err("undefined abbreviation"));
                    };
                    (Some(id), self.abbreviated(&a)?)
                };
                if is_info {
                    let s = self.scopes.last_mut().unwrap();
                    match code {
                        1 => match fields.first() {
                            Some(b) => s.bid = Some(*b),
                            None => return Err(Status::Err("SETBID without a block id")),
                        },
                        2 | 3 => {
                            if s.bid.is_none() {
                                return Err(Status::Open("name before SETBID"));
                            }
                        }
                        _ => return Err(Status::Err("unknown BLOCKINFO record")),
                    }
                } else {
                    self.push(Ent::Rec { abbrev, code, fields });
                }
            }
        }
        Ok(true)
    }
}

pub struct Decoded {
    pub ents: Vec<Ent>,
    pub ends: Vec<usize>,
    pub status: Status,
}

/// Decodes the entries in `bytes`, starting at the given bit (after the magic).
pub fn decode(bytes: &[u8], start: usize) -> Decoded {
    let mut d = Dec {
        b: bytes,
        pos: start,
        limit: bytes.len() * 8,
        scopes: vec![],
        info: HashMap::new(),
        ents: vec![],
        ends: vec![],
        fuel: 400_000 + bytes.len() * 16,
    };
    let status = d.run();
    Decoded { ents: d.ents, ends: d.ends, status }
}
