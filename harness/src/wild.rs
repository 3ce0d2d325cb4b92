//! Hostile inputs: mutations of valid streams, and streams written by a grammar that is free to
//! claim anything.

use crate::bits::BitWriter;
use crate::engine::Src;
use crate::stream::{put_abbreviated, put_definition, put_unabbreviated, Abbrev, Op, Rec};

/// Applies a few random edits.
pub fn mutate(src: &mut Src, b: &mut Vec<u8>) {
    let n = src.range(1, 6);
    for _ in 0..n {
        if b.is_empty() {
            return;
        }
        match src.weighted(&[8, 4, 3, 2, 2, 2, 1]) {
            0 => {
                let i = src.below(b.len() * 8);
                b[i / 8] ^= 1 << (i % 8);
            }
            1 => {
                let i = src.below(b.len());
                b[i] = src.byte();
            }
            2 => {
                let i = src.below(b.len() / 4 + 1) * 4;
                let v = src.bits(32) as u32;
                if i + 4 <= b.len() {
                    b[i..i + 4].copy_from_slice(&v.to_le_bytes());
                }
            }
            3 => {
                // Remove words.
                let words = b.len() / 4;
                if words > 1 {
                    let i = src.below(words);
                    let k = src.range(1, (words - i).min(4));
                    b.drain(i * 4..(i + k) * 4);
                }
            }
            4 => {
                // Duplicate words.
                let words = b.len() / 4;
                if words > 0 {
                    let i = src.below(words);
                    let k = src.range(1, (words - i).min(16));
                    let part = b[i * 4..(i + k) * 4].to_vec();
                    let at = src.below(words + 1) * 4;
                    b.splice(at..at, part);
                }
            }
            5 => {
                let k = src.below(b.len() / 4 + 1) * 4;
                b.truncate(k);
            }
            _ => {
                let i = src.below(b.len());
                let k = src.range(1, (b.len() - i).min(8));
                let f = *src.pick(&[0u8, 0xff]);
                b[i..i + k].iter_mut().for_each(|x| *x = f);
            }
        }
    }
    while b.len() % 4 != 0 {
        b.push(0);
    }
}

fn huge(src: &mut Src) -> u64 {
    match src.below(5) {
        0 => 1 << src.range(16, 40),
        1 => (1 << src.range(20, 63)) - 1,
        2 => u64::MAX - src.below(3) as u64,
        3 => src.upto(100_000),
        _ => u32::MAX as u64,
    }
}

fn wild_op(src: &mut Src, w: &mut BitWriter, out: &mut Abbrev, array_elem: bool) {
    let width = |src: &mut Src| match src.weighted(&[6, 2, 1]) {
        0 => src.range(1, 32) as u64,
        1 => *src.pick(&[0u64, 1, 33, 63, 64, 65]),
        _ => huge(src),
    };
    match src.weighted(&[if array_elem { 1 } else { 4 }, 4, 3, 2, 2, 1]) {
        0 => {
            let v = src.u64();
            w.bit(true);
            w.vbr(v, 8);
            out.push(Op::Lit(v));
        }
        1 => {
            let n = width(src);
            w.bit(false);
            w.fixed(1, 3);
            w.vbr(n, 5);
            out.push(Op::Fixed(n.min(70) as u32));
        }
        2 => {
            let n = width(src);
            w.bit(false);
            w.fixed(2, 3);
            w.vbr(n, 5);
            out.push(Op::Vbr(n.min(70) as u32));
        }
        3 => {
            w.bit(false);
            w.fixed(4, 3);
            out.push(Op::Char6);
        }
        4 => {
            w.bit(false);
            w.fixed(5, 3);
            out.push(Op::Blob);
        }
        _ => {
            w.bit(false);
            let e = *src.pick(&[0u64, 6, 7, 3]);
            w.fixed(e, 3);
        }
    }
}

/// Whether `put_abbreviated` can write values with these operands (roughly).
fn writable(a: &Abbrev) -> bool {
    a.iter().all(|o| match o {
        Op::Fixed(n) => *n <= 63,
        Op::Vbr(n) => *n == 0 || (2..=32).contains(n),
        Op::Array(e) => matches!(**e, Op::Char6 | Op::Fixed(1..=63) | Op::Vbr(2..=32)),
        _ => true,
    })
}

/// A record that fits an abbreviation, if it is one that can be written.
fn fitting(src: &mut Src, a: &Abbrev) -> Option<Rec> {
    if !writable(a) {
        return None;
    }
    let mut vals = vec![];
    let scalar = |src: &mut Src, o: &Op| match o {
        Op::Lit(v) => *v,
        Op::Fixed(0) | Op::Vbr(0) => 0,
        Op::Fixed(n) => src.bits(*n as usize),
        Op::Vbr(_) => src.u64(),
        Op::Char6 => *src.pick(crate::llvm::CHAR6) as u64,
        _ => 0,
    };
    for (i, o) in a.iter().enumerate() {
        match o {
            Op::Array(e) => {
                let n = src.len(12);
                for _ in 0..n {
                    let v = scalar(src, e);
                    vals.push(v);
                }
                if i + 1 != a.len() {
                    return None;
                }
            }
            Op::Blob => {
                if i + 1 != a.len() {
                    return None;
                }
                let n = src.len(12);
                for _ in 0..n {
                    vals.push(src.byte() as u64);
                }
            }
            o => vals.push(scalar(src, o)),
        }
    }
    if vals.is_empty() || matches!(a[0], Op::Array(_) | Op::Blob) {
        return None;
    }
    let code = vals.remove(0);
    Some(Rec { code, fields: vals })
}

/// Writes a stream (without magic) of mostly plausible tokens, with nesting, abbreviations,
/// BLOCKINFO, and any number of absurd claims. `record` makes a record for a block id.
pub fn wild(src: &mut Src, ids: &[u64], mut record: impl FnMut(&mut Src, u64) -> Rec) -> Vec<u8> {
    struct Open {
        width: usize,
        id: u64,
        abbrevs: Vec<Abbrev>,
        at: usize,
        bid: Option<u64>,
    }
    let mut info: Vec<(u64, Abbrev)> = vec![];
    let mut w = BitWriter::new();
    let mut open: Vec<Open> = vec![];
    let n = src.range(1, 60);
    for _ in 0..n {
        let width = open.last().map_or(2, |o| o.width);
        // Weights: enter, end, define, unabbreviated, abbreviated, noise.
        let kind = if open.is_empty() {
            src.weighted(&[30, 1, 1, 1, 0, 1])
        } else {
            src.weighted(&[5, 4, 4, 10, 8, 1])
        };
        match kind {
            0 => {
                let id = match src.weighted(&[8, 3, 1]) {
                    0 => *src.pick(ids),
                    1 => 0,
                    _ => src.u64(),
                };
                let new = match src.weighted(&[12, 2, 1]) {
                    0 => src.range(3, 8),
                    1 => src.range(0, 40),
                    _ => (huge(src) as usize).min(1 << 30),
                };
                w.fixed(1, width);
                w.vbr(id, 8);
                w.vbr(new as u64, 4);
                w.align32();
                let at = w.bytes.len();
                let claim = if src.chance(1, 10) { huge(src) & 0xffff_ffff } else { 0 };
                w.fixed(claim, 32);
                let abbrevs = info.iter().filter(|(b, _)| *b == id).map(|(_, a)| a.clone()).collect();
                open.push(Open {
                    width: new.clamp(1, 40),
                    id,
                    abbrevs,
                    at: if claim == 0 { at } else { usize::MAX },
                    bid: None,
                });
            }
            1 => {
                w.fixed(0, width);
                w.align32();
                if let Some(o) = open.pop() {
                    if o.at != usize::MAX {
                        let words = (w.bytes.len() - o.at - 4) / 4;
                        w.patch32(o.at, words as u32);
                    }
                }
            }
            2 => {
                w.fixed(2, width);
                let mut a = vec![];
                let mut body = BitWriter::new();
                let k = src.range(1, 4);
                for _ in 0..k {
                    wild_op(src, &mut body, &mut a, false);
                }
                let mut count = k as u64;
                if src.chance(1, 3) && !matches!(a.last(), Some(Op::Blob)) {
                    body.bit(false);
                    body.fixed(3, 3);
                    let mut e = vec![];
                    wild_op(src, &mut body, &mut e, true);
                    if let Some(e) = e.pop() {
                        a.push(Op::Array(Box::new(e)));
                    }
                    count += 2;
                }
                if src.chance(1, 20) {
                    count = if src.chance(1, 2) { huge(src) } else { src.below(8) as u64 };
                }
                let plain = src.chance(1, 2);
                if plain {
                    // A clean definition, for more use of deeper states.
                    a = crate::stream::arbitrary_abbrev(src);
                    put_definition(&mut w, &a);
                } else {
                    w.vbr(count, 5);
                    for i in 0..body.pos() {
                        w.bit(crate::bits::bit_at(&body.bytes, i));
                    }
                }
                if let Some(o) = open.last_mut() {
                    if o.id == 0 {
                        if let Some(b) = o.bid {
                            info.push((b, a));
                        }
                    } else {
                        o.abbrevs.push(a);
                    }
                }
            }
            3 => {
                let Some(o) = open.last_mut() else {
                    w.fixed(3, width);
                    continue;
                };
                w.fixed(3, width);
                let r = if o.id == 0 {
                    let code = *src.pick(&[1, 1, 1, 1, 2, 3, 7]);
                    let k = if src.chance(1, 8) { 0 } else { 1 };
                    Rec { code, fields: (0..k).map(|_| *src.pick(ids)).collect() }
                } else {
                    record(src, o.id)
                };
                if o.id == 0 && r.code == 1 {
                    o.bid = r.fields.first().copied();
                }
                if src.chance(1, 12) {
                    // A count that doesn't match.
                    w.vbr(r.code, 6);
                    let k = huge(src);
                    w.vbr(k, 6);
                    for f in &r.fields {
                        w.vbr(*f, 6);
                    }
                } else {
                    put_unabbreviated(&mut w, &r);
                }
            }
            4 => {
                let o = open.last().unwrap();
                if o.abbrevs.is_empty() {
                    continue;
                }
                let extra = src.chance(1, 16) as usize;
                let i = src.below(o.abbrevs.len() + extra);
                let a = o.abbrevs.get(i).cloned();
                w.fixed(4 + i as u64, width);
                let Some(a) = a else { continue };
                match fitting(src, &a) {
                    Some(r) if !src.chance(1, 12) => put_abbreviated(&mut w, &a, &r),
                    _ => {
                        // An absurd length, or just noise.
                        let v = if src.chance(1, 2) { huge(src) } else { src.u64() };
                        w.vbr(v, 6);
                    }
                }
            }
            _ => {
                let k = src.range(1, 40);
                let v = src.u64();
                w.fixed(v, k);
            }
        }
    }
    // Usually everything is closed.
    if !src.chance(1, 4) {
        while let Some(o) = open.pop() {
            w.fixed(0, o.width);
            w.align32();
            if o.at != usize::MAX {
                let words = (w.bytes.len() - o.at - 4) / 4;
                w.patch32(o.at, words as u32);
            }
        }
    }
    w.align32();
    w.bytes
}
