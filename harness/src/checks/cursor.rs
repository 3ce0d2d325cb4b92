//! C01-C04: the bit cursor, against a model that is just an array of bits and a position.

use std::io::{Seek, SeekFrom};

use llvm_bitcursor::BitCursor;

use super::BASE;
use crate::bits::{get_bits, svbr_encode, vbr_decode, BitWriter, Vbr};
use crate::engine::*;
use crate::util::{hex, short};

/// A buffer of interesting length and content.
fn buffer(src: &mut Src, max: usize) -> Vec<u8> {
    if src.chance(1, 10_000) {
        // More than 16 bits can address, as a function of few choices.
        let n = src.range(8 * 1024, 80 * 1024);
        let mut rng = Rng::new(src.upto(u64::MAX));
        return (0..n).map(|_| rng.next() as u8).collect();
    }
    let n = match src.weighted(&[6, 3, 1]) {
        0 => src.range(0, 24.min(max)),
        1 => src.range(0, 8) * 8 % (max + 1),
        _ => src.range(0, max),
    };
    match src.weighted(&[6, 1, 1]) {
        0 => src.bytes(n),
        1 => vec![0xff; n],
        _ => (0..n).map(|i| (i as u8).wrapping_mul(0x1d).wrapping_add(0x81)).collect(),
    }
}

/// A cursor over `buf`, possibly limited; returns it with its limit in bits.
fn cursor<'b>(src: &mut Src, buf: &'b [u8], obs: &mut Obs) -> Result<(BitCursor<&'b [u8]>, usize), String> {
    if src.chance(1, 3) {
        let len = match src.weighted(&[6, 1, 1]) {
            0 => src.range(0, buf.len()),
            1 => buf.len(),
            _ => {
                // A limit beyond the buffer must be refused.
                let over = (buf.len() as u64).saturating_add(src.u64().max(1)) as usize;
                ensure!(
                    BitCursor::new_with_len(buf, over).is_err(),
                    "new_with_len({over}) over {} bytes succeeded",
                    buf.len()
                );
                buf.len()
            }
        };
        obs.label_if(len < buf.len(), "limited cursors");
        let c = BitCursor::new_with_len(buf, len)
            .map_err(|e| format!("new_with_len({len}) over {} bytes failed: {e:?}", buf.len()))?;
        Ok((c, len * 8))
    } else {
        Ok((BitCursor::new(buf), buf.len() * 8))
    }
}

fn read_size(src: &mut Src) -> usize {
    match src.weighted(&[6, 3, 2, 1]) {
        0 => src.range(1, 16),
        1 => src.range(1, 63),
        2 => *src.pick(&[32, 63, 8, 1, 31, 33, 56, 57]),
        _ => *src.pick(&[0, 64, 65, 128, usize::MAX, 1 << 32, 1 << 63]),
    }
}

// ---------------------------------------------------------------------------------------------

pub const C01: Check = Check {
    id: "C01",
    rule: "a random buffer (0-200 bytes), optional length limit and 1-40 reads of random sizes (including invalid ones), each compared with bits taken from the buffer by index; non-trivial: at least one successful read that crosses a 64-bit block boundary or ends in the final partial block, and at least 3 successful reads",
    quick: 12_000_000,
    thorough: 400_000_000,
    run: c01,
    ..BASE
};

fn c01(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let buf = buffer(src, 200);
    obs.key(&buf);
    let (mut c, limit) = cursor(src, &buf, obs)?;
    ensure!(c.bit_len() == limit && c.byte_len() * 8 == limit, "the length is {} bits rather than {limit}", c.bit_len());
    ensure!(c.tell_bit() == 0, "a new cursor is at bit {}", c.tell_bit());
    let n = src.range(1, 40);
    let mut pos = 0;
    let (mut good, mut special) = (0, false);
    let mut log = vec![];
    for _ in 0..n {
        let size = read_size(src);
        obs.key64(size as u64);
        log.push(size);
        let valid = (1..=63).contains(&size);
        match c.read(size) {
            Ok(v) => {
                ensure!(valid, "read({size}) succeeded");
                ensure!(
                    pos + size <= limit,
                    "read({size}) at bit {pos} of {limit} succeeded (reads {log:?}, buffer {})",
                    short(hex(&buf))
                );
                let want = get_bits(&buf, pos, size);
                ensure!(
                    v == want,
                    "read({size}) at bit {pos} gave {v:#x}, the stream has {want:#x} (reads {log:?}, buffer {})",
                    short(hex(&buf))
                );
                special |= pos / 64 != (pos + size - 1) / 64 || (limit % 64 != 0 && pos + size > limit / 64 * 64);
                pos += size;
                good += 1;
                ensure!(c.tell_bit() == pos, "after read({size}) the position is {} rather than {pos}", c.tell_bit());
            }
            Err(e) => {
                ensure!(
                    !valid || pos + size > limit,
                    "read({size}) at bit {pos} of {limit} failed: {e:?} (reads {log:?})"
                );
                if valid {
                    obs.label("reads beyond the end");
                    // What a failed read consumes isn't specified.
                    let at = c.tell_bit();
                    ensure!(at >= pos && at <= limit, "a failed read moved from bit {pos} to {at} of {limit}");
                    pos = at;
                } else {
                    obs.label("invalid sizes");
                    ensure!(c.tell_bit() == pos, "read({size}) failed but moved from bit {pos} to {}", c.tell_bit());
                }
            }
        }
        ensure!(c.byte_len() * 8 == limit, "the length changed");
    }
    obs.nontrivial = good >= 3 && special;
    obs.label_if(special, "block boundary or final block");
    obs.sample(|| format!("limit {} of {} bytes, reads {log:?}", limit / 8, buf.len()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C02: Check = Check {
    id: "C02",
    rule: "a random buffer (0-64 bytes), optional limit and a history of 2-30 operations (reads, seeks from start/end/current, bit seeks, alignments, position queries), valid and invalid, run against a single-position model with full cross-checks after each; non-trivial: at least one seek or alignment away from a 64-bit boundary followed by a successful read",
    quick: 10_000_000,
    thorough: 300_000_000,
    fixed: 2,
    run: c02,
    ..BASE
};

/// Positions that 32 bits can't hold: a buffer of more than 512 MiB, almost all of it zero.
fn c02_huge(src: &mut Src, obs: &mut Obs, i: u64) -> CaseResult {
    let bytes = (512 << 20) + 4096 + 3 * i as usize;
    let mut buf = vec![0u8; bytes];
    let marks = [5, (256 << 20) - 1, (512 << 20) - 2, (512 << 20) + 1, (512 << 20) + 4091, bytes - 1];
    for (k, m) in marks.iter().enumerate() {
        buf[*m] = 0x81 + 3 * k as u8;
    }
    let limit = bytes * 8;
    let mut c = if i == 0 {
        BitCursor::new(&buf[..])
    } else {
        BitCursor::new_with_len(&buf[..], bytes).map_err(|e| format!("{e:?}"))?
    };
    ensure!(c.bit_len() == limit && c.byte_len() == bytes, "{bytes} bytes: the length is {} bits", c.bit_len());
    obs.label("positions beyond 32 bits");
    for step in 0..200 {
        let m = *src.pick(&marks) * 8;
        let at = (m + src.range(0, 40)).saturating_sub(20).min(limit);
        if step % 3 == 0 {
            let b = at / 8;
            let (from, what) = match step % 9 {
                0 => (SeekFrom::Start(b as u64), "start"),
                3 if b < bytes => (SeekFrom::End(b as i64 - bytes as i64), "end"),
                _ => (SeekFrom::Current(b as i64 - c.tell_byte() as i64), "current"),
            };
            let got = c.seek(from).map_err(|e| format!("seek to byte {b} from the {what}: {e:?}"))?;
            ensure!(got == b as u64 && c.tell_bit() == b * 8, "sought byte {b} from the {what}, got to {got}");
        } else {
            c.seek_bit(at).map_err(|e| format!("seek_bit({at}): {e:?}"))?;
            ensure!(c.tell_bit() == at && c.tell_byte() == at / 8, "sought bit {at}, got to {}", c.tell_bit());
        }
        let pos = c.tell_bit();
        let size = src.range(1, 63);
        match c.read(size) {
            Ok(v) => {
                let want = if pos + size <= limit { get_bits(&buf, pos, size) } else { !v };
                ensure!(v == want, "read({size}) at bit {pos} of {limit} gave {v:#x} rather than {want:#x}");
                c.align32();
                let want = ((pos + size + 31) / 32 * 32).min(limit);
                ensure!(c.tell_bit() == want, "aligned from bit {} to {}", pos + size, c.tell_bit());
            }
            Err(e) => ensure!(pos + size > limit, "read({size}) at bit {pos} of {limit}: {e:?}"),
        }
        ensure!(c.exhausted() == (c.tell_bit() == limit), "exhausted at bit {} of {limit}", c.tell_bit());
    }
    ensure!(c.seek_bit(limit + 1).is_err(), "sought bit {} of {limit}", limit + 1);
    ensure!(c.seek_bit(1 << 40).is_err(), "sought bit 2^40 of {limit}");
    Ok(())
}

fn c02(src: &mut Src, obs: &mut Obs) -> CaseResult {
    if let Some(i) = enumerated(src) {
        return c02_huge(src, obs, i);
    }
    let buf = buffer(src, 64);
    obs.key(&buf);
    let (mut c, limit) = cursor(src, &buf, obs)?;
    let n = src.range(2, 30);
    let mut pos = 0usize;
    let mut log: Vec<String> = vec![];
    let mut moved = false;
    for _ in 0..n {
        let op = src.weighted(&[8, 3, 3, 3, 6, 5, 1]);
        obs.key64(op as u64);
        match op {
            0 => {
                let size = read_size(src);
                obs.key64(size as u64);
                log.push(format!("read({size})"));
                let valid = (1..=63).contains(&size);
                match c.read(size) {
                    Ok(v) => {
                        ensure!(valid && pos + size <= limit, "{log:?}: succeeded at bit {pos} of {limit}");
                        let want = get_bits(&buf, pos, size);
                        ensure!(
                            v == want,
                            "{log:?} at bit {pos} gave {v:#x}, the stream has {want:#x} there (buffer {})",
                            short(hex(&buf))
                        );
                        pos += size;
                        obs.nontrivial |= moved;
                        moved = false;
                    }
                    Err(e) => {
                        ensure!(!valid || pos + size > limit, "{log:?}: failed at bit {pos} of {limit}: {e:?}");
                        if valid {
                            pos = c.tell_bit();
                        }
                    }
                }
            }
            1 | 2 | 3 => {
                let (from, target): (SeekFrom, Option<i128>) = match op {
                    1 => {
                        let p = if src.chance(1, 6) { src.u64() } else { src.range(0, limit / 8 + 2) as u64 };
                        (SeekFrom::Start(p), Some(p as i128))
                    }
                    2 => {
                        let p = if src.chance(1, 6) { src.u64() as i64 } else { -(src.range(1, limit / 8 + 2) as i64) };
                        // Seeking to exactly the end, from the end, is refused; nothing says whether it should be.
                        (SeekFrom::End(p), if p == 0 { None } else { Some((limit / 8) as i128 + p as i128) })
                    }
                    _ => {
                        let p = if src.chance(1, 6) {
                            src.u64() as i64
                        } else {
                            src.range(0, limit / 8 + 2) as i64 - src.range(0, pos / 8 + 1) as i64
                        };
                        (SeekFrom::Current(p), Some((pos / 8) as i128 + p as i128))
                    }
                };
                log.push(format!("seek({from:?})"));
                let valid = target.map(|t| t >= 0 && t <= (limit / 8) as i128);
                match c.seek(from) {
                    Ok(at) => {
                        ensure!(valid != Some(false), "{log:?}: succeeded with {} bytes of data", limit / 8);
                        let t = target.unwrap_or((limit / 8) as i128) as u64;
                        ensure!(at == t, "{log:?}: returned {at} rather than {t}");
                        pos = t as usize * 8;
                        moved |= pos % 64 != 0;
                        obs.label("byte seeks");
                    }
                    Err(e) => {
                        ensure!(valid != Some(true), "{log:?}: failed from bit {pos} of {limit}: {e:?}");
                        obs.label("refused seeks");
                        pos = c.tell_bit();
                    }
                }
            }
            4 => {
                let p = match src.weighted(&[8, 2, 1]) {
                    0 => src.range(0, limit),
                    1 => src.range(limit, limit + 80),
                    _ => src.u64() as usize,
                };
                log.push(format!("seek_bit({p})"));
                match c.seek_bit(p) {
                    Ok(()) => {
                        ensure!(p <= limit, "{log:?}: succeeded with {limit} bits of data");
                        pos = p;
                        moved |= pos % 64 != 0;
                        obs.label("bit seeks");
                    }
                    Err(e) => {
                        ensure!(p > limit, "{log:?}: failed with {limit} bits of data: {e:?}");
                        obs.label("refused seeks");
                        pos = c.tell_bit();
                    }
                }
            }
            5 => {
                log.push("align32".into());
                c.align32();
                let want = ((pos + 31) / 32 * 32).min(limit);
                ensure!(
                    c.tell_bit() == want,
                    "{log:?}: aligned from bit {pos} to {} rather than {want} (of {limit})",
                    c.tell_bit()
                );
                moved |= want % 64 != 0 && want != pos;
                pos = want;
                obs.label("alignments");
            }
            _ => {
                log.push("stream_position".into());
                let at = c.stream_position().map_err(|e| format!("{log:?}: {e:?}"))?;
                ensure!(at == (pos / 8) as u64, "{log:?}: {at} at bit {pos}");
            }
        }
        ensure!(c.tell_bit() == pos, "{log:?}: tell_bit is {} rather than {pos} (of {limit})", c.tell_bit());
        ensure!(pos <= limit, "{log:?}: the position {pos} is beyond the end {limit}");
        ensure!(c.tell_byte() == pos / 8, "{log:?}: tell_byte is {} at bit {pos}", c.tell_byte());
        ensure!(
            c.exhausted() == (pos == limit),
            "{log:?}: exhausted is {} at bit {pos} of {limit}",
            c.exhausted()
        );
    }
    // Whatever happened, what's left is exactly the rest of the data.
    while pos < limit {
        let size = (limit - pos).min(40);
        let v = c.read(size).map_err(|e| format!("{log:?}: read({size}) at bit {pos} of {limit} failed: {e:?}"))?;
        let want = get_bits(&buf, pos, size);
        ensure!(
            v == want,
            "{log:?}: then read({size}) at bit {pos} gave {v:#x}, the stream has {want:#x} (buffer {})",
            short(hex(&buf))
        );
        pos += size;
    }
    ensure!(c.exhausted(), "{log:?}: not exhausted at the end");
    ensure!(c.read(1).is_err(), "{log:?}: read beyond the end");
    obs.sample(|| format!("{} of {} bytes: {}", limit / 8, buf.len(), log.join(" ")));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C03: Check = Check {
    id: "C03",
    rule: "either a sequence of encoded (signed and unsigned, canonical and zero-padded) variable-width integers of mixed widths at random bit offsets that must decode to the encoded values, or random/truncated bits decoded at any width against an independent decoder; non-trivial: a multi-chunk value at an offset that isn't byte-aligned, or an encoding that must be refused",
    quick: 12_000_000,
    thorough: 400_000_000,
    run: c03,
    ..BASE
};

fn vbr_width(src: &mut Src) -> usize {
    match src.below(3) {
        0 => *src.pick(&[4, 5, 6, 8]),
        1 => src.range(2, 8),
        _ => src.range(2, 32),
    }
}

fn c03(src: &mut Src, obs: &mut Obs) -> CaseResult {
    if src.chance(1, 2) {
        // Encoded values.
        let mut w = BitWriter::new();
        let lead = src.range(0, 70);
        for _ in 0..lead {
            let b = src.chance(1, 2);
            w.bit(b);
        }
        let n = src.range(1, 12);
        let mut items = vec![];
        for _ in 0..n {
            let width = vbr_width(src);
            let signed = src.chance(1, 3);
            let v = src.u64();
            let bits = if signed { svbr_encode(v as i64) } else { v };
            let start = w.pos();
            // Padding that stays inside of 64 bits is unambiguous.
            let chunks = ((64 - bits.leading_zeros() as usize).max(1) + width - 2) / (width - 1);
            let room = (63 / (width - 1) + 1).saturating_sub(chunks);
            let pad = if src.chance(1, 6) { src.range(0, room) } else { 0 };
            w.vbr_padded(bits, width, pad);
            items.push((width, signed, v, start, w.pos()));
            obs.label_if(chunks > 1, "multi-chunk values");
            obs.label_if(pad > 0, "zero-padded values");
            obs.nontrivial |= chunks > 1 && start % 8 != 0;
            obs.key64(width as u64);
            obs.key64(bits);
        }
        let tail = src.range(0, 9);
        let tail = src.bytes(tail);
        let mut buf = w.bytes.clone();
        buf.extend(tail);
        let mut c = BitCursor::new(&buf);
        c.seek_bit(lead).map_err(|e| format!("seek_bit({lead}): {e:?}"))?;
        for (width, signed, v, start, end) in &items {
            if *signed {
                let got = c.read_svbr(*width).map_err(|e| {
                    format!("read_svbr({width}) failed on the encoding of {} at bit {start}: {e:?}", *v as i64)
                })?;
                ensure!(
                    got as i64 == *v as i64,
                    "read_svbr({width}) decoded {} as {got} (bit {start}, buffer {})",
                    *v as i64,
                    short(hex(&buf))
                );
            } else {
                let got = c
                    .read_vbr(*width)
                    .map_err(|e| format!("read_vbr({width}) failed on the encoding of {v} at bit {start}: {e:?}"))?;
                ensure!(got == *v, "read_vbr({width}) decoded {v} as {got} (bit {start}, buffer {})", short(hex(&buf)));
            }
            ensure!(
                c.tell_bit() == *end,
                "after the value {v} (width {width}) at bit {start} the position is {} rather than {end}",
                c.tell_bit()
            );
        }
        obs.sample(|| format!("at bit {lead}: (width, signed, value, start, end) {items:?}"));
        // Cut the last encoding short: it must be refused, also where nothing but the limit cuts it.
        let (width, signed, v, start, end) = *items.last().unwrap();
        let cut = src.range((start / 8).min((end - 1) / 8), (end - 1) / 8);
        if cut * 8 > start || cut * 8 == start {
            let limited = src.chance(1, 2);
            let mut c = if limited {
                BitCursor::new_with_len(&buf[..], cut).map_err(|e| format!("{e:?}"))?
            } else {
                BitCursor::new(&buf[..cut])
            };
            c.seek_bit(start).map_err(|e| format!("seek_bit({start}): {e:?}"))?;
            let failed = if signed { c.read_svbr(width).is_err() } else { c.read_vbr(width).is_err() };
            ensure!(failed, "the encoding of {v} (width {width}), cut after {} bits, was accepted", cut * 8 - start);
            obs.label("cut encodings");
            obs.nontrivial = true;
        }
        return Ok(());
    }
    // Arbitrary bits at arbitrary widths.
    let n = src.range(1, 40);
    let buf = match src.below(3) {
        0 => src.bytes(n),
        1 => {
            // Mostly continuation bits, for a particular width.
            let w = vbr_width(src);
            let mut b = BitWriter::new();
            while b.pos() + w <= n * 8 {
                let v = if src.chance(1, 2) { src.bits(w - 1) } else { 0 };
                let c = !src.chance(1, 10);
                b.fixed(v | (c as u64) << (w - 1), w);
            }
            b.bytes
        }
        _ => vec![*src.pick(&[0xff, 0x80, 0xaa, 0x21]); n],
    };
    if buf.is_empty() {
        return Ok(());
    }
    obs.key(&buf);
    let width = match src.weighted(&[8, 1]) {
        0 => vbr_width(src),
        _ => match src.chance(1, 2) {
            true => src.range(33, 63),
            false => *src.pick(&[0, 1, 33, 63, 64, 65, 1 << 40, usize::MAX]),
        },
    };
    let signed = src.chance(1, 3);
    let start = src.range(0, buf.len() * 8 - 1);
    obs.key64(width as u64);
    obs.key64(start as u64);
    let mut c = BitCursor::new(&buf);
    c.seek_bit(start).map_err(|e| format!("seek_bit({start}): {e:?}"))?;
    let got = if signed { c.read_svbr(width).map(|v| v as u64) } else { c.read_vbr(width) };
    let ctx = || format!("width {width}, signed {signed}, bit {start} of {}", short(hex(&buf)));
    obs.sample(|| format!("{} -> {got:?}", ctx()));
    if !(2..=32).contains(&width) {
        // Unsupported widths.
        obs.label("unsupported widths");
        obs.nontrivial = true;
        ensure!(got.is_err(), "{}: accepted as {got:?}", ctx());
        return Ok(());
    }
    let model = vbr_decode(&buf, buf.len() * 8, start, width);
    let sign = |m: u64| -> u64 {
        if !signed {
            m
        } else if m == 1 {
            i64::MIN as u64
        } else if m & 1 == 1 {
            ((m >> 1) as i64).wrapping_neg() as u64
        } else {
            m >> 1
        }
    };
    match (model, got) {
        (Vbr::Value(w, n), Ok(v)) => {
            ensure!(v == sign(w), "{}: {v:#x} rather than {:#x}", ctx(), sign(w));
            ensure!(c.tell_bit() == start + n, "{}: consumed {} bits rather than {n}", ctx(), c.tell_bit() - start);
            obs.label("arbitrary bits: value");
            obs.nontrivial |= n > width && start % 8 != 0;
        }
        (Vbr::Lax(w, n), Ok(v)) => {
            ensure!(v == sign(w), "{}: {v:#x} rather than {:#x}", ctx(), sign(w));
            ensure!(c.tell_bit() == start + n, "{}: consumed {} bits rather than {n}", ctx(), c.tell_bit() - start);
            obs.label("arbitrary bits: padded beyond 64 bits");
        }
        (Vbr::Lax(..), Err(_)) => obs.label("arbitrary bits: padded beyond 64 bits"),
        (Vbr::Bad, Err(_)) => {
            obs.label("arbitrary bits: refused");
            obs.nontrivial = true;
        }
        (Vbr::Value(w, _), Err(e)) => return Err(format!("{}: {w} was refused: {e:?}", ctx())),
        (Vbr::Bad, Ok(v)) => return Err(format!("{}: accepted as {v:#x}", ctx())),
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C04: Check = Check {
    id: "C04",
    rule: "a random buffer and 1-12 typed reads (read_as with any bit count, read_exact) over u8..u64, i8..i64, usize, isize, checked against the stream's bits and the type's range; non-trivial: a value that doesn't fit the type, or a successful read of a value using the top bit of the type",
    quick: 12_000_000,
    thorough: 400_000_000,
    run: c04,
    ..BASE
};

fn c04(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let buf = buffer(src, 80);
    obs.key(&buf);
    let (mut c, limit) = cursor(src, &buf, obs)?;
    let mut pos = src.range(0, limit);
    c.seek_bit(pos).map_err(|e| format!("seek_bit({pos}): {e:?}"))?;
    let n = src.range(1, 12);
    let mut log = vec![];
    for _ in 0..n {
        let ty = src.below(10);
        let exact = src.chance(1, 3);
        macro_rules! typed {
            ($t:ty) => {{
                let width = <$t>::BITS as usize;
                let size = if exact {
                    width
                } else {
                    match src.weighted(&[4, 2, 2]) {
                        0 => (width + src.range(0, 4)).saturating_sub(2),
                        1 => src.range(1, 63),
                        _ => read_size(src),
                    }
                };
                let got = if exact { c.read_exact::<$t>() } else { c.read_as::<$t>(size) };
                (stringify!($t), size, got.map(|v| v as i128), <$t>::MIN as i128, <$t>::MAX as i128)
            }};
        }
        let (name, size, got, _min, max) = match ty {
            0 => typed!(u8),
            1 => typed!(u16),
            2 => typed!(u32),
            3 => typed!(u64),
            4 => typed!(usize),
            5 => typed!(i8),
            6 => typed!(i16),
            7 => typed!(i32),
            8 => typed!(i64),
            _ => typed!(isize),
        };
        obs.key64((ty as u64 * 1000).wrapping_add(size as u64));
        log.push(format!("{}<{name}>({size})@{pos}", if exact { "read_exact" } else { "read_as" }));
        let what = log.last().unwrap().clone();
        // A whole 64-bit word is more than the underlying read supports; reading it exactly is fine too.
        let valid = (1..=63).contains(&size) || (exact && size == 64);
        let available = valid && size <= limit - pos;
        let want = if available { Some(get_bits(&buf, pos, size) as i128) } else { None };
        match (got, want) {
            (Ok(v), Some(w)) => {
                ensure!(w <= max, "{what}: {w:#x} doesn't fit {name}, but the read gave {v}");
                ensure!(v == w, "{what}: gave {v:#x}, the stream has {w:#x} (buffer {})", short(hex(&buf)));
                obs.label("values that fit");
                if w > max / 2 {
                    obs.label("values in the top half of the type");
                    obs.nontrivial = true;
                }
                pos += size;
                ensure!(c.tell_bit() == pos, "{what}: the position is {} rather than {pos}", c.tell_bit());
            }
            (Ok(v), None) => return Err(format!("{what}: gave {v:#x} with {limit} bits of data")),
            (Err(_), Some(w)) if w > max || size == 64 => {
                if w > max {
                    obs.label("values that don't fit");
                    obs.nontrivial = true;
                }
                pos = c.tell_bit();
            }
            (Err(e), Some(w)) => return Err(format!("{what}: failed on {w:#x}: {e:?}")),
            (Err(_), None) => pos = c.tell_bit(),
        }
    }
    obs.sample(|| format!("{} of {} bytes: {}", limit / 8, buf.len(), log.join(" ")));
    Ok(())
}
