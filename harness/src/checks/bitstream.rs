//! C05-C11: the bitstream reader.

use llvm_bitstream::error::Error;
use llvm_bitstream::Bitstream;

use super::BASE;
use crate::bc;
use crate::bits::BitWriter;
use crate::engine::*;
use crate::refdec::{self, Status};
use crate::stream::*;
use crate::util::{hex, short};
use crate::wild;

const WRAPPER: u32 = 0x0B17_C0DE;

fn magic(src: &mut Src) -> u32 {
    match src.below(3) {
        0 => 0xdec0_4342,
        _ => match src.bits(32) as u32 {
            WRAPPER => 1,
            m => m,
        },
    }
}

fn ensure_same(got: &[Ent], want: &[Ent], what: &str) -> CaseResult {
    match diff(got, want) {
        None => Ok(()),
        Some(d) => Err(format!("{what}: {d}")),
    }
}

fn open(bytes: &[u8]) -> Result<Bitstream<&[u8]>, String> {
    match Bitstream::from(bytes) {
        Ok((None, b)) => Ok(b),
        Ok((Some(w), _)) => Err(format!("a raw stream was taken to be wrapped: {w:?}")),
        Err(e) => Err(format!("a well-formed stream was refused: {e:?} ({})", short(hex(bytes)))),
    }
}

/// Reads a whole well-formed stream.
fn read_all(bytes: &[u8]) -> Result<Vec<Ent>, String> {
    let r = drain(open(bytes)?, bytes.len());
    ensure!(
        r.finish == Finish::End,
        "after {} entries of a well-formed stream: {:?} ({})",
        r.ents.len(),
        r.finish,
        short(hex(bytes))
    );
    Ok(r.ents)
}

fn describe(tree: &[Blk], e: &Encoded) -> String {
    fn blk(b: &Blk, s: &mut String) {
        s.push_str(&format!("<{}:", b.id));
        for n in b.nodes.iter().take(6) {
            match n {
                Node::Blk(b) => blk(b, s),
                Node::Rec(r) => s.push_str(&format!(" {}{:?}", r.code, &r.fields[..r.fields.len().min(5)])),
            }
        }
        s.push('>');
    }
    let mut s = format!("{} bytes, {:?}: ", e.bytes.len(), e.stats);
    for b in tree {
        blk(b, &mut s);
    }
    s
}

// ---------------------------------------------------------------------------------------------

pub const C05: Check = Check {
    id: "C05",
    rule: "a random tree of blocks and records, encoded with random (but legal) abbreviations, id widths, operand encodings and BLOCKINFO, read back and compared entry by entry (nesting, ids, lengths, codes, fields, abbreviation ids, end); non-trivial: both abbreviated and unabbreviated records, and an array, blob or char6 operand or a nested block",
    quick: 3_000_000,
    thorough: 60_000_000,
    run: c05,
    ..BASE
};

fn c05(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let cfg = default_cfg(src);
    let tree = gen_tree(src, &cfg);
    let opts = Opts::normal(src);
    let e = encode(src, &tree, &opts);
    let m = magic(src);
    let bytes = with_magic(m, &e.bytes);
    obs.key(&bytes);
    stats_labels(obs, &e.stats);
    obs.label_if(e.bytes.len() > 20_000 || e.stats.definitions > 250, "big streams");
    let nested = tree.iter().any(|b| b.nodes.iter().any(|n| matches!(n, Node::Blk(_))));
    obs.label_if(nested, "nested blocks");
    obs.nontrivial = e.stats.abbreviated > 0
        && e.stats.unabbreviated > 0
        && (nested || e.stats.arrays + e.stats.blobs + e.stats.char6 > 0);
    obs.sample(|| describe(&tree, &e));
    checkpoint(src);

    let bs = open(&bytes)?;
    ensure!(bs.magic == m, "the magic is {:#x} rather than {m:#x}", bs.magic);
    ensure_same(&read_all(&bytes)?, &e.ents, "the stream's entries")?;

    // The same through the non-iterator interface.
    let mut bs = Bitstream::from_raw(&bytes).map_err(|e| format!("from_raw: {e:?}"))?;
    let mut got = vec![];
    for _ in 0..=e.ents.len() {
        match bs.advance() {
            Ok(x) => got.push(to_ent(x)),
            Err(Error::Exhausted) => break,
            Err(x) => return Err(format!("advance: {x:?} after {} entries", got.len())),
        }
    }
    ensure_same(&got, &e.ents, "entries from advance()")?;
    ensure!(matches!(bs.advance(), Err(Error::Exhausted)), "advance() past the end");
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C06: Check = Check {
    id: "C06",
    rule: "one logical tree encoded twice, independently (abbreviations, id widths, operands, BLOCKINFO, junk definitions and names), read back and compared after dropping abbreviation ids and block lengths; in an eighth of the cases, a file of modules encoded twice, each mapped and compared with the description; non-trivial: the two encodings differ in bytes and at least one uses abbreviations",
    quick: 600_000,
    thorough: 50_000_000,
    run: c06,
    ..BASE
};

/// The same for bitcode, and what it is mapped to.
fn c06_module(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let groups = small_groups(src);
    let f = bc::assemble(src, groups, 2);
    let a = {
        let o = if src.chance(1, 3) { Opts::plain() } else { Opts::normal(src) };
        encode(src, &f.tops, &o)
    };
    let b = {
        let mut o = Opts::normal(src);
        o.abbrev = o.abbrev.max(50);
        encode(src, &f.tops, &o)
    };
    let (ab, bb) = (with_magic(bc::IR_MAGIC, &a.bytes), with_magic(bc::IR_MAGIC, &b.bytes));
    obs.key(&ab);
    obs.key(&bb);
    obs.nontrivial = ab != bb && a.stats.abbreviated + b.stats.abbreviated > 0;
    obs.label("mapped modules");
    obs.sample(|| format!("{} modules, {} and {} bytes", f.models.len(), ab.len(), bb.len()));
    checkpoint(src);
    ensure_same(&strip(&read_all(&ab)?), &strip(&read_all(&bb)?), "two encodings of the same modules")?;
    bc::check_file(&ab, &f.models).map_err(|e| format!("first encoding: {e}"))?;
    bc::check_file(&bb, &f.models).map_err(|e| format!("second encoding: {e}"))
}

/// One or two modules, with a bit of everything.
fn small_groups(src: &mut Src) -> Vec<(Vec<bc::Mod>, bc::StrtabBuilder)> {
    let n = src.range(1, 2);
    (0..n)
        .map(|_| {
            let mut st = bc::StrtabBuilder::default();
            let m = bc::gen_module(src, &bc::ModCfg::small(), &mut st);
            (vec![m], st)
        })
        .collect()
}

fn c06(src: &mut Src, obs: &mut Obs) -> CaseResult {
    if src.chance(1, 8) {
        return c06_module(src, obs);
    }
    let cfg = default_cfg(src);
    let tree = gen_tree(src, &cfg);
    let a = {
        let o = if src.chance(1, 3) { Opts::plain() } else { Opts::normal(src) };
        encode(src, &tree, &o)
    };
    let b = {
        let mut o = Opts::normal(src);
        o.abbrev = o.abbrev.max(50);
        encode(src, &tree, &o)
    };
    let (ab, bb) = (with_magic(1, &a.bytes), with_magic(1, &b.bytes));
    obs.key(&ab);
    obs.key(&bb);
    obs.nontrivial = ab != bb && a.stats.abbreviated + b.stats.abbreviated > 0;
    stats_labels(obs, &b.stats);
    obs.sample(|| format!("{} | {:?}", describe(&tree, &a), b.stats));
    checkpoint(src);
    let (ra, rb) = (strip(&read_all(&ab)?), strip(&read_all(&bb)?));
    ensure_same(&ra, &rb, "two encodings of the same content")?;
    ensure_same(&ra, &flatten(&tree), "the logical content")
}

// ---------------------------------------------------------------------------------------------

pub const C07: Check = Check {
    id: "C07",
    rule: "a random history of block entries and exits (3 ids, at times far apart but equal modulo a power of two, nested and re-entered), local and BLOCKINFO definitions (SETBID and names themselves at times abbreviated by what an earlier BLOCKINFO defined for its own id), and uses of abbreviations by number, where each abbreviation produces a unique record code, so that every decoded record tells which definition was applied; half end with a use of the first, a random, or an enclosing block's undefined number; non-trivial: at least one abbreviation inherited from BLOCKINFO and one local one used, or a refused use",
    quick: 1_500_000,
    thorough: 60_000_000,
    run: c07,
    ..BASE
};

fn c07(src: &mut Src, obs: &mut Obs) -> CaseResult {
    struct Open {
        width: usize,
        id: u64,
        abbrevs: Vec<u64>,
        locals: usize,
        at: usize,
        ent: usize,
    }
    // Blocks of ids that narrower integers, masks or hashes might confuse are told apart too,
    // including ones that look like BLOCKINFO's own.
    let base = *src.pick(&[8u64, 9, 7, 17, 23, 255]);
    let ids = match src.weighted(&[3, 2]) {
        0 => [7u64, 8, 9],
        _ => {
            let mut far = || {
                let off = *src.pick(&[256u64, 1 << 16, 1 << 31, 128, 64, 32, 1 << 24, 1]);
                match src.weighted(&[6, 1, 1]) {
                    0 => base + off,
                    1 => off.max(32),
                    _ => src.known(300, u32::MAX as usize) as u64,
                }
            };
            [base, far(), far()]
        }
    };
    // Rarely, a burst of definitions, for ids that don't fit into a byte (or two).
    let mut burst = match src.weighted(&[4000, 200, 1]) {
        0 => 1,
        1 => src.range(60, 400),
        _ => src.range(60_000, 70_000),
    };
    let mut info: Vec<(u64, u64)> = vec![];
    // What the latest BLOCKINFO block defined for blocks like itself.
    let mut own: Vec<Abbrev> = vec![];
    let mut short_setbid = 0;
    let mut w = BitWriter::new();
    let mut open: Vec<Open> = vec![];
    let mut ents: Vec<Ent> = vec![];
    let mut next_code = 100u64;
    let mut log = vec![];
    // Codes identify definitions; their other operand differs in width, so that applying the
    // wrong definition also derails the decoding.
    let shape = |code: u64| -> Abbrev { vec![Op::Lit(code), Op::Fixed(3 + (code % 7) as u32)] };
    let n = src.range(3, 60);
    let (mut inherited, mut local, mut refused) = (0, 0, false);
    let enter = |w: &mut BitWriter, outer: usize, id: u64, width: usize| {
        w.fixed(1, outer);
        w.vbr(id, 8);
        w.vbr(width as u64, 4);
        w.align32();
        w.fixed(0, 32);
        w.bytes.len() - 4
    };
    for step in 0..=n {
        let last = step == n;
        let outer = open.last().map_or(2, |o| o.width);
        if last {
            if let Some(o) = open.last() {
                if src.chance(1, 2) {
                    let first = 4 + o.abbrevs.len() as u64;
                    let top = (1u64 << o.width) - 1;
                    if first <= top {
                        let enclosing = open.iter().map(|o| 3 + o.abbrevs.len() as u64).max().unwrap();
                        let id = match src.below(3) {
                            0 => first,
                            1 if enclosing >= first && enclosing <= top => enclosing,
                            _ => first + src.upto(top - first),
                        };
                        log.push(format!("use undefined {id}"));
                        w.fixed(id, o.width);
                        // Plausible data for whatever definition might be applied.
                        for _ in 0..8 {
                            let v = src.bits(32);
                            w.fixed(v, 32);
                        }
                        refused = true;
                    }
                }
            }
            break;
        }
        match if open.is_empty() { src.weighted(&[4, 0, 0, 3]) } else { src.weighted(&[4, 4, 4, 2, 9, 1]) } {
            0 => {
                if open.len() > 5 {
                    continue;
                }
                let id = *src.pick(&ids);
                let width = match src.weighted(&[8, 1, 1]) {
                    0 if burst < 50 => src.range(4, 9),
                    1 => src.range(10, 32),
                    _ => src.range(9, 20),
                };
                let at = enter(&mut w, outer, id, width);
                let mut abbrevs: Vec<u64> = info.iter().filter(|(b, _)| *b == id).map(|(_, c)| *c).collect();
                abbrevs.truncate(1 << 20);
                log.push(format!("enter {id} width {width}"));
                ents.push(Ent::Enter { id, len: 0 });
                // The width has to allow for every inherited definition that gets used.
                open.push(Open { width, id, locals: abbrevs.len(), abbrevs, at, ent: ents.len() - 1 });
            }
            1 => {
                let o = open.pop().unwrap();
                w.fixed(0, o.width);
                w.align32();
                let words = (w.bytes.len() - o.at - 4) / 4;
                w.patch32(o.at, words as u32);
                ents[o.ent] = Ent::Enter { id: o.id, len: words as u64 * 4 };
                ents.push(Ent::End);
                log.push("exit".into());
            }
            2 => {
                let o = open.last_mut().unwrap();
                let many = if src.chance(1, 3) { std::mem::replace(&mut burst, 1) } else { 1 };
                for _ in 0..many {
                    next_code += 1;
                    // Now and then, one that's defined already: it gets a number of its own all the same.
                    let code = match (many == 1, o.abbrevs.last()) {
                        (true, Some(c)) if src.chance(1, 10) => *c,
                        _ => next_code,
                    };
                    w.fixed(2, o.width);
                    put_definition(&mut w, &shape(code));
                    o.abbrevs.push(code);
                }
                log.push(format!("define {many} up to {next_code}"));
            }
            3 => {
                // BLOCKINFO, with one or two ids.
                let width = src.range(2, 8);
                let at = enter(&mut w, outer, 0, width);
                let mut what = vec![];
                // What an earlier one defined is gone; open blocks keep what they have.
                info.clear();
                let mine = std::mem::take(&mut own);
                let usable = mine.len().min((1usize << width) - 4.min(1 << width));
                let mut record = |src: &mut Src, w: &mut BitWriter, r: &Rec| {
                    let cands: Vec<usize> = (0..usable).filter(|i| fits(&mine[*i], r)).collect();
                    if !cands.is_empty() && src.chance(3, 4) {
                        let i = *src.pick(&cands);
                        w.fixed(4 + i as u64, width);
                        put_abbreviated(w, &mine[i], r);
                        short_setbid += r.code as usize & 1;
                    } else {
                        w.fixed(3, width);
                        put_unabbreviated(w, r);
                    }
                };
                for _ in 0..src.range(1, 3) {
                    if src.chance(1, 4) {
                        // For itself: its next incarnation may use these.
                        record(src, &mut w, &Rec { code: 1, fields: vec![0] });
                        for _ in 0..src.range(1, 3) {
                            let a = match src.below(5) {
                                0 => vec![Op::Lit(1), Op::Lit(*src.pick(&ids))],
                                1 => vec![Op::Lit(1), Op::Fixed(32)],
                                2 => vec![Op::Fixed(3), Op::Array(Box::new(Op::Vbr(6)))],
                                3 => vec![Op::Lit(2), Op::Array(Box::new(Op::Fixed(8)))],
                                _ => vec![Op::Vbr(3), Op::Vbr(4)],
                            };
                            w.fixed(2, width);
                            put_definition(&mut w, &a);
                            own.push(a);
                        }
                        what.push("some for itself".to_string());
                    }
                    let bid = *src.pick(&ids);
                    record(src, &mut w, &Rec { code: 1, fields: vec![bid] });
                    if src.chance(1, 4) {
                        let name = src.bytes(3).iter().map(|b| *b as u64).collect();
                        record(src, &mut w, &Rec { code: 2, fields: name });
                    }
                    let many = match src.chance(1, 3) {
                        true => std::mem::replace(&mut burst, 1),
                        false => src.range(0, 2),
                    };
                    for _ in 0..many {
                        next_code += 1;
                        let code = match (many < 3, info.last()) {
                            (true, Some((_, c))) if src.chance(1, 10) => *c,
                            _ => next_code,
                        };
                        w.fixed(2, width);
                        put_definition(&mut w, &shape(code));
                        info.push((bid, code));
                    }
                    what.push(format!("{many} up to {next_code} for {bid}"));
                }
                w.fixed(0, width);
                w.align32();
                let words = (w.bytes.len() - at - 4) / 4;
                w.patch32(at, words as u32);
                log.push(format!("info {}", what.join(", ")));
            }
            4 => {
                let o = open.last().unwrap();
                let usable = o.abbrevs.len().min((1usize << o.width) - 4);
                if usable == 0 {
                    continue;
                }
                let i = match src.chance(1, 4) {
                    true => usable - 1,
                    false => src.below(usable),
                };
                let code = o.abbrevs[i];
                let bits = 3 + (code % 7) as usize;
                let v = src.bits(bits);
                w.fixed(4 + i as u64, o.width);
                w.fixed(v, bits);
                ents.push(Ent::Rec { abbrev: Some(4 + i as u64), code, fields: vec![v] });
                if i < o.locals {
                    inherited += 1;
                } else {
                    local += 1;
                }
                log.push(format!("use {} ({code})", i + 4));
            }
            _ => {
                let v = src.u64();
                w.fixed(3, outer);
                put_unabbreviated(&mut w, &Rec { code: 1, fields: vec![v] });
                ents.push(Ent::Rec { abbrev: None, code: 1, fields: vec![v] });
            }
        }
    }
    let unclosed = !open.is_empty();
    if !refused {
        while let Some(o) = open.pop() {
            w.fixed(0, o.width);
            w.align32();
            let words = (w.bytes.len() - o.at - 4) / 4;
            w.patch32(o.at, words as u32);
            ents[o.ent] = Ent::Enter { id: o.id, len: words as u64 * 4 };
            ents.push(Ent::End);
        }
    }
    let _ = unclosed;
    w.align32();
    let bytes = with_magic(0xdec04342, &w.bytes);
    obs.key(&bytes);
    obs.nontrivial = refused || (inherited > 0 && local > 0);
    obs.label_if(refused, "undefined abbreviation refused");
    obs.label_if(inherited > 0, "BLOCKINFO abbreviations used");
    obs.label_if(local > 0, "local abbreviations used");
    obs.label_if(short_setbid > 0, "abbreviated SETBID");
    obs.sample(|| log.join("; "));
    checkpoint(src);
    let r = drain(open_lax(&bytes)?, bytes.len());
    ensure_same(&r.ents, &ents, &short(format!("history [{}]", log.join("; "))))?;
    if refused {
        ensure!(matches!(r.finish, Finish::Err(_)), "an undefined abbreviation was accepted: {:?} [{}]", r.finish, log.join("; "));
    } else {
        ensure!(r.finish == Finish::End, "{:?} [{}]", r.finish, short(log.join("; ")));
    }
    Ok(())
}

fn open_lax(bytes: &[u8]) -> Result<Bitstream<&[u8]>, String> {
    open(bytes)
}

// ---------------------------------------------------------------------------------------------

pub const C08: Check = Check {
    id: "C08",
    rule: "an encoded stream placed raw or in a wrapper at a random word-aligned offset with random bytes before and after it, opened through from/from_raw/from_wrapped, or a header with one inconsistency (extent outside the input, too short an input, size not a multiple of four); non-trivial: wrapped with padding on either side, or a refused container",
    quick: 4_000_000,
    thorough: 100_000_000,
    run: c08,
    ..BASE
};

fn c08(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let cfg = TreeCfg { max_top: 2, depth: 1, max_nodes: 4, ids: vec![8, 13, 17], rare: 5000 };
    let tree = gen_tree(src, &cfg);
    let opts = Opts::normal(src);
    let e = encode(src, &tree, &opts);
    let m = magic(src);
    let inner = with_magic(m, &e.bytes);
    let kind = src.weighted(&[3, 8, 2, 3, 3, 2, 2]);
    if kind == 0 {
        // Raw.
        let mut bytes = inner.clone();
        obs.key(&bytes);
        checkpoint(src);
        let (w, bs) = Bitstream::from(&bytes).map_err(|e| format!("from: {e:?}"))?;
        ensure!(w.is_none() && bs.magic == m, "wrapper {w:?}, magic {:#x} instead of {m:#x}", bs.magic);
        ensure_same(&drain(bs, bytes.len()).ents, &e.ents, "raw entries")?;
        // A raw reader takes anything as the magic, also the wrapper's.
        bytes[..4].copy_from_slice(&WRAPPER.to_le_bytes());
        let bs = Bitstream::from_raw(&bytes).map_err(|e| format!("from_raw: {e:?}"))?;
        ensure!(bs.magic == WRAPPER, "magic {:#x}", bs.magic);
        ensure_same(&drain(bs, bytes.len()).ents, &e.ents, "raw entries")?;
        obs.label("raw");
        return Ok(());
    }
    let pre = src.len(12) * 4;
    let offset = 20 + pre as u32;
    let size = inner.len() as u32;
    let (version, cpu) = (src.bits(32) as u32, src.bits(32) as u32);
    let build = |src: &mut Src, offset: u32, size: u32, post: usize| {
        let mut b = vec![];
        for v in [WRAPPER, version, offset, size, cpu] {
            b.extend(v.to_le_bytes());
        }
        let pad = src.bytes(pre);
        b.extend(pad);
        b.extend(&inner);
        let pad = src.bytes(post);
        b.extend(pad);
        b
    };
    match kind {
        1 => {
            let post = if src.chance(1, 4) { 0 } else { src.len(20) };
            let bytes = build(src, offset, size, post);
            obs.key(&bytes);
            obs.nontrivial = pre > 0 || post > 0;
            obs.label("wrapped");
            obs.sample(|| format!("offset {offset}, size {size}, {post} bytes after: {}", describe(&tree, &e)));
            checkpoint(src);
            let direct = src.chance(1, 2);
            let (w, bs) = if direct {
                Bitstream::from_wrapped(&bytes).map_err(|e| format!("from_wrapped: {e:?}"))?
            } else {
                let (w, bs) = Bitstream::from(&bytes).map_err(|e| format!("from: {e:?}"))?;
                (w.ok_or("a wrapped stream was taken to be raw")?, bs)
            };
            ensure!(
                (w.magic, w.version, w.offset, w.size, w.cpu_type) == (WRAPPER, version, offset, size, cpu),
                "header {w:?} instead of {:?}",
                (WRAPPER, version, offset, size, cpu)
            );
            ensure!(bs.magic == m, "the inner magic is {:#x} rather than {m:#x}", bs.magic);
            let r = drain(bs, bytes.len());
            ensure!(r.finish == Finish::End, "wrapped at {offset} with {post} bytes after: {:?}", r.finish);
            ensure_same(&r.ents, &e.ents, "wrapped entries")
        }
        2 => {
            // Raw streams that aren't a multiple of four bytes, or too short.
            let mut bytes = inner.clone();
            if src.chance(1, 2) {
                let k = src.range(1, 3);
                let pad = src.bytes(k);
                bytes.extend(pad);
            } else {
                bytes.truncate(src.range(0, 3));
            }
            obs.key(&bytes);
            obs.nontrivial = true;
            obs.label("unaligned or short raw streams");
            checkpoint(src);
            ensure!(Bitstream::from(&bytes).is_err(), "from accepted {} bytes", bytes.len());
            ensure!(Bitstream::from_raw(&bytes).is_err(), "from_raw accepted {} bytes", bytes.len());
            Ok(())
        }
        3 => {
            // An extent beyond the input.
            let post = src.len(8);
            let total = 20 + pre as u64 + size as u64 + post as u64;
            let (o, s) = match src.below(3) {
                0 => {
                    let room = (total - offset as u64) / 4 * 4;
                    (offset as u64, room + 4 + 4 * src.bits(20))
                }
                1 => {
                    let o = total / 4 * 4 + 4 + 4 * src.bits(20);
                    (o, *src.pick(&[0u64, 4, size as u64, 0xffff_fffc]))
                }
                _ => (*src.pick(&[0xffff_fffcu64, 0x8000_0000, 20]), *src.pick(&[0xffff_fffc, 0x8000_0000])),
            };
            let (o, s) = (o as u32, s as u32);
            let bytes = build(src, o, s, post);
            obs.key(&bytes);
            obs.nontrivial = true;
            obs.label("extents beyond the input");
            obs.sample(|| format!("offset {o}, size {s}, in {} bytes", bytes.len()));
            checkpoint(src);
            ensure!(Bitstream::from(&bytes).is_err(), "offset {o}, size {s} in {} bytes accepted", bytes.len());
            ensure!(Bitstream::from_wrapped(&bytes).is_err(), "offset {o}, size {s} in {} bytes accepted", bytes.len());
            Ok(())
        }
        4 => {
            // A size that's no multiple of four, or too small for the magic.
            let s = match src.below(3) {
                0 => size - src.range(1, 3) as u32,
                1 => size + src.range(1, 3) as u32,
                _ => src.range(0, 3) as u32,
            };
            let bytes = build(src, offset, s, 8);
            obs.key(&bytes);
            obs.nontrivial = true;
            obs.label("bad sizes");
            checkpoint(src);
            ensure!(Bitstream::from(&bytes).is_err(), "offset {offset}, size {s} accepted");
            ensure!(Bitstream::from_wrapped(&bytes).is_err(), "offset {offset}, size {s} accepted");
            Ok(())
        }
        5 => {
            // Too short for the header.
            let mut bytes = build(src, offset, size, 0);
            bytes.truncate(src.range(0, 19));
            obs.key(&bytes);
            obs.nontrivial = true;
            obs.label("cut headers");
            checkpoint(src);
            ensure!(Bitstream::from(&bytes).is_err(), "a header of {} bytes was accepted", bytes.len());
            ensure!(Bitstream::from_wrapped(&bytes).is_err(), "a header of {} bytes was accepted", bytes.len());
            Ok(())
        }
        _ => {
            // Anything goes for the offset and size: the only promise is a clean outcome, and that
            // nothing outside of the extent is read.
            let w = if src.chance(1, 2) { 32 } else { 8 };
            let (o, s) = (src.bits(32) as u32, src.bits(w) as u32);
            let o = if src.chance(1, 2) { o % 64 } else { o };
            let bytes = build(src, o, s, 12);
            obs.key(&bytes);
            obs.label("arbitrary offset and size");
            checkpoint(src);
            match Bitstream::from(&bytes) {
                Ok((_, bs)) => {
                    ensure!(
                        o as u64 + s as u64 <= bytes.len() as u64,
                        "offset {o}, size {s} accepted with {} bytes",
                        bytes.len()
                    );
                    let r = drain_count(bs, bytes.len());
                    ensure!(r.1 != Finish::Runaway, "offset {o}, size {s}: runaway");
                    // Bytes outside of the header and the extent don't matter.
                    let mut other = bytes.clone();
                    for (i, b) in other.iter_mut().enumerate() {
                        if i >= 20 && !(o as usize..o as usize + s as usize).contains(&i) {
                            *b ^= 0x5a;
                        }
                    }
                    let a = drain(Bitstream::from(&bytes).map_err(|e| format!("{e:?}"))?.1, bytes.len());
                    let b = match Bitstream::from(&other) {
                        Ok(x) => drain(x.1, other.len()),
                        Err(e) => return Err(format!("offset {o}, size {s}: bytes outside of it matter: {e:?}")),
                    };
                    ensure_same(&a.ents, &b.ents, &format!("offset {o}, size {s}: bytes outside of it matter"))?;
                    ensure!(a.finish == b.finish, "offset {o}, size {s}: bytes outside of it matter");
                }
                Err(_) => {}
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------------------------------------

pub const C09: Check = Check {
    id: "C09",
    rule: "byte strings: random, mutated valid streams, and streams from a grammar that makes absurd claims (lengths, counts, widths, ids), plus enumerated stress inputs (long runs of invisible entries, deep nesting, huge claimed lengths), each read to its end with the peak of allocated memory and the number of steps bounded by the input's size; non-trivial: at least one entry was delivered or the input has at least 8 words",
    quick: 4_000_000,
    thorough: 80_000_000,
    fixed: STRESS * 3,
    run: c09,
    stack: 1 << 20,
    ..BASE
};

const STRESS: u64 = 12;

/// Long or extreme inputs. `size` is roughly the number of repetitions.
fn stress(kind: u64, size: usize) -> Vec<u8> {
    let mut w = BitWriter::new();
    let enter = |w: &mut BitWriter, outer: usize, id: u64, width: u64| {
        w.fixed(1, outer);
        w.vbr(id, 8);
        w.vbr(width, 4);
        w.align32();
        w.fixed(0, 32);
    };
    match kind {
        0 => {
            // A run of definitions.
            enter(&mut w, 2, 8, 3);
            for _ in 0..size {
                w.fixed(2, 3);
                put_definition(&mut w, &vec![Op::Lit(0)]);
            }
        }
        1 => {
            // A run of empty BLOCKINFO blocks.
            for _ in 0..size {
                enter(&mut w, 2, 0, 2);
                w.fixed(0, 2);
                w.align32();
            }
        }
        2 => {
            // A run of SETBIDs.
            enter(&mut w, 2, 0, 2);
            for i in 0..size {
                w.fixed(3, 2);
                put_unabbreviated(&mut w, &Rec { code: 1, fields: vec![i as u64] });
            }
        }
        3 => {
            // Deep nesting.
            let mut outer = 2;
            for _ in 0..size {
                enter(&mut w, outer, 8, 2);
                outer = 2;
            }
        }
        4 => {
            // Deeply nested BLOCKINFO.
            for _ in 0..size {
                enter(&mut w, 2, 0, 2);
            }
        }
        5..=8 => {
            // Claimed counts.
            enter(&mut w, 2, 8, 3);
            let n = [u64::MAX, u64::MAX / 8, 1 << 32, 1 << 40][(kind - 5) as usize];
            match size % 3 {
                0 => {
                    w.fixed(3, 3);
                    w.vbr(1, 6);
                    w.vbr(n, 6);
                    w.fixed(0, 32);
                }
                1 => {
                    w.fixed(2, 3);
                    put_definition(&mut w, &vec![Op::Lit(1), Op::Array(Box::new(Op::Fixed(1)))]);
                    w.fixed(4, 3);
                    w.vbr(n, 6);
                }
                _ => {
                    w.fixed(2, 3);
                    put_definition(&mut w, &vec![Op::Lit(1), Op::Blob]);
                    w.fixed(4, 3);
                    w.vbr(n, 6);
                }
            }
        }
        9 => {
            // A definition that claims many operands.
            enter(&mut w, 2, 8, 3);
            w.fixed(2, 3);
            w.vbr(u64::MAX, 5);
            for _ in 0..size {
                put_definition(&mut w, &vec![Op::Lit(0)]);
            }
        }
        10 => {
            // Array elements without any width.
            enter(&mut w, 2, 8, 3);
            for op in [1u64, 2] {
                w.fixed(2, 3);
                w.vbr(3, 5);
                w.bit(true);
                w.vbr(1, 8);
                w.bit(false);
                w.fixed(3, 3);
                w.bit(false);
                w.fixed(op, 3);
                w.vbr(0, 5);
            }
            for id in [4, 5] {
                w.fixed(id, 3);
                w.vbr(1 << 40, 6);
            }
        }
        _ => {
            // Many definitions for one block id in BLOCKINFO, then nested blocks of that id.
            enter(&mut w, 2, 0, 2);
            w.fixed(3, 2);
            put_unabbreviated(&mut w, &Rec { code: 1, fields: vec![8] });
            let k = size.min(200);
            for _ in 0..k {
                w.fixed(2, 2);
                put_definition(&mut w, &vec![Op::Lit(0), Op::Fixed(1)]);
            }
            w.fixed(0, 2);
            w.align32();
            for _ in 0..k {
                enter(&mut w, 2, 8, 2);
            }
        }
    }
    w.align32();
    w.bytes
}

fn hostile(src: &mut Src) -> (Vec<u8>, &'static str) {
    match src.weighted(&[1, 4, 6]) {
        0 => {
            let n = src.range(0, 64) * 4;
            (src.bytes(n), "random bytes")
        }
        1 => {
            let cfg = default_cfg(src);
            let tree = gen_tree(src, &cfg);
            let opts = Opts::normal(src);
            let mut b = encode(src, &tree, &opts).bytes;
            wild::mutate(src, &mut b);
            (b, "mutated valid streams")
        }
        _ => {
            let mut pool = vec![];
            let b = wild::wild(src, &[8, 9, 0, 17], |src, _| gen_rec(src, &mut pool));
            (b, "hostile grammar")
        }
    }
}

/// What reading `len` bytes may allocate at most.
pub fn memory_bound(len: usize) -> usize {
    (1 << 20) + 512 * len + 4 * len * len.min(20_000)
}

fn c09(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (body, what) = match enumerated(src) {
        Some(i) => (stress(i % STRESS, [3, 1000, 200_000][(i / STRESS) as usize % 3]), "stress inputs"),
        None => hostile(src),
    };
    let mut bytes = with_magic(magic(src), &body);
    if src.chance(1, 40) {
        // As the content of a wrapper, with a header that is just random words.
        let mut h = WRAPPER.to_le_bytes().to_vec();
        for _ in 0..4 {
            let v = if src.chance(1, 2) { src.bits(32) } else { src.upto(bytes.len() as u64 + 20) } as u32;
            h.extend(v.to_le_bytes());
        }
        h.extend(&bytes);
        bytes = h;
    } else if src.chance(1, 60) {
        let n = src.range(0, bytes.len());
        bytes.truncate(n);
    }
    obs.key(&bytes);
    obs.label(what);
    obs.sample(|| format!("{what}: {}", hex(&bytes[..bytes.len().min(120)])));
    checkpoint(src);
    let ((n, finish), peak) = peak_bytes(|| match Bitstream::from(&bytes) {
        Ok((_, bs)) => drain_count(bs, bytes.len()),
        Err(e) => (0, Finish::Err(format!("{e:?}"))),
    });
    obs.nontrivial = n > 0 || bytes.len() >= 32;
    obs.label_if(n > 0, "delivered entries");
    obs.label_if(finish == Finish::End, "read to the end");
    ensure!(
        finish != Finish::Runaway,
        "{} entries out of {} bytes, and no end ({})",
        n,
        bytes.len(),
        short(hex(&bytes))
    );
    let bound = memory_bound(bytes.len());
    ensure!(
        peak <= bound,
        "reading {} bytes took {peak} bytes of memory (bound {bound}): {}",
        bytes.len(),
        short(hex(&bytes))
    );
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C10: Check = Check {
    id: "C10",
    rule: "a well-formed stream with one forbidden construct (24 kinds) written at a random point where an entry may start, which must be refused right there after exactly the preceding entries; or a mutated/hostile stream compared, entry by entry and in its outcome, with an independent decoder of the format; non-trivial: a forbidden construct was reached",
    quick: 4_000_000,
    thorough: 100_000_000,
    run: c10,
    ..BASE
};

fn c10(src: &mut Src, obs: &mut Obs) -> CaseResult {
    if src.chance(3, 5) {
        let cfg = default_cfg(src);
        let tree = gen_tree(src, &cfg);
        let mut opts = Opts::normal(src);
        opts.poison = Some(src.len(16));
        let e = encode(src, &tree, &opts);
        let bytes = with_magic(magic(src), &e.bytes);
        obs.key(&bytes);
        obs.nontrivial = e.poisoned;
        if e.poisoned {
            obs.label(e.stats.poison);
        }
        obs.sample(|| format!("{} after {} entries", e.stats.poison, e.ents.len()));
        checkpoint(src);
        let r = drain(open(&bytes)?, bytes.len());
        ensure_same(&r.ents, &e.ents, &format!("entries before '{}'", e.stats.poison))?;
        if e.poisoned {
            ensure!(
                matches!(r.finish, Finish::Err(_)),
                "'{}' after {} entries wasn't refused: {:?} ({})",
                e.stats.poison,
                e.ents.len(),
                r.finish,
                short(hex(&bytes))
            );
        } else {
            ensure!(r.finish == Finish::End, "{:?}", r.finish);
        }
        return Ok(());
    }
    let (body, what) = hostile(src);
    let bytes = with_magic(magic(src), &body);
    obs.key(&bytes);
    obs.label(what);
    checkpoint(src);
    let want = refdec::decode(&bytes, 32);
    let bs = match Bitstream::from(&bytes) {
        Ok((None, bs)) => bs,
        Ok((Some(_), _)) => return Ok(()),
        Err(e) => return Err(format!("refused to open {}: {e:?}", short(hex(&bytes)))),
    };
    let got = drain(bs, bytes.len());
    let ctx = format!("{:?} expected for {}", want.status, short(hex(&bytes)));
    obs.sample(|| format!("{what}: {:?} after {} entries", want.status, want.ents.len()));
    match &want.status {
        Status::End => {
            ensure_same(&got.ents, &want.ents, &ctx)?;
            ensure!(got.finish == Finish::End, "{ctx}: {:?}", got.finish);
            obs.label("differential: clean end");
        }
        Status::Err(why) => {
            ensure_same(&got.ents, &want.ents, &ctx)?;
            ensure!(matches!(got.finish, Finish::Err(_)), "{ctx}: {:?}", got.finish);
            obs.nontrivial = true;
            obs.label(why);
        }
        Status::Eof => {
            ensure_same(&got.ents, &want.ents, &ctx)?;
            ensure!(got.finish != Finish::Runaway, "{ctx}: runaway");
            obs.label("differential: data ends inside of a block");
        }
        Status::Open(why) => {
            let n = want.ents.len().min(got.ents.len());
            ensure_same(&got.ents[..n], &want.ents, &ctx)?;
            obs.label(why);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C11: Check = Check {
    id: "C11",
    rule: "an encoded stream cut at every word boundary (up to 120 of them) and some byte boundaries; what is read must be exactly the original entries that are complete before the cut; in a sixth of the cases, a file of modules cut inside of its top-level blocks, which mapping has to refuse; non-trivial: a stream of at least 6 entries with a cut inside of a block",
    quick: 150_000,
    thorough: 10_000_000,
    run: c11,
    ..BASE
};

/// Mapping files that end early.
fn c11_module(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let groups = small_groups(src);
    let f = bc::assemble(src, groups, 2);
    let (bytes, e) = bc::encode_file(src, &f.tops);
    obs.key(&bytes);
    obs.nontrivial = e.ents.len() >= 6;
    obs.label("mapped modules");
    obs.sample(|| format!("{} modules in {} bytes, top-level blocks at {:?}", f.models.len(), bytes.len(), e.tops));
    checkpoint(src);
    let mut cuts = vec![];
    for (a, b) in &e.tops {
        // Extents are relative to the magic.
        let (a, b) = (a + 4, b + 4);
        let words = (b - a) / 4;
        if words <= 20 {
            cuts.extend((1..words).map(|w| a + w * 4));
        } else {
            cuts.extend([a + 4, a + 8, b - 8, b - 4]);
            cuts.extend((0..12).map(|_| a + 4 * src.range(1, words - 1)));
        }
        cuts.push(src.range(a + 1, b - 1));
    }
    for cut in cuts {
        obs.label("cuts");
        bc::check_refused(&bytes[..cut], "a file cut inside of a block").map_err(|m| format!("cut at byte {cut} of {}: {m}", bytes.len()))?;
    }
    bc::check_file(&bytes, &f.models)
}

fn c11(src: &mut Src, obs: &mut Obs) -> CaseResult {
    if src.chance(1, 6) {
        return c11_module(src, obs);
    }
    let cfg = default_cfg(src);
    let tree = gen_tree(src, &cfg);
    let opts = Opts::normal(src);
    let e = encode(src, &tree, &opts);
    let bytes = with_magic(magic(src), &e.bytes);
    obs.key(&bytes);
    obs.nontrivial = e.ents.len() >= 6;
    stats_labels(obs, &e.stats);
    obs.sample(|| describe(&tree, &e));
    checkpoint(src);
    let words = bytes.len() / 4;
    obs.label_if(words > 5000, "big streams");
    let mut cuts: Vec<usize> = if words > 5000 {
        (0..10).map(|_| src.below(words) * 4).collect()
    } else if words <= 120 {
        (0..words).map(|w| w * 4).collect()
    } else {
        (0..120).map(|_| src.below(words) * 4).collect()
    };
    for _ in 0..8 {
        cuts.push(src.below(bytes.len()));
    }
    for cut in cuts {
        let part = &bytes[..cut];
        let bs = match Bitstream::from(part) {
            Ok((_, bs)) => bs,
            Err(err) => {
                ensure!(cut % 4 != 0 || cut < 4, "the stream cut at byte {cut} wasn't opened: {err:?}");
                continue;
            }
        };
        obs.label("cuts");
        let r = drain(bs, part.len());
        ensure!(r.finish != Finish::Runaway, "cut at byte {cut}: runaway");
        let whole = e.ends.iter().filter(|b| **b + 32 <= cut * 8).count();
        ensure_same(&r.ents, &e.ents[..whole], &format!("cut at byte {cut} of {}", bytes.len()))?;
        if cut % 4 == 0 {
            obs.label_if(r.finish != Finish::End, "cuts that end in an error");
        }
    }
    Ok(())
}
