//! A model of LLVM's bitstream container: logical trees of blocks and records, an encoder that
//! makes every encoding decision through the choice source, and the driver for the code under
//! test.

use std::collections::HashMap;

use llvm_bitstream::parser::StreamEntry;
use llvm_bitstream::Bitstream;

use crate::bits::BitWriter;
use crate::engine::{Obs, Rng, Src};
use crate::llvm::CHAR6;

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub code: u64,
    pub fields: Vec<u64>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Blk {
    pub id: u64,
    pub nodes: Vec<Node>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Blk(Blk),
    Rec(Rec),
}

pub fn rec(code: u64, fields: impl Into<Vec<u64>>) -> Node {
    Node::Rec(Rec { code, fields: fields.into() })
}
pub fn blk(id: u64, nodes: Vec<Node>) -> Node {
    Node::Blk(Blk { id, nodes })
}
pub fn str_fields(s: &[u8]) -> Vec<u64> {
    s.iter().map(|b| *b as u64).collect()
}

/// An entry, as a stream reader reports it.
#[derive(Clone, Debug, PartialEq)]
pub enum Ent {
    Enter { id: u64, len: u64 },
    Rec { abbrev: Option<u64>, code: u64, fields: Vec<u64> },
    End,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Lit(u64),
    Fixed(u32),
    Vbr(u32),
    Array(Box<Op>),
    Char6,
    Blob,
}

pub type Abbrev = Vec<Op>;

fn scalar_fits(op: &Op, v: u64) -> bool {
    match op {
        Op::Lit(l) => *l == v,
        Op::Fixed(0) | Op::Vbr(0) => v == 0,
        Op::Fixed(w) => *w >= 64 || v >> w == 0,
        Op::Vbr(w) => *w >= 2,
        Op::Char6 => v < 256 && CHAR6.contains(&(v as u8)),
        _ => false,
    }
}

/// Whether a record can be written with an abbreviation.
pub fn fits(a: &Abbrev, r: &Rec) -> bool {
    let mut vals = std::iter::once(r.code).chain(r.fields.iter().copied());
    for (i, op) in a.iter().enumerate() {
        match op {
            // The code has to come from a scalar operand.
            Op::Array(_) | Op::Blob if i == 0 => return false,
            Op::Array(e) => return vals.all(|v| scalar_fits(e, v)),
            Op::Blob => return vals.all(|v| v < 256),
            op => match vals.next() {
                Some(v) if scalar_fits(op, v) => {}
                _ => return false,
            },
        }
    }
    vals.next().is_none()
}

fn put_scalar(w: &mut BitWriter, op: &Op, v: u64) {
    match op {
        Op::Lit(_) | Op::Fixed(0) | Op::Vbr(0) => {}
        Op::Fixed(n) => w.fixed(v, *n as usize),
        Op::Vbr(n) => w.vbr(v, *n as usize),
        Op::Char6 => w.fixed(CHAR6.iter().position(|c| *c as u64 == v).unwrap() as u64, 6),
        _ => unreachable!(),
    }
}

/// Writes a record's values (that fit) with an abbreviation.
pub fn put_abbreviated(w: &mut BitWriter, a: &Abbrev, r: &Rec) {
    let vals: Vec<u64> = std::iter::once(r.code).chain(r.fields.iter().copied()).collect();
    let mut i = 0;
    for op in a {
        match op {
            Op::Array(e) => {
                w.vbr((vals.len() - i) as u64, 6);
                for v in &vals[i..] {
                    put_scalar(w, e, *v);
                }
                i = vals.len();
            }
            Op::Blob => {
                w.vbr((vals.len() - i) as u64, 6);
                w.align32();
                for v in &vals[i..] {
                    w.fixed(*v, 8);
                }
                w.align32();
                i = vals.len();
            }
            op => {
                put_scalar(w, op, vals[i]);
                i += 1;
            }
        }
    }
}

pub fn put_unabbreviated(w: &mut BitWriter, r: &Rec) {
    w.vbr(r.code, 6);
    w.vbr(r.fields.len() as u64, 6);
    for f in &r.fields {
        w.vbr(*f, 6);
    }
}

fn put_op(w: &mut BitWriter, op: &Op) {
    match op {
        Op::Lit(v) => {
            w.bit(true);
            w.vbr(*v, 8);
        }
        Op::Fixed(n) => {
            w.bit(false);
            w.fixed(1, 3);
            w.vbr(*n as u64, 5);
        }
        Op::Vbr(n) => {
            w.bit(false);
            w.fixed(2, 3);
            w.vbr(*n as u64, 5);
        }
        Op::Array(e) => {
            w.bit(false);
            w.fixed(3, 3);
            put_op(w, e);
        }
        Op::Char6 => {
            w.bit(false);
            w.fixed(4, 3);
        }
        Op::Blob => {
            w.bit(false);
            w.fixed(5, 3);
        }
    }
}

/// Writes the body of a DEFINE_ABBREV.
pub fn put_definition(w: &mut BitWriter, a: &Abbrev) {
    let n = a.iter().map(|o| if matches!(o, Op::Array(_)) { 2 } else { 1 }).sum::<u64>();
    w.vbr(n, 5);
    for op in a {
        put_op(w, op);
    }
}

fn width_for(v: u64) -> u32 {
    64 - v.leading_zeros()
}

fn vbr_width(src: &mut Src) -> u32 {
    let max = if src.chance(1, 4) { 32 } else { 8 };
    src.range(2, max) as u32
}

fn scalar_op(src: &mut Src, v: u64) -> Op {
    let need = width_for(v);
    match src.weighted(&[3, 3, 3, 2, 1]) {
        0 => Op::Lit(v),
        1 if need <= 32 => Op::Fixed((need + src.len(4) as u32).clamp(1, 32)),
        3 if scalar_fits(&Op::Char6, v) => Op::Char6,
        4 if v == 0 => {
            if src.chance(1, 2) {
                Op::Fixed(0)
            } else {
                Op::Vbr(0)
            }
        }
        _ => Op::Vbr(vbr_width(src)),
    }
}

/// An abbreviation that the given record can be written with.
pub fn derive(src: &mut Src, r: &Rec) -> Abbrev {
    let mut a = vec![scalar_op(src, r.code)];
    // The number of fields with operands of their own; the others go into an array or blob.
    let n = if src.chance(1, 3) { r.fields.len() } else { src.below(r.fields.len().min(6) + 1) };
    for f in &r.fields[..n] {
        a.push(scalar_op(src, *f));
    }
    let rest = &r.fields[n..];
    let tail = match (rest.is_empty(), src.below(4)) {
        (true, 0..=2) => return a,
        (_, t) => t,
    };
    let need = rest.iter().map(|v| width_for(*v)).max().unwrap_or(0);
    if tail == 0 && need <= 8 {
        a.push(Op::Blob);
    } else if tail == 1 && need <= 32 {
        a.push(Op::Array(Box::new(Op::Fixed((need + src.len(3) as u32).clamp(1, 32)))));
    } else if tail == 2 && rest.iter().all(|v| scalar_fits(&Op::Char6, *v)) {
        a.push(Op::Array(Box::new(Op::Char6)));
    } else {
        a.push(Op::Array(Box::new(Op::Vbr(vbr_width(src)))));
    }
    a
}

/// An arbitrary well-formed abbreviation, which may not suit any record.
pub fn arbitrary_abbrev(src: &mut Src) -> Abbrev {
    let n = src.range(1, 4);
    let mut a = vec![];
    for _ in 0..n {
        a.push(match src.below(5) {
            0 => Op::Lit(src.u64()),
            1 => Op::Fixed(src.range(0, 32) as u32),
            2 => Op::Vbr(src.range(2, 32) as u32),
            3 => Op::Vbr(0),
            _ => Op::Char6,
        });
    }
    match src.below(5) {
        0 => a.push(Op::Blob),
        1 => a.push(Op::Array(Box::new(Op::Char6))),
        2 => a.push(Op::Array(Box::new(Op::Fixed(src.range(1, 32) as u32)))),
        3 => a.push(Op::Array(Box::new(Op::Vbr(src.range(2, 32) as u32)))),
        _ => {}
    }
    a
}

// ---------------------------------------------------------------------------------------------
// Encoding

#[derive(Clone, Debug)]
pub struct Opts {
    /// Percentages.
    pub abbrev: u64,
    pub info: u64,
    pub junk: u64,
    /// Encode everything with abbreviation id width 3 and no abbreviations.
    pub plain: bool,
    /// Stop at the n-th point where an entry can start, and write a forbidden construct instead.
    pub poison: Option<usize>,
}

impl Opts {
    pub fn normal(src: &mut Src) -> Opts {
        Opts {
            abbrev: [50, 90, 10, 0][src.weighted(&[4, 4, 2, 1])],
            info: [15, 40, 0][src.weighted(&[3, 2, 1])],
            junk: [5, 30, 0][src.weighted(&[3, 1, 1])],
            plain: false,
            poison: None,
        }
    }
    pub fn plain() -> Opts {
        Opts { abbrev: 0, info: 0, junk: 0, plain: true, poison: None }
    }
}

#[derive(Default, Debug)]
pub struct Stats {
    pub abbreviated: u64,
    pub unabbreviated: u64,
    pub from_info: u64,
    pub definitions: u64,
    pub info_blocks: u64,
    pub info_records: u64,
    pub arrays: u64,
    pub blobs: u64,
    pub char6: u64,
    pub reused: u64,
    pub points: usize,
    pub poison: &'static str,
}

pub struct Encoded {
    /// The encoding, without any magic.
    pub bytes: Vec<u8>,
    pub ents: Vec<Ent>,
    /// The bit (relative to `bytes`) at which each entry is complete.
    pub ends: Vec<usize>,
    /// Byte extents of the top-level blocks.
    pub tops: Vec<(usize, usize)>,
    pub stats: Stats,
    pub poisoned: bool,
}

struct Encoder<'s> {
    w: BitWriter,
    src: &'s mut Src,
    opts: Opts,
    info: HashMap<u64, Vec<Abbrev>>,
    by_id: HashMap<u64, Vec<Rec>>,
    ids: Vec<u64>,
    ents: Vec<Ent>,
    ends: Vec<usize>,
    stats: Stats,
    poisoned: bool,
}

fn collect(b: &Blk, by_id: &mut HashMap<u64, Vec<Rec>>, ids: &mut Vec<u64>) {
    if !ids.contains(&b.id) {
        ids.push(b.id);
    }
    for n in &b.nodes {
        match n {
            Node::Blk(b) => collect(b, by_id, ids),
            Node::Rec(r) => {
                let v = by_id.entry(b.id).or_default();
                if v.len() < 24 {
                    v.push(r.clone());
                }
            }
        }
    }
}

enum Act<'t> {
    Define(Abbrev),
    Rec(Option<usize>, &'t Rec),
    Sub(&'t Blk),
    Info,
}

impl<'s> Encoder<'s> {
    fn pct(&mut self, p: u64) -> bool {
        if p == 0 {
            return false;
        }
        self.src.chance(p, 100)
    }

    fn push(&mut self, e: Ent) -> usize {
        self.ents.push(e);
        self.ends.push(self.w.pos());
        self.ents.len() - 1
    }

    /// Whether the poison goes here.
    fn point(&mut self) -> bool {
        self.stats.points += 1;
        self.opts.poison == Some(self.stats.points - 1)
    }

    fn header(&mut self, outer: usize, id: u64, width: usize) -> usize {
        self.w.fixed(1, outer);
        self.w.vbr(id, 8);
        self.w.vbr(width as u64, 4);
        self.w.align32();
        let at = self.w.bytes.len();
        self.w.fixed(0, 32);
        at
    }

    fn close(&mut self, width: usize, at: usize) -> u64 {
        self.w.fixed(0, width);
        self.w.align32();
        let words = (self.w.bytes.len() - at - 4) / 4;
        self.w.patch32(at, words as u32);
        words as u64 * 4
    }

    fn count_ops(&mut self, a: &Abbrev) {
        for op in a {
            match op {
                Op::Array(e) => {
                    self.stats.arrays += 1;
                    if **e == Op::Char6 {
                        self.stats.char6 += 1;
                    }
                }
                Op::Blob => self.stats.blobs += 1,
                Op::Char6 => self.stats.char6 += 1,
                _ => {}
            }
        }
    }

    fn choose_width(&mut self, defined: usize) -> usize {
        // The largest id in use is 3 + defined; without any definition, 3 suffices.
        let need = width_for(3 + defined as u64) as usize;
        if self.opts.plain {
            return need.max(3);
        }
        need + match self.src.weighted(&[4, 2, 1]) {
            0 => 0,
            1 => self.src.below(3),
            _ => self.src.below(32 - need + 1),
        }
    }

    fn block(&mut self, b: &Blk, outer: usize) {
        // Plan the records and definitions of this block first: they determine how wide its
        // abbreviation ids have to be.
        let mut known: Vec<Abbrev> = self.info.get(&b.id).cloned().unwrap_or_default();
        let inherited = known.len();
        // Long blocks are for ids of abbreviations that don't fit into a byte.
        let most = if b.nodes.len() > 100 && self.src.chance(1, 2) { 700 } else { 40 };
        let mut acts = vec![];
        for n in &b.nodes {
            if known.len() < 2 * most && self.pct(self.opts.junk) {
                let a = arbitrary_abbrev(self.src);
                known.push(a.clone());
                acts.push(Act::Define(a));
            }
            match n {
                Node::Blk(sub) => {
                    if self.pct(self.opts.info / 3) {
                        acts.push(Act::Info);
                    }
                    acts.push(Act::Sub(sub));
                }
                Node::Rec(r) => {
                    let mut with = None;
                    if self.pct(self.opts.abbrev) {
                        let cands: Vec<usize> =
                            (0..known.len()).filter(|i| fits(&known[*i], r)).collect();
                        if !cands.is_empty() && !self.src.chance(1, 5) {
                            with = Some(*self.src.pick(&cands));
                            self.stats.reused += 1;
                        } else if known.len() < most {
                            let a = derive(self.src, r);
                            debug_assert!(fits(&a, r));
                            known.push(a.clone());
                            acts.push(Act::Define(a));
                            with = Some(known.len() - 1);
                        }
                    }
                    acts.push(Act::Rec(with, r));
                }
            }
        }
        let only_blocks = acts.iter().all(|a| matches!(a, Act::Sub(_) | Act::Info));
        let width = if only_blocks && !self.opts.plain && self.opts.poison.is_none() && self.src.chance(1, 8) {
            1
        } else {
            self.choose_width(known.len())
        };

        let at = self.header(outer, b.id, width);
        let ent = self.push(Ent::Enter { id: b.id, len: 0 });
        let mut defined = inherited;
        for act in acts {
            if self.point() {
                return self.poison_in_block(width, defined);
            }
            match act {
                Act::Define(a) => {
                    self.w.fixed(2, width);
                    put_definition(&mut self.w, &a);
                    self.stats.definitions += 1;
                    defined += 1;
                }
                Act::Rec(None, r) => {
                    self.w.fixed(3, width);
                    put_unabbreviated(&mut self.w, r);
                    self.stats.unabbreviated += 1;
                    self.push(Ent::Rec { abbrev: None, code: r.code, fields: r.fields.clone() });
                }
                Act::Rec(Some(i), r) => {
                    let a = known[i].clone();
                    self.w.fixed(4 + i as u64, width);
                    put_abbreviated(&mut self.w, &a, r);
                    self.stats.abbreviated += 1;
                    self.stats.from_info += (i < inherited) as u64;
                    self.count_ops(&a);
                    self.push(Ent::Rec {
                        abbrev: Some(4 + i as u64),
                        code: r.code,
                        fields: r.fields.clone(),
                    });
                }
                Act::Sub(sub) => self.block(sub, width),
                Act::Info => self.blockinfo(width),
            }
            if self.poisoned {
                return;
            }
        }
        if self.point() {
            return self.poison_in_block(width, defined);
        }
        let len = self.close(width, at);
        self.ents[ent] = Ent::Enter { id: b.id, len };
        self.push(Ent::End);
    }

    fn blockinfo(&mut self, outer: usize) {
        self.stats.info_blocks += 1;
        // Abbreviations that BLOCKINFO defined for its own block id.
        let own = self.info.remove(&0).unwrap_or_default();
        // This block replaces the one before.
        self.info.clear();
        let width = self.choose_width(own.len());
        let at = self.header(outer, 0, width);
        if self.point() {
            return self.poison_in_info(width, own.len(), None);
        }
        let n = self.src.range(1, 4);
        for _ in 0..n {
            // Any block id of the tree, now and then one that doesn't occur (or BLOCKINFO's own).
            let bid = match self.src.weighted(&[8, 1, 1]) {
                0 if !self.ids.is_empty() => *self.src.pick(&self.ids),
                1 => 0,
                _ => self.src.range(1, 60) as u64,
            };
            self.info_record(width, &own, &Rec { code: 1, fields: vec![bid] });
            if self.pct(self.opts.junk) {
                let name = self.src.bytes(3);
                self.info_record(width, &own, &Rec { code: 2, fields: str_fields(&name) });
            }
            let k = self.src.below(3);
            for _ in 0..k {
                let recs = self.by_id.get(&bid).map_or(&[][..], |r| &r[..]);
                let a = if bid == 0 {
                    let r = Rec { code: 1, fields: vec![*self.src.pick(&[0, 8, 17])] };
                    derive(self.src, &r)
                } else if recs.is_empty() || self.src.chance(1, 6) {
                    arbitrary_abbrev(self.src)
                } else {
                    let r = self.src.pick(recs);
                    derive(self.src, r)
                };
                self.w.fixed(2, width);
                put_definition(&mut self.w, &a);
                self.info.entry(bid).or_default().push(a);
            }
            if self.pct(self.opts.junk) {
                let mut name = str_fields(&self.src.bytes(2));
                name.insert(0, self.src.u64());
                self.info_record(width, &own, &Rec { code: 3, fields: name });
            }
            if self.point() {
                return self.poison_in_info(width, own.len(), Some(bid));
            }
        }
        self.close(width, at);
    }

    fn info_record(&mut self, width: usize, own: &[Abbrev], r: &Rec) {
        self.stats.info_records += 1;
        let cands: Vec<usize> = (0..own.len()).filter(|i| fits(&own[*i], r)).collect();
        if !cands.is_empty() && self.src.chance(2, 3) {
            let i = *self.src.pick(&cands);
            self.w.fixed(4 + i as u64, width);
            put_abbreviated(&mut self.w, &own[i], r);
        } else {
            self.w.fixed(3, width);
            put_unabbreviated(&mut self.w, r);
        }
    }

    // Forbidden constructs. Each must be refused right where it is.

    fn bad_definition(&mut self, width: usize) {
        self.w.fixed(2, width);
        let w = &mut self.w;
        let kind = self.src.below(9);
        self.stats.poison = [
            "definition without operands",
            "unknown operand encoding",
            "array operand last",
            "array operand too early",
            "array of arrays",
            "array of blobs",
            "array of literals",
            "blob operand not last",
            "unknown array element encoding",
        ][kind];
        let lead = self.src.below(3) as u64;
        let leads = |w: &mut BitWriter| {
            for i in 0..lead {
                put_op(w, &if i % 2 == 0 { Op::Lit(1) } else { Op::Fixed(3) });
            }
        };
        let enc = |w: &mut BitWriter, e: u64| {
            w.bit(false);
            w.fixed(e, 3);
        };
        match kind {
            0 => w.vbr(0, 5),
            1 => {
                w.vbr(lead + 1, 5);
                leads(w);
                enc(w, *self.src.pick(&[0, 6, 7]));
            }
            2 => {
                w.vbr(lead + 1, 5);
                leads(w);
                enc(w, 3);
                put_op(w, &Op::Char6);
            }
            3 => {
                w.vbr(lead + 3, 5);
                leads(w);
                enc(w, 3);
                put_op(w, &Op::Char6);
                put_op(w, &Op::Fixed(4));
            }
            4 => {
                w.vbr(lead + 2, 5);
                leads(w);
                enc(w, 3);
                enc(w, 3);
                put_op(w, &Op::Char6);
            }
            5 => {
                w.vbr(lead + 2, 5);
                leads(w);
                enc(w, 3);
                enc(w, 5);
            }
            6 => {
                w.vbr(lead + 2, 5);
                leads(w);
                enc(w, 3);
                put_op(w, &Op::Lit(self.src.u64()));
            }
            7 => {
                w.vbr(lead + 2, 5);
                leads(w);
                enc(w, 5);
                put_op(w, &Op::Fixed(4));
            }
            _ => {
                w.vbr(lead + 2, 5);
                leads(w);
                enc(w, 3);
                enc(w, *self.src.pick(&[0, 6, 7]));
            }
        }
    }

    fn undefined_abbrev(&mut self, width: usize, defined: usize) -> bool {
        let first = 4 + defined as u64;
        let last = if width >= 32 { u32::MAX as u64 } else { (1u64 << width) - 1 };
        if first > last {
            return false;
        }
        let id = first + match self.src.below(3) {
            0 => 0,
            1 => last - first,
            _ => self.src.upto(last - first),
        };
        self.w.fixed(id, width);
        self.stats.poison = "undefined abbreviation";
        true
    }

    fn zero_width_block(&mut self, width: usize) {
        self.w.fixed(1, width);
        let id = self.src.range(1, 40) as u64;
        self.w.vbr(id, 8);
        self.w.vbr(0, 4);
        self.w.align32();
        let len = self.src.below(4) as u64;
        self.w.fixed(len, 32);
        self.stats.poison = "zero abbreviation id width";
    }

    fn poison_in_block(&mut self, width: usize, defined: usize) {
        self.poisoned = true;
        match self.src.weighted(&[3, 4, 2, 1]) {
            0 if self.undefined_abbrev(width, defined) => {}
            2 => self.zero_width_block(width),
            3 if defined + 4 < (1usize << width.min(20)) => {
                // A record whose abbreviation doesn't produce any value, hence no code.
                self.w.fixed(2, width);
                put_definition(&mut self.w, &vec![Op::Array(Box::new(Op::Char6))]);
                self.w.fixed(4 + defined as u64, width);
                self.w.vbr(0, 6);
                self.stats.poison = "record without a code";
            }
            _ => self.bad_definition(width),
        }
    }

    fn poison_in_info(&mut self, width: usize, own: usize, bid: Option<u64>) {
        self.poisoned = true;
        match self.src.below(5) {
            0 if bid.is_none() => {
                self.w.fixed(2, width);
                let a = arbitrary_abbrev(self.src);
                put_definition(&mut self.w, &a);
                self.stats.poison = "definition before SETBID";
            }
            1 => {
                self.w.fixed(3, width);
                let code = match self.src.below(3) {
                    0 => 0,
                    1 => 4,
                    _ => 4 + self.src.bits(40),
                };
                let fields = (0..self.src.below(3)).map(|i| i as u64).collect();
                put_unabbreviated(&mut self.w, &Rec { code, fields });
                self.stats.poison = "unknown BLOCKINFO record";
            }
            2 => {
                self.w.fixed(3, width);
                put_unabbreviated(&mut self.w, &Rec { code: 1, fields: vec![] });
                self.stats.poison = "SETBID without a block id";
            }
            3 if self.undefined_abbrev(width, own) => {}
            _ if bid.is_some() => self.bad_definition(width),
            _ => {
                self.w.fixed(3, width);
                put_unabbreviated(&mut self.w, &Rec { code: 9, fields: vec![] });
                self.stats.poison = "unknown BLOCKINFO record";
            }
        }
    }

    fn poison_at_top(&mut self) {
        self.poisoned = true;
        match self.src.below(4) {
            0 => {
                self.w.fixed(0, 2);
                self.stats.poison = "end of block outside of any block";
            }
            1 => {
                self.w.fixed(3, 2);
                put_unabbreviated(&mut self.w, &Rec { code: 1, fields: vec![2, 3] });
                self.stats.poison = "record outside of any block";
            }
            2 => {
                self.w.fixed(2, 2);
                let a = arbitrary_abbrev(self.src);
                put_definition(&mut self.w, &a);
                self.stats.poison = "definition outside of any block";
            }
            _ => self.zero_width_block(2),
        }
    }
}

pub fn encode(src: &mut Src, tree: &[Blk], opts: &Opts) -> Encoded {
    let mut by_id = HashMap::new();
    let mut ids = vec![];
    for b in tree {
        collect(b, &mut by_id, &mut ids);
    }
    let mut e = Encoder {
        w: BitWriter::new(),
        src,
        opts: opts.clone(),
        info: HashMap::new(),
        by_id,
        ids,
        ents: vec![],
        ends: vec![],
        stats: Stats::default(),
        poisoned: false,
    };
    let mut tops = vec![];
    for b in tree {
        if e.point() {
            e.poison_at_top();
            break;
        }
        if e.pct(opts.info) {
            e.blockinfo(2);
        }
        if !e.poisoned {
            let at = e.w.bytes.len();
            e.block(b, 2);
            tops.push((at, e.w.bytes.len()));
        }
        if e.poisoned {
            break;
        }
    }
    if !e.poisoned {
        if e.point() {
            e.poison_at_top();
        } else if e.pct(opts.info / 4) {
            e.blockinfo(2);
        }
    }
    if e.poisoned {
        e.w.align32();
        let n = e.src.below(4);
        for _ in 0..n {
            let v = e.src.bits(32);
            e.w.fixed(v, 32);
        }
    }
    Encoded {
        bytes: e.w.bytes,
        ents: e.ents,
        ends: e.ends,
        tops,
        stats: e.stats,
        poisoned: e.poisoned,
    }
}

// ---------------------------------------------------------------------------------------------
// Generation of logical trees

pub struct TreeCfg {
    pub max_top: usize,
    pub depth: usize,
    pub max_nodes: usize,
    /// Block ids to draw from.
    pub ids: Vec<u64>,
    /// One in how many trees is a big one.
    pub rare: u64,
}

pub fn gen_rec(src: &mut Src, pool: &mut Vec<Rec>) -> Rec {
    // Records often resemble earlier ones, so that abbreviations can be shared.
    if !pool.is_empty() && src.chance(1, 3) {
        let mut r = src.pick(pool).clone();
        if !r.fields.is_empty() && src.chance(1, 2) {
            let i = src.below(r.fields.len());
            let keep = width_for(r.fields[i]).max(1) as usize;
            r.fields[i] = src.bits(keep);
        }
        return r;
    }
    let code = match src.weighted(&[8, 2, 1]) {
        0 => src.range(0, 30) as u64,
        1 => src.bits(12),
        _ => src.u64(),
    };
    let n = match src.weighted(&[8, 2, 1]) {
        0 => src.len(8),
        1 => src.len(40),
        _ => src.len(140),
    };
    let fields = match src.weighted(&[3, 2, 2, 2]) {
        0 => (0..n).map(|_| src.u64()).collect(),
        1 => (0..n).map(|_| src.byte() as u64).collect(),
        2 => (0..n).map(|_| *src.pick(CHAR6) as u64).collect(),
        _ => {
            let w = src.range(1, 40);
            (0..n).map(|_| src.bits(w)).collect()
        }
    };
    let r = Rec { code, fields };
    pool.push(r.clone());
    r
}

fn gen_blk(src: &mut Src, cfg: &TreeCfg, depth: usize, pool: &mut Vec<Rec>) -> Blk {
    let id = match src.weighted(&[8, 1]) {
        0 => *src.pick(&cfg.ids),
        _ => {
            let w = if src.chance(1, 4) { 31 } else { 8 };
            1 + src.bits(w)
        }
    };
    let n = src.len(cfg.max_nodes);
    let nodes = (0..n)
        .map(|_| {
            if depth > 0 && src.chance(1, 4) {
                Node::Blk(gen_blk(src, cfg, depth - 1, pool))
            } else {
                Node::Rec(gen_rec(src, pool))
            }
        })
        .collect();
    Blk { id, nodes }
}

/// The number of fields of a long record.
fn long_len(src: &mut Src) -> usize {
    match src.weighted(&[3, 3, 2, 1, 2]) {
        4 => src.known(9, 20_000),
        0 => src.range(100, 3000),
        1 => *src.pick(&[255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097]),
        2 => *src.pick(&[8192, 16384, 32767, 32768, 65535, 65536, 65537]),
        _ => src.range(3000, 100_000),
    }
}

/// A record of many fields, which are a function of few choices.
pub fn long_rec(src: &mut Src) -> Rec {
    let n = long_len(src);
    let kind = src.below(5);
    let w = src.range(1, 64);
    let mut rng = Rng::new(src.upto(u64::MAX));
    let fields = (0..n)
        .map(|_| match kind {
            0 => rng.below(256),
            1 => CHAR6[rng.below(64) as usize] as u64,
            2 => rng.next() >> (64 - w as u32),
            3 => 255 * (rng.below(8) / 7),
            _ => rng.next() >> rng.below(64),
        })
        .collect();
    Rec { code: src.range(0, 30) as u64, fields }
}

/// Trees beyond what a narrow counter, a fixed buffer or a limit on nesting can hold: deep, long
/// or with very many entries.
fn big_tree(src: &mut Src, cfg: &TreeCfg) -> Vec<Blk> {
    let mut pool = vec![];
    let id = *src.pick(&cfg.ids);
    let mut nodes = vec![Node::Rec(gen_rec(src, &mut pool))];
    match src.below(6) {
        0 => {
            // Deep.
            let depth = match src.below(3) {
                0 => src.range(4, 40),
                1 => *src.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
                _ => src.range(40, 300),
            };
            for _ in 0..depth {
                let id = *src.pick(&cfg.ids);
                let after = if src.chance(1, 3) { Some(Node::Rec(gen_rec(src, &mut pool))) } else { None };
                let before = if src.chance(1, 3) { Some(Node::Rec(gen_rec(src, &mut pool))) } else { None };
                let inner = Node::Blk(Blk { id, nodes: std::mem::take(&mut nodes) });
                nodes = before.into_iter().chain([inner]).chain(after).collect();
            }
        }
        1 | 2 => {
            // Long records, with something after them.
            for _ in 0..src.range(1, 3) {
                nodes.push(Node::Rec(long_rec(src)));
                nodes.push(Node::Rec(gen_rec(src, &mut pool)));
            }
        }
        3 => {
            // Many records, among them ones with little in common.
            let n = *src.pick(&[120, 300, 600, 2000]);
            let mut rng = Rng::new(src.upto(u64::MAX));
            for i in 0..n {
                let k = rng.below(4) as usize + (i % 7 == 0) as usize * rng.below(30) as usize;
                let fields = (0..k).map(|_| rng.next() >> rng.below(64)).collect();
                nodes.push(Node::Rec(Rec { code: rng.next() >> (40 + rng.below(24)), fields }));
            }
        }
        4 => {
            // Many blocks within a block.
            let n = *src.pick(&[130, 260, 520, 1100]);
            for i in 0..n {
                let id = cfg.ids[i % cfg.ids.len()];
                let inner = if i % 3 == 0 { pool.iter().take(2).cloned().map(Node::Rec).collect() } else { vec![] };
                nodes.push(Node::Blk(Blk { id, nodes: inner }));
            }
        }
        _ => {
            // Many blocks at the top.
            let n = *src.pick(&[70, 130, 260, 520]);
            return (0..n)
                .map(|i| Blk { id: cfg.ids[i % cfg.ids.len()], nodes: if i % 5 == 0 { nodes.clone() } else { vec![] } })
                .collect();
        }
    }
    vec![Blk { id, nodes }]
}

pub fn gen_tree(src: &mut Src, cfg: &TreeCfg) -> Vec<Blk> {
    if src.chance(1, cfg.rare) {
        return big_tree(src, cfg);
    }
    let mut pool = vec![];
    let n = src.range(1, cfg.max_top);
    (0..n).map(|_| gen_blk(src, cfg, cfg.depth, &mut pool)).collect()
}

pub fn default_cfg(src: &mut Src) -> TreeCfg {
    TreeCfg {
        max_top: 3,
        depth: 3,
        max_nodes: *src.pick(&[6, 12, 3]),
        ids: vec![8, 9, 17, 1, 200],
        rare: 1500,
    }
}

/// The entries of a tree, without encoding artefacts.
pub fn flatten(tree: &[Blk]) -> Vec<Ent> {
    fn go(b: &Blk, out: &mut Vec<Ent>) {
        out.push(Ent::Enter { id: b.id, len: 0 });
        for n in &b.nodes {
            match n {
                Node::Blk(b) => go(b, out),
                Node::Rec(r) => out.push(Ent::Rec { abbrev: None, code: r.code, fields: r.fields.clone() }),
            }
        }
        out.push(Ent::End);
    }
    let mut out = vec![];
    for b in tree {
        go(b, &mut out);
    }
    out
}

pub fn strip(ents: &[Ent]) -> Vec<Ent> {
    ents.iter()
        .map(|e| match e {
            Ent::Enter { id, .. } => Ent::Enter { id: *id, len: 0 },
            Ent::Rec { code, fields, .. } => Ent::Rec { abbrev: None, code: *code, fields: fields.clone() },
            Ent::End => Ent::End,
        })
        .collect()
}

// ---------------------------------------------------------------------------------------------
// The code under test

#[derive(Debug, PartialEq, Clone)]
pub enum Finish {
    End,
    Err(String),
    /// More steps than the data can account for.
    Runaway,
}

#[derive(Debug)]
pub struct Read {
    pub ents: Vec<Ent>,
    pub finish: Finish,
}

pub fn to_ent(e: StreamEntry) -> Ent {
    match e {
        StreamEntry::EndBlock => Ent::End,
        StreamEntry::SubBlock(b) => Ent::Enter { id: b.block_id, len: b.len },
        StreamEntry::Record(r) => Ent::Rec { abbrev: r.abbrev_id, code: r.code, fields: r.fields },
    }
}

/// Reads a stream to its end or first error.
pub fn drain<T: AsRef<[u8]>>(mut bs: Bitstream<T>, len: usize) -> Read {
    let mut ents = vec![];
    // Every entry takes at least one bit.
    let max = len * 8 + 8;
    for _ in 0..max {
        match bs.next() {
            None => {
                // The end is sticky.
                if bs.next().is_some() {
                    return Read { ents, finish: Finish::Err("an entry after the end of the stream".into()) };
                }
                return Read { ents, finish: Finish::End };
            }
            Some(Ok(e)) => ents.push(to_ent(e)),
            Some(Err(e)) => return Read { ents, finish: Finish::Err(format!("{e:?}")) },
        }
    }
    Read { ents, finish: Finish::Runaway }
}

/// Reads like a consumer that doesn't keep entries; returns their number.
pub fn drain_count<T: AsRef<[u8]>>(mut bs: Bitstream<T>, len: usize) -> (usize, Finish) {
    let max = len * 8 + 8;
    for n in 0..max {
        match bs.next() {
            None => return (n, Finish::End),
            Some(Ok(_)) => {}
            Some(Err(e)) => return (n, Finish::Err(format!("{e:?}"))),
        }
    }
    (max, Finish::Runaway)
}

pub fn with_magic(magic: u32, body: &[u8]) -> Vec<u8> {
    let mut v = magic.to_le_bytes().to_vec();
    v.extend_from_slice(body);
    v
}

/// Describes the first difference between what was read and what was expected.
pub fn diff(got: &[Ent], want: &[Ent]) -> Option<String> {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            return Some(crate::util::short(format!("entry {i}: expected {w:?}, got {g:?}")));
        }
    }
    if got.len() != want.len() {
        let extra = if got.len() > want.len() { &got[want.len()] } else { &want[got.len()] };
        return Some(crate::util::short(format!(
            "expected {} entries, got {} ({} {extra:?})",
            want.len(),
            got.len(),
            if got.len() > want.len() { "additional:" } else { "missing:" }
        )));
    }
    None
}

pub fn stats_labels(obs: &mut Obs, s: &Stats) {
    obs.label_if(s.abbreviated > 0, "abbreviated records");
    obs.label_if(s.unabbreviated > 0, "unabbreviated records");
    obs.label_if(s.from_info > 0, "BLOCKINFO abbreviations used");
    obs.label_if(s.reused > 0, "abbreviations reused");
    obs.label_if(s.arrays > 0, "array operands");
    obs.label_if(s.blobs > 0, "blob operands");
    obs.label_if(s.char6 > 0, "char6 operands");
    obs.label_if(s.info_blocks > 0, "BLOCKINFO blocks");
}
