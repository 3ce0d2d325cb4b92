//! C26: mapping anything at all.

use llvm_mapper::Bitcode;

use crate::bc::{self, *};
use crate::engine::*;
use crate::stream::{self, blk, rec, str_fields, Blk, Ent, Finish, Node, Rec};
use crate::util::{hex, short};
use crate::wild;

pub const C26: Check = Check {
    id: "C26",
    rule: "byte strings (random, mutated bitcode, streams from a grammar that makes absurd claims) and well-formed streams whose records have been edited or made up, in every block that the mapper reads, plus enumerated stress inputs (type chains, cycles and fans, wide and deep inputs, huge claims), each mapped within a 2 MiB stack with the peak of allocated memory bounded by the real size of what was written; non-trivial: the stream could be read to its end and has a module block",
    quick: 600_000,
    thorough: 20_000_000,
    fixed: STRESS * SIZES.len() as u64,
    run: c26,
    stack: 2 << 20,
    probes: &[("type-expansion", probe_expansion)],
};

/// Type tables that expand to more nodes than this are left out: their size is exponential in
/// the input's (see the known finding).
const MAX_NODES: usize = 20_000;

const IDS: &[u64] = &[
    id::MODULE,
    id::PARAMATTR,
    id::PARAMATTR_GROUP,
    id::FUNCTION,
    id::IDENTIFICATION,
    id::VST,
    id::TYPE,
    id::STRTAB,
    id::SYMTAB,
];

fn number(src: &mut Src) -> u64 {
    match src.weighted(&[6, 3, 1, 1]) {
        0 => src.upto(8),
        1 => src.upto(300),
        2 => *src.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, (1 << 32) - 1, 1 << 31, 1 << 40, 1 << 24, 1 << 62]),
        _ => src.u64(),
    }
}

fn numbers(src: &mut Src, max: usize) -> Vec<u64> {
    let n = src.len(max);
    (0..n).map(|_| number(src)).collect()
}

fn text(src: &mut Src) -> Vec<u64> {
    match src.weighted(&[4, 3, 1, 1]) {
        0 => str_fields(string(src, 20).as_bytes()),
        1 => {
            let mut b = src.pick(DATALAYOUTS).as_bytes().to_vec();
            let n = src.len(3);
            for _ in 0..n {
                let i = src.below(b.len());
                b[i] = *src.pick(b"-:0123456789einpavfsSmFGA~* ");
            }
            str_fields(&b)
        }
        2 => bad_string(src),
        _ => numbers(src, 6),
    }
}

/// A record for the given block: of a code that means something there, with fields that often
/// look like what they should be.
fn hostile_rec(src: &mut Src, bid: u64) -> Rec {
    let code = if src.chance(1, 16) {
        number(src)
    } else {
        match bid {
            id::MODULE => 1 + src.upto(15),
            id::TYPE => 1 + src.upto(25),
            id::PARAMATTR => 1 + src.upto(1),
            id::PARAMATTR_GROUP => *src.pick(&[3, 3, 3, 2]),
            id::FUNCTION => 1 + src.upto(60),
            id::IDENTIFICATION => 1 + src.upto(1),
            _ => 1 + src.upto(4),
        }
    };
    if src.chance(1, 8) {
        return Rec { code, fields: numbers(src, 12) };
    }
    let fields = match (bid, code) {
        (id::MODULE, code::VERSION) => vec![*src.pick(&[2, 2, 2, 1, 0, u64::MAX])],
        (id::MODULE, 2..=6 | 11) => text(src),
        (id::MODULE, code::FUNCTION | code::ALIAS | code::COMDAT) => {
            let mut f = vec![number(src), src.upto(8), src.upto(8)];
            let n = src.len(16);
            f.extend((0..n).map(|_| number(src)));
            f
        }
        (id::TYPE, 1) => vec![src.upto(8)],
        (id::TYPE, 19) => text(src),
        (id::TYPE, 7) => vec![number(src)],
        (id::TYPE, _) => {
            let n = 1 + src.len(4);
            (0..n).map(|_| if src.chance(1, 8) { number(src) } else { src.upto(6) }).collect()
        }
        (id::PARAMATTR_GROUP, _) => {
            let mut f = vec![1 + src.upto(3), *src.pick(&[0, 1, 2, u32::MAX as u64])];
            let n = src.len(4);
            for _ in 0..n {
                let a = gen_attr(src).fields(false);
                f.extend(a);
            }
            f
        }
        (id::PARAMATTR, _) => (0..src.len(4)).map(|_| 1 + src.upto(4)).collect(),
        (id::FUNCTION, 1) => vec![number(src)],
        (id::FUNCTION, _) => {
            let n = *src.pick(&[3, 4, 4, 6]);
            (0..n).map(|_| number(src)).collect()
        }
        (id::STRTAB | id::SYMTAB, 1) => text(src),
        (id::IDENTIFICATION, 1) => text(src),
        _ => numbers(src, 8),
    };
    Rec { code, fields }
}

fn hostile_block(src: &mut Src, bid: u64) -> Blk {
    let mut nodes = vec![];
    if bid == id::FUNCTION && src.chance(3, 4) {
        nodes.push(rec(1, vec![number(src)]));
    }
    let n = src.len(6);
    for _ in 0..n {
        nodes.push(Node::Rec(hostile_rec(src, bid)));
    }
    Blk { id: bid, nodes }
}

fn count(nodes: &[Node], recs: &mut usize, blks: &mut usize) {
    for n in nodes {
        match n {
            Node::Rec(_) => *recs += 1,
            Node::Blk(b) => {
                *blks += 1;
                count(&b.nodes, recs, blks);
            }
        }
    }
}

/// Calls `f` with the list that the `k`th record (or block) is in, and its place there.
fn at<R>(
    nodes: &mut Vec<Node>,
    bid: u64,
    want_blk: bool,
    k: &mut usize,
    f: &mut impl FnMut(&mut Vec<Node>, usize, u64) -> R,
) -> Option<R> {
    for i in 0..nodes.len() {
        let is_blk = matches!(nodes[i], Node::Blk(_));
        if is_blk == want_blk {
            if *k == 0 {
                return Some(f(nodes, i, bid));
            }
            *k -= 1;
        }
        if let Node::Blk(b) = &mut nodes[i] {
            let id = b.id;
            if let Some(r) = at(&mut b.nodes, id, want_blk, k, f) {
                return Some(r);
            }
        }
    }
    None
}

fn edit_fields(src: &mut Src, r: &mut Rec) {
    match src.weighted(&[8, 2, 3, 2, 1, 1]) {
        0 if !r.fields.is_empty() => {
            let i = src.below(r.fields.len());
            r.fields[i] = number(src);
        }
        1 => {
            let i = src.below(r.fields.len() + 1);
            let v = number(src);
            r.fields.insert(i, v);
        }
        2 if !r.fields.is_empty() => {
            let k = src.below(r.fields.len());
            r.fields.truncate(k);
        }
        3 if !r.fields.is_empty() => {
            let i = src.below(r.fields.len());
            r.fields.remove(i);
        }
        4 => {
            let more = numbers(src, 20);
            r.fields.extend(more);
        }
        _ => r.fields.clear(),
    }
}

fn edit(src: &mut Src, tops: &mut Vec<Node>) {
    let (mut recs, mut blks) = (0, 0);
    count(tops, &mut recs, &mut blks);
    if recs == 0 || blks == 0 {
        return;
    }
    if src.chance(7, 10) {
        let mut k = src.below(recs);
        at(tops, 0, false, &mut k, &mut |list, i, bid| match src.weighted(&[12, 2, 2, 2, 2, 1]) {
            0 => {
                if let Node::Rec(r) = &mut list[i] {
                    edit_fields(src, r);
                }
            }
            1 => {
                let new = hostile_rec(src, bid);
                if let Node::Rec(r) = &mut list[i] {
                    r.code = new.code;
                }
            }
            2 => {
                let copy = list[i].clone();
                list.insert(i, copy);
            }
            3 => {
                list.remove(i);
            }
            4 => {
                let new = hostile_rec(src, bid);
                list.insert(i, Node::Rec(new));
            }
            _ => {
                let j = src.below(list.len());
                list.swap(i, j);
            }
        });
    } else {
        let mut k = src.below(blks);
        at(tops, 0, true, &mut k, &mut |list, i, _| match src.weighted(&[1, 1, 1, 4, 1]) {
            0 => {
                let new = *src.pick(IDS);
                if let Node::Blk(b) = &mut list[i] {
                    b.id = new;
                }
            }
            1 => {
                let copy = list[i].clone();
                list.insert(i, copy);
            }
            2 => {
                list.remove(i);
            }
            3 => {
                let bid = *src.pick(IDS);
                let new = hostile_block(src, bid);
                if let Node::Blk(b) = &mut list[i] {
                    let j = src.below(b.nodes.len() + 1);
                    b.nodes.insert(j, Node::Blk(new));
                }
            }
            _ => {
                let j = src.below(list.len());
                list.swap(i, j);
            }
        });
    }
}

fn valid(src: &mut Src) -> Vec<Blk> {
    let cfg = if src.chance(1, 4) { ModCfg::bare() } else { ModCfg::small() };
    let mut st = StrtabBuilder::default();
    let n = if src.chance(1, 6) { 2 } else { 1 };
    let mods = (0..n).map(|_| gen_module(src, &cfg, &mut st)).collect();
    assemble(src, vec![(mods, st)], 1).tops
}

fn blocks(nodes: Vec<Node>) -> Vec<Blk> {
    nodes
        .into_iter()
        .filter_map(|n| match n {
            Node::Blk(b) => Some(b),
            Node::Rec(_) => None,
        })
        .collect()
}

/// A type table of nothing but random references, in an otherwise plain module.
fn type_soup(src: &mut Src) -> Vec<Blk> {
    let n = src.range(1, 14);
    let mut recs: Vec<Node> = vec![rec(1, vec![n as u64])];
    for i in 0..n {
        // Mostly backwards, with few fans, so that it doesn't grow too much.
        let r = |src: &mut Src| match src.weighted(&[8, 2, 1]) {
            0 if i > 0 => src.below(i) as u64,
            2 => number(src),
            _ => src.below(n) as u64,
        };
        recs.push(match src.weighted(&[4, 3, 2, 2, 2, 2, 2, 1]) {
            0 => {
                let w = if src.chance(1, 8) { number(src) } else { 32 };
                rec(7, vec![w])
            }
            1 => rec(8, vec![r(src), src.upto(2)]),
            2 => rec(11, vec![number(src), r(src)]),
            3 => rec(10, vec![number(src), r(src), src.upto(1)]),
            4 => {
                let k = src.len(3);
                let mut f = vec![src.upto(1)];
                f.extend((0..k).map(|_| r(src)));
                rec(*src.pick(&[18, 20]), f)
            }
            5 => {
                let k = src.len(2);
                let mut f = vec![src.upto(1), r(src)];
                f.extend((0..k).map(|_| r(src)));
                rec(21, f)
            }
            6 => rec(25, vec![src.upto(3)]),
            _ => rec(*src.pick(&[2, 3, 4, 5, 6, 16]), vec![]),
        });
    }
    skeleton(vec![blk(id::TYPE, recs)], vec![])
}

/// A plain module around some nodes, with functions of every type.
fn skeleton(with: Vec<Node>, after: Vec<Node>) -> Vec<Blk> {
    let mut items = vec![rec(code::VERSION, vec![2])];
    let has_types = with.iter().any(|n| matches!(n, Node::Blk(b) if b.id == id::TYPE));
    if !has_types {
        items.push(blk(id::TYPE, vec![rec(1, vec![2]), rec(2, vec![]), rec(21, vec![0, 0])]));
    }
    items.push(blk(id::VST, vec![]));
    items.extend(with);
    items.extend(after);
    blocks(vec![
        blk(id::IDENTIFICATION, vec![rec(1, str_fields(b"LLVM")), rec(2, vec![0])]),
        blk(id::MODULE, items),
        blk(id::STRTAB, vec![rec(1, str_fields(b"name"))]),
    ])
}

/// An otherwise plain module with a few arbitrary records of one kind: what precedes them is fine, so
/// that they are looked at.
fn one_thing(src: &mut Src) -> Vec<Blk> {
    let types = blk(
        id::TYPE,
        vec![
            rec(1, vec![8]),
            rec(2, vec![]),
            rec(7, vec![32]),
            rec(3, vec![]),
            rec(8, vec![1, 0]),
            rec(21, vec![0, 0, 1]),
            rec(10, vec![4, 1]),
            rec(10, vec![2, 2]),
            rec(25, vec![0]),
        ],
    );
    let groups = (1..4u64).map(|g| rec(3, vec![g, 0xffff_ffff, 0, [2, 4, 14][g as usize - 1]])).collect();
    let lists = vec![rec(2, vec![1]), rec(2, vec![2, 3])];
    let mut with = vec![types, rec(code::SECTION, str_fields(b".text")), rec(code::GC, str_fields(b"gc"))];
    let mut after = vec![];
    let bid = *src.pick(&[id::FUNCTION, id::FUNCTION, id::MODULE, id::MODULE, id::PARAMATTR, id::PARAMATTR_GROUP]);
    if bid != id::PARAMATTR_GROUP {
        with.push(blk(id::PARAMATTR_GROUP, groups));
        if bid != id::PARAMATTR {
            with.push(blk(id::PARAMATTR, lists));
        }
    }
    // Small numbers are mostly good ones.
    let some = |src: &mut Src| match src.weighted(&[10, 2]) {
        0 => src.upto(8),
        _ => number(src),
    };
    let n = src.range(1, 6);
    match bid {
        id::FUNCTION => {
            let mut nodes = vec![rec(1, vec![some(src)])];
            for _ in 0..n {
                let c = match src.weighted(&[4, 4, 3, 6]) {
                    0 => 2,
                    1 => 3,
                    2 => 56,
                    _ => 1 + src.upto(59),
                };
                let k = match (c, src.chance(1, 4)) {
                    (2 | 3, false) => 4,
                    (56, false) => 3,
                    _ => src.len(7),
                };
                nodes.push(rec(c, (0..k).map(|_| some(src)).collect::<Vec<_>>()));
            }
            after.push(blk(id::FUNCTION, nodes));
        }
        id::MODULE => {
            for _ in 0..n {
                let c = *src.pick(&[code::FUNCTION, code::FUNCTION, code::ALIAS, code::COMDAT]);
                let mut f = vec![src.upto(3), src.upto(3), if c == code::FUNCTION { 4 } else { some(src) }];
                let k = src.len(16);
                f.extend((0..k).map(|_| some(src)));
                after.push(rec(c, f));
            }
        }
        _ => {
            let b = (0..n).map(|_| Node::Rec(hostile_rec(src, bid))).collect();
            after.push(blk(bid, b));
            after.push(rec(code::FUNCTION, vec![0, 4, 4, 0, 1, 0, 1, 0, 0, 0]));
        }
    }
    skeleton(with, after)
}

const SIZES: [usize; 3] = [3, 1000, 60_000];
const STRESS: u64 = 24;

fn stress(kind: u64, n: usize) -> Vec<Blk> {
    let n64 = n as u64;
    let ty = |recs: Vec<Node>| blk(id::TYPE, recs);
    let with_types = |mut recs: Vec<Node>| {
        let k = recs.len() as u64;
        recs.insert(0, rec(1, vec![k]));
        skeleton(vec![ty(recs)], vec![])
    };
    match kind {
        0 => with_types((0..n64).map(|i| if i == 0 { rec(7, vec![8]) } else { rec(8, vec![i - 1]) }).collect()),
        1 => with_types((0..n64).map(|i| rec(8, vec![(i + 1) % n64])).collect()),
        2 => with_types((0..n64).map(|i| rec(11, vec![2, i])).collect()),
        3 => {
            let mut f = vec![0];
            f.extend((0..n64).map(|_| 0));
            with_types(vec![rec(7, vec![8]), rec(18, f)])
        }
        4 => skeleton(vec![ty(vec![rec(1, vec![[u64::MAX, 1 << 40, 1 << 32][n % 3]])])], vec![]),
        5 => with_types((0..n64).map(|_| rec(7, vec![8])).collect()),
        6 => {
            let mut recs: Vec<Node> = (0..n).map(|_| rec(19, str_fields(b"name"))).collect();
            recs.push(rec(20, vec![0]));
            recs.insert(0, rec(1, vec![1]));
            skeleton(vec![ty(recs)], vec![])
        }
        7 => skeleton(vec![], vec![blk(id::FUNCTION, vec![rec(1, vec![[u64::MAX, 1 << 40, 1 << 32][n % 3]])])]),
        8 => {
            let mut b = blk(100, vec![]);
            for _ in 0..n.min(5000) {
                b = blk(100, vec![b]);
            }
            skeleton(vec![], vec![b])
        }
        9 => {
            let mut tops = vec![];
            for _ in 0..n.min(3000) {
                let mut t = skeleton(vec![], vec![]);
                t.pop();
                tops.extend(t);
            }
            tops.push(Blk { id: id::STRTAB, nodes: vec![rec(1, str_fields(b"name"))] });
            tops
        }
        10 => {
            let mut groups = vec![];
            for i in 0..n64 {
                groups.push(rec(3, vec![i + 1, 1, 0, 2]));
            }
            let list = rec(2, (0..n64).map(|i| i + 1).collect::<Vec<_>>());
            skeleton(vec![blk(id::PARAMATTR_GROUP, groups), blk(id::PARAMATTR, vec![list])], vec![])
        }
        11 => with_types(vec![
            rec(7, vec![8]),
            rec(11, vec![u64::MAX, 0]),
            rec(11, vec![u64::MAX, 1]),
            rec(10, vec![u64::MAX, 0]),
            rec(10, vec![u64::MAX, 0, 1]),
            rec(7, vec![(1 << 24) - 1 + n64]),
            rec(8, vec![0, u64::MAX]),
        ]),
        12 => {
            let mut s = b"e-p:".to_vec();
            s.extend(std::iter::repeat(b'9').take(n));
            skeleton(vec![], vec![rec(code::DATALAYOUT, str_fields(&s))])
        }
        13 => {
            let mut s = b"e".to_vec();
            for i in 0..n.min(5000) {
                s.extend(format!("-p{}:32:32:32:32", i + 1).as_bytes());
            }
            skeleton(vec![], vec![rec(code::DATALAYOUT, str_fields(&s))])
        }
        14 => skeleton(vec![], vec![rec(code::FUNCTION, vec![u64::MAX, u64::MAX, 1, 0, 1, 0, 0, 0, 0, 0])]),
        15 => {
            let mut f = vec![1, 1, 4];
            f.extend(std::iter::repeat(b'a' as u64).take(n));
            skeleton(vec![blk(id::PARAMATTR_GROUP, vec![rec(3, f)])], vec![])
        }
        16 => {
            let mut f = vec![1, 1];
            for _ in 0..n {
                f.extend([0, 2]);
            }
            skeleton(vec![blk(id::PARAMATTR_GROUP, vec![rec(3, f)])], vec![])
        }
        17 => {
            // A struct of many structs of many fields.
            let k = ((n * 4) as f64).sqrt() as usize;
            let mut a = vec![0];
            a.extend(std::iter::repeat(0).take(k));
            let mut b = vec![0];
            b.extend(std::iter::repeat(1).take(k.min(100)));
            with_types(vec![rec(7, vec![8]), rec(18, a), rec(18, b)])
        }
        18 => with_types(vec![rec(21, vec![0, 1, 1]), rec(8, vec![0]), rec(18, vec![0, 1, 0])]),
        19 => {
            let s: Vec<u8> = std::iter::repeat(b'\n').take(n).collect();
            skeleton(vec![], vec![rec(code::ASM, str_fields(&s))])
        }
        20 => {
            let fs = (0..n).map(|_| rec(code::FUNCTION, vec![0, 4, 1, 0, 1, 0, 0, 0, 0, 0])).collect();
            skeleton(vec![], fs)
        }
        21 => {
            let mut recs = vec![rec(1, vec![1])];
            recs.extend((0..n).map(|_| rec(2, vec![0, 0, 0, 0])));
            skeleton(vec![], vec![blk(id::FUNCTION, recs)])
        }
        22 => {
            // A deep (but not too deep) chain of arrays, and a function type on top.
            let k = n64.min(200);
            let mut recs: Vec<Node> = vec![rec(7, vec![8])];
            recs.extend((0..k).map(|i| rec(11, vec![2, i])));
            recs.push(rec(21, vec![0, k]));
            with_types(recs)
        }
        _ => {
            // No records at all.
            let mut nodes: Vec<Node> = IDS.iter().map(|i| blk(*i, vec![])).collect();
            nodes.truncate(1 + n % 9);
            skeleton(vec![], nodes)
        }
    }
}

/// What's in a stream, as far as it bears on the memory that mapping it takes.
#[derive(Default)]
struct Weight {
    nodes: usize,
    too_many: bool,
    largest: usize,
    functions: usize,
    list_fields: usize,
    group_fields: usize,
    tables: usize,
    modules: usize,
    fields: usize,
}

/// Counts the nodes of the type at `i`, the way that it would be expanded.
fn expand(table: &[Vec<u64>], i: u64, depth: usize, n: &mut usize) -> Result<(), ()> {
    *n += 1;
    if *n > MAX_NODES || depth > 400 {
        return Err(());
    }
    for c in table.get(i as usize).ok_or(())? {
        expand(table, *c, depth + 1, n)?;
    }
    Ok(())
}

fn weigh(ents: &[Ent]) -> Weight {
    let mut w = Weight::default();
    let mut stack: Vec<u64> = vec![];
    let mut tables: Vec<Vec<Vec<u64>>> = vec![];
    for e in ents {
        match e {
            Ent::Enter { id, .. } => {
                if *id == self::id::TYPE {
                    tables.push(vec![]);
                }
                w.modules += (*id == self::id::MODULE || *id == self::id::IDENTIFICATION) as usize;
                stack.push(*id);
            }
            Ent::End => {
                stack.pop();
            }
            Ent::Rec { code, fields, .. } => {
                w.fields += fields.len() + 1;
                match stack.last() {
                    Some(&id::TYPE) => {
                        let f = fields;
                        let tail = |k: usize| f.get(k..).unwrap_or(&[]).to_vec();
                        let at = |k: usize| f.get(k).map_or(vec![], |x| vec![*x]);
                        let t = match code {
                            1 | 19 => continue,
                            8 => at(0),
                            10 | 11 => at(1),
                            18 | 20 => tail(1),
                            21 => tail(1),
                            _ => vec![],
                        };
                        if let Some(tab) = tables.last_mut() {
                            tab.push(t);
                        }
                    }
                    Some(&id::MODULE) if *code == code::FUNCTION || *code == code::ALIAS => w.functions += 1,
                    Some(&id::PARAMATTR) => w.list_fields += fields.len(),
                    Some(&id::PARAMATTR_GROUP) => w.group_fields += fields.len(),
                    Some(&id::STRTAB) | Some(&id::SYMTAB) => w.tables += fields.len() + 8,
                    _ => {}
                }
            }
        }
    }
    for t in &tables {
        for i in 0..t.len() {
            let mut n = 0;
            let r = expand(t, i as u64, 0, &mut n);
            w.nodes += n;
            w.largest = w.largest.max(n);
            if n > MAX_NODES || w.nodes > 4_000_000 {
                w.too_many = true;
                return w;
            }
            if r.is_err() {
                break;
            }
        }
    }
    w
}

impl Weight {
    fn bound(&self, len: usize) -> usize {
        (1 << 20)
            + 1024 * len
            + 256 * self.fields
            + 400 * self.nodes
            + 400 * self.functions * self.largest.max(4)
            + 200 * self.list_fields.max(1) * (self.group_fields + 8)
            + 32 * self.tables * self.modules.max(1)
    }
}

fn c26(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let stressed = enumerated(src);
    let (bytes, what) = match stressed {
        Some(i) => {
            let tops = stress(i % STRESS, SIZES[(i / STRESS) as usize % SIZES.len()]);
            let e = stream::encode(src, &tops, &stream::Opts::plain());
            (stream::with_magic(IR_MAGIC, &e.bytes), "stress inputs")
        }
        None => match src.weighted(&[3, 4, 10, 4, 1, 5]) {
            0 => {
                let b = wild::wild(src, IDS, hostile_rec);
                (stream::with_magic(IR_MAGIC, &b), "hostile grammar")
            }
            1 => {
                let tops = valid(src);
                let (mut b, _) = encode_file(src, &tops);
                wild::mutate(src, &mut b);
                (b, "mutated valid bitcode")
            }
            2 => {
                let mut nodes: Vec<Node> = valid(src).into_iter().map(Node::Blk).collect();
                let n = 1 + src.len(8);
                for _ in 0..n {
                    edit(src, &mut nodes);
                }
                let tops = blocks(nodes);
                (encode_file(src, &tops).0, "edited records")
            }
            3 => {
                let tops = type_soup(src);
                (encode_file(src, &tops).0, "random type tables")
            }
            5 => {
                let tops = one_thing(src);
                (encode_file(src, &tops).0, "arbitrary records in a plain module")
            }
            _ => {
                let n = src.range(0, 40);
                let b = src.bytes(n);
                (if src.chance(1, 2) { b } else { stream::with_magic(IR_MAGIC, &b) }, "random bytes")
            }
        },
    };
    obs.key(&bytes);
    obs.label(what);
    obs.sample(|| format!("{what}: {} bytes, {}", bytes.len(), hex(&bytes[..bytes.len().min(100)])));
    let read = match llvm_bitstream::Bitstream::from(&bytes) {
        Ok((_, bs)) => stream::drain(bs, bytes.len()),
        Err(_) => stream::Read { ents: vec![], finish: Finish::Err(String::new()) },
    };
    let w = weigh(&read.ents);
    if w.too_many {
        obs.label("left out: type tables that expand too much");
        return Ok(());
    }
    obs.nontrivial = read.finish == Finish::End && w.modules > 0;
    obs.label_if(read.finish == Finish::End, "readable to the end");
    drop(read);
    checkpoint(src);
    let (ok, peak) = peak_bytes(|| match Bitcode::try_from(&bytes[..]) {
        Ok(b) => Ok(b.modules.len()),
        Err(e) => Err(bc::chain(&e)),
    });
    match &ok {
        Ok(n) => {
            obs.label("mapped");
            obs.label_if(*n > 0, "mapped with modules");
        }
        Err(e) => obs.label(kind_of(e)),
    }
    let bound = w.bound(bytes.len());
    ensure!(
        peak <= bound,
        "{what}: mapping {} bytes took {peak} bytes of memory (bound {bound}): {}",
        bytes.len(),
        short(hex(&bytes))
    );
    Ok(())
}

/// A rough classification, for the record only.
fn kind_of(e: &str) -> &'static str {
    for (part, label) in [
        ("type table", "refused: type table"),
        ("attribute", "refused: attributes"),
        ("function block", "refused: function block"),
        ("function record", "refused: function record"),
        ("alias", "refused: alias"),
        ("COMDAT", "refused: COMDAT"),
        ("datalayout", "refused: data layout"),
        ("string table", "refused: string table"),
        ("symbol table", "refused: symbol table"),
        ("identification", "refused: identification"),
        ("unroll", "refused: unrolling"),
        ("bitstream", "refused: bitstream"),
    ] {
        if e.contains(part) {
            return label;
        }
    }
    "refused: other"
}

/// {t(i-1), t(i-1)}, 15 times over: some 65000 nodes out of a few hundred bytes.
fn probe_expansion() -> Option<String> {
    let mut recs = vec![rec(1, vec![16]), rec(7, vec![8])];
    recs.extend((0..15).map(|i| rec(18, vec![0, i, i])));
    let tops = skeleton(vec![blk(id::TYPE, recs)], vec![]);
    let mut src = Src::replay(vec![]);
    let e = stream::encode(&mut src, &tops, &stream::Opts::plain());
    let bytes = stream::with_magic(IR_MAGIC, &e.bytes);
    let (_, peak) = peak_bytes(|| Bitcode::try_from(&bytes[..]).is_ok());
    (peak > 65_000 * 16).then(|| format!("16 types in {} bytes take {peak} bytes of memory", bytes.len()))
}
