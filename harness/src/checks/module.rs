//! C12-C19: the bitcode mapper.

use llvm_mapper::Bitcode;
use llvm_support::StrtabRef;

use super::BASE;
use crate::bc::{self, *};
use crate::engine::*;
use crate::llvm;
use crate::stream::{blk, rec, str_fields, Blk, Node, Rec};
use crate::util::short;

fn groups_of(src: &mut Src, cfg: &ModCfg, max: usize) -> Vec<(Vec<Mod>, StrtabBuilder)> {
    // Rarely many modules, as in an archive's worth of them linked by concatenation.
    let n = match src.chance(1, 300) {
        true => src.range(4, 40),
        false => 1 + src.len(max - 1),
    };
    let mut out = vec![];
    let mut left = n;
    while left > 0 {
        let k = if src.chance(1, 2) { left } else { src.range(1, left) };
        left -= k;
        let mut st = StrtabBuilder::default();
        let mut mods: Vec<Mod> = vec![];
        for i in 0..k {
            // Now and then just like an earlier one.
            let m = match i > 0 && src.chance(1, 10) {
                true => src.pick(&mods).clone(),
                false => gen_module(src, cfg, &mut st),
            };
            mods.push(m);
        }
        out.push((mods, st));
    }
    out
}

fn describe(f: &File) -> String {
    let tops: Vec<String> = f.tops.iter().map(|t| t.id.to_string()).collect();
    let m = &f.models[0];
    format!(
        "blocks {}; first module: version {}, triple {:?}, layout {:?}, asm {:?}, {} sections, {} collectors, {} libraries, types {:?}, {} groups, {} lists, {} functions, {} aliases, {} comdats",
        tops.join(" "),
        m.version,
        m.triple,
        m.datalayout,
        m.asm,
        m.sections.len(),
        m.gcs.len(),
        m.deplibs.len(),
        m.types.tys.iter().take(4).collect::<Vec<_>>(),
        m.groups.len(),
        m.lists.len(),
        m.functions.len(),
        m.aliases.len(),
        m.comdats.len(),
    )
}

/// Encodes and compares.
fn round_trip(src: &mut Src, obs: &mut Obs, f: &File) -> CaseResult {
    let (bytes, enc) = encode_file(src, &f.tops);
    obs.key(&bytes);
    obs.sample(|| describe(f));
    obs.label_if(enc.stats.abbreviated > 0, "abbreviated records");
    checkpoint(src);
    check_file(&bytes, &f.models)
}

fn refused(src: &mut Src, obs: &mut Obs, f: &File, what: &'static str) -> CaseResult {
    let (bytes, _) = encode_file(src, &f.tops);
    obs.key(&bytes);
    obs.sample(|| format!("{what}: {}", describe(f)));
    obs.label(what);
    obs.nontrivial = true;
    checkpoint(src);
    check_refused(&bytes, what)
}

// ---------------------------------------------------------------------------------------------

pub const C12: Check = Check {
    id: "C12",
    rule: "1-4 random modules with optional records present or absent, unrelated records and blocks mixed in, records of different kinds shuffled, encoded at random; everything reported is compared with the description; non-trivial: at least three kinds of module-level facts and some unrelated record or block",
    quick: 300_000,
    thorough: 4_000_000,
    run: c12,
    probes: &[("one-byte-strings", probe_short_strings)],
    ..BASE
};

fn c12(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let cfg = ModCfg {
        types: src.below(4),
        groups: 0,
        functions: src.below(2),
        aliases: 0,
        comdats: src.below(3),
        strings: 5,
        junk: *src.pick(&[4, 0, 1, 12]),
        version: None,
    };
    let groups = groups_of(src, &cfg, 4);
    let f = assemble(src, groups, cfg.junk);
    let m = &f.models[0];
    let facts = [
        m.triple.is_some(),
        m.datalayout.is_some(),
        m.asm.is_some(),
        !m.deplibs.is_empty(),
        !m.sections.is_empty(),
        !m.gcs.is_empty(),
        m.symtab.is_some(),
    ];
    obs.nontrivial = facts.iter().filter(|x| **x).count() >= 3 && cfg.junk > 0;
    obs.label_if(f.models.len() > 1, "several modules");
    obs.label_if(m.asm.is_some(), "assembly");
    obs.label_if(m.triple.is_none(), "default triple");
    obs.label_if(m.datalayout.is_none(), "default data layout");
    obs.label_if(m.symtab.is_some(), "symbol table");
    obs.label_if(!m.deplibs.is_empty(), "dependent libraries");
    obs.label_if(!m.sections.is_empty(), "sections");
    obs.label_if(!m.gcs.is_empty(), "collectors");
    round_trip(src, obs, &f)
}

/// Strings and blobs of a single byte.
fn probe_short_strings() -> Option<String> {
    let mut src = Src::replay(vec![]);
    let mut st = StrtabBuilder::default();
    let mut m = gen_module(&mut src, &ModCfg::bare(), &mut st);
    m.items.retain(|n| !matches!(n, Node::Rec(r) if r.code != code::VERSION));
    m.items.push(rec(code::TRIPLE, vec![b'x' as u64]));
    m.model = ModModel {
        triple: Some("x".into()),
        producer: m.model.producer.clone(),
        epoch: m.model.epoch,
        version: m.model.version,
        ..Default::default()
    };
    let f = single(&mut src, m, st, 0);
    let (bytes, _) = encode_file(&mut src, &f.tops);
    check_public(&f.models, &match Bitcode::try_from(&bytes[..]) {
        Ok(b) => b,
        Err(e) => return Some(format!("a triple of one character is refused: {}", chain(&e))),
    })
    .err()
}

// ---------------------------------------------------------------------------------------------

pub const C13: Check = Check {
    id: "C13",
    rule: "random sequences of up to 12 identification, module, string table, symbol table and foreign blocks (every one recognizable), with the pairing or the refusal predicted by a model; non-trivial: at least 2 modules, or an irregular sequence",
    quick: 500_000,
    thorough: 8_000_000,
    run: c13,
    ..BASE
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Top {
    I,
    M,
    S,
    Y,
    X,
}

fn c13(src: &mut Src, obs: &mut Obs) -> CaseResult {
    use Top::*;
    // Mostly valid sequences, with a few edits.
    let mut seq = vec![];
    let n = match src.weighted(&[600, 4, 1]) {
        0 => src.len(4),
        1 => src.range(5, 40),
        _ => src.range(100, 300),
    };
    let long = n > 4 && src.chance(2, 3);
    for _ in 0..n {
        seq.push(I);
        seq.push(M);
        match src.weighted(if long { &[1, 400, 2, 2, 1, 1] } else { &[3, 3, 2, 2, 1, 1] }) {
            0 => seq.push(S),
            1 => {}
            2 => seq.extend([S, Y]),
            3 => seq.extend([Y, S]),
            4 => seq.push(Y),
            _ => seq.extend([S, Y, S, Y]),
        }
    }
    if src.chance(2, 3) {
        seq.push(S);
    }
    let edits = src.weighted(&[3, 3, 1, 1]);
    for _ in 0..edits {
        match src.below(4) {
            0 if !seq.is_empty() => {
                let i = src.below(seq.len());
                seq.remove(i);
            }
            1 if seq.len() > 1 => {
                let i = src.below(seq.len() - 1);
                seq.swap(i, i + 1);
            }
            _ => {
                let t = *src.pick(&[I, M, S, Y, X]);
                let i = src.below(seq.len() + 1);
                seq.insert(i, t);
            }
        }
    }

    // The model: (identification number, module, string table, symbol table).
    struct P {
        m: bool,
        s: Option<usize>,
        y: Option<usize>,
    }
    let mut ps: Vec<P> = vec![];
    let mut bad: Option<&'static str> = None;
    let mut unspecified = false;
    for (at, t) in seq.iter().enumerate() {
        match t {
            I => ps.push(P { m: false, s: None, y: None }),
            M => match ps.last_mut() {
                None => {
                    bad.get_or_insert("a module without an identification");
                }
                Some(p) if p.m => {
                    bad.get_or_insert("adjacent modules");
                }
                Some(p) => p.m = true,
            },
            S | Y => {
                unspecified |= ps.last().is_some_and(|p| !p.m);
                for p in &mut ps {
                    let slot = if *t == S { &mut p.s } else { &mut p.y };
                    slot.get_or_insert(at);
                }
            }
            X => {
                bad.get_or_insert("a foreign block");
            }
        }
    }
    if ps.iter().any(|p| !p.m) {
        bad.get_or_insert("an identification without a module");
    }
    if ps.iter().any(|p| p.s.is_none()) {
        bad.get_or_insert("a module without a string table");
    }

    // The blocks.
    let with_names = src.chance(1, 2);
    // Everything has a name of its own; or there's nothing to tell things by.
    let alike = src.chance(1, 8);
    let mut tops = vec![];
    let mut models: Vec<ModModel> = vec![];
    let mut blobs: Vec<(Vec<u8>, String)> = vec![];
    let mut module = 0;
    for (at, t) in seq.iter().enumerate() {
        let mut blob = vec![];
        let mut name = String::new();
        match t {
            I => {
                let (ident, mut producer, epoch) = gen_ident(src, 1);
                let mut ident = ident;
                producer = match alike {
                    true => "LLVM".to_string(),
                    false => format!("p{}-{producer}", models.len()),
                };
                ident[0] = rec(1, str_fields(producer.as_bytes()));
                tops.push(Blk { id: id::IDENTIFICATION, nodes: ident });
                models.push(ModModel { producer, epoch, ..Default::default() });
            }
            M => {
                let mut st = StrtabBuilder::default();
                let cfg = ModCfg { version: Some(2), junk: 1, ..ModCfg::bare() };
                let mut m = gen_module(src, &cfg, &mut st);
                m.items.retain(|n| !matches!(n, Node::Rec(r) if r.code == code::TRIPLE));
                let triple = if alike { "triple".into() } else { format!("t{module}-{at}") };
                m.items.push(rec(code::TRIPLE, str_fields(triple.as_bytes())));
                m.model.triple = Some(triple);
                if with_names {
                    m.items.push(rec(code::COMDAT, vec![0, 5, 1]));
                    m.model.comdats.push((1, String::new()));
                }
                module += 1;
                let items = bc::shuffle(src, m.items);
                tops.push(Blk { id: id::MODULE, nodes: items });
                if let Some(last) = models.last_mut() {
                    let (producer, epoch) = (last.producer.clone(), last.epoch);
                    *last = ModModel { producer, epoch, ..m.model };
                }
            }
            S | Y => {
                name = format!("{}{:04}", if *t == S { 's' } else { 'y' }, if alike { 0 } else { at });
                blob = name.clone().into_bytes();
                let n = src.len(6);
                blob.extend(src.bytes(n));
                let bid = if *t == S { id::STRTAB } else { id::SYMTAB };
                tops.push(blob_block(src, bid, &blob, 1));
            }
            X => {
                let bid = *src.pick(&[17u64, 9, 10, 12, 14, 22, 26, 1, 7, 27, 1 << 20]);
                let c = src.upto(9);
                tops.push(Blk { id: bid, nodes: vec![rec(c, vec![1, 2])] });
            }
        }
        blobs.push((blob, name));
    }
    let (bytes, _) = encode_file(src, &tops);
    obs.key(&bytes);
    obs.sample(|| format!("{seq:?}: {}", bad.unwrap_or("fine")));
    checkpoint(src);
    if let Some(bad) = bad {
        obs.nontrivial = true;
        obs.label(bad);
        return check_refused(&bytes, bad).map_err(|e| format!("{seq:?}: {e}"));
    }
    if unspecified {
        obs.label("a table between an identification and its module (unspecified)");
        let _ = Bitcode::try_from(&bytes[..]);
        return Ok(());
    }
    for (m, p) in models.iter_mut().zip(&ps) {
        let (b, n) = &blobs[p.s.unwrap()];
        m.strtab = b.clone();
        if with_names {
            m.comdats[0].1 = n.clone();
        }
        m.symtab = p.y.map(|y| blobs[y].0.clone());
    }
    obs.nontrivial = models.len() >= 2;
    obs.label_if(models.len() >= 2, "several modules");
    obs.label_if(models.is_empty(), "no modules");
    check_file(&bytes, &models).map_err(|e| format!("{seq:?}: {e}"))
}

// ---------------------------------------------------------------------------------------------

pub const C14: Check = Check {
    id: "C14",
    rule: "1-3 random modules that map, of which one gets a single defect (missing, repeated or empty must-be-unique element, or a reference to nothing); the whole file has to be refused, and the file without the defect mapped; non-trivial: a defect was planted",
    quick: 300_000,
    thorough: 5_000_000,
    run: c14,
    ..BASE
};

fn is_rec(n: &Node, c: u64) -> bool {
    matches!(n, Node::Rec(r) if r.code == c)
}
fn is_blk(n: &Node, b: u64) -> bool {
    matches!(n, Node::Blk(x) if x.id == b)
}
fn rec_mut(nodes: &mut [Node], c: u64) -> Option<&mut Rec> {
    nodes.iter_mut().find_map(|n| match n {
        Node::Rec(r) if r.code == c => Some(r),
        _ => None,
    })
}
fn blk_mut(nodes: &mut [Node], b: u64) -> Option<&mut Blk> {
    nodes.iter_mut().find_map(|n| match n {
        Node::Blk(r) if r.id == b => Some(r),
        _ => None,
    })
}

/// A number that isn't a valid index into `n` things.
fn past(src: &mut Src, n: u64) -> u64 {
    match src.below(4) {
        0 => n,
        1 => n + 1 + src.upto(20),
        2 => (1 << src.range(20, 63)) + src.upto(n),
        _ => u64::MAX - src.upto(3),
    }
}

const BAD_LAYOUTS: &[&str] = &[
    "e-", "e--S64", "x", "e-p", "e-S7", "e-i", "e-i32", "e-i64:7", "e-n0", "e-ni:0", "e-m:z", "e-v64:63", "ee",
    "e-A16777216", "-e", "e-p:64", "e-f:", "e-Fx8", "e-i64:64:32", "e-S64x",
];

fn c14(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let cfg = ModCfg {
        types: 3,
        groups: 2,
        functions: 2,
        aliases: 2,
        comdats: 2,
        strings: 2,
        junk: 2,
        version: Some(2),
    };
    let mut groups = groups_of(src, &cfg, 3);
    let g = src.below(groups.len());
    let group_ids: Vec<u64> =
        groups.iter().flat_map(|(ms, _)| ms).flat_map(|m| &m.model.groups).map(|g| g.id).collect();
    let (mods, st) = &mut groups[g];
    let mi = src.below(mods.len());
    let m = &mut mods[mi];
    let dup = |src: &mut Src, items: &mut Vec<Node>, same: &dyn Fn(&Node) -> bool, fresh: Node| {
        let old = items.iter().find(|n| same(n)).cloned();
        let fresh = match fresh {
            Node::Rec(r) if old.is_some() && src.chance(1, 4) => rec(r.code, vec![]),
            n => n,
        };
        match old {
            Some(o) if src.chance(1, 2) => items.push(o),
            Some(_) => items.push(fresh),
            None => {
                items.push(fresh.clone());
                items.push(fresh);
            }
        }
    };
    // A block after the module to empty, or to put a value into that isn't a byte.
    let mut at_end: Option<(u64, bool)> = None;
    let defect = src.below(34);
    let what = match defect {
        0 => {
            m.items.retain(|n| !is_rec(n, code::VERSION));
            "no version"
        }
        1 => {
            let v = src.upto(3);
            dup(src, &mut m.items, &|n| is_rec(n, code::VERSION), rec(code::VERSION, vec![v]));
            "two versions"
        }
        2 => {
            rec_mut(&mut m.items, code::VERSION).unwrap().fields.clear();
            "an empty version"
        }
        3 => {
            m.items.retain(|n| !is_blk(n, id::TYPE));
            "no type table"
        }
        4 => {
            dup(src, &mut m.items, &|n| is_blk(n, id::TYPE), blk(id::TYPE, vec![rec(1, vec![0])]));
            "two type tables"
        }
        5 => {
            m.items.retain(|n| !is_blk(n, id::VST));
            "no value symbol table"
        }
        6 => {
            dup(src, &mut m.items, &|n| is_blk(n, id::VST), blk(id::VST, vec![]));
            "two value symbol tables"
        }
        7 => {
            dup(src, &mut m.items, &|n| is_rec(n, code::TRIPLE), rec(code::TRIPLE, str_fields(b"x86-y")));
            "two triples"
        }
        8 => {
            dup(src, &mut m.items, &|n| is_rec(n, code::DATALAYOUT), rec(code::DATALAYOUT, str_fields(b"e-S64")));
            "two data layouts"
        }
        9 => {
            dup(src, &mut m.items, &|n| is_rec(n, code::ASM), rec(code::ASM, str_fields(b"nop")));
            "two assembly records"
        }
        10 => {
            dup(src, &mut m.items, &|n| is_blk(n, id::PARAMATTR), blk(id::PARAMATTR, vec![]));
            "two attribute list blocks"
        }
        11 => {
            dup(src, &mut m.items, &|n| is_blk(n, id::PARAMATTR_GROUP), blk(id::PARAMATTR_GROUP, vec![]));
            "two attribute group blocks"
        }
        12..=17 => {
            let (c, what) = [
                (code::TRIPLE, "a bad triple"),
                (code::DATALAYOUT, "a data layout that isn't a string"),
                (code::ASM, "bad assembly"),
                (code::SECTION, "a bad section"),
                (code::GC, "a bad collector"),
                (code::DEPLIB, "a bad library"),
            ][defect - 12];
            let fields = bad_string(src);
            match rec_mut(&mut m.items, c) {
                Some(r) => r.fields = fields,
                None => m.items.push(rec(c, fields)),
            }
            what
        }
        18 => {
            let s = *src.pick(BAD_LAYOUTS);
            m.items.retain(|n| !is_rec(n, code::DATALAYOUT));
            let mut f = str_fields(s.as_bytes());
            if f.len() < 2 {
                f = str_fields(b"e-q");
            }
            m.items.push(rec(code::DATALAYOUT, f));
            "a bad data layout"
        }
        19 => {
            let c = 1 + src.upto(1);
            m.ident.retain(|n| !is_rec(n, c));
            ["", "no producer", "no epoch"][c as usize]
        }
        20 => {
            rec_mut(&mut m.ident, 1).unwrap().fields = bad_string(src);
            "a bad producer"
        }
        21 => {
            rec_mut(&mut m.ident, 2).unwrap().fields.clear();
            "an empty epoch"
        }
        22 => {
            at_end = Some((id::STRTAB, false));
            "no string table blob"
        }
        23 => {
            at_end = Some((id::SYMTAB, false));
            "no symbol table blob"
        }
        31 => {
            at_end = Some((id::STRTAB, true));
            "a string table that isn't made of bytes"
        }
        32 => {
            at_end = Some((id::SYMTAB, true));
            "a symbol table that isn't made of bytes"
        }
        24 => {
            let c = src.upto(3);
            m.items.push(blk(id::FUNCTION, vec![rec(c, vec![1])]));
            "a function body"
        }
        25 => {
            let v = src.upto(1);
            rec_mut(&mut m.items, code::VERSION).unwrap().fields[0] = v;
            m.items.push(rec(code::COMDAT, vec![0, 2, 1]));
            "names in a string table before version 2"
        }
        26 => {
            let lists = past(src, m.model.lists.len() as u64 + 1).max(1);
            let mut f = gen_function_fields(src, m, st);
            f[6] = lists;
            m.items.push(rec(code::FUNCTION, f));
            "a reference to an attribute list that isn't there"
        }
        27 => {
            if src.chance(1, 3) {
                m.items.retain(|n| !is_blk(n, id::PARAMATTR_GROUP) && !is_blk(n, id::PARAMATTR));
                m.model.groups.clear();
            }
            // Other modules' groups are none of this one's.
            let foreign: Vec<u64> =
                group_ids.iter().copied().filter(|k| !m.model.groups.iter().any(|g| g.id == *k)).collect();
            let k = match () {
                () if !foreign.is_empty() && src.chance(2, 3) => *src.pick(&foreign),
                () if m.model.groups.iter().any(|g| g.id == 77) => 78,
                () => 77,
            };
            match blk_mut(&mut m.items, id::PARAMATTR) {
                Some(b) => b.nodes.push(rec(2, vec![k])),
                None => m.items.push(blk(id::PARAMATTR, vec![rec(2, vec![k])])),
            }
            if m.model.groups.iter().any(|g| g.id == k) {
                return Ok(());
            }
            "a reference to an attribute group that isn't there"
        }
        28 => {
            let t = past(src, m.model.types.tys.len() as u64);
            let mut f = gen_function_fields(src, m, st);
            f[2] = t;
            m.items.push(rec(code::FUNCTION, f));
            "a function with a type that isn't there"
        }
        29 => {
            let t = past(src, m.model.types.tys.len() as u64);
            let (o, s, _) = st.name(src);
            m.items.push(rec(code::ALIAS, vec![o, s, t, 0, 0, 0]));
            "an alias with a type that isn't there"
        }
        30 => {
            let t = past(src, m.model.types.tys.len() as u64 + 1);
            let b = blk_mut(&mut m.items, id::TYPE).unwrap();
            b.nodes.push(rec(8, vec![t, 0]));
            if let Some(r) = rec_mut(&mut b.nodes, 1) {
                r.fields[0] += 1;
            }
            "a type made of a type that isn't there"
        }
        _ => {
            let c = *src.pick(&[code::COMDAT, code::ALIAS, code::FUNCTION]);
            let (off, size) = match src.below(3) {
                0 => st.bad_name(src),
                1 => (1 << 40, 3),
                _ => (u64::MAX - src.upto(2), 1 + src.upto(5)),
            };
            let f = match c {
                code::COMDAT => vec![off, size, 1],
                code::ALIAS => vec![off, size, 0, 0, 0, 0],
                _ => {
                    let mut f = gen_function_fields(src, m, st);
                    f[0] = off;
                    f[1] = size;
                    f
                }
            };
            m.items.push(rec(c, f));
            "a name that isn't in the string table"
        }
    };
    // Its own string table is the first one after the module.
    let after: usize = groups[..g].iter().map(|g| g.0.len()).sum::<usize>() + mi;
    let mut f = assemble(src, groups, 1);
    if let Some((bid, value)) = at_end {
        let start = f
            .tops
            .iter()
            .enumerate()
            .filter(|(_, t)| t.id == id::MODULE)
            .nth(after)
            .map_or(0, |x| x.0);
        match f.tops[start..].iter_mut().find(|t| t.id == bid) {
            Some(b) if value => {
                // The first such record counts.
                let r = rec_mut(&mut b.nodes, 1).unwrap();
                let n = src.range(2, 9);
                r.fields = src.bytes(n).into_iter().map(u64::from).collect();
                let i = src.below(n);
                r.fields[i] = not_a_byte(src);
            }
            Some(b) => b.nodes.retain(|n| !is_rec(n, 1)),
            // There isn't a symbol table: an empty one, then.
            None => f.tops.push(Blk { id: bid, nodes: vec![] }),
        }
    }
    obs.label_if(f.models.len() > 1, "several modules");
    refused(src, obs, &f, what)
}

fn gen_function_fields(src: &mut Src, m: &Mod, st: &mut StrtabBuilder) -> Vec<u64> {
    gen_function(src, &m.model, st).fields
}

// ---------------------------------------------------------------------------------------------

pub const C15: Check = Check {
    id: "C15",
    rule: "random type tables (up to 24 entries, definitions before or after uses) and the types their entries denote; then tables with one defect, which have to be refused; non-trivial: at least 5 entries with references, or a defect",
    quick: 1_500_000,
    thorough: 15_000_000,
    run: c15,
    ..BASE
};

/// A module with just this type table.
fn type_module(src: &mut Src, t: Types) -> File {
    let mut st = StrtabBuilder::default();
    let cfg = ModCfg::bare();
    let mut m = gen_module(src, &cfg, &mut st);
    m.items.retain(|n| !is_blk(n, id::TYPE));
    m.items.push(t.node());
    m.model.types = t;
    bc::in_company(src, m, st, 0, true)
}

fn c15(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let max = *src.pick(&[8, 3, 14, 24]);
    let mut t = match src.weighted(&[40_000, 200, 20, 1]) {
        0 => gen_types(src, max, false),
        1 => {
            let n = src.range(60, 240);
            bc::gen_n_types(src, n, false, true)
        }
        // Long tables.
        2 => {
            let n = src.known(400, 6000);
            bc::gen_n_types(src, n, false, false)
        }
        _ => {
            let n = src.range(65_000, 70_000);
            bc::gen_n_types(src, n, false, false)
        }
    };
    let defect = src.chance(1, 2);
    if !defect {
        obs.nontrivial = t.tys.len() >= 5 && !t.refs.is_empty();
        obs.label_if(t.forward, "forward references");
        obs.label_if(t.tys.iter().any(|t| t.size().1 > 64), "types nested more than 64 deep");
        for ty in &t.tys {
            obs.label(match **ty {
                Ty::Simple(_) => "simple",
                Ty::Integer(_) => "integer",
                Ty::Function { .. } => "function",
                Ty::Pointer(..) => "pointer",
                Ty::OpaquePointer(_) => "opaque pointer",
                Ty::Struct { name: Some(_), .. } => "named structure",
                Ty::Struct { .. } => "structure",
                Ty::Array(..) => "array",
                Ty::Vector { scalable: true, .. } => "scalable vector",
                Ty::Vector { .. } => "vector",
            });
        }
        let f = type_module(src, t);
        return round_trip(src, obs, &f);
    }
    let n = t.tys.len() as u64;
    // Adds entries at the end; numbers in `parts` refer to them.
    let add = |t: &mut Types, recs: Vec<Rec>| {
        for r in recs {
            t.recs.push(r);
            t.recs[0].fields[0] += 1;
        }
    };
    let of = |code: u64, fields: Vec<u64>| Rec { code, fields };
    let simple = |s: Simple| of(SIMPLE.iter().find(|x| x.0 == s).unwrap().1, vec![]);
    let what: &'static str = match src.below(16) {
        0 => {
            let d = 1 + src.upto(3);
            t.recs[0].fields[0] = if src.chance(1, 2) && n >= d { n - d } else { n + d };
            "a wrong number of entries"
        }
        1 => {
            t.recs[0].fields[0] = past(src, n + 1);
            "an absurd number of entries"
        }
        2 => {
            t.recs.remove(0);
            "no number of entries"
        }
        3 => {
            t.recs[0].fields.clear();
            "an empty number of entries"
        }
        4 => {
            let c = match src.below(4) {
                0 => 0,
                1 => 27 + src.upto(40),
                2 => (1 << 32) + src.upto(25),
                // The obsolete function types: an entry, but not one of the declared number.
                _ => 9,
            };
            let k = src.len(4);
            let fields = (0..k).map(|_| src.upto(n)).collect();
            let at = src.range(1, t.recs.len());
            t.recs.insert(at, of(c, fields));
            "an unknown record"
        }
        5 => {
            // Truncated records.
            let (code, fields) = match src.below(8) {
                0 => (7, vec![]),
                1 => (8, vec![]),
                2 => (11, vec![3]),
                3 => (12, vec![3]),
                4 => (18, vec![]),
                5 => (21, vec![0]),
                6 => (25, vec![]),
                _ => (*src.pick(&[11, 12, 20, 21]), vec![]),
            };
            add(&mut t, vec![of(code, fields)]);
            "a truncated record"
        }
        6 => {
            let p = past(src, n + 1);
            if t.refs.is_empty() || src.chance(1, 4) {
                let r = match src.below(5) {
                    0 => of(8, vec![p, 0]),
                    1 => of(11, vec![2, p]),
                    2 => of(12, vec![2, p]),
                    3 => of(18, vec![0, p]),
                    _ => of(21, vec![0, p]),
                };
                add(&mut t, vec![r]);
            } else {
                let (r, f) = *src.pick(&t.refs);
                t.recs[r].fields[f] = past(src, n);
            }
            "a reference to nothing"
        }
        7 => {
            // A chain of types that ends at its own beginning.
            let k = 1 + src.upto(4);
            let mut recs = vec![];
            for i in 0..k {
                let to = n + (i + 1) % k;
                recs.push(match src.below(4) {
                    0 => of(8, vec![to, 0]),
                    1 => of(18, vec![0, to]),
                    2 => of(11, vec![1, to]),
                    _ => of(20, vec![1, to]),
                });
            }
            add(&mut t, recs);
            "a type that contains itself"
        }
        8 => {
            // The same with what's there already.
            let Some(c) = cycle(src, &t) else {
                return Ok(());
            };
            t = c;
            "a type that contains itself (indirectly)"
        }
        9 => {
            let (elem, mut user, what) = match src.below(6) {
                0 => (
                    simple(*src.pick(&[Void, Label, Metadata, Token, X86Amx])),
                    of(8, vec![0, 0]),
                    "a pointer to something that can't be pointed to",
                ),
                1 => (
                    simple(*src.pick(&[Void, Label, Metadata, Token, X86Amx])),
                    of(11, vec![3, 0]),
                    "an array of something forbidden",
                ),
                2 => (
                    simple(*src.pick(&[Void, Label, Metadata, Token])),
                    of(*src.pick(&[18, 20]), vec![0, 0]),
                    "a structure of something forbidden",
                ),
                3 => (
                    simple(*src.pick(&[Void, Label, Metadata, Token, X86Amx, X86Mmx])),
                    of(12, vec![4, 0]),
                    "a vector of something forbidden",
                ),
                4 => (simple(*src.pick(&[Label, Metadata])), of(21, vec![0, 0]), "a forbidden return type"),
                _ => (simple(Void), of(21, vec![0, 0, 0]), "a forbidden parameter type"),
            };
            let back = src.chance(1, 2);
            let (e, _) = if back { (n, n + 1) } else { (n + 1, n) };
            let last = user.fields.len() - 1;
            match user.code {
                8 => user.fields[0] = e,
                21 if last == 2 => {
                    // Returns void, and has a void parameter.
                    user.fields[1] = e;
                    user.fields[2] = e;
                }
                _ => user.fields[last] = e,
            }
            // Many parts, of which this is the only bad one.
            let many = (matches!(user.code, 18 | 20) || user.code == 21 && last == 2) && src.chance(1, 4);
            if many {
                let k = src.len(300);
                let at = last + src.below(2);
                user.fields.splice(at..at, vec![n + 2; k]);
            }
            add(&mut t, if back { vec![elem, user] } else { vec![user, elem] });
            if many {
                add(&mut t, vec![of(7, vec![32])]);
            }
            what
        }
        10 => {
            // Functions in places where only pointers to functions can be.
            let f = of(21, vec![0, n + 1]);
            let user = match src.below(5) {
                0 => of(18, vec![0, n]),
                1 => of(11, vec![2, n]),
                2 => of(12, vec![2, n]),
                3 => of(21, vec![0, n]),
                _ => of(21, vec![0, n + 1, n]),
            };
            add(&mut t, vec![f, simple(Void), user]);
            "a function as a part of another type"
        }
        11 => {
            let w = match src.below(4) {
                0 => 0,
                1 => 1 << 24,
                2 => (1 << 32) + src.upto(64),
                _ => (1 << 24) + src.u64() / 2,
            };
            add(&mut t, vec![of(7, vec![w])]);
            "a bad integer width"
        }
        12 => {
            let a = match src.below(3) {
                0 => 1 << 24,
                1 => (1 << 32) + src.upto(64),
                _ => (1 << 24) + src.u64() / 2,
            };
            let r = match src.chance(1, 2) {
                true => vec![of(25, vec![a])],
                false => vec![of(8, vec![n + 1, a]), of(7, vec![8])],
            };
            add(&mut t, r);
            "a bad address space"
        }
        13 => {
            let mut r = of(12, vec![0, n]);
            if src.chance(1, 2) {
                let s = src.upto(1);
                r.fields.push(s);
            }
            add(&mut t, vec![of(7, vec![8]), r]);
            "a vector without elements"
        }
        14 => {
            // Would be a valid function type otherwise.
            add(&mut t, vec![of(9, vec![0, 0, n + 1]), of(7, vec![8])]);
            "an old function type"
        }
        _ => {
            let f = bad_string(src);
            let c = *src.pick(&[20, 6]);
            t.recs.push(of(19, f));
            add(&mut t, vec![of(c, vec![0])]);
            "a bad structure name"
        }
    };
    let f = type_module(src, t);
    refused(src, obs, &f, what)
}

/// Redirects a reference so that some type contains itself.
fn cycle(src: &mut Src, t: &Types) -> Option<Types> {
    if t.refs.is_empty() {
        return None;
    }
    let (start, _) = *src.pick(&t.refs);
    let mut at = start;
    loop {
        let refs: Vec<_> = t.refs.iter().filter(|r| r.0 == at).copied().collect();
        let (r, f) = *src.pick(&refs);
        let to = t.recs[r].fields[f] as usize;
        let to_rec = t.defines.iter().position(|d| *d == Some(to))?;
        let leaf = !t.refs.iter().any(|r| r.0 == to_rec);
        if leaf || src.chance(1, 3) {
            let mut t = t.clone();
            t.recs[r].fields[f] = t.defines[start]? as u64;
            return Some(t);
        }
        at = to_rec;
    }
}

// ---------------------------------------------------------------------------------------------

pub const C16: Check = Check {
    id: "C16",
    rule: "random attribute groups (enum, integer and string attributes on any target) and lists of them, compared attribute by attribute; then blocks with one defect, which have to be refused; non-trivial: two kinds of attributes and a list with two groups, or a defect",
    quick: 500_000,
    thorough: 6_000_000,
    run: c16,
    ..BASE
};

fn attr_module(src: &mut Src, groups: &[Group], lists: Option<&[Vec<usize>]>) -> Mod {
    let mut st = StrtabBuilder::default();
    let mut m = gen_module(src, &ModCfg::bare(), &mut st);
    m.items.push(blk(id::PARAMATTR_GROUP, groups.iter().map(|g| Node::Rec(g.rec())).collect()));
    m.model.groups = groups.to_vec();
    if let Some(lists) = lists {
        let recs = lists.iter().map(|l| rec(2, l.iter().map(|g| groups[*g].id).collect::<Vec<_>>()));
        m.items.push(blk(id::PARAMATTR, recs.collect()));
        m.model.lists = lists.to_vec();
    }
    m
}

fn c16(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let groups = gen_groups(src, 8);
    let lists = gen_lists(src, &groups, 6);
    if src.chance(1, 2) {
        let lists = if src.chance(1, 8) { None } else { Some(&lists[..]) };
        let m = attr_module(src, &groups, lists);
        let all = || groups.iter().flat_map(|g| &g.attrs);
        let kinds = [
            all().any(|a| matches!(a, Attr::Enum(_))),
            all().any(|a| matches!(a, Attr::Int(..))),
            all().any(|a| matches!(a, Attr::Str(_))),
            all().any(|a| matches!(a, Attr::StrKv(..))),
        ];
        obs.nontrivial =
            kinds.iter().filter(|k| **k).count() >= 2 && m.model.lists.iter().any(|l| l.len() >= 2);
        for a in all() {
            obs.label(match a {
                Attr::Enum(_) => "enum attribute",
                Attr::Int(..) => "integer attribute",
                Attr::Str(_) => "string attribute",
                Attr::StrKv(..) => "key-value attribute",
            });
        }
        for g in &groups {
            obs.label(match g.param {
                0 => "return value",
                0xffff_ffff => "function",
                _ => "parameter",
            });
        }
        let f = bc::in_company(src, m, StrtabBuilder::default(), 0, false);
        return round_trip(src, obs, &f);
    }
    // A defective attribute, after any number of fine ones.
    let z = |s: &[u8]| {
        let mut f = str_fields(s);
        f.push(0);
        f
    };
    let past32 = |src: &mut Src, n: u64| match src.below(3) {
        0 => n,
        1 => n + src.upto(1000),
        _ => (1 << 32) + src.upto(86),
    };
    let mut recs: Vec<Rec> = groups.iter().map(|g| g.rec()).collect();
    let mut list_recs: Vec<Rec> =
        lists.iter().map(|l| Rec { code: 2, fields: l.iter().map(|g| groups[*g].id).collect() }).collect();
    let mut attr: Option<Vec<u64>> = None;
    let mut last = false;
    let mut no_groups = false;
    let what: &'static str = match src.below(18) {
        0 => {
            let k = *src.pick(&[2u64, 7, 8, 63, 256, 1 << 32]);
            attr = Some(vec![k, 1 + src.upto(3)]);
            "an unknown kind of attribute"
        }
        1 => {
            let k = if src.chance(1, 3) { 0 } else { past32(src, 1000) };
            attr = Some(vec![0, k]);
            "an unknown enum attribute"
        }
        2 => {
            let k = if src.chance(1, 3) { 0 } else { past32(src, 1000) };
            attr = Some(vec![1, k, 8]);
            "an unknown integer attribute"
        }
        3 => {
            last = true;
            attr = Some(vec![*src.pick(&[0u64, 1, 3, 4])]);
            "an attribute without a key"
        }
        4 => {
            last = true;
            attr = Some(vec![1, *src.pick(&[1u64, 25, 41, 42, 51, 74, 33])]);
            "an integer attribute without a value"
        }
        5 => {
            // Attributes that always have a value (which aren't enum attributes).
            let k = *src.pick(&[1u64, 25, 41, 42, 51, 74, 82, 86]);
            attr = Some(vec![0, k]);
            "an integer attribute as an enum attribute"
        }
        6 => {
            let k = loop {
                let k = 1 + src.upto(85);
                if llvm::enum_attribute(k).is_some() && k != llvm::UW_TABLE {
                    break k;
                }
                if src.chance(1, 2) {
                    break 2;
                }
            };
            let v = src.upto(3);
            attr = Some(vec![1, k, v]);
            "an enum attribute as an integer attribute"
        }
        7 => {
            last = true;
            attr = Some([vec![3], str_fields(string(src, 8).replace('\0', "x").as_bytes())].concat());
            "an unterminated string attribute"
        }
        8 => {
            last = true;
            let k = string(src, 8).replace('\0', "x");
            let v = string(src, 8).replace('\0', "x");
            attr = Some(match src.chance(1, 3) {
                true => [vec![4], str_fields(k.as_bytes())].concat(),
                false => [vec![4], z(k.as_bytes()), str_fields(v.as_bytes())].concat(),
            });
            "an unterminated attribute key or value"
        }
        9 => {
            last = true;
            attr = Some([vec![4], z(string(src, 8).replace('\0', "x").as_bytes())].concat());
            "an attribute without its value"
        }
        10 => {
            let mut b: Vec<u64> = bad_string(src).into_iter().filter(|b| *b != 0).collect();
            if b.iter().all(|b| *b < 256) {
                let bytes: Vec<u8> = b.iter().map(|b| *b as u8).collect();
                if std::str::from_utf8(&bytes).is_ok() {
                    b.insert(0, 0xff);
                }
            }
            b.push(0);
            attr = Some(match src.below(3) {
                0 => [vec![3], b].concat(),
                1 => [vec![4], b, z(b"val")].concat(),
                _ => [vec![4], z(b"key"), b].concat(),
            });
            "an attribute with a bad string"
        }
        11 => {
            attr = Some(vec![3, 0]);
            "a string attribute with an empty key"
        }
        12 => {
            let v = past32(src, 3);
            attr = Some(vec![1, llvm::UW_TABLE, v]);
            "an unknown kind of unwind table"
        }
        13 => {
            attr = Some(vec![1, llvm::ALLOC_SIZE, 0]);
            "allocsize without a size"
        }
        14 => {
            let k = *src.pick(&[llvm::ALIGNMENT, llvm::STACK_ALIGNMENT]);
            let v = 1 + (1 << src.range(1, 31)) + src.upto(1) * 2;
            attr = Some(vec![1, k, v]);
            "an alignment that isn't a power of two"
        }
        15 => {
            let c = match src.below(4) {
                0 => 1,
                1 => 2,
                2 => 0,
                _ => past32(src, 4),
            };
            let at = src.below(recs.len() + 1);
            recs.insert(at, Rec { code: c, fields: vec![1, 2, 0, 2] });
            "a foreign record among the groups"
        }
        16 => {
            let c = match src.below(4) {
                0 => 1,
                1 => 3,
                2 => 0,
                _ => past32(src, 4),
            };
            let at = src.below(list_recs.len() + 1);
            let g = groups.first().map_or(1, |g| g.id);
            list_recs.insert(at, Rec { code: c, fields: vec![g, 0, 0, 2] });
            "a foreign record among the lists"
        }
        _ => {
            if src.chance(1, 2) {
                let k = src.below(3);
                let at = src.below(recs.len() + 1);
                recs.insert(at, Rec { code: 3, fields: vec![3, 0, 0][..k].to_vec() });
                "a group without attributes"
            } else {
                let mut k = src.bits(32);
                while groups.iter().any(|g| g.id == k) {
                    k = (k + 1) & 0xffff_ffff;
                }
                let mut r = Rec { code: 2, fields: groups.iter().map(|g| g.id).collect() };
                let at = src.below(r.fields.len() + 1);
                r.fields.insert(at, k);
                let at = src.below(list_recs.len() + 1);
                list_recs.insert(at, r);
                if src.chance(1, 4) {
                    // No groups at all.
                    no_groups = true;
                    list_recs = vec![Rec { code: 2, fields: vec![1 + src.upto(5)] }];
                }
                "a list with a group that isn't there"
            }
        }
    };
    if let Some(a) = attr {
        let target = src.upto(2);
        let mut r = Rec { code: 3, fields: vec![0x7fff_fff0, target] };
        let n = src.len(3);
        for _ in 0..n {
            let g = gen_attr(src);
            r.fields.extend(g.fields(false));
        }
        r.fields.extend(a);
        if !last {
            let n = src.len(3);
            for _ in 0..n {
                let g = gen_attr(src);
                r.fields.extend(g.fields(false));
            }
        }
        let at = src.below(recs.len() + 1);
        recs.insert(at, r);
    }
    let mut m = attr_module(src, &[], None);
    m.items.retain(|n| !is_blk(n, id::PARAMATTR_GROUP));
    if !no_groups {
        m.items.push(blk(id::PARAMATTR_GROUP, recs.into_iter().map(Node::Rec).collect()));
    }
    m.items.push(blk(id::PARAMATTR, list_recs.into_iter().map(Node::Rec).collect()));
    let f = bc::in_company(src, m, StrtabBuilder::default(), 0, true);
    refused(src, obs, &f, what)
}

// ---------------------------------------------------------------------------------------------

pub const C17: Check = Check {
    id: "C17",
    rule: "a module with types, attributes, sections, collectors and 1-6 function records of 10-19 fields, compared field by field; then one record with a defect, which has to be refused; non-trivial: a function with attributes, a section or a collector, or a defect",
    quick: 400_000,
    thorough: 5_000_000,
    run: c17,
    ..BASE
};

fn value_cfg(src: &mut Src, functions: usize, aliases: usize, comdats: usize) -> ModCfg {
    ModCfg {
        types: 8,
        groups: 4,
        functions,
        aliases,
        comdats,
        strings: 3,
        junk: src.below(3),
        version: if src.chance(1, 8) { None } else { Some(2) },
    }
}

/// A calling convention that nobody has assigned.
fn bad_cc(src: &mut Src) -> u64 {
    loop {
        let c = match src.below(3) {
            0 => src.upto(200),
            1 => 1024 + src.upto(3),
            _ => (1 << 32) + src.upto(100),
        };
        if c >= 1024 || (llvm::calling_convention(c).is_none() && !llvm::newer_calling_convention(c)) {
            return c;
        }
        if src.chance(1, 3) {
            return 1024;
        }
    }
}

fn c17(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let cfg = value_cfg(src, 6, 0, 0);
    let mut st = StrtabBuilder::default();
    let mut m = gen_module(src, &cfg, &mut st);
    if src.chance(1, 2) {
        let fs = &m.model.functions;
        obs.nontrivial = fs.iter().any(|f| {
            f.fields[6] > 0 || f.fields[8] > 0 || f.fields.get(10).is_some_and(|g| *g > 0)
        });
        for f in fs {
            obs.label("functions");
            obs.label_if(f.fields[6] > 0, "attributes");
            obs.label_if(f.fields[8] > 0, "section");
            obs.label_if(f.fields.len() == 10, "minimal records");
            obs.label_if(f.fields.len() >= 14, "records with everything");
            obs.label_if(f.fields.get(10).is_some_and(|g| *g > 0), "collector");
            obs.label_if(f.fields[1] == 0, "without a name");
        }
        let f = bc::in_company(src, m, st, 1, false);
        return round_trip(src, obs, &f);
    }
    let mut f = gen_function(src, &m.model, &mut st).fields;
    let (lists, sections, gcs) =
        (m.model.lists.len() as u64, m.model.sections.len() as u64, m.model.gcs.len() as u64);
    let types = m.model.types.tys.len() as u64;
    let extend = |f: &mut Vec<u64>, n: usize| {
        while f.len() < n {
            f.push(0);
        }
    };
    let what: &'static str = match src.below(13) {
        0 => {
            let n = src.below(10);
            f.truncate(n);
            "a record that is too short"
        }
        1 => {
            let over = src.upto(5);
            match src.below(5) {
                0 => f[0] = 1 << 30,
                3 => f[0] += 1 << src.range(24, 63),
                4 => f[1] += 1 << src.range(24, 63),
                1 => (f[0], f[1]) = (u64::MAX - over, 1 + over * 2),
                _ => f[1] = (1 << 30) + over,
            }
            f[1] = f[1].max(1);
            "a name that isn't in the string table"
        }
        2 => {
            (f[0], f[1]) = st.bad_name(src);
            "a name that isn't UTF-8"
        }
        3 => {
            f[2] = past(src, types);
            "a type that isn't there"
        }
        4 => {
            let others: Vec<usize> = (0..types as usize)
                .filter(|i| !matches!(*m.model.types.tys[*i], Ty::Function { .. }))
                .collect();
            if others.is_empty() {
                f[2] = types;
            } else {
                f[2] = *src.pick(&others) as u64;
            }
            "a type that isn't a function"
        }
        5 => {
            f[3] = bad_cc(src);
            "an unknown calling convention"
        }
        6 => {
            f[6] = past(src, lists + 1);
            "an attribute list that isn't there"
        }
        7 => {
            f[7] = match src.below(4) {
                0 => 65,
                1 => 66 + src.upto(200),
                2 => 256 + src.upto(64),
                _ => (1 << 32) + src.upto(64),
            };
            "a bad alignment"
        }
        8 => {
            f[8] = past(src, sections + 1);
            "a section that isn't there"
        }
        9 => {
            f[9] = past(src, 3);
            "an unknown visibility"
        }
        10 => {
            extend(&mut f, 11);
            f[10] = past(src, gcs + 1);
            "a collector that isn't there"
        }
        11 => {
            extend(&mut f, 14);
            f[13] = past(src, 3);
            "an unknown storage class"
        }
        _ => {
            let v = src.upto(1);
            rec_mut(&mut m.items, code::VERSION).unwrap().fields[0] = v;
            "a function before version 2"
        }
    };
    let n = m.items.len();
    let at = src.below(n + 1);
    m.items.insert(at, rec(code::FUNCTION, f));
    let f = bc::in_company(src, m, st, 0, true);
    refused(src, obs, &f, what)
}

// ---------------------------------------------------------------------------------------------

pub const C18: Check = Check {
    id: "C18",
    rule: "a module with 1-6 alias records of 6-14 fields and 1-6 COMDAT records, compared field by field; then one record with a defect, which has to be refused; non-trivial: an alias with trailing fields and a COMDAT, or a defect",
    quick: 400_000,
    thorough: 5_000_000,
    run: c18,
    ..BASE
};

fn c18(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let cfg = value_cfg(src, 0, 6, 6);
    let mut st = StrtabBuilder::default();
    let mut m = gen_module(src, &cfg, &mut st);
    if src.chance(1, 2) {
        let (a, c) = (&m.model.aliases, &m.model.comdats);
        obs.nontrivial = a.iter().any(|a| a.fields.len() > 6) && !c.is_empty();
        for a in a {
            obs.label("aliases");
            obs.label_if(a.fields.len() == 6, "minimal aliases");
            obs.label_if(a.fields.len() >= 11, "aliases with everything");
            obs.label_if(a.fields[1] == 0, "aliases without a name");
        }
        for c in c {
            obs.label(["", "any", "exactmatch", "largest", "nodeduplicate", "samesize"][c.0 as usize]);
        }
        let f = bc::in_company(src, m, st, 1, false);
        return round_trip(src, obs, &f);
    }
    let types = m.model.types.tys.len() as u64;
    let mut alias = gen_alias(src, &m.model, &mut st).fields;
    let mut comdat = {
        let (o, s, _) = st.name(src);
        vec![o, s, 1 + src.upto(4)]
    };
    let bad_place = |src: &mut Src, f: &mut Vec<u64>| {
        let over = src.upto(5);
        match src.below(5) {
            0 => f[0] = 1 << 30,
            3 => f[0] += 1 << src.range(24, 63),
            4 => f[1] += 1 << src.range(24, 63),
            1 => (f[0], f[1]) = (u64::MAX - over, 1 + over * 2),
            _ => f[1] = (1 << 30) + over,
        }
        f[1] = f[1].max(1);
    };
    let mut is_alias = true;
    let what: &'static str = match src.below(12) {
        0 => {
            let n = src.below(6);
            alias.truncate(n);
            "an alias that is too short"
        }
        1 => {
            bad_place(src, &mut alias);
            "an alias with a name that isn't there"
        }
        2 => {
            (alias[0], alias[1]) = st.bad_name(src);
            "an alias with a name that isn't UTF-8"
        }
        3 => {
            alias[2] = past(src, types);
            "an alias with a type that isn't there"
        }
        4 => {
            while alias.len() < 7 {
                alias.push(0);
            }
            alias[6] = past(src, 3);
            "an alias with an unknown visibility"
        }
        5 => {
            while alias.len() < 8 {
                alias.push(0);
            }
            alias[7] = past(src, 3);
            "an alias with an unknown storage class"
        }
        6 => {
            let v = src.upto(1);
            rec_mut(&mut m.items, code::VERSION).unwrap().fields[0] = v;
            "an alias before version 2"
        }
        n => {
            is_alias = false;
            match n {
                7 => {
                    let n = src.below(3);
                    comdat.truncate(n);
                    "a COMDAT that is too short"
                }
                8 => {
                    bad_place(src, &mut comdat);
                    "a COMDAT with a name that isn't there"
                }
                9 => {
                    (comdat[0], comdat[1]) = st.bad_name(src);
                    "a COMDAT with a name that isn't UTF-8"
                }
                10 => {
                    comdat[2] = if src.chance(1, 3) { 0 } else { past(src, 6) };
                    "a COMDAT with an unknown selection kind"
                }
                _ => {
                    let v = src.upto(1);
                    rec_mut(&mut m.items, code::VERSION).unwrap().fields[0] = v;
                    "a COMDAT before version 2"
                }
            }
        }
    };
    let r = if is_alias { rec(code::ALIAS, alias) } else { rec(code::COMDAT, comdat) };
    let n = m.items.len();
    let at = src.below(n + 1);
    m.items.insert(at, r);
    let f = bc::in_company(src, m, st, 0, true);
    refused(src, obs, &f, what)
}

// ---------------------------------------------------------------------------------------------

pub const C19: Check = Check {
    id: "C19",
    rule: "string tables of random text and bytes (through a mapped module) with about 60 references each: inside, at and past the ends, splitting characters, overflowing; compared with slicing; non-trivial: lookups that succeed, that fail for their range and that fail for their text",
    quick: 1_200_000,
    thorough: 12_000_000,
    run: c19,
    ..BASE
};

fn c19(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let mut table = vec![];
    let parts = 1 + src.len(6);
    for _ in 0..parts {
        match src.weighted(&[4, 1, 1]) {
            0 => table.extend(string(src, 12).into_bytes()),
            1 => table.extend(not_utf8(src)),
            _ => {
                let n = src.len(10);
                table.extend(src.bytes(n));
            }
        }
    }
    while table.len() < 2 {
        table.push(b'x');
    }
    if src.chance(1, 1000) {
        table.extend(many_bytes(src));
    }
    let mut st = StrtabBuilder::default();
    st.bytes = table.clone();
    let m = gen_module(src, &ModCfg::bare(), &mut st);
    let f = single(src, m, st, 0);
    let (bytes, _) = encode_file(src, &f.tops);
    obs.key(&bytes);
    checkpoint(src);
    let b = Bitcode::try_from(&bytes[..]).map_err(|e| format!("refused: {}", chain(&e)))?;
    let st = &b.modules[0].strtab;
    ensure!(st.as_ref() == table, "the table: expected {table:x?}, got {:x?}", st.as_ref());
    let len = table.len() as u64;
    let (mut ok, mut range, mut text) = (false, false, false);
    for _ in 0..60 {
        let near = |src: &mut Src, at: u64| (at + src.upto(4)).saturating_sub(2);
        let off = match src.weighted(&[8, 2, 1]) {
            0 => src.upto(len),
            1 => near(src, len),
            _ => *src.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, (1 << 32) + 1, (1 << 40) + 2, u64::MAX - len]),
        };
        let size = match src.weighted(&[6, 4, 2, 1]) {
            0 => src.upto(8),
            1 => near(src, len.saturating_sub(off)),
            2 => src.upto(len),
            _ => *src.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, (1 << 32) + 1, (1 << 16) + 1, u64::MAX - off.min(1 << 40), 0u64.wrapping_sub(off)]),
        };
        let want = (|| {
            let end = off.checked_add(size)?;
            if size == 0 || end > len {
                return None;
            }
            Some(&table[off as usize..end as usize])
        })();
        match &want {
            None => range = true,
            Some(w) if std::str::from_utf8(w).is_err() => text = true,
            _ => ok = true,
        }
        let want = want.and_then(|w| std::str::from_utf8(w).ok());
        let sref: StrtabRef = (off, size).into();
        ensure!(
            sref.offset as u64 == off && sref.size as u64 == size,
            "a reference to ({off}, {size}) became ({}, {})",
            sref.offset,
            sref.size
        );
        let got = st.get(&sref);
        let tried = st.try_get(&sref).ok();
        ensure!(
            got == want && tried == want,
            "({off}, {size}) in a table of {len}: expected {want:?}, got {got:?} and {tried:?} ({})",
            short(format!("{table:x?}"))
        );
        if let Some(g) = got {
            ensure!(
                g.as_ptr() == st.as_ref()[off as usize..].as_ptr(),
                "({off}, {size}): a different part of the table"
            );
        }
    }
    obs.label_if(ok, "found");
    obs.label_if(range, "outside of the table");
    obs.label_if(text, "not UTF-8");
    obs.nontrivial = ok && range && text;
    obs.sample(|| format!("{} bytes: {}", table.len(), short(format!("{:?}", String::from_utf8_lossy(&table)))));
    Ok(())
}
