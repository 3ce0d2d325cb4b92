//! A model of LLVM bitcode: module descriptions that can be turned into bitstream blocks, and
//! what a reader has to report for them.

use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::sync::Arc;

use llvm_mapper::block::{Attribute, IntAttribute};
use llvm_mapper::Bitcode;
use llvm_support::{Align, MaybeAlign, Type};

use crate::engine::{Rng, Src};
use crate::llvm;
use crate::stream::{blk, encode, rec, str_fields, with_magic, Blk, Encoded, Node, Opts, Rec};

pub const IR_MAGIC: u32 = 0xdec04342;

pub mod id {
    pub const MODULE: u64 = 8;
    pub const PARAMATTR: u64 = 9;
    pub const PARAMATTR_GROUP: u64 = 10;
    pub const FUNCTION: u64 = 12;
    pub const IDENTIFICATION: u64 = 13;
    pub const VST: u64 = 14;
    pub const TYPE: u64 = 17;
    pub const STRTAB: u64 = 23;
    pub const SYMTAB: u64 = 25;
}

pub mod code {
    pub const VERSION: u64 = 1;
    pub const TRIPLE: u64 = 2;
    pub const DATALAYOUT: u64 = 3;
    pub const ASM: u64 = 4;
    pub const SECTION: u64 = 5;
    pub const DEPLIB: u64 = 6;
    pub const FUNCTION: u64 = 8;
    pub const GC: u64 = 11;
    pub const COMDAT: u64 = 12;
    pub const ALIAS: u64 = 14;
}

// ---------------------------------------------------------------------------------------------
// Strings

/// A string beyond what a byte or 16 bits can count, as a function of few choices.
pub fn long_string(src: &mut Src) -> String {
    let n = match src.below(3) {
        0 => *src.pick(&[255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]),
        1 => src.range(200, 5000),
        _ => src.range(5000, 80_000),
    };
    let wide = src.chance(1, 3);
    let mut rng = Rng::new(src.upto(u64::MAX));
    let mut s = String::new();
    while s.len() < n {
        s.push(match rng.below(20) {
            0 if wide => ['é', '€', '🦀'][rng.below(3) as usize],
            _ => crate::llvm::CHAR6[rng.below(64) as usize] as char,
        });
    }
    s
}

/// Many bytes, as a function of few choices.
pub fn many_bytes(src: &mut Src) -> Vec<u8> {
    let n = match src.below(2) {
        0 => src.range(200, 5000),
        _ => src.range(5000, 200_000),
    };
    let mut rng = Rng::new(src.upto(u64::MAX));
    (0..n).map(|_| rng.next() as u8).collect()
}

/// A number of things: usually at most `max` of them, but `many` if wanted.
fn count(src: &mut Src, max: usize, many: bool) -> usize {
    if many {
        // Beyond what a byte, or rarely 16 bits, can count.
        match src.weighted(&[20, 4, 1]) {
            0 => src.range(100, 400),
            1 => src.range(400, 6000),
            _ => src.range(65_000, 70_000),
        }
    } else {
        src.len(max)
    }
}

/// A string of at least two bytes.
pub fn string(src: &mut Src, max: usize) -> String {
    if src.chance(1, 5000) {
        return long_string(src);
    }
    let mut s = String::new();
    let n = 2 + src.len(max.saturating_sub(2));
    if let Some(known) = src.known_string() {
        s.push_str(known);
    }
    let style = src.weighted(&[6, 2, 1]);
    while s.len() < n {
        s.push(match style {
            0 => *src.pick(crate::llvm::CHAR6) as char,
            1 => (b' ' + src.below(95) as u8) as char,
            _ => *src.pick(&[
                'a', 'é', '€', '\n', '\0', '🦀', '\u{7f}', '\u{80}', '\u{10ffff}', '-', '\r', '\t', ' ', '\u{feff}', '\u{85}',
                '\u{a0}', '\u{2028}', '\u{fffd}', '"', '\\', '\x1b',
            ]),
        });
    }
    s
}

/// Bytes that aren't UTF-8.
pub fn not_utf8(src: &mut Src) -> Vec<u8> {
    let mut v = string(src, 8).into_bytes();
    let bad: &[u8] =
        *src.pick(&[&[0xffu8][..], &[0x80], &[0xc3], &[0xed, 0xa0, 0x80], &[0xc0, 0xaf], &[0xf4, 0x90, 0x80, 0x80]]);
    // At a character boundary, so that the bytes around it can't complete it.
    let mut at = src.below(v.len() + 1);
    while at < v.len() && (v[at] & 0xc0) == 0x80 {
        at += 1;
    }
    for (i, b) in bad.iter().enumerate() {
        v.insert(at + i, *b);
    }
    debug_assert!(std::str::from_utf8(&v).is_err());
    v
}

/// A field that can't be a character: not a byte, and not a sign-extended one either.
pub fn not_a_byte(src: &mut Src) -> u64 {
    match src.weighted(&[4, 1, 1, 1, 1]) {
        0 => (256 + src.bits(40)).min(0x7fff_ffff),
        // Just what isn't the extension of a byte's sign.
        1 => 0xffff_ff7f - src.bits(7),
        2 => (1 << 32) + src.bits(8),
        3 => 0xffff_ffff_ffff_ff7f - src.bits(7),
        _ => 0xffff_fffe_ffff_ff80 + src.bits(7),
    }
}

/// A string the way LLVM's writer emits it: either as its bytes, or with each byte sign-extended
/// into 32 bits.
pub fn text(src: &mut Src, s: &[u8]) -> Vec<u64> {
    if !s.is_ascii() && src.chance(1, 2) {
        s.iter().map(|b| *b as i8 as u32 as u64).collect()
    } else {
        str_fields(s)
    }
}

/// Fields that no string can be read from.
pub fn bad_string(src: &mut Src) -> Vec<u64> {
    if src.chance(1, 2) {
        str_fields(&not_utf8(src))
    } else {
        let mut f = str_fields(string(src, 8).as_bytes());
        let i = src.below(f.len());
        f[i] = not_a_byte(src);
        f
    }
}

// ---------------------------------------------------------------------------------------------
// Types

#[derive(Debug, PartialEq)]
pub enum Ty {
    Simple(Simple),
    Integer(u32),
    Function { ret: Arc<Ty>, params: Vec<Arc<Ty>>, vararg: bool },
    Pointer(Arc<Ty>, u32),
    OpaquePointer(u32),
    Struct { name: Option<String>, fields: Vec<Arc<Ty>>, packed: bool },
    Array(u64, Arc<Ty>),
    Vector { n: u64, elem: Arc<Ty>, scalable: bool },
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Simple {
    Void,
    Float,
    Double,
    Label,
    Half,
    X86Fp80,
    Fp128,
    PpcFp128,
    Metadata,
    X86Mmx,
    Token,
    BFloat,
    X86Amx,
}
pub use Simple::*;

pub const SIMPLE: &[(Simple, u64)] = &[
    (Void, 2),
    (Float, 3),
    (Double, 4),
    (Label, 5),
    (Half, 10),
    (X86Fp80, 13),
    (Fp128, 14),
    (PpcFp128, 15),
    (Metadata, 16),
    (X86Mmx, 17),
    (Token, 22),
    (BFloat, 23),
    (X86Amx, 24),
];

/// LLVM's rules about what types can be made of (`isValidElementType` and friends).
impl Ty {
    pub fn floating(&self) -> bool {
        matches!(self, Ty::Simple(Half | BFloat | Float | Double | X86Fp80 | Fp128 | PpcFp128))
    }
    pub fn integer(&self) -> bool {
        matches!(self, Ty::Integer(_))
    }
    pub fn pointee(&self) -> bool {
        !matches!(self, Ty::Simple(Void | Label | Metadata | Token | X86Amx))
    }
    pub fn array_element(&self) -> bool {
        !matches!(
            self,
            Ty::Simple(Void | Label | Metadata | Token | X86Amx)
                | Ty::Function { .. }
                | Ty::Vector { scalable: true, .. }
        )
    }
    pub fn struct_element(&self) -> bool {
        !matches!(self, Ty::Simple(Void | Label | Metadata | Token) | Ty::Function { .. })
    }
    pub fn vector_element(&self) -> bool {
        self.floating() || matches!(self, Ty::Integer(_) | Ty::Pointer(..) | Ty::OpaquePointer(_))
    }
    pub fn argument(&self) -> bool {
        !matches!(self, Ty::Simple(Void) | Ty::Function { .. })
    }
    pub fn returnable(&self) -> bool {
        !matches!(self, Ty::Simple(Label | Metadata) | Ty::Function { .. })
    }
    pub fn scalar(&self) -> &Ty {
        match self {
            Ty::Vector { elem, .. } => elem,
            t => t,
        }
    }
    /// Number of nodes, and depth.
    pub fn size(&self) -> (usize, usize) {
        let mut n = 1;
        let mut d = 0;
        let mut add = |t: &Ty| {
            let (a, b) = t.size();
            n += a;
            d = d.max(b);
        };
        match self {
            Ty::Function { ret, params, .. } => {
                add(ret);
                params.iter().for_each(|t| add(t));
            }
            Ty::Pointer(t, _) | Ty::Array(_, t) | Ty::Vector { elem: t, .. } => add(t),
            Ty::Struct { fields, .. } => fields.iter().for_each(|t| add(t)),
            _ => {}
        }
        (n, d + 1)
    }
    /// The same type made with the public constructors.
    pub fn build(&self) -> Result<Type, String> {
        fn e(e: impl std::fmt::Display) -> String {
            e.to_string()
        }
        fn all(ts: &[Arc<Ty>]) -> Result<Vec<Type>, String> {
            ts.iter().map(|t| t.build()).collect()
        }
        match self {
            Ty::Simple(s) => Ok(match s {
                Void => Type::Void,
                Float => Type::Float,
                Double => Type::Double,
                Label => Type::Label,
                Half => Type::Half,
                X86Fp80 => Type::X86Fp80,
                Fp128 => Type::Fp128,
                PpcFp128 => Type::PpcFp128,
                Metadata => Type::Metadata,
                X86Mmx => Type::X86Mmx,
                Token => Type::Token,
                BFloat => Type::BFloat,
                X86Amx => Type::X86Amx,
            }),
            Ty::Integer(w) => Type::new_integer(*w).map_err(e),
            Ty::Function { ret, params, vararg } => {
                Type::new_function(ret.build()?, all(params)?, *vararg).map_err(e)
            }
            Ty::Pointer(t, a) => Type::new_pointer(t.build()?, (*a).try_into().map_err(e)?).map_err(e),
            Ty::OpaquePointer(a) => Ok(Type::OpaquePointer((*a).try_into().map_err(e)?)),
            Ty::Struct { name, fields, packed } => {
                Type::new_struct(name.clone(), all(fields)?, *packed).map_err(e)
            }
            Ty::Array(n, t) => Type::new_array(*n, t.build()?).map_err(e),
            Ty::Vector { n, elem, scalable: false } => Type::new_vector(*n, elem.build()?).map_err(e),
            Ty::Vector { n, elem, scalable: true } => {
                Type::new_scalable_vector(*n, elem.build()?).map_err(e)
            }
        }
    }

    /// Compares with what the code under test has, as far as its accessors go.
    pub fn shape(&self, got: &Type) -> Result<(), String> {
        let bad = || Err(crate::util::short(format!("expected the type {self:?}, got {got:?}")));
        match (self, got) {
            (Ty::Simple(_), got) => {
                if self.build().as_ref() == Ok(got) {
                    Ok(())
                } else {
                    bad()
                }
            }
            (Ty::Integer(w), Type::Integer(i)) => {
                if i.bit_width() == *w && u64::from(i.byte_width()) == (u64::from(*w) + 7) / 8 {
                    Ok(())
                } else {
                    bad()
                }
            }
            (Ty::Pointer(t, _), Type::Pointer(p)) => t.shape(p.pointee()),
            (Ty::Array(_, t), Type::Array(a)) => t.shape(a.element()),
            (Ty::Vector { elem, scalable: false, .. }, Type::FixedVector(v)) => elem.shape(v.element()),
            (Ty::Vector { elem, scalable: true, .. }, Type::ScalableVector(v)) => elem.shape(v.element()),
            (Ty::Struct { name, fields, .. }, Type::Struct(s)) => {
                if *name != s.name || fields.len() != s.fields.len() {
                    return bad();
                }
                fields.iter().zip(&s.fields).try_for_each(|(w, g)| w.shape(g))
            }
            (Ty::Function { .. }, Type::Function(_)) => Ok(()),
            (Ty::OpaquePointer(a), Type::OpaquePointer(g)) => {
                if llvm_support::AddressSpace::try_from(*a).ok() == Some(*g) {
                    Ok(())
                } else {
                    bad()
                }
            }
            _ => bad(),
        }
    }

    pub fn same(&self, got: &Type) -> Result<(), String> {
        self.shape(got)?;
        let want = self.build()?;
        if want != *got {
            return Err(crate::util::short(format!("expected the type {want:?}, got {got:?}")));
        }
        Ok(())
    }
}

/// A type table.
#[derive(Debug, Clone, Default)]
pub struct Types {
    pub tys: Vec<Arc<Ty>>,
    /// The records of the type block.
    pub recs: Vec<Rec>,
    /// Which type each record (in `recs`) defines.
    pub defines: Vec<Option<usize>>,
    /// Positions in `recs` of record fields that refer to types: (record, field).
    pub refs: Vec<(usize, usize)>,
    pub forward: bool,
}

impl Types {
    pub fn node(&self) -> Node {
        blk(id::TYPE, self.recs.iter().cloned().map(Node::Rec).collect())
    }
    pub fn functions(&self) -> Vec<usize> {
        (0..self.tys.len()).filter(|i| matches!(*self.tys[*i], Ty::Function { .. })).collect()
    }
}

pub fn address_space(src: &mut Src) -> u32 {
    match src.weighted(&[4, 2, 1]) {
        0 => 0,
        1 => src.bits(4) as u32,
        _ => src.bits(23) as u32,
    }
}

/// Generates a type table with up to `max` entries.
pub fn gen_types(src: &mut Src, max: usize, want_function: bool) -> Types {
    let n = src.len(max) + want_function as usize;
    gen_n_types(src, n, want_function, false)
}

/// Generates a type table with (about) `n` entries, mostly made of one another if `deep`.
pub fn gen_n_types(src: &mut Src, n: usize, want_function: bool, deep: bool) -> Types {
    struct Entry {
        ty: Arc<Ty>,
        /// Indices (into the list of entries) of the types that this one is made of.
        parts: Vec<usize>,
        size: (usize, usize),
    }
    let mut es: Vec<Entry> = vec![];
    while es.len() < n {
        let last = es.len() + 1 == n;
        let kind = if want_function && last && !es.iter().any(|e| matches!(*e.ty, Ty::Function { .. })) {
            2
        } else {
            src.weighted(if deep { &[1, 1, 6, 10, 1, 20, 20, 1] } else { &[4, 4, 3, 3, 2, 4, 2, 3] })
        };
        // Something suitable among the entries so far; recent ones are more interesting.
        let find = |src: &mut Src, ok: &dyn Fn(&Ty) -> bool| -> Option<usize> {
            let from = if es.len() > 2000 { src.below(es.len() - 1000) } else { 0 };
            let c: Vec<usize> = (from..es.len().min(from + 2000)).filter(|i| ok(&es[*i].ty)).collect();
            if c.is_empty() {
                return None;
            }
            let back = if deep && !src.chance(1, 12) { 0 } else { src.len(c.len() - 1) };
            Some(c[c.len() - 1 - back])
        };
        let (ty, parts) = match kind {
            1 => (Ty::Integer(int_width(src)), vec![]),
            2 => match find(src, &Ty::returnable) {
                None => (Ty::Simple(Void), vec![]),
                Some(r) => {
                    let k = if deep { src.below(2) } else if src.chance(1, 300) { src.range(10, 280) } else { src.len(6) };
                    let ps: Vec<usize> = (0..k).filter_map(|_| find(src, &Ty::argument)).collect();
                    let params = ps.iter().map(|p| es[*p].ty.clone()).collect();
                    let ret = es[r].ty.clone();
                    let mut parts = vec![r];
                    parts.extend(ps);
                    (Ty::Function { ret, params, vararg: src.chance(1, 3) }, parts)
                }
            },
            3 => match find(src, &Ty::pointee) {
                None => (Ty::Integer(8), vec![]),
                Some(t) => (Ty::Pointer(es[t].ty.clone(), address_space(src)), vec![t]),
            },
            4 => (Ty::OpaquePointer(address_space(src)), vec![]),
            5 => {
                let named = src.below(3);
                let name = match named {
                    0 => None,
                    _ if src.chance(1, 5) => None,
                    _ => {
                        // Nothing keeps two of them from having the same name.
                        let last = es.iter().rev().find_map(|e| match &*e.ty {
                            Ty::Struct { name: Some(n), .. } => Some(n.clone()),
                            _ => None,
                        });
                        match last {
                            Some(n) if src.chance(1, 8) => Some(n),
                            _ => Some(string(src, 12)),
                        }
                    }
                };
                let k = if deep { 1 } else if src.chance(1, 300) { src.range(10, 280) } else { src.len(5) };
                let mut ps: Vec<usize> = (0..k).filter_map(|_| find(src, &Ty::struct_element)).collect();
                if deep && src.chance(1, 4) {
                    // More fields, which don't make it much larger.
                    let small: Vec<usize> =
                        (0..es.len()).filter(|i| es[*i].size.0 <= 2 && es[*i].ty.struct_element()).collect();
                    for _ in 0..src.range(1, 9) {
                        if !small.is_empty() {
                            ps.push(*src.pick(&small));
                        }
                    }
                    let at = if ps.is_empty() { 0 } else { src.below(ps.len()) };
                    ps.rotate_left(at);
                }
                let fields = ps.iter().map(|p| es[*p].ty.clone()).collect();
                (Ty::Struct { name, fields, packed: src.chance(1, 3) }, ps)
            }
            6 => match find(src, &Ty::array_element) {
                None => (Ty::Simple(Double), vec![]),
                Some(t) => (Ty::Array(src.u64(), es[t].ty.clone()), vec![t]),
            },
            7 => match find(src, &Ty::vector_element) {
                None => (Ty::Simple(Float), vec![]),
                Some(t) => {
                    let n = src.bits(33).max(1);
                    (Ty::Vector { n, elem: es[t].ty.clone(), scalable: src.chance(1, 3) }, vec![t])
                }
            },
            _ => (Ty::Simple(src.pick(SIMPLE).0), vec![]),
        };
        let size = ty.size();
        let small = if deep { size.0 <= 1000 && size.1 <= 120 } else { size.0 <= 300 && size.1 <= 60 };
        es.push(match small {
            true => Entry { ty: Arc::new(ty), parts, size },
            false => Entry { ty: Arc::new(Ty::Integer(32)), parts: vec![], size: (1, 1) },
        });
        if want_function && es.len() == n && !es.iter().any(|e| matches!(*e.ty, Ty::Function { .. })) {
            // There was nothing to make a function type of.
            es.push(Entry {
                ty: Arc::new(Ty::Simple(Void)),
                parts: vec![],
                size: (1, 1),
            });
            let r = es.len() - 1;
            let ty = Ty::Function { ret: es[r].ty.clone(), params: vec![], vararg: false };
            let size = ty.size();
            es.push(Entry { ty: Arc::new(ty), parts: vec![r], size });
        }
    }
    let _ = es.iter().map(|e| e.size).max();

    // The order in the table: definitions before or after their uses.
    let mut order: Vec<usize> = (0..es.len()).collect();
    if src.chance(1, 2) {
        for i in (1..order.len()).rev() {
            let j = src.below(i + 1);
            order.swap(i, j);
        }
    }
    let mut index = vec![0usize; es.len()];
    for (at, e) in order.iter().enumerate() {
        index[*e] = at;
    }

    let mut t = Types::default();
    let push = |t: &mut Types, r: Rec, defines: Option<usize>| {
        t.recs.push(r);
        t.defines.push(defines);
    };
    push(&mut t, Rec { code: 1, fields: vec![es.len() as u64] }, None);
    for (at, e) in order.iter().enumerate() {
        let e = &es[*e];
        let refs: Vec<u64> = e.parts.iter().map(|p| index[*p] as u64).collect();
        t.forward |= refs.iter().any(|r| *r > at as u64);
        let (code, mut fields, first_ref) = match &*e.ty {
            Ty::Simple(s) => (SIMPLE.iter().find(|x| x.0 == *s).unwrap().1, vec![], 0),
            Ty::Integer(w) => (7, vec![*w as u64], 1),
            Ty::Function { vararg, .. } => (21, vec![*vararg as u64], 1),
            Ty::Pointer(..) => (8, vec![], 0),
            Ty::OpaquePointer(a) => (25, vec![*a as u64], 1),
            Ty::Struct { name, fields, packed } => {
                // Structures without a name and elements can be opaque ones as well.
                let c = if fields.is_empty() && !*packed && src.chance(1, 2) {
                    6
                } else if name.is_some() || src.chance(1, 3) {
                    20
                } else {
                    18
                };
                if let Some(name) = name {
                    let b = name.as_bytes();
                    // Names can be split up, as long as each part is a string on its own.
                    let cuts: Vec<usize> =
                        (2..b.len().saturating_sub(1)).filter(|i| name.is_char_boundary(*i)).collect();
                    if !cuts.is_empty() && src.chance(1, 6) {
                        let c = *src.pick(&cuts);
                        push(&mut t, Rec { code: 19, fields: text(src, &b[..c]) }, None);
                        push(&mut t, Rec { code: 19, fields: text(src, &b[c..]) }, None);
                    } else {
                        push(&mut t, Rec { code: 19, fields: text(src, b) }, None);
                    }
                }
                (c, vec![*packed as u64], 1)
            }
            Ty::Array(n, _) => (11, vec![*n], 1),
            Ty::Vector { n, .. } => (12, vec![*n], 1),
        };
        fields.extend(&refs);
        let i = t.recs.len();
        for k in 0..refs.len() {
            t.refs.push((i, first_ref + k));
        }
        match &*e.ty {
            Ty::Pointer(_, a) if *a != 0 || src.chance(3, 4) => fields.push(*a as u64),
            Ty::Vector { scalable: true, .. } => fields.push(1),
            Ty::Vector { .. } if src.chance(1, 4) => fields.push(0),
            _ => {}
        }
        push(&mut t, Rec { code, fields }, Some(at));
        t.tys.push(e.ty.clone());
    }
    t
}

pub fn int_width(src: &mut Src) -> u32 {
    match src.weighted(&[4, 2, 1]) {
        0 => *src.pick(&[1, 8, 16, 32, 64, 128]),
        1 => 1 + src.bits(8) as u32,
        _ => (1 + src.bits(24)).min((1 << 24) - 1) as u32,
    }
}

// ---------------------------------------------------------------------------------------------
// Attributes

#[derive(Debug, Clone, PartialEq)]
pub enum Attr {
    Enum(u64),
    Int(u64, u64),
    Str(String),
    StrKv(String, String),
}

impl Attr {
    /// `wide`: with the sign of characters extended, as LLVM does it.
    pub fn fields(&self, wide: bool) -> Vec<u64> {
        let z = |s: &String| {
            let mut f = str_fields(s.as_bytes());
            if wide {
                f.iter_mut().for_each(|c| *c = *c as u8 as i8 as u64);
            }
            f.push(0);
            f
        };
        match self {
            Attr::Enum(k) => vec![0, *k],
            Attr::Int(k, v) => vec![1, *k, *v],
            Attr::Str(k) => [vec![3], z(k)].concat(),
            Attr::StrKv(k, v) => [vec![4], z(k), z(v)].concat(),
        }
    }
    /// Whether the given attribute is this one.
    pub fn is(&self, got: &Attribute) -> bool {
        match (self, got) {
            (Attr::Enum(k), Attribute::Enum(e)) => llvm::enum_attribute(*k).is_some_and(|k| llvm::is(e, k)),
            (Attr::Str(k), Attribute::Str(g)) => k == g,
            (Attr::StrKv(k, v), Attribute::StrKeyValue(g, h)) => k == g && v == h,
            (Attr::Int(k, v), Attribute::Int(g)) => {
                let (k, v) = (*k, *v);
                let align = |m: &MaybeAlign| *m == align_of(v).expect("valid alignment");
                let (hi, lo) = ((v >> 32) as u32, v as u32);
                match g {
                    IntAttribute::Alignment(m) => k == llvm::ALIGNMENT && align(m),
                    IntAttribute::StackAlignment(m) => k == llvm::STACK_ALIGNMENT && align(m),
                    IntAttribute::Dereferenceable(n) => k == llvm::DEREFERENCEABLE && *n == v,
                    IntAttribute::DereferenceableOrNull(n) => k == llvm::DEREFERENCEABLE_OR_NULL && *n == v,
                    IntAttribute::AllocSize(e, n) => {
                        k == llvm::ALLOC_SIZE && *e == hi && *n == (lo != u32::MAX).then_some(lo)
                    }
                    // An unbounded maximum can be reported either way.
                    IntAttribute::VScaleRange(min, max) => {
                        k == llvm::VSCALE_RANGE && *min == hi && (*max == lo || lo == 0 && *max == hi)
                    }
                    IntAttribute::UwTable(t) => {
                        k == llvm::UW_TABLE
                            && llvm::is(
                                t,
                                match v {
                                    0 => "None",
                                    1 => "Sync",
                                    _ => "Async",
                                },
                            )
                    }
                    IntAttribute::AllocKind(n) => k == llvm::ALLOC_KIND && *n == v,
                    IntAttribute::MemoryKind(n) => k == llvm::MEMORY && *n == v,
                    _ => false,
                }
            }
            _ => false,
        }
    }
}

/// The alignment for a number of bytes; 0 means none.
pub fn align_of(bytes: u64) -> Option<MaybeAlign> {
    if bytes == 0 {
        MaybeAlign::try_from(0).ok()
    } else if bytes.is_power_of_two() {
        MaybeAlign::try_from(bytes.trailing_zeros() as u8 + 1).ok()
    } else {
        None
    }
}

fn attr_string(src: &mut Src) -> String {
    let s: String = string(src, 14).chars().filter(|c| *c != '\0').collect();
    if s.is_empty() {
        "k".into()
    } else if src.chance(1, 6) {
        s.chars().take(1).collect()
    } else {
        s
    }
}

pub fn gen_attr(src: &mut Src) -> Attr {
    match src.weighted(&[4, 3, 2, 2]) {
        0 => loop {
            let k = 1 + src.upto(85);
            if llvm::enum_attribute(k).is_some() {
                return Attr::Enum(k);
            }
            // Always terminates, even on an exhausted choice sequence.
            if src.chance(1, 2) {
                continue;
            }
            return Attr::Enum(2);
        },
        1 => {
            let k = *src.pick(&[
                llvm::ALIGNMENT,
                llvm::STACK_ALIGNMENT,
                llvm::DEREFERENCEABLE,
                llvm::DEREFERENCEABLE_OR_NULL,
                llvm::ALLOC_SIZE,
                llvm::VSCALE_RANGE,
                llvm::ALLOC_KIND,
                llvm::MEMORY,
                llvm::UW_TABLE,
            ]);
            let v = match k {
                llvm::ALIGNMENT | llvm::STACK_ALIGNMENT => {
                    if src.chance(1, 12) {
                        0
                    } else {
                        1 << src.upto(32)
                    }
                }
                llvm::ALLOC_SIZE => match src.below(3) {
                    0 => (src.bits(32) << 32) | 0xffff_ffff,
                    _ => src.u64().max(1),
                },
                llvm::UW_TABLE => src.upto(2),
                _ => src.u64(),
            };
            Attr::Int(k, v)
        }
        2 => Attr::Str(attr_string(src)),
        _ => Attr::StrKv(attr_string(src), attr_string(src)),
    }
}

#[derive(Debug, Clone)]
pub struct Group {
    pub id: u64,
    pub param: u64,
    pub attrs: Vec<Attr>,
    pub wide: bool,
}

impl Group {
    pub fn rec(&self) -> Rec {
        let mut fields = vec![self.id, self.param];
        for a in &self.attrs {
            fields.extend(a.fields(self.wide));
        }
        Rec { code: 3, fields }
    }
}

pub fn gen_groups(src: &mut Src, max: usize) -> Vec<Group> {
    let many = src.chance(1, 1000);
    let n = count(src, max, many);
    let mut groups: Vec<Group> = vec![];
    let sequential = src.chance(1, 2);
    for i in 0..n {
        let id = if sequential { i as u64 + 1 } else { src.bits(32) };
        if groups.iter().any(|g| g.id == id) {
            continue;
        }
        let param = match src.weighted(&[2, 2, 3, 1]) {
            0 => 0xffff_ffff,
            1 => 0,
            2 => 1 + src.upto(5),
            _ => src.bits(32),
        };
        let k = if src.chance(1, 500) { src.range(10, 300) } else { 1 + src.len(5) };
        let attrs = match groups.last() {
            Some(g) if src.chance(1, 12) => g.attrs.clone(),
            _ => (0..k).map(|_| gen_attr(src)).collect(),
        };
        let wide = src.chance(1, 4);
        groups.push(Group { id, param, attrs, wide });
    }
    groups
}

/// Attribute lists, as indices of groups.
pub fn gen_lists(src: &mut Src, groups: &[Group], max: usize) -> Vec<Vec<usize>> {
    if groups.is_empty() {
        return vec![];
    }
    let many = src.chance(1, 500);
    let n = count(src, max, many);
    let mut lists: Vec<Vec<usize>> = vec![];
    for _ in 0..n {
        let k = if src.chance(1, 500) { src.range(10, 300) } else { let m = *src.pick(&[4, 8]); src.len(m) };
        let list = match lists.last() {
            // The same one again has a number of its own.
            Some(l) if src.chance(1, 12) => l.clone(),
            _ => (0..k).map(|_| src.below(groups.len())).collect(),
        };
        lists.push(list);
    }
    lists
}

// ---------------------------------------------------------------------------------------------
// String tables

#[derive(Debug, Clone, Default)]
pub struct StrtabBuilder {
    pub bytes: Vec<u8>,
    names: Vec<(usize, String)>,
}

impl StrtabBuilder {
    /// Adds a name; returns where it is.
    pub fn name(&mut self, src: &mut Src) -> (u64, u64, String) {
        match src.weighted(&[5, 2, 1]) {
            1 if !self.names.is_empty() => {
                // A part of an earlier one.
                let (off, s) = src.pick(&self.names).clone();
                let cuts: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
                let a = src.below(cuts.len() - 1);
                let b = src.range(a + 1, cuts.len() - 1);
                let (a, b) = (cuts[a], cuts[b]);
                ((off + a) as u64, (b - a) as u64, s[a..b].to_string())
            }
            2 => {
                // Something that no string ends before, or continues after.
                if src.chance(1, 500) {
                    let b = many_bytes(src);
                    self.bytes.extend(b);
                }
                let junk = src.range(1, 4);
                for _ in 0..junk {
                    let b = if src.chance(1, 2) { 0xff } else { src.byte() };
                    self.bytes.push(b);
                }
                self.add(src)
            }
            _ => self.add(src),
        }
    }
    fn add(&mut self, src: &mut Src) -> (u64, u64, String) {
        let mut s = string(src, 16);
        if src.chance(1, 6) {
            s = s.chars().take(1).collect();
        }
        let off = self.bytes.len();
        self.bytes.extend_from_slice(s.as_bytes());
        self.names.push((off, s.clone()));
        (off as u64, s.len() as u64, s)
    }
    /// Where something that isn't UTF-8 is.
    pub fn bad_name(&mut self, src: &mut Src) -> (u64, u64) {
        let b = not_utf8(src);
        let off = self.bytes.len();
        self.bytes.extend_from_slice(&b);
        (off as u64, b.len() as u64)
    }
}

// ---------------------------------------------------------------------------------------------
// Modules

/// What a mapped module has to look like.
#[derive(Debug, Clone, Default)]
pub struct ModModel {
    pub producer: String,
    pub epoch: u64,
    pub version: u64,
    pub triple: Option<String>,
    pub datalayout: Option<String>,
    pub asm: Option<String>,
    pub deplibs: Vec<String>,
    pub sections: Vec<String>,
    pub gcs: Vec<String>,
    pub types: Types,
    pub groups: Vec<Group>,
    pub lists: Vec<Vec<usize>>,
    pub functions: Vec<FnModel>,
    pub aliases: Vec<AliasModel>,
    pub comdats: Vec<(u64, String)>,
    pub strtab: Vec<u8>,
    pub symtab: Option<Vec<u8>>,
}

#[derive(Debug, Clone)]
pub struct FnModel {
    pub fields: Vec<u64>,
    pub name: String,
}

#[derive(Debug, Clone)]
pub struct AliasModel {
    pub fields: Vec<u64>,
    pub name: String,
}

/// A module's parts, in no particular order yet.
#[derive(Debug, Clone)]
pub struct Mod {
    pub ident: Vec<Node>,
    pub items: Vec<Node>,
    pub model: ModModel,
}

pub struct ModCfg {
    pub types: usize,
    pub groups: usize,
    pub functions: usize,
    pub aliases: usize,
    pub comdats: usize,
    pub strings: usize,
    pub junk: usize,
    pub version: Option<u64>,
}

impl ModCfg {
    pub fn small() -> ModCfg {
        ModCfg {
            types: 6,
            groups: 3,
            functions: 2,
            aliases: 2,
            comdats: 2,
            strings: 3,
            junk: 3,
            version: None,
        }
    }
    /// Only what every module has.
    pub fn bare() -> ModCfg {
        ModCfg {
            types: 0,
            groups: 0,
            functions: 0,
            aliases: 0,
            comdats: 0,
            strings: 0,
            junk: 0,
            version: None,
        }
    }
}

pub const DATALAYOUTS: &[&str] = &[
    "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:128-n8:16:32:64-S128",
    "e-m:o-i64:64-i128:128-n32:64-S128",
    "E-m:e-Fn32-i64:64-n32:64",
    "e-p:64:64:64-p1:64:64:64-p2:32:32:32-i64:64-v16:16-v24:32-S32-A5-G1-ni:7:8:9",
    "e-m:w-p270:32:32",
    "E-S64",
];

/// Records that don't mean anything to a module (or that aren't interpreted).
pub fn junk_module_rec(src: &mut Src) -> Node {
    let c = *src.pick(&[7u64, 9, 10, 13, 15, 16, 17, 18, 19, 20, 21, 0, 63, 4000]);
    let c = if src.chance(1, 12) { 22 + src.u64() / 2 } else { c };
    let n = src.len(10);
    rec(c, (0..n).map(|_| src.u64()).collect::<Vec<_>>())
}

/// How many blocks deep a node is.
fn height(n: &Node) -> usize {
    match n {
        Node::Rec(_) => 0,
        Node::Blk(b) => 1 + b.nodes.iter().map(height).max().unwrap_or(0),
    }
}

/// Blocks that don't mean anything where they are, but contain all sorts of things.
pub fn junk_block(src: &mut Src, avoid: &[u64], depth: usize) -> Node {
    let mut bid = *src.pick(&[11u64, 15, 16, 18, 19, 20, 21, 22, 24, 26, 27, 5, 100, 9, 10, 12, 13, 8, 14, 17, 23, 25]);
    if avoid.contains(&bid) {
        bid = *src.pick(&[11, 15, 22, 26, 1000]);
    }
    let n = src.len(4);
    let nodes = (0..n)
        .map(|_| {
            if depth > 0 && src.chance(1, 3) {
                junk_block(src, &[], depth - 1)
            } else {
                let c = src.upto(26);
                let k = src.len(6);
                rec(c, (0..k).map(|_| src.u64()).collect::<Vec<_>>())
            }
        })
        .collect();
    let mut b = blk(bid, nodes);
    if depth > 0 && height(&b) <= 8 && src.chance(1, 30) {
        // A tower: far deeper than anything LLVM nests, but nothing is wrong with it.
        let floors = src.known(2, 40);
        for _ in 0..floors {
            let id = *src.pick(&[11u64, 15, 12, 18, 26, 100, 8, 9, 17]);
            b = blk(id, vec![b]);
        }
        if avoid.iter().any(|a| matches!(&b, Node::Blk(x) if x.id == *a)) {
            b = blk(1000, vec![b]);
        }
    }
    b
}

/// Shuffles, but keeps the order of nodes of the same kind.
pub fn shuffle(src: &mut Src, nodes: Vec<Node>) -> Vec<Node> {
    fn key(n: &Node) -> (bool, u64) {
        match n {
            Node::Blk(b) => (true, b.id),
            Node::Rec(r) => (false, r.code),
        }
    }
    let mut keys: Vec<(bool, u64)> = nodes.iter().map(key).collect();
    for i in (1..keys.len()).rev() {
        let j = src.below(i + 1);
        keys.swap(i, j);
    }
    let mut kinds: HashMap<(bool, u64), VecDeque<Node>> = HashMap::new();
    for n in nodes {
        kinds.entry(key(&n)).or_default().push_back(n);
    }
    keys.into_iter().filter_map(|k| kinds.get_mut(&k)?.pop_front()).collect()
}

/// A calling convention that LLVM and the code under test know.
pub fn gen_cc(src: &mut Src) -> u64 {
    let c = src.upto(96);
    if llvm::calling_convention(c).is_some() {
        c
    } else {
        0
    }
}

pub fn gen_function(src: &mut Src, m: &ModModel, st: &mut StrtabBuilder) -> FnModel {
    let (off, size, name) = if src.chance(1, 10) {
        (src.bits(20), 0, String::new())
    } else {
        st.name(src)
    };
    let ty = *src.pick(&m.types.functions()) as u64;
    let mut f = vec![off, size, ty, gen_cc(src)];
    // isproto
    f.push(match src.weighted(&[2, 2, 1]) {
        0 => 0,
        1 => 1,
        _ => src.u64(),
    });
    f.push(linkage(src));
    f.push(src.upto(m.lists.len() as u64));
    // alignment
    f.push(match src.weighted(&[2, 3, 1]) {
        0 => 0,
        1 => src.upto(12),
        _ => src.upto(33),
    });
    f.push(src.upto(m.sections.len() as u64));
    f.push(src.upto(2));
    let n = src.upto(9) as usize;
    let rest = [
        src.upto(m.gcs.len() as u64),
        if src.chance(1, 8) { src.u64() } else { src.upto(2) },
        src.u64(),
        src.upto(2),
        src.u64(),
        src.u64(),
        src.u64(),
        src.u64(),
        src.u64(),
    ];
    f.extend(&rest[..n]);
    FnModel { fields: f, name }
}

pub fn linkage(src: &mut Src) -> u64 {
    if src.chance(1, 10) {
        src.u64()
    } else {
        src.upto(20)
    }
}

pub fn gen_alias(src: &mut Src, m: &ModModel, st: &mut StrtabBuilder) -> AliasModel {
    let (off, size, name) = if src.chance(1, 10) {
        (src.bits(20), 0, String::new())
    } else {
        st.name(src)
    };
    let ty = src.below(m.types.tys.len()) as u64;
    let mut f = vec![off, size, ty, src.u64(), src.u64(), linkage(src)];
    let n = src.upto(8) as usize;
    let free = |src: &mut Src, max: u64| if src.chance(1, 8) { src.u64() } else { src.upto(max) };
    let rest = [
        src.upto(2),
        src.upto(2),
        free(src, 4),
        free(src, 2),
        free(src, 1),
        src.u64(),
        src.u64(),
        src.u64(),
    ];
    f.extend(&rest[..n]);
    AliasModel { fields: f, name }
}

pub fn gen_ident(src: &mut Src, junk: usize) -> (Vec<Node>, String, u64) {
    let producer = string(src, 20);
    let epoch = src.u64();
    let mut nodes = vec![rec(1, text(src, producer.as_bytes())), rec(2, ident_epoch(src, epoch))];
    let n = src.len(junk);
    for _ in 0..n {
        let node = if src.chance(1, 3) {
            junk_block(src, &[], 1)
        } else {
            let c = *src.pick(&[0u64, 3, 4, 63]);
            let k = src.len(5);
            rec(c, (0..k).map(|_| src.u64()).collect::<Vec<_>>())
        };
        nodes.push(node);
    }
    (nodes, producer, epoch)
}

fn ident_epoch(src: &mut Src, epoch: u64) -> Vec<u64> {
    let mut f = vec![epoch];
    if src.chance(1, 8) {
        f.push(src.u64());
    }
    f
}

pub fn gen_module(src: &mut Src, cfg: &ModCfg, st: &mut StrtabBuilder) -> Mod {
    // Now and then, very many of some kind of thing.
    let many = if src.chance(1, 1000) { 1 + src.below(6) } else { 0 };
    let (ident, producer, epoch) = gen_ident(src, cfg.junk);
    let mut m = ModModel { producer, epoch, ..Default::default() };
    let mut items = vec![];

    let with_names = cfg.functions + cfg.aliases + cfg.comdats > 0;
    m.version = match cfg.version {
        Some(v) => v,
        None if with_names => match src.weighted(&[8, 1]) {
            0 => 2,
            _ => src.u64().max(2),
        },
        None => *src.pick(&[2, 1, 0, 3]),
    };
    let mut version = vec![m.version];
    if src.chance(1, 8) {
        version.push(src.u64());
    }
    items.push(rec(code::VERSION, version));

    if src.chance(3, 4) {
        let s = match src.chance(1, 3) {
            true => "x86_64-pc-linux-gnu".into(),
            false => string(src, 24),
        };
        items.push(rec(code::TRIPLE, text(src, s.as_bytes())));
        m.triple = Some(s);
    }
    if src.chance(1, 2) {
        let s = src.pick(DATALAYOUTS).to_string();
        items.push(rec(code::DATALAYOUT, str_fields(s.as_bytes())));
        m.datalayout = Some(s);
    }
    if src.chance(1, 2) {
        let mut s = String::new();
        let n = src.range(1, 4);
        for i in 0..n {
            if i > 0 || src.chance(1, 8) {
                s.push('\n');
            }
            if src.chance(1, 12) {
                // The same line again.
                let last = s.trim_end_matches('\n').rsplit('\n').next().unwrap_or("").to_string();
                s.push_str(&last);
            } else if !src.chance(1, 6) {
                s.push_str(&string(src, 10));
            }
        }
        while s.len() < 2 {
            s.push('\n');
        }
        items.push(rec(code::ASM, text(src, s.as_bytes())));
        m.asm = Some(s);
    }
    for (c, out) in [
        (code::SECTION, &mut m.sections),
        (code::GC, &mut m.gcs),
        (code::DEPLIB, &mut m.deplibs),
    ] {
        let n = count(src, cfg.strings, cfg.strings > 0 && many == 1);
        for _ in 0..n {
            let s = match !out.is_empty() && src.chance(1, 12) {
                true => src.pick(out).clone(),
                false => string(src, 12),
            };
            items.push(rec(c, text(src, s.as_bytes())));
            out.push(s);
        }
    }

    let named = cfg.functions > 0 || cfg.aliases > 0;
    m.types = if many == 2 && cfg.types > 0 {
        let n = count(src, 0, true);
        gen_n_types(src, n, named, false)
    } else {
        gen_types(src, cfg.types, named)
    };
    items.push(m.types.node());
    let n = src.len(3);
    let vst = (0..n)
        .map(|_| {
            let c = src.upto(6);
            let k = src.len(5);
            rec(c, (0..k).map(|_| src.u64()).collect::<Vec<_>>())
        })
        .collect();
    items.push(blk(id::VST, vst));

    if cfg.groups > 0 && src.chance(3, 4) {
        m.groups = gen_groups(src, cfg.groups);
        items.push(blk(id::PARAMATTR_GROUP, m.groups.iter().map(|g| Node::Rec(g.rec())).collect()));
        if src.chance(5, 6) {
            m.lists = gen_lists(src, &m.groups, cfg.groups);
            items.push(blk(
                id::PARAMATTR,
                m.lists
                    .iter()
                    .map(|l| rec(2, l.iter().map(|g| m.groups[*g].id).collect::<Vec<_>>()))
                    .collect(),
            ));
        }
    }

    let n = count(src, cfg.comdats, cfg.comdats > 0 && many == 3);
    for _ in 0..n {
        let (off, size, name) = st.name(src);
        let kind = 1 + src.upto(4);
        items.push(rec(code::COMDAT, vec![off, size, kind]));
        m.comdats.push((kind, name));
    }
    if cfg.functions > 0 {
        let n = count(src, cfg.functions, many == 4);
        for _ in 0..n {
            let f = gen_function(src, &m, st);
            items.push(rec(code::FUNCTION, f.fields.clone()));
            m.functions.push(f);
        }
    }
    if cfg.aliases > 0 {
        let n = count(src, cfg.aliases, many == 5);
        for _ in 0..n {
            let a = gen_alias(src, &m, st);
            items.push(rec(code::ALIAS, a.fields.clone()));
            m.aliases.push(a);
        }
    }

    let n = count(src, cfg.junk, cfg.junk > 0 && many == 6);
    for _ in 0..n {
        let node = if src.chance(1, 3) {
            junk_block(
                src,
                &[id::TYPE, id::VST, id::PARAMATTR, id::PARAMATTR_GROUP, id::FUNCTION],
                2,
            )
        } else {
            junk_module_rec(src)
        };
        items.push(node);
    }
    Mod { ident, items, model: m }
}

/// Bytes for a string table or symbol table: at least two.
pub fn gen_blob(src: &mut Src, max: usize) -> Vec<u8> {
    if src.chance(1, 1500) {
        return many_bytes(src);
    }
    let n = 2 + src.len(max - 2);
    src.bytes(n)
}

pub fn blob_block(src: &mut Src, bid: u64, bytes: &[u8], junk: usize) -> Blk {
    let mut nodes = vec![rec(1, str_fields(bytes))];
    let n = src.len(junk);
    for _ in 0..n {
        let node = if src.chance(1, 3) {
            junk_block(src, &[], 1)
        } else {
            let c = *src.pick(&[0u64, 2, 3, 63]);
            let k = src.len(5);
            rec(c, (0..k).map(|_| src.u64()).collect::<Vec<_>>())
        };
        nodes.push(node);
    }
    Blk { id: bid, nodes: shuffle(src, nodes) }
}

/// A bitcode file: what is in it, and what has to be reported for it.
pub struct File {
    pub tops: Vec<Blk>,
    pub models: Vec<ModModel>,
}

/// Puts modules into a file. Every `group` of modules shares a string table.
pub fn assemble(src: &mut Src, groups: Vec<(Vec<Mod>, StrtabBuilder)>, junk: usize) -> File {
    let mut tops = vec![];
    let mut models: Vec<ModModel> = vec![];
    let mut without_symtab = 0;
    for (mods, mut st) in groups {
        let first = models.len();
        for m in mods {
            let ident = shuffle(src, m.ident);
            tops.push(Blk { id: id::IDENTIFICATION, nodes: ident });
            let items = shuffle(src, m.items);
            tops.push(Blk { id: id::MODULE, nodes: items });
            models.push(m.model);
        }
        while st.bytes.len() < 2 {
            st.bytes.push(src.byte());
        }
        let strtab = blob_block(src, id::STRTAB, &st.bytes, junk);
        for m in &mut models[first..] {
            m.strtab = st.bytes.clone();
        }
        let symtab = if src.chance(1, 2) { Some(gen_blob(src, 40)) } else { None };
        match symtab {
            Some(b) => {
                let block = blob_block(src, id::SYMTAB, &b, junk);
                if src.chance(1, 3) {
                    tops.push(block);
                    tops.push(strtab);
                } else {
                    tops.push(strtab);
                    tops.push(block);
                }
                for m in &mut models[without_symtab..] {
                    m.symtab = Some(b.clone());
                }
                without_symtab = models.len();
            }
            None => tops.push(strtab),
        }
    }
    File { tops, models }
}

/// A file with a single module.
pub fn single(src: &mut Src, m: Mod, st: StrtabBuilder, junk: usize) -> File {
    assemble(src, vec![(vec![m], st)], junk)
}

/// Like [`single`], but now and then in company: of modules before it, which mustn't matter to it,
/// and (unless `last`) after it.
pub fn in_company(src: &mut Src, m: Mod, st: StrtabBuilder, junk: usize, last: bool) -> File {
    let f = single(src, m, st, junk);
    if !src.chance(1, 8) {
        return f;
    }
    let cfg = ModCfg { types: 12, groups: 8, functions: 2, aliases: 2, comdats: 4, strings: 4, junk: 1, version: Some(2) };
    let mut other = |src: &mut Src| {
        let mut st = StrtabBuilder::default();
        let m = gen_module(src, &cfg, &mut st);
        single(src, m, st, junk)
    };
    let before = other(src);
    let f = before.then(f);
    if !last && src.chance(1, 3) {
        let after = other(src);
        return f.then(after);
    }
    f
}

impl File {
    fn then(mut self, next: File) -> File {
        // Modules without a symbol table get the next one there is.
        let symtab = next.models.first().and_then(|m| m.symtab.clone());
        for m in self.models.iter_mut().rev().take_while(|m| m.symtab.is_none()) {
            m.symtab = symtab.clone();
        }
        self.tops.extend(next.tops);
        self.models.extend(next.models);
        self
    }
}

pub fn encode_file(src: &mut Src, tops: &[Blk]) -> (Vec<u8>, Encoded) {
    let opts = if src.chance(1, 4) { Opts::plain() } else { Opts::normal(src) };
    let enc = encode(src, tops, &opts);
    (with_magic(IR_MAGIC, &enc.bytes), enc)
}

// ---------------------------------------------------------------------------------------------
// Comparing

/// What the public API reports.
pub fn check_public(models: &[ModModel], got: &Bitcode) -> Result<(), String> {
    ensure!(
        got.modules.len() == models.len(),
        "expected {} modules, got {}",
        models.len(),
        got.modules.len()
    );
    for (i, (m, g)) in models.iter().zip(&got.modules).enumerate() {
        let p = |what: &str, want: &dyn std::fmt::Debug, got: &dyn std::fmt::Debug| {
            Err(crate::util::short(format!("module {i}: {what}: expected {want:?}, got {got:?}")))
        };
        if g.identification.producer != m.producer {
            return p("producer", &m.producer, &g.identification.producer);
        }
        if g.identification.epoch != m.epoch {
            return p("epoch", &m.epoch, &g.identification.epoch);
        }
        let triple = m.triple.as_deref().unwrap_or(llvm_support::TARGET_TRIPLE);
        if g.module.triple != triple {
            return p("triple", &triple, &g.module.triple);
        }
        let asm: Vec<&str> = m.asm.as_ref().map(|a| a.split('\n').collect()).unwrap_or_default();
        if g.module.asm != asm {
            return p("assembly", &asm, &g.module.asm);
        }
        if g.module.deplibs != m.deplibs {
            return p("dependent libraries", &m.deplibs, &g.module.deplibs);
        }
        if g.strtab.as_ref() != m.strtab {
            return p("string table", &m.strtab, &g.strtab.as_ref());
        }
        match (&g.symtab, &m.symtab) {
            (None, None) => {}
            (Some(g), Some(m)) if g.as_ref() == m => {}
            (g, w) => return p("symbol table", w, &g.as_ref().map(|g| g.as_ref())),
        }
    }
    Ok(())
}

/// A function's fields, against the record they come from.
#[cfg(mollusc_verif)]
pub fn check_function(
    view: &crate::view::View<'_>,
    m: &ModModel,
    w: &FnModel,
    g: &llvm_mapper::record::Function<'_>,
) -> Result<(), String> {
    let f = &w.fields;
    ensure!(g.name == w.name, "name: expected {:?}, got {:?}", w.name, g.name);
    let Ok(Type::Function(ty)) = m.types.tys[f[2] as usize].build() else {
        return Err("model".into());
    };
    ensure!(*g.ty == ty, "type: expected {ty:?}, got {:?}", g.ty);
    let Some(Type::Function(entry)) = view.ty(f[2]) else {
        return Err(format!("type: entry {} of the type table isn't a function type", f[2]));
    };
    ensure!(*g.ty == *entry, "type: it isn't entry {} of the type table", f[2]);
    let cc = llvm::calling_convention(f[3]).unwrap();
    ensure!(llvm::is(&g.calling_convention, cc), "calling convention {}: got {:?}", f[3], g.calling_convention);
    ensure!(g.is_declaration == (f[4] != 0), "isproto {}: got {}", f[4], g.is_declaration);
    ensure!(llvm::is(&g.linkage, llvm::linkage(f[5])), "linkage {}: got {:?}", f[5], g.linkage);
    match (f[6], g.attributes) {
        (0, None) => {}
        (n, Some(a)) if n > 0 => check_list(m, &m.lists[n as usize - 1], a.verif_groups())?,
        (n, a) => return Err(format!("paramattr {n}: got {a:?}")),
    }
    let align = MaybeAlign::try_from(f[7] as u8).unwrap();
    ensure!(g.alignment == align, "alignment {}: got {:?}", f[7], g.alignment);
    let nth = |v: &Vec<String>, n: u64| (n > 0).then(|| v[n as usize - 1].clone());
    let section = nth(&m.sections, f[8]);
    ensure!(g.section == section.as_deref(), "section {}: got {:?}", f[8], g.section);
    ensure!(
        llvm::visibility(f[9]).is_some_and(|v| llvm::is(&g.visibility, v)),
        "visibility {}: got {:?}",
        f[9],
        g.visibility
    );
    let gc = nth(&m.gcs, f.get(10).copied().unwrap_or(0));
    ensure!(g.gc_name == gc.as_deref(), "gc {:?}: got {:?}", f.get(10), g.gc_name);
    let ua = llvm::unnamed_addr(f.get(11).copied().unwrap_or(0)).unwrap_or("None");
    ensure!(llvm::is(&g.unnamed_addr, ua), "unnamed_addr {:?}: got {:?}", f.get(11), g.unnamed_addr);
    let dll = llvm::dll_storage_class(f.get(13).copied().unwrap_or(0)).unwrap();
    ensure!(llvm::is(&g.storage_class, dll), "storage class {:?}: got {:?}", f.get(13), g.storage_class);
    Ok(())
}

#[cfg(mollusc_verif)]
pub fn check_alias(
    view: &crate::view::View<'_>,
    m: &ModModel,
    w: &AliasModel,
    g: &llvm_mapper::record::Alias<'_>,
) -> Result<(), String> {
    let f = &w.fields;
    ensure!(g.name == w.name, "name: expected {:?}, got {:?}", w.name, g.name);
    m.types.tys[f[2] as usize].same(g.ty)?;
    ensure!(view.ty(f[2]) == Some(g.ty), "type: it isn't entry {} of the type table", f[2]);
    ensure!(g.value_index == f[4], "aliasee {}: got {}", f[4], g.value_index);
    ensure!(llvm::is(&g.linkage, llvm::linkage(f[5])), "linkage {}: got {:?}", f[5], g.linkage);
    let at = |i: usize| f.get(i).copied().unwrap_or(0);
    let visibility = llvm::visibility(at(6)).unwrap();
    ensure!(llvm::is(&g.visibility, visibility), "visibility {:?}: got {:?}", f.get(6), g.visibility);
    let dll = llvm::dll_storage_class(at(7)).unwrap();
    ensure!(llvm::is(&g.storage_class, dll), "storage class {:?}: got {:?}", f.get(7), g.storage_class);
    let tls = llvm::thread_local_mode(at(8)).unwrap_or("GeneralDynamicTls");
    ensure!(llvm::is(&g.tls_mode, tls), "thread-local mode {:?}: got {:?}", f.get(8), g.tls_mode);
    let ua = llvm::unnamed_addr(at(9)).unwrap_or("None");
    ensure!(llvm::is(&g.unnamed_addr, ua), "unnamed_addr {:?}: got {:?}", f.get(9), g.unnamed_addr);
    let pre = llvm::preemption(at(10)).unwrap_or("DsoPreemptable");
    ensure!(
        llvm::is(&g.preemption_specifier, pre),
        "preemption {:?}: got {:?}",
        f.get(10),
        g.preemption_specifier
    );
    Ok(())
}

pub fn check_comdat(w: &(u64, String), g: &llvm_mapper::record::Comdat) -> Result<(), String> {
    ensure!(g.name == w.1, "name: expected {:?}, got {:?}", w.1, g.name);
    let k = match format!("{:?}", g.selection_kind).as_str() {
        "Any" => 1,
        "ExactMatch" => 2,
        "Largest" => 3,
        "NoDeduplicate" => 4,
        "SameSize" => 5,
        _ => 0,
    };
    ensure!(k == w.0, "selection kind {}: got {:?}", w.0, g.selection_kind);
    Ok(())
}

pub fn check_group(w: &Group, g: &llvm_mapper::block::AttributeGroup) -> Result<(), String> {
    use llvm_mapper::block::AttributeGroupDisposition as D;
    let target = match g.disposition {
        D::Return => 0,
        D::Parameter(n) => n as u64,
        D::Function => 0xffff_ffff,
    };
    ensure!(
        target == w.param && !matches!(g.disposition, D::Parameter(0 | u32::MAX)),
        "group {}: expected the target {}, got {:?}",
        w.id,
        w.param,
        g.disposition
    );
    ensure!(
        g.attributes.len() == w.attrs.len() && w.attrs.iter().zip(&g.attributes).all(|(w, g)| w.is(g)),
        "group {}: expected the attributes {:?}, got {:?}",
        w.id,
        w.attrs,
        g.attributes
    );
    Ok(())
}

pub fn check_list(
    m: &ModModel,
    want: &[usize],
    got: &[llvm_mapper::block::AttributeGroup],
) -> Result<(), String> {
    ensure!(want.len() == got.len(), "expected {} attribute groups, got {}", want.len(), got.len());
    want.iter().zip(got).try_for_each(|(w, g)| check_group(&m.groups[*w], g))
}

#[cfg(mollusc_verif)]
pub fn check_view(m: &ModModel, view: &crate::view::View<'_>) -> Result<(), String> {
    let ctx = view.ctx;
    ensure!(ctx.version == m.version, "version: expected {}, got {}", m.version, ctx.version);
    ensure!(
        ctx.section_table == &m.sections[..],
        "sections: expected {:?}, got {:?}",
        m.sections,
        ctx.section_table
    );
    ensure!(ctx.gc_table == &m.gcs[..], "collectors: expected {:?}, got {:?}", m.gcs, ctx.gc_table);
    ensure!(ctx.strtab.as_ref() == m.strtab, "string table: expected {:?}", m.strtab);
    ensure!(ctx.use_strtab() == (m.version >= 2), "version {}: use_strtab", m.version);
    ensure!(ctx.use_relative_ids() == (m.version >= 1), "version {}: use_relative_ids", m.version);
    let dl = match &m.datalayout {
        Some(s) => s.parse().map_err(|e| format!("data layout {s:?}: {e}"))?,
        None => llvm_mapper::record::DataLayout::default(),
    };
    ensure!(
        format!("{dl:?}") == format!("{:?}", ctx.datalayout),
        "data layout: expected {:?}, got {:?}",
        m.datalayout,
        ctx.datalayout
    );
    for (i, t) in m.types.tys.iter().enumerate() {
        let g = view.ty(i as u64).ok_or_else(|| format!("type {i} is missing"))?;
        t.same(g).map_err(|e| format!("type {i}: {e}"))?;
    }
    let n = m.types.tys.len() as u64;
    for i in [n, n + 1, u64::MAX] {
        ensure!(view.ty(i).is_none(), "there are {n} types, but there is a type {i}");
    }
    for g in &m.groups {
        let got = view.attribute_group(g.id as u32).ok_or_else(|| format!("group {} is missing", g.id))?;
        check_group(g, got)?;
    }
    for (i, l) in m.lists.iter().enumerate() {
        let got = view.attributes(i as u64).ok_or_else(|| format!("attribute list {i} is missing"))?;
        check_list(m, l, got).map_err(|e| format!("attribute list {i}: {e}"))?;
    }
    let n = m.lists.len() as u64;
    ensure!(view.attributes(n).is_none(), "there are {n} attribute lists, but there is a list {n}");
    ensure!(
        view.functions.len() == m.functions.len(),
        "expected {} functions, got {}",
        m.functions.len(),
        view.functions.len()
    );
    for (i, (w, g)) in m.functions.iter().zip(view.functions).enumerate() {
        check_function(view, m, w, g).map_err(|e| format!("function {i} ({:?}): {e}", w.fields))?;
    }
    ensure!(
        view.aliases.len() == m.aliases.len(),
        "expected {} aliases, got {}",
        m.aliases.len(),
        view.aliases.len()
    );
    for (i, (w, g)) in m.aliases.iter().zip(view.aliases).enumerate() {
        check_alias(view, m, w, g).map_err(|e| format!("alias {i} ({:?}): {e}", w.fields))?;
    }
    ensure!(
        ctx.comdats.len() == m.comdats.len(),
        "expected {} COMDATs, got {}",
        m.comdats.len(),
        ctx.comdats.len()
    );
    for (i, (w, g)) in m.comdats.iter().zip(ctx.comdats).enumerate() {
        check_comdat(w, g).map_err(|e| format!("COMDAT {i}: {e}"))?;
    }
    Ok(())
}

/// Maps a file that is expected to map, and compares everything about it.
pub fn check_file(bytes: &[u8], models: &[ModModel]) -> Result<(), String> {
    let errors: Arc<RefCell<(usize, Vec<String>)>> = Default::default();
    #[cfg(mollusc_verif)]
    {
        let models = models.to_vec();
        let errors = errors.clone();
        llvm_mapper::verif::set_observer(Some(Box::new(move |view| {
            let mut e = errors.borrow_mut();
            let i = e.0;
            e.0 += 1;
            if let Some(m) = models.get(i) {
                if let Err(m) = check_view(m, view) {
                    e.1.push(crate::util::short(format!("module {i}: {m}")));
                }
            }
        })));
    }
    let r = Bitcode::try_from(bytes);
    crate::view::reset();
    let (_seen, errs) = &*errors.borrow();
    match r {
        Err(e) => Err(crate::util::short(format!("refused: {}", chain(&e)))),
        Ok(b) => {
            check_public(models, &b)?;
            if let Some(e) = errs.first() {
                return Err(e.clone());
            }
            #[cfg(mollusc_verif)]
            ensure!(*_seen == models.len(), "{} modules were mapped, not {}", _seen, models.len());
            Ok(())
        }
    }
}

pub fn chain(e: &dyn std::error::Error) -> String {
    let mut s = e.to_string();
    let mut e = e.source();
    while let Some(x) = e {
        s.push_str(&format!(": {x}"));
        e = x.source();
    }
    s
}

/// Maps a file that has to be refused.
pub fn check_refused(bytes: &[u8], what: &str) -> Result<(), String> {
    match Bitcode::try_from(bytes) {
        Err(_) => Ok(()),
        Ok(b) => Err(crate::util::short(format!("{what}: not refused, but mapped to {b:?}"))),
    }
}

/// For shifts only: the alignment with the given shift.
pub fn shift(n: u8) -> Align {
    Align::from_shift(n).unwrap()
}
