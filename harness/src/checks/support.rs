//! C20-C25: data layouts, alignments, types and the tables of numbers.

use std::collections::BTreeMap;
use std::mem::discriminant;
use std::sync::Arc;

use llvm_mapper::block::{BlockId, EnumAttribute};
use llvm_mapper::record::DataLayout;
use llvm_mapper::Bitcode;
use llvm_support::bitcodes::*;
use llvm_support::*;

use super::BASE;
use crate::bc::{self, *};
use crate::engine::*;
use crate::llvm;
use crate::stream::{rec, str_fields, Node};
use crate::util::short;

// ---------------------------------------------------------------------------------------------
// Data layouts: a parser of our own.

const MAX_WIDTH: u64 = (1 << 23) - 1;

/// Alignments here are shifts of bytes.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Class {
    Aggregate,
    Float,
    Integer,
    Vector,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Layout {
    little: bool,
    stack: Option<u8>,
    program: u64,
    globals: u64,
    alloca: u64,
    types: BTreeMap<(Class, u64), (u8, u8)>,
    /// abi, preferred, size, index
    pointers: BTreeMap<u64, (u8, u8, u64, u64)>,
    aggregate: u8,
    function: Option<(bool, u8)>,
    mangling: Option<char>,
    native: Vec<u64>,
    non_integral: Vec<u64>,
}

pub fn default_types() -> BTreeMap<(Class, u64), (u8, u8)> {
    use Class::*;
    [
        ((Aggregate, 0), (0, 3)),
        ((Float, 16), (1, 1)),
        ((Float, 32), (2, 2)),
        ((Float, 64), (3, 3)),
        ((Float, 128), (4, 4)),
        ((Integer, 1), (0, 0)),
        ((Integer, 8), (0, 0)),
        ((Integer, 16), (1, 1)),
        ((Integer, 32), (2, 2)),
        ((Integer, 64), (2, 3)),
        ((Vector, 64), (3, 3)),
        ((Vector, 128), (4, 4)),
    ]
    .into_iter()
    .collect()
}

impl Default for Layout {
    fn default() -> Self {
        Layout {
            little: false,
            stack: None,
            program: 0,
            globals: 0,
            alloca: 0,
            types: default_types(),
            pointers: [(0, (3, 3, 64, 64))].into_iter().collect(),
            aggregate: 0,
            function: None,
            mangling: None,
            native: vec![],
            non_integral: vec![],
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum No {
    /// Malformed.
    Bad(&'static str),
    /// Nothing that we want to have an opinion on.
    Unspecified,
}
use No::*;

fn number(s: &str) -> Result<u64, No> {
    if s.is_empty() {
        return Err(Bad("a missing number"));
    }
    if let Some(rest) = s.strip_prefix('+') {
        return match rest.bytes().all(|b| b.is_ascii_digit()) && !rest.is_empty() {
            true => Err(Unspecified),
            false => Err(Bad("something that isn't a number")),
        };
    }
    let mut n = 0u128;
    for b in s.bytes() {
        if !b.is_ascii_digit() {
            return Err(Bad("something that isn't a number"));
        }
        n = (n * 10 + (b - b'0') as u128).min(1 << 100);
    }
    u64::try_from(n).map_err(|_| Bad("a number that is too big"))
}

/// An alignment in bits, as a shift of bytes.
fn alignment(s: &str) -> Result<u8, No> {
    let n = number(s)?;
    if n % 8 != 0 {
        return Err(Bad("an alignment that isn't a multiple of bytes"));
    }
    if !n.is_power_of_two() {
        return Err(Bad("an alignment that isn't a power of two"));
    }
    Ok(n.trailing_zeros() as u8 - 3)
}

fn address_space_of(s: &str) -> Result<u64, No> {
    match number(s)? {
        n if n <= MAX_WIDTH => Ok(n),
        n if n < 1 << 24 => Err(Unspecified),
        _ => Err(Bad("an address space that is too big")),
    }
}

impl Layout {
    pub fn parse(s: &str) -> Result<Layout, No> {
        if s.is_empty() {
            return Err(Unspecified);
        }
        if !s.is_ascii() {
            return Err(Bad("not ASCII"));
        }
        let mut l = Layout::default();
        let mut unspecified = false;
        let (mut n_seen, mut ni_seen) = (false, false);
        for spec in s.split('-') {
            match l.spec(spec) {
                Ok(()) => {}
                Err(Unspecified) => unspecified = true,
                Err(bad) => return Err(bad),
            }
            // Lists that are given several times.
            if spec.starts_with("ni") {
                unspecified |= std::mem::replace(&mut ni_seen, true);
            } else if spec.starts_with('n') {
                unspecified |= std::mem::replace(&mut n_seen, true);
            }
        }
        if unspecified {
            return Err(Unspecified);
        }
        Ok(l)
    }

    fn spec(&mut self, spec: &str) -> Result<(), No> {
        let mut chars = spec.chars();
        let Some(kind) = chars.next() else {
            return Err(Bad("an empty specification"));
        };
        let body = chars.as_str();
        match kind {
            'e' | 'E' => {
                if !body.is_empty() {
                    return Err(Bad("something after the endianness"));
                }
                self.little = kind == 'e';
            }
            'S' => {
                if number(body) == Ok(0) {
                    return Err(Unspecified);
                }
                self.stack = Some(alignment(body)?);
            }
            'P' => self.program = address_space_of(body)?,
            'G' => self.globals = address_space_of(body)?,
            'A' => self.alloca = address_space_of(body)?,
            'p' => self.pointer(body)?,
            'i' => self.typ(Class::Integer, body)?,
            'v' => self.typ(Class::Vector, body)?,
            'f' => self.typ(Class::Float, body)?,
            'a' => self.typ_aggregate(body)?,
            'F' => {
                let independent = match body.chars().next() {
                    Some('i') => true,
                    Some('n') => false,
                    _ => return Err(Bad("an unknown kind of function pointer alignment")),
                };
                if number(&body[1..]) == Ok(0) {
                    return Err(Unspecified);
                }
                self.function = Some((independent, alignment(&body[1..])?));
            }
            'm' => {
                let mut c = body.chars();
                if c.next() != Some(':') {
                    return Err(Bad("a mangling without a colon"));
                }
                match (c.next(), c.next()) {
                    (Some(m @ ('e' | 'm' | 'o' | 'x' | 'w' | 'a')), None) => self.mangling = Some(m),
                    (Some('l'), None) => return Err(Unspecified),
                    _ => return Err(Bad("an unknown mangling")),
                }
            }
            'n' => match body.strip_prefix('i') {
                Some(rest) => {
                    let Some(list) = rest.strip_prefix(':') else {
                        return Err(Bad("non-integral address spaces without a colon"));
                    };
                    let list: Result<Vec<u64>, No> = list
                        .split(':')
                        .map(|s| match address_space_of(s)? {
                            0 => Err(Bad("a non-integral address space 0")),
                            n => Ok(n),
                        })
                        .collect();
                    self.non_integral = worst(list, rest)?;
                }
                None => {
                    let list: Result<Vec<u64>, No> = body
                        .split(':')
                        .map(|s| match number(s)? {
                            0 => Err(Bad("a native width of 0")),
                            n if n >= 1 << 32 => Err(Bad("an absurd native width")),
                            n if n >= 1 << 24 => Err(Unspecified),
                            n => Ok(n),
                        })
                        .collect();
                    self.native = worst(list, body)?;
                }
            },
            's' => return Err(Unspecified),
            _ => return Err(Bad("an unknown specification")),
        }
        Ok(())
    }

    fn pointer(&mut self, body: &str) -> Result<(), No> {
        let parts: Vec<&str> = body.split(':').collect();
        if !(3..=5).contains(&parts.len()) {
            return Err(Bad("a wrong number of parts"));
        }
        // The first part that is malformed decides, and otherwise the first unspecified one.
        let space = if parts[0].is_empty() { Ok(0) } else { address_space_of(parts[0]) };
        let bits = |s: &str| match number(s)? {
            n if n == 0 || n % 8 != 0 || n >= 1 << 24 => Err(Unspecified),
            n => Ok(n),
        };
        let size = bits(parts[1]);
        let abi = alignment(parts[2]);
        let pref = parts.get(3).map_or(abi, |s| alignment(s));
        let index = parts.get(4).map_or(size, |s| bits(s));
        let all = [space.err(), size.err(), abi.err(), pref.err(), index.err()];
        if let Some(Some(bad)) = all.iter().find(|e| matches!(e, Some(Bad(_)))) {
            return Err(*bad);
        }
        if let (Ok(a), Ok(p)) = (abi, pref) {
            if p < a {
                return Err(Bad("a preferred alignment below the ABI alignment"));
            }
        }
        let (space, size, abi, pref, index) = (space?, size?, abi?, pref?, index?);
        if index > size {
            return Err(Unspecified);
        }
        self.pointers.insert(space, (abi, pref, size, index));
        Ok(())
    }

    fn typ(&mut self, class: Class, body: &str) -> Result<(), No> {
        let parts: Vec<&str> = body.split(':').collect();
        if !(2..=3).contains(&parts.len()) {
            return Err(Bad("a wrong number of parts"));
        }
        let width = match number(parts[0]) {
            Ok(0) => Err(Bad("a type of no width")),
            Ok(n) if n >= 1 << 24 => Err(Bad("a type that is too wide")),
            Ok(n) if n > MAX_WIDTH => Err(Unspecified),
            n => n,
        };
        let abi = alignment(parts[1]);
        let pref = parts.get(2).map_or(abi, |s| alignment(s));
        if let Some(Some(bad)) =
            [width.err(), abi.err(), pref.err()].iter().find(|e| matches!(e, Some(Bad(_))))
        {
            return Err(*bad);
        }
        aligns(abi, pref)?;
        let (width, abi, pref) = (width?, abi?, pref?);
        // i8 has to be naturally aligned, in newer versions.
        if class == Class::Integer && width == 8 && abi != 0 {
            return Err(Unspecified);
        }
        self.types.insert((class, width), (abi, pref));
        Ok(())
    }

    fn typ_aggregate(&mut self, body: &str) -> Result<(), No> {
        let Some(rest) = body.strip_prefix(':') else {
            // Old versions had a width (of 0) here.
            return Err(match body.starts_with('0') {
                true => Unspecified,
                false => Bad("an aggregate specification without a colon"),
            });
        };
        let parts: Vec<&str> = rest.split(':').collect();
        if parts.len() > 2 {
            return Err(Bad("a wrong number of parts"));
        }
        let align = |s: &str| match number(s) {
            Ok(0) => Ok(0),
            _ => alignment(s),
        };
        let abi = align(parts[0]);
        let pref = parts.get(1).map_or(abi, |s| align(s));
        if let Some(Some(bad)) = [abi.err(), pref.err()].iter().find(|e| matches!(e, Some(Bad(_)))) {
            return Err(*bad);
        }
        aligns(abi, pref)?;
        self.types.insert((Class::Aggregate, 0), (abi?, pref?));
        self.aggregate = abi?;
        Ok(())
    }

    /// Compares.
    pub fn is(&self, got: &DataLayout) -> Result<(), String> {
        macro_rules! same {
            ($what:literal, $got:expr, $want:expr) => {{
                let (got, want) = ($got, $want);
                ensure!(got == want, "{}: expected {:?}, got {:?}", $what, want, got);
            }};
        }
        let space = |n: u64| AddressSpace::try_from(n).unwrap();
        same!("endianness", got.endianness == Endian::Little, self.little);
        same!("stack alignment", got.natural_stack_alignment.map(|a| a.shift()), self.stack);
        same!("program address space", got.program_address_space, space(self.program));
        same!("global address space", got.global_variable_address_space, space(self.globals));
        same!("alloca address space", got.alloca_address_space, space(self.alloca));
        same!("aggregate alignment", got.aggregate_alignment.shift(), self.aggregate);
        let function = got.function_pointer_alignment.as_ref().map(|f| match f {
            FunctionPointerAlign::Independent { abi_alignment } => (true, abi_alignment.shift()),
            FunctionPointerAlign::MultipleOfFunctionAlign { abi_alignment } => (false, abi_alignment.shift()),
        });
        same!("function pointer alignment", function, self.function);
        let mangling = got.mangling.as_ref().map(|m| match format!("{m:?}").as_str() {
            "Elf" => 'e',
            "Mips" => 'm',
            "Macho" => 'o',
            "WindowsX86Coff" => 'x',
            "WindowsCoff" => 'w',
            "XCoff" => 'a',
            _ => '?',
        });
        same!("mangling", mangling, self.mangling);
        let native: Vec<u64> = got.native_integer_widths.iter().map(|n| *n as u64).collect();
        same!("native widths", &native, &self.native);
        let ni: Vec<AddressSpace> = self.non_integral.iter().map(|n| space(*n)).collect();
        same!("non-integral address spaces", &got.non_integral_address_spaces, &ni);
        check_types(&self.types, &got.type_alignments)?;
        check_pointers(&self.pointers, &got.pointer_alignments)
    }
}

fn aligns(abi: Result<u8, No>, pref: Result<u8, No>) -> Result<(), No> {
    if let (Ok(a), Ok(p)) = (abi, pref) {
        if p < a {
            return Err(Bad("a preferred alignment below the ABI alignment"));
        }
        if p > 15 {
            return Err(Bad("an alignment that is too big"));
        }
    }
    Ok(())
}

/// A list with something unspecified in it can still be malformed.
fn worst(list: Result<Vec<u64>, No>, text: &str) -> Result<Vec<u64>, No> {
    match list {
        Err(Unspecified) => {
            let bad = text.trim_start_matches(':').split(':').find_map(|s| match number(s) {
                Err(Bad(b)) => Some(b),
                Ok(0) => Some("a zero"),
                Ok(n) if n >= 1 << 32 => Some("a number that is too big"),
                _ => None,
            });
            Err(bad.map_or(Unspecified, Bad))
        }
        l => l,
    }
}

fn aligned_type(k: &(Class, u64)) -> Option<AlignedType> {
    let w = || AlignedTypeWidth::try_from(u32::try_from(k.1).ok()?).ok();
    Some(match k.0 {
        Class::Aggregate => AlignedType::Aggregate,
        Class::Float => AlignedType::Float(w()?),
        Class::Integer => AlignedType::Integer(w()?),
        Class::Vector => AlignedType::Vector(w()?),
    })
}

fn type_spec(k: &(Class, u64), v: &(u8, u8)) -> Option<TypeAlignSpec> {
    TypeAlignSpec::new(aligned_type(k)?, bc::shift(v.0), bc::shift(v.1)).ok()
}

fn pointer_spec(k: &u64, v: &(u8, u8, u64, u64)) -> Option<PointerAlignSpec> {
    let a = AddressSpace::try_from(*k).ok()?;
    PointerAlignSpec::new(a, bc::shift(v.0), bc::shift(v.1), v.2, v.3).ok()
}

/// The entries of a table of alignments: exactly those of the model, in ascending order.
pub fn check_types(want: &BTreeMap<(Class, u64), (u8, u8)>, got: &TypeAlignSpecs) -> Result<(), String> {
    // What can be seen from outside: equality, and that as far as the types go.
    let mut built = TypeAlignSpecs::default();
    for (k, v) in want {
        built.update(type_spec(k, v).ok_or_else(|| format!("{k:?} {v:?} was refused"))?);
    }
    ensure!(*got == built, "type alignments: expected those for {:?}, got {got:?}", want.keys());
    #[cfg(mollusc_verif)]
    {
        let got: Vec<TypeAlignSpec> = got.verif_entries().collect();
        ensure!(
            got.len() == want.len(),
            "type alignments: expected {want:?}, got {}",
            short(format!("{got:?}"))
        );
        for ((k, v), g) in want.iter().zip(&got) {
            ensure!(
                Some(g.aligned_type) == aligned_type(k)
                    && (g.abi_alignment.shift(), g.preferred_alignment.shift()) == *v,
                "type alignments: expected {v:?} for {k:?}, got {g:?}"
            );
        }
    }
    Ok(())
}

pub fn check_pointers(
    want: &BTreeMap<u64, (u8, u8, u64, u64)>,
    got: &PointerAlignSpecs,
) -> Result<(), String> {
    let mut built = PointerAlignSpecs::default();
    for (k, v) in want {
        built.update(pointer_spec(k, v).ok_or_else(|| format!("{k:?} {v:?} was refused"))?);
    }
    ensure!(*got == built, "pointer alignments: expected {built:?}, got {got:?}");
    #[cfg(mollusc_verif)]
    {
        let got: Vec<PointerAlignSpec> = got.verif_entries().collect();
        ensure!(
            got.len() == want.len(),
            "pointer alignments: expected {want:?}, got {}",
            short(format!("{got:?}"))
        );
        for ((k, v), g) in want.iter().zip(&got) {
            ensure!(
                g.address_space == AddressSpace::try_from(*k).unwrap()
                    && (g.abi_alignment.shift(), g.preferred_alignment.shift(), g.pointer_size, g.index_size)
                        == *v,
                "pointer alignments: expected {v:?} for address space {k}, got {g:?}"
            );
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C20: Check = Check {
    id: "C20",
    rule: "strings of 1-10 specifications from the data layout grammar (defaults overridden, repeated keys), some of them with a few edits, parsed and compared with an independent parser; one specification of each also parsed by itself, as a type's and as a pointer's; one in eight through a module; non-trivial: at least 3 specifications, or malformed",
    quick: 6_000_000,
    thorough: 60_000_000,
    run: c20,
    ..BASE
};

fn bits_of(src: &mut Src, max_shift: usize) -> String {
    let s = match src.weighted(&[8, 1]) {
        0 => src.below(6),
        _ => src.below(max_shift + 1),
    };
    (8u64 << s).to_string()
}

fn space_text(src: &mut Src) -> String {
    match src.weighted(&[3, 4, 1]) {
        0 => src.upto(3).to_string(),
        1 => src.upto(300).to_string(),
        _ => src.upto(MAX_WIDTH).to_string(),
    }
}

fn abi_pref(src: &mut Src, max_shift: usize) -> String {
    let a = match src.weighted(&[8, 1]) {
        0 => src.below(5),
        _ => src.below(max_shift + 1),
    };
    match src.below(3) {
        0 => format!("{}", 8u64 << a),
        1 => format!("{}:{}", 8u64 << a, 8u64 << (a + src.below(3)).min(max_shift)),
        _ => format!("{}:{}", 8u64 << a, 8u64 << a),
    }
}

fn spec(src: &mut Src) -> String {
    match src.below(13) {
        0 => (*src.pick(&["e", "E"])).to_string(),
        1 => format!("S{}", bits_of(src, 28)),
        2 => format!("{}{}", src.pick(&["P", "G", "A"]), ""),
        3 | 4 => {
            let n = match src.below(3) {
                0 => String::new(),
                _ => space_text(src),
            };
            let size = *src.pick(&[64u64, 32, 16, 8, 128, 24]);
            let ap = abi_pref(src, 28);
            let mut s = format!("p{n}:{size}:{ap}");
            if ap.contains(':') && src.chance(1, 3) {
                let idx = 8 * (1 + src.upto(size / 8 - 1));
                s += &format!(":{idx}");
            }
            s
        }
        5 | 6 => {
            let k = *src.pick(&["i", "f", "v"]);
            let w = match src.weighted(&[6, 2, 1]) {
                0 => *src.pick(&[64u64, 1, 16, 32, 128, 80, 256, 24]),
                1 => 1 + src.upto(600),
                _ => 1 + src.upto(MAX_WIDTH - 1),
            };
            if k == "i" && w == 8 {
                return "i8:8".into();
            }
            format!("{k}{w}:{}", abi_pref(src, 15))
        }
        7 => match src.below(3) {
            0 => "a:0".into(),
            1 => format!("a:0:{}", bits_of(src, 15)),
            _ => format!("a:{}", abi_pref(src, 15)),
        },
        8 => format!("F{}{}", *src.pick(&["i", "n"]), bits_of(src, 28)),
        9 if src.chance(1, 6) => format!("m:{}", (0x20 + src.below(0x5f)) as u8 as char),
        9 => format!("m:{}", *src.pick(&["e", "m", "o", "x", "w", "a"])),
        10 => {
            let n = 1 + src.len(4);
            let w: Vec<String> = (0..n)
                .map(|_| match src.below(3) {
                    0 => src.pick(&[8u64, 16, 32, 64]).to_string(),
                    _ => (1 + src.upto(300)).to_string(),
                })
                .collect();
            format!("n{}", w.join(":"))
        }
        11 => {
            let n = 1 + src.len(4);
            let w: Vec<String> = (0..n).map(|_| (1 + src.upto(300)).to_string()).collect();
            format!("ni:{}", w.join(":"))
        }
        _ => {
            let k = *src.pick(&["P", "G", "A"]);
            format!("{k}{}", space_text(src))
        }
    }
}

pub fn layout_text(src: &mut Src) -> String {
    let n = 1 + src.len(9);
    let mut specs: Vec<String> = vec![];
    for _ in 0..n {
        let mut s = spec(src);
        if s.len() == 1 && "PGA".contains(&s) {
            s += &space_text(src);
        }
        let list = |s: &str| (s.starts_with('n'), s.starts_with("ni"));
        if s.starts_with('n') && specs.iter().any(|o| list(o) == list(&s)) {
            continue;
        }
        specs.push(s);
    }
    specs.join("-")
}

/// Small edits to a string.
fn edit(src: &mut Src, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let n = 1 + src.below(2);
    for _ in 0..n {
        match src.below(6) {
            0 if !c.is_empty() => {
                let i = src.below(c.len());
                c.remove(i);
            }
            1 if !c.is_empty() => {
                let i = src.below(c.len());
                c[i] = match src.below(4) {
                    // Any ASCII character; or a letter's other case.
                    0 => src.below(0x80) as u8 as char,
                    1 if c[i].is_ascii_alphabetic() => (c[i] as u8 ^ 0x20) as char,
                    _ => *src.pick(&[
                        '0', '1', '3', '7', '8', '9', ':', '-', 'i', 'p', 'n', 'a', 'e', 'E', 'F', 'm', 'S', 'v', 'f',
                        'P', 'A', 'G', ' ', '+', 'x', 'z', 'é', '\0',
                    ]),
                };
            }
            2 | 3 => {
                let i = src.below(c.len() + 1);
                let x = *src.pick(&[
                    '0', '1', '3', '7', '8', '9', ':', '-', 'i', 'p', 'n', 'a', 'e', 'F', 'm', 'S', 'v', ' ', '+', 'x',
                    '€',
                ]);
                c.insert(i, x);
            }
            4 if !c.is_empty() => {
                // A part of it again.
                let i = src.below(c.len());
                let j = src.range(i, (c.len() - 1).min(i + 12));
                let part: Vec<char> = c[i..=j].to_vec();
                let at = src.below(c.len() + 1);
                c.splice(at..at, part);
            }
            _ => {
                // Another number.
                let starts: Vec<usize> = (0..c.len())
                    .filter(|i| c[*i].is_ascii_digit() && (*i == 0 || !c[*i - 1].is_ascii_digit()))
                    .collect();
                if let Some(i) = (!starts.is_empty()).then(|| *src.pick(&starts)) {
                    let mut j = i;
                    while j < c.len() && c[j].is_ascii_digit() {
                        j += 1;
                    }
                    let new = match src.below(6) {
                        0 => "0".to_string(),
                        1 => src.u64().to_string(),
                        2 => (1u64 << src.below(64)).to_string(),
                        3 => "18446744073709551616".into(),
                        4 => (src.upto(100) * 8).to_string(),
                        _ => format!("00{}", c[i..j].iter().collect::<String>()),
                    };
                    c.splice(i..j, new.chars());
                }
            }
        }
    }
    c.into_iter().collect()
}

/// A specification as that of a type's and of a pointer's alignment: it has to be what the whole
/// layout would make of it, and nothing else may be taken for one.
fn one_spec(text: &str, obs: &mut Obs) -> CaseResult {
    let want = match text {
        "" => Err(Bad("an empty specification")),
        _ => Layout::parse(text),
    };
    let kind = text.chars().next().unwrap_or('-');
    let typ = text.parse::<TypeAlignSpec>();
    match (&want, &typ) {
        (Err(Unspecified), _) if "aivf".contains(kind) => {}
        (Ok(l), t) if "aivf".contains(kind) => {
            obs.label("a type specification by itself");
            let t = t.as_ref().map_err(|e| format!("{text:?} as a type: {}", chain(e)))?;
            let mut table = TypeAlignSpecs::default();
            table.update(*t);
            check_types(&l.types, &table).map_err(|e| format!("{text:?} as a type: {e}"))?;
        }
        (_, t) => ensure!(t.is_err(), "{text:?} was parsed to {t:?}"),
    }
    let pointer = text.parse::<PointerAlignSpec>();
    match (&want, &pointer) {
        (Err(Unspecified), _) if kind == 'p' => {}
        (Ok(l), p) if kind == 'p' => {
            obs.label("a pointer specification by itself");
            let p = p.as_ref().map_err(|e| format!("{text:?} as a pointer: {}", chain(e)))?;
            let mut table = PointerAlignSpecs::default();
            table.update(*p);
            check_pointers(&l.pointers, &table).map_err(|e| format!("{text:?} as a pointer: {e}"))?;
        }
        (_, p) => ensure!(p.is_err(), "{text:?} was parsed to {p:?}"),
    }
    Ok(())
}

fn c20(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let mut text = layout_text(src);
    if src.chance(1, 2) {
        text = edit(src, &text);
    }
    let want = Layout::parse(&text);
    obs.key(&text);
    obs.sample(|| format!("{text:?}: {}", match &want {
        Ok(_) => "fine",
        Err(Bad(b)) => b,
        Err(Unspecified) => "unspecified",
    }));
    match &want {
        Ok(_) => obs.nontrivial = text.split('-').count() >= 3,
        Err(Bad(b)) => {
            obs.nontrivial = true;
            obs.label(b);
        }
        Err(Unspecified) => obs.label("unspecified"),
    }
    checkpoint(src);
    match (&want, text.parse::<DataLayout>()) {
        (Ok(w), Ok(g)) => w.is(&g).map_err(|e| format!("{text:?}: {e}"))?,
        (Ok(_), Err(e)) => return Err(format!("{text:?} was refused: {}", chain(&e))),
        (Err(Bad(why)), Ok(g)) => return Err(format!("{text:?} ({why}) was parsed to {g:?}")),
        _ => {}
    }
    // One of its specifications, by itself.
    let specs: Vec<&str> = text.split('-').collect();
    one_spec(*src.pick(&specs), obs)?;
    if text.len() >= 2 && src.chance(1, 8) {
        obs.label("through a module");
        let mut st = StrtabBuilder::default();
        let mut m = gen_module(src, &ModCfg::bare(), &mut st);
        m.items.retain(|n| !matches!(n, Node::Rec(r) if r.code == code::DATALAYOUT));
        m.items.push(rec(code::DATALAYOUT, str_fields(text.as_bytes())));
        m.model.datalayout = Some(text.clone());
        let f = single(src, m, st, 0);
        let (bytes, _) = encode_file(src, &f.tops);
        match want {
            Ok(_) => check_file(&bytes, &f.models)?,
            Err(Bad(why)) => check_refused(&bytes, why).map_err(|e| format!("{text:?}: {e}"))?,
            Err(Unspecified) => {
                let _ = Bitcode::try_from(&bytes[..]);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C21: Check = Check {
    id: "C21",
    rule: "sequences of up to 40 updates of type and pointer alignment tables, built directly or parsed from text, with few distinct keys or many; after each update the table is compared with an ordered map; specifications with too small a preferred alignment (or too big an alignment) have to be refused; non-trivial: at least 3 updates of which one rewrites an entry",
    quick: 8_000_000,
    thorough: 60_000_000,
    run: c21,
    ..BASE
};

fn c21(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let n = src.len(40);
    let few = src.chance(1, 2);
    let mut rewrites = 0;
    let mut accepted = 0;
    let mut types = TypeAlignSpecs::default();
    let mut want_types = default_types();
    let mut pointers = PointerAlignSpecs::default();
    let mut want_pointers = Layout::default().pointers;
    let mut text = String::new();
    checkpoint(src);
    for _ in 0..n {
        let abi = src.weighted(&[4, 4, 3, 3, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]) as u8;
        let pref = match src.weighted(&[4, 4, 1]) {
            0 => abi,
            1 => (abi + 1 + src.below(4) as u8).min(20),
            _ => src.below(21) as u8,
        };
        let parsed = src.chance(1, 2);
        let bits = |s: u8| 8u64 << s;
        if src.chance(1, 2) {
            let class = *src.pick(&[Class::Integer, Class::Float, Class::Vector, Class::Aggregate]);
            let width = match class {
                Class::Aggregate => 0,
                _ if few => *src.pick(&[64u64, 1, 32, 128, 7]),
                _ => 1 + src.bits(23).min(MAX_WIDTH - 1),
            };
            let key = (class, width);
            let fine = pref >= abi && pref <= 15;
            let spec: Result<TypeAlignSpec, String> = if parsed {
                let name = match class {
                    Class::Aggregate => "a".to_string(),
                    Class::Integer => format!("i{width}"),
                    Class::Float => format!("f{width}"),
                    Class::Vector => format!("v{width}"),
                };
                let s = match pref == abi && src.chance(1, 2) {
                    true => format!("{name}:{}", bits(abi)),
                    false => format!("{name}:{}:{}", bits(abi), bits(pref)),
                };
                if obs.want_sample {
                    text += &format!(" {s}");
                }
                s.parse::<TypeAlignSpec>().map_err(|e| e.to_string())
            } else {
                if obs.want_sample {
                    text += &format!(" {key:?}={abi},{pref}");
                }
                TypeAlignSpec::new(aligned_type(&key).unwrap(), bc::shift(abi), bc::shift(pref))
                    .map_err(|e| e.to_string())
            };
            match (fine, spec) {
                (true, Ok(s)) => {
                    ensure!(
                        Some(s.aligned_type) == aligned_type(&key)
                            && s.abi_alignment.shift() == abi
                            && s.preferred_alignment.shift() == pref,
                        "a specification of {key:?} with the alignments {abi} and {pref} became {s:?}"
                    );
                    accepted += 1;
                    rewrites += want_types.insert(key, (abi, pref)).is_some() as u32;
                    types.update(s);
                    check_types(&want_types, &types)?;
                }
                (false, Err(_)) => obs.label("refused"),
                (f, s) => {
                    return Err(format!(
                        "{key:?} with the ABI alignment 2^{abi} and the preferred alignment 2^{pref} (should be accepted: {f}): {s:?}"
                    ))
                }
            }
        } else {
            let space = match few {
                true => src.upto(4),
                false => src.bits(23),
            };
            let size = 8 * (1 + src.upto(31));
            let index = 8 * (1 + src.upto(size / 8 - 1));
            let fine = pref >= abi;
            let spec: Result<PointerAlignSpec, String> = if parsed {
                let name = match space {
                    0 if src.chance(1, 2) => String::new(),
                    n => n.to_string(),
                };
                let s = format!("p{name}:{size}:{}:{}:{index}", bits(abi), bits(pref));
                if obs.want_sample {
                    text += &format!(" {s}");
                }
                s.parse::<PointerAlignSpec>().map_err(|e| e.to_string())
            } else {
                if obs.want_sample {
                    text += &format!(" p{space}={abi},{pref},{size},{index}");
                }
                let a = AddressSpace::try_from(space).unwrap();
                PointerAlignSpec::new(a, bc::shift(abi), bc::shift(pref), size, index)
                    .map_err(|e| e.to_string())
            };
            match (fine, spec) {
                (true, Ok(s)) => {
                    ensure!(
                        s.address_space == AddressSpace::try_from(space).unwrap()
                            && s.abi_alignment.shift() == abi
                            && s.preferred_alignment.shift() == pref
                            && s.pointer_size == size
                            && s.index_size == index,
                        "p{space}:{size} with the alignments {abi} and {pref} and index size {index} became {s:?}"
                    );
                    accepted += 1;
                    rewrites += want_pointers.insert(space, (abi, pref, size, index)).is_some() as u32;
                    pointers.update(s);
                    check_pointers(&want_pointers, &pointers)?;
                }
                (false, Err(_)) => obs.label("refused"),
                (f, s) => {
                    return Err(format!(
                        "p{space} with the ABI alignment 2^{abi} and the preferred alignment 2^{pref} (should be accepted: {f}): {s:?}"
                    ))
                }
            }
        }
    }
    obs.nontrivial = accepted >= 3 && rewrites > 0;
    obs.label_if(few, "few keys");
    for (k, v) in &want_types {
        obs.key64(k.1 << 16 | (v.0 as u64) << 8 | v.1 as u64);
    }
    for (k, v) in &want_pointers {
        obs.key64(k << 16 | (v.0 as u64) << 8 | v.1 as u64);
    }
    obs.sample(|| text);
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C22: Check = Check {
    id: "C22",
    rule: "every 8-bit shift and encoding, every power of two and its neighbours, random 64-bit values, through every constructor and view of an alignment, type width or address space; pairs for the order; non-trivial: a representable value, or one next to a power of two",
    quick: 3_000_000,
    thorough: 60_000_000,
    fixed: 1024,
    run: c22,
    probes: &[("bit-align-overflow", probe_bit_align)],
    ..BASE
};

fn probe_bit_align() -> Option<String> {
    for s in 61..=63u8 {
        let r = std::panic::catch_unwind(|| Align::from_shift(s).ok().map(|a| a.bit_align()));
        match r {
            Err(_) => return Some(format!("bit_align of an alignment of 2^{s} bytes panics")),
            Ok(Some(b)) => return Some(format!("bit_align of an alignment of 2^{s} bytes is {b}")),
            Ok(None) => {}
        }
    }
    None
}

fn check_align(a: Align, s: u8) -> CaseResult {
    ensure!(a.shift() == s, "2^{s}: shift {}", a.shift());
    ensure!(a.byte_align() == 1u64 << s, "2^{s}: byte alignment {}", a.byte_align());
    if s <= 60 {
        ensure!(a.bit_align() == 8u64 << s, "2^{s}: bit alignment {}", a.bit_align());
        ensure!(
            Align::from_bit_align(a.bit_align()).ok() == Some(a),
            "2^{s}: its bit alignment makes another alignment"
        );
    }
    ensure!(
        Align::from_byte_align(a.byte_align()).ok() == Some(a),
        "2^{s}: its byte alignment makes another alignment"
    );
    ensure!(Align::from_shift(a.shift()).ok() == Some(a), "2^{s}: its shift makes another alignment");
    ensure!(a.to_string() == (1u64 << s).to_string(), "2^{s}: its text is {a}");
    Ok(())
}

fn c22(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (v, w) = match enumerated(src) {
        // Numbers up to 255, powers of two, and their neighbours.
        Some(i @ 0..=255) => (i, 255 - i),
        Some(i @ 256..=447) => {
            let p = 1u64 << ((i - 256) / 3);
            (p.wrapping_add((i - 256) % 3).wrapping_sub(1), p)
        }
        Some(i) => {
            let m = [1u64 << 23, 1 << 24, 1 << 32, u64::MAX][(i % 4) as usize];
            (m.wrapping_sub(i / 4 % 8), i)
        }
        None => match src.below(3) {
            0 => (1 << src.below(64), 1 << src.below(64)),
            1 => (src.upto(255), src.upto(255)),
            _ => (src.u64(), src.u64()),
        },
    };
    obs.key64(v);
    obs.key64(w);
    obs.sample(|| format!("{v} and {w}"));
    obs.nontrivial = v.is_power_of_two() || (v + (v < u64::MAX) as u64).is_power_of_two() || v < 256;
    // Shifts, and encoded alignments.
    if let Ok(s) = u8::try_from(v) {
        match Align::from_shift(s) {
            Ok(a) => {
                ensure!(s <= 63, "the shift {s} was accepted");
                check_align(a, s)?;
            }
            Err(_) => ensure!(s > 63, "the shift {s} was refused"),
        }
        match MaybeAlign::try_from(s) {
            Ok(m) => {
                ensure!(s <= 64, "the encoded alignment {s} was accepted");
                for o in 0..=64u8 {
                    let same = MaybeAlign::try_from(o).ok() == Some(m);
                    ensure!(same == (o == s), "the encoded alignments {s} and {o} are the same: {same}");
                }
                // Which one it is shows in its debugging text only.
                let text = format!("{m:?}");
                let digits: String = text.chars().filter(|c| c.is_ascii_digit()).collect();
                let want = if s == 0 { String::new() } else { (1u64 << (s - 1)).to_string() };
                ensure!(digits == want, "the encoded alignment {s} became {text}");
            }
            Err(_) => ensure!(s > 64, "the encoded alignment {s} was refused"),
        }
    }
    // Bytes.
    match Align::from_byte_align(v) {
        Ok(a) => {
            ensure!(v.is_power_of_two(), "{v} bytes were accepted");
            check_align(a, v.trailing_zeros() as u8)?;
        }
        Err(_) => ensure!(!v.is_power_of_two(), "{v} bytes were refused"),
    }
    // Bits.
    let fine = v >= 8 && v.is_power_of_two();
    match Align::from_bit_align(v) {
        Ok(a) => {
            ensure!(fine, "{v} bits were accepted");
            check_align(a, v.trailing_zeros() as u8 - 3)?;
        }
        Err(_) => ensure!(!fine, "{v} bits were refused"),
    }
    // The order.
    if let (Ok(a), Ok(b)) = (Align::from_shift((v % 64) as u8), Align::from_shift((w % 64) as u8)) {
        let want = (v % 64).cmp(&(w % 64));
        ensure!(
            a.cmp(&b) == want && a.partial_cmp(&b) == Some(want) && (a == b) == want.is_eq(),
            "2^{} and 2^{}: ordered {:?}",
            v % 64,
            w % 64,
            a.cmp(&b)
        );
    }
    // Widths and address spaces.
    let width = |v: u64| u32::try_from(v).ok().and_then(|v| AlignedTypeWidth::try_from(v).ok());
    ensure!(
        width(v).is_some() == (1..=MAX_WIDTH).contains(&v),
        "the type width {v} was {}",
        if width(v).is_some() { "accepted" } else { "refused" }
    );
    if let Some(Err(e)) = u32::try_from(v).ok().map(AlignedTypeWidth::try_from) {
        let says = match e {
            AlignedTypeWidthError::Zero => v == 0,
            AlignedTypeWidthError::TooBig(w) => v > 0 && w as u64 == v,
        };
        ensure!(says, "the type width {v} was refused with: {}", chain(&e));
    }
    let space = AddressSpace::try_from(v).ok();
    ensure!(
        space.is_some() == (v <= MAX_WIDTH),
        "the address space {v} was {}",
        if space.is_some() { "accepted" } else { "refused" }
    );
    if let Ok(small) = u32::try_from(v) {
        ensure!(AddressSpace::try_from(small).ok() == space, "the address space {v}: u32 and u64 disagree");
    }
    if let (Some(a), Some(b)) = (width(v), width(w)) {
        ensure!(a.cmp(&b) == v.cmp(&w), "the type widths {v} and {w}: ordered {:?}", a.cmp(&b));
    }
    if let (Some(a), Ok(b)) = (space, AddressSpace::try_from(w)) {
        ensure!(a.cmp(&b) == v.cmp(&w), "the address spaces {v} and {w}: ordered {:?}", a.cmp(&b));
    }
    // Aligned types: by kind, then by width.
    let keys = [Class::Aggregate, Class::Float, Class::Integer, Class::Vector];
    let at = |n: u64| {
        let c = keys[(n % 4) as usize];
        (c, if c == Class::Aggregate { 0 } else { (n >> 2) % MAX_WIDTH + 1 })
    };
    let (k, l) = (at(v), at(w));
    if let (Some(a), Some(b)) = (aligned_type(&k), aligned_type(&l)) {
        ensure!(
            a.cmp(&b) == k.cmp(&l) && (a == b) == (k == l) && a.partial_cmp(&b) == Some(k.cmp(&l)),
            "{a:?} and {b:?}: ordered {:?}",
            a.cmp(&b)
        );
    }
    // The named ones.
    let named = [Align::ALIGN8, Align::ALIGN16, Align::ALIGN32, Align::ALIGN64, Align::ALIGN128];
    for (i, a) in named.iter().enumerate() {
        ensure!(a.bit_align() == 8 << i, "ALIGN{} has {} bits", 8 << i, a.bit_align());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C23: Check = Check {
    id: "C23",
    rule: "random types of any nesting, built bottom-up from every kind of part, allowed or not; every construction has to succeed exactly when the rules allow it, and every query about the result has to agree with the rules; pairs of types that differ in one part must differ; non-trivial: at least 4 constructions of which one was refused",
    quick: 10_000_000,
    thorough: 80_000_000,
    fixed: 8192,
    run: c23,
    ..BASE
};

fn queries(t: &Ty, g: &Type) -> CaseResult {
    let checks: [(&str, bool, bool); 9] = [
        ("is_floating", g.is_floating(), t.floating()),
        ("is_integer", g.is_integer(), t.integer()),
        ("is_pointee", g.is_pointee(), t.pointee()),
        ("is_array_element", g.is_array_element(), t.array_element()),
        ("is_struct_element", g.is_struct_element(), t.struct_element()),
        ("is_vector_element", g.is_vector_element(), t.vector_element()),
        ("is_argument", g.is_argument(), t.argument()),
        ("is_return", g.is_return(), t.returnable()),
        (
            "is_floating_or_floating_vector",
            g.is_floating_or_floating_vector(),
            t.scalar().floating(),
        ),
    ];
    for (what, got, want) in checks {
        ensure!(got == want, "{what} of {g:?}: {got}");
    }
    let got = g.is_integer_or_integer_vector();
    ensure!(got == t.scalar().integer(), "is_integer_or_integer_vector of {g:?}: {got}");
    t.scalar().shape(g.scalar_type()).map_err(|e| format!("scalar type: {e}"))?;
    t.shape(g)
}

/// A rule of our own, and what the constructor did.
fn built<E: std::fmt::Display>(
    obs: &mut Obs,
    allowed: bool,
    t: Ty,
    r: Result<Type, E>,
) -> Result<Option<(Arc<Ty>, Type)>, String> {
    match (allowed, r) {
        (true, Ok(g)) => {
            queries(&t, &g)?;
            Ok(Some((Arc::new(t), g)))
        }
        (false, Err(_)) => {
            obs.label("refused");
            Ok(None)
        }
        (true, Err(e)) => Err(short(format!("{t:?} was refused: {e}"))),
        (false, Ok(g)) => Err(short(format!("{g:?} was built, which isn't allowed"))),
    }
}

fn c23(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let mut pool: Vec<(Arc<Ty>, Type)> = vec![];
    for (s, _) in SIMPLE {
        let t = Ty::Simple(*s);
        let g = t.build().unwrap();
        queries(&t, &g)?;
        pool.push((Arc::new(t), g));
    }
    let mut refused = 0;
    let steps;
    if let Some(i) = enumerated(src) {
        // Every pair of constructors.
        for t in [Ty::Integer(1), Ty::OpaquePointer(0)] {
            let g = t.build()?;
            queries(&t, &g)?;
            pool.push((Arc::new(t), g));
        }
        let n = pool.len() as u64;
        let (base, one, two) = (i % n, i / n % 8, i / n / 8 % 8);
        obs.key64(base * 64 + one * 8 + two);
        let mut part = pool[base as usize].clone();
        obs.sample(|| format!("{:?}, in {one}, in {two}", part.1));
        obs.nontrivial = i < n * 64;
        for kind in [one, two] {
            let t = part.0.clone();
            let g = part.1.clone();
            let r = match kind {
                0 => built(obs, t.pointee(), Ty::Pointer(t, 0), Type::new_pointer(g, AddressSpace::default()))?,
                1 => built(obs, t.array_element(), Ty::Array(3, t), Type::new_array(3, g))?,
                2 => built(
                    obs,
                    t.vector_element(),
                    Ty::Vector { n: 3, elem: t, scalable: false },
                    Type::new_vector(3, g),
                )?,
                3 => built(
                    obs,
                    t.vector_element(),
                    Ty::Vector { n: 3, elem: t, scalable: true },
                    Type::new_scalable_vector(3, g),
                )?,
                4 => built(
                    obs,
                    t.struct_element(),
                    Ty::Struct { name: None, fields: vec![t], packed: false },
                    Type::new_struct(None, vec![g], false),
                )?,
                5 => built(
                    obs,
                    t.returnable(),
                    Ty::Function { ret: t, params: vec![], vararg: false },
                    Type::new_function(g, vec![], false),
                )?,
                6 => built(
                    obs,
                    t.argument(),
                    Ty::Function { ret: Arc::new(Ty::Simple(Void)), params: vec![t], vararg: true },
                    Type::new_function(Type::Void, vec![g], true),
                )?,
                _ => built(
                    obs,
                    t.struct_element(),
                    Ty::Struct { name: Some("s".into()), fields: vec![t.clone(), t], packed: true },
                    Type::new_struct(Some("s".into()), vec![g.clone(), g], true),
                )?,
            };
            match r {
                Some(p) => part = p,
                None => break,
            }
        }
        return Ok(());
    }
    steps = 1 + src.len(20);
    // A few arbitrary types; or many simple ones, with an arbitrary one somewhere.
    let several = |src: &mut Src, find: &dyn Fn(&mut Src) -> (Arc<Ty>, Type)| -> Vec<(Arc<Ty>, Type)> {
        if !src.chance(1, 30) {
            let k = src.len(5);
            return (0..k).map(|_| find(src)).collect();
        }
        let k = src.range(6, 300);
        let t = Ty::Integer(int_width(src));
        let g = t.build().unwrap();
        let t = Arc::new(t);
        let mut v = vec![(t, g); k];
        if src.chance(3, 4) {
            let i = k - 1 - src.len(k - 1);
            v[i] = find(src);
        }
        v
    };
    for _ in 0..steps {
        let kind = src.below(8);
        let find = |src: &mut Src| {
            let back = src.len(pool.len() - 1);
            pool[pool.len() - 1 - back].clone()
        };
        obs.key64(kind as u64);
        let r = match kind {
            0 => {
                let w = match src.below(4) {
                    0 => 0,
                    1 => (1 << 24) - 2 + src.upto(3) as u32,
                    2 => src.bits(32) as u32,
                    _ => int_width(src),
                };
                built(obs, (1..1 << 24).contains(&w), Ty::Integer(w), Type::new_integer(w))?
            }
            1 => {
                let a = bc::address_space(src).min(MAX_WIDTH as u32);
                let (t, g) = find(src);
                let space = AddressSpace::try_from(a).unwrap();
                built(obs, t.pointee(), Ty::Pointer(t, a), Type::new_pointer(g, space))?
            }
            2 => {
                let n = src.u64();
                let (t, g) = find(src);
                built(obs, t.array_element(), Ty::Array(n, t), Type::new_array(n, g))?
            }
            3 | 4 => {
                let scalable = kind == 4;
                let n = if src.chance(1, 8) { 0 } else { 1 + src.bits(32) };
                let (t, g) = find(src);
                let r = if scalable { Type::new_scalable_vector(n, g) } else { Type::new_vector(n, g) };
                built(obs, n > 0 && t.vector_element(), Ty::Vector { n, elem: t, scalable }, r)?
            }
            5 => {
                let parts = several(src, &find);
                let name = if src.chance(1, 2) { Some(string(src, 6)) } else { None };
                let packed = src.chance(1, 2);
                let (ts, gs): (Vec<_>, Vec<_>) = parts.into_iter().unzip();
                let fine = ts.iter().all(|t| t.struct_element());
                let t = Ty::Struct { name: name.clone(), fields: ts, packed };
                built(obs, fine, t, Type::new_struct(name, gs, packed))?
            }
            6 => {
                let parts = several(src, &find);
                let (rt, rg) = find(src);
                let vararg = src.chance(1, 2);
                let (ts, gs): (Vec<_>, Vec<_>) = parts.into_iter().unzip();
                let fine = rt.returnable() && ts.iter().all(|t| t.argument());
                let t = Ty::Function { ret: rt, params: ts, vararg };
                built(obs, fine, t, Type::new_function(rg, gs, vararg))?
            }
            _ => {
                let a = bc::address_space(src).min(MAX_WIDTH as u32);
                let t = Ty::OpaquePointer(a);
                let g = Type::OpaquePointer(AddressSpace::try_from(a).unwrap());
                built::<String>(obs, true, t, Ok(g))?
            }
        };
        match r {
            Some((t, g)) if t.size().0 <= 100 => {
                // Types are the same exactly when they're made of the same parts.
                for (u, h) in &pool {
                    let same = **u == *t;
                    ensure!(
                        (*h == g) == same,
                        "{} and {} are {}the same",
                        short(format!("{g:?}")),
                        short(format!("{h:?}")),
                        if same { "not " } else { "" }
                    );
                }
                pool.push((t, g));
            }
            Some(_) => {}
            None => refused += 1,
        }
    }
    for (t, _) in &pool[SIMPLE.len()..] {
        obs.key64(t.size().0 as u64);
    }
    obs.nontrivial = steps >= 4 && refused > 0;
    obs.label_if(pool.iter().any(|p| p.0.size().1 >= 3), "nested at least 3 deep");
    obs.sample(|| {
        let ts: Vec<_> = pool[SIMPLE.len()..].iter().map(|p| format!("{:?}", p.0)).collect();
        format!("{} refused; {}", refused, short(ts.join(", ")))
    });
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C24: Check = Check {
    id: "C24",
    rule: "every opcode up to 64 and random 64-bit ones, on every kind of type (scalars, vectors, and types that no operation applies to); the operation has to be the one LLVM assigns; non-trivial: a known opcode on a type that isn't a plain integer, or an unknown opcode",
    quick: 3_000_000,
    thorough: 20_000_000,
    fixed: 4096,
    run: c24,
    ..BASE
};

fn c24(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let elem = |i: u64| -> Ty {
        let n = SIMPLE.len() as u64;
        match i % (n + 4) {
            0 => Ty::Integer(32),
            1 => Ty::Integer(1),
            2 => Ty::OpaquePointer(0),
            3 => Ty::Pointer(Arc::new(Ty::Integer(8)), 3),
            i => Ty::Simple(SIMPLE[i as usize - 4].0),
        }
    };
    let kinds = SIMPLE.len() as u64 + 4;
    let (code, kind, shape, n) = match enumerated(src) {
        Some(i) => (i % 64 % 20, i / 64 % kinds, i / 64 / kinds % 4, 4),
        None => {
            let code = match src.weighted(&[12, 2, 1]) {
                0 => src.upto(13),
                1 => src.upto(300),
                _ => src.u64(),
            };
            (code, src.upto(kinds - 1), src.upto(7), 1 + src.bits(20))
        }
    };
    let e = elem(kind);
    let ok_vec = e.vector_element();
    let e = Arc::new(e);
    let t = match shape {
        1 if ok_vec => Ty::Vector { n, elem: e, scalable: false },
        2 if ok_vec => Ty::Vector { n, elem: e, scalable: true },
        3 if e.array_element() => Ty::Array(n, e),
        4 if e.struct_element() => Ty::Struct { name: None, fields: vec![e], packed: false },
        5 if e.returnable() => Ty::Function { ret: e, params: vec![], vararg: false },
        6 if e.pointee() => Ty::Pointer(e, 0),
        7 => Ty::Integer(int_width(src)),
        _ => match Arc::try_unwrap(e) {
            Ok(t) => t,
            Err(_) => return Err("model".into()),
        },
    };
    let g = t.build()?;
    obs.key64(code);
    obs.key(format!("{t:?}"));
    obs.sample(|| format!("opcode {code} on {g:?}"));
    let (int, fp) = (t.scalar().integer(), t.scalar().floating());
    use BinaryOp as B;
    let want: Option<(B, Option<B>)> = match code {
        0 => Some((B::Add, Some(B::FAdd))),
        1 => Some((B::Sub, Some(B::FSub))),
        2 => Some((B::Mul, Some(B::FMul))),
        3 => Some((B::UDiv, None)),
        4 => Some((B::SDiv, Some(B::FDiv))),
        5 => Some((B::URem, None)),
        6 => Some((B::SRem, Some(B::FRem))),
        7 => Some((B::Shl, None)),
        8 => Some((B::LShr, None)),
        9 => Some((B::AShr, None)),
        10 => Some((B::And, None)),
        11 => Some((B::Or, None)),
        12 => Some((B::Xor, None)),
        _ => None,
    };
    obs.nontrivial = want.is_none() || !t.integer();
    let want = want.and_then(|(i, f)| if int { Some(i) } else if fp { f } else { None });
    obs.label(match (&want, fp) {
        (None, _) => "refused",
        (Some(_), true) => "floating-point operations",
        (Some(_), false) => "integer operations",
    });
    let got = BinaryOp::try_from((code, &g)).ok();
    ensure!(
        got.as_ref().map(discriminant) == want.as_ref().map(discriminant),
        "opcode {code} on {}: expected {want:?}, got {got:?}",
        short(format!("{g:?}"))
    );
    let un = UnaryOp::try_from(code).ok();
    let want = (code == 0).then_some(UnaryOp::FNeg);
    ensure!(
        un.as_ref().map(discriminant) == want.as_ref().map(discriminant),
        "unary opcode {code}: expected {want:?}, got {un:?}"
    );
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C25: Check = Check {
    id: "C25",
    rule: "every number up to 4095 and random 64-bit ones, decoded as each of 24 kinds of numeric identifiers, compared with tables written from LLVM's headers, and encoded back; non-trivial: a number that some kind assigns, or one beyond 32 bits",
    quick: 2_000_000,
    thorough: 60_000_000,
    fixed: 4096,
    run: c25,
    ..BASE
};

fn c25(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let v = match enumerated(src) {
        Some(i) => i,
        None => match src.below(4) {
            0 => src.u64(),
            1 => (1 << (8 * src.range(1, 7))) + src.upto(120),
            2 => (1u64 << src.below(64)).wrapping_sub(src.upto(2)),
            _ => src.upto(130),
        },
    };
    obs.key64(v);
    obs.sample(|| v.to_string());
    let mut known = 0;
    // Decoding that can fail. With `back`, encoding is there as well.
    macro_rules! fallible {
        ($t:ident, $f:ident $(, $back:ident)?) => {{
            let want = llvm::$f(v);
            let got = $t::try_from(v).ok();
            known += want.is_some() as usize;
            let name = got.as_ref().map(|g| format!("{g:?}"));
            ensure!(
                name.as_deref() == want,
                "{} {v}: expected {want:?}, got {got:?}",
                stringify!($t)
            );
            if let (Some(g), Some(name)) = (got, name) {
                let n = fallible!(@back $t g $($back)?);
                ensure!(n == v, "{} {name} is encoded as {n}, instead of {v}", stringify!($t));
            }
        }};
        (@back $t:ident $g:ident) => { $g as u64 };
        (@back $t:ident $g:ident back) => {{ let n: u64 = $g.into(); n }};
    }
    // Decoding with a default.
    macro_rules! defaulting {
        ($t:ident, $f:ident, $default:ident) => {{
            let known_one = llvm::$f(v);
            let want = llvm::$f(v).unwrap_or(stringify!($default));
            let got = $t::from(v);
            known += known_one.is_some() as usize;
            ensure!(
                llvm::is(&got, want),
                "{} {v}: expected {want:?}, got {got:?}",
                stringify!($t)
            );
            if known_one.is_some() {
                let n: u64 = got.into();
                ensure!(n == v, "{} {want:?} is encoded as {n}, instead of {v}", stringify!($t));
            }
        }};
    }
    fallible!(ReservedBlockId, reserved_block);
    fallible!(IrBlockId, ir_block);
    fallible!(ReservedAbbrevId, reserved_abbrev);
    fallible!(AbbrevOpEnc, abbrev_op);
    fallible!(BlockInfoCode, block_info_code);
    fallible!(IdentificationCode, identification_code);
    fallible!(ModuleCode, module_code, back);
    fallible!(TypeCode, type_code, back);
    fallible!(StrtabCode, strtab_code, back);
    fallible!(SymtabCode, symtab_code, back);
    fallible!(AttributeCode, attribute_code, back);
    // 60 is newer than the code under test.
    if v != 60 {
        fallible!(FunctionCode, function_code, back);
    }
    fallible!(UnaryOpcode, unary_opcode, back);
    fallible!(BinaryOpcode, binary_opcode, back);
    if !(13..=16).contains(&v) {
        fallible!(RMWOperation, rmw_operation, back);
    }
    fallible!(Visibility, visibility, back);
    fallible!(DllStorageClass, dll_storage_class, back);
    fallible!(AttributeKind, attribute_kind);
    if !llvm::newer_calling_convention(v) {
        fallible!(CallingConvention, calling_convention);
    }
    if !llvm::newer_attribute_id(v) {
        fallible!(AttributeId, attribute_id);
        fallible!(EnumAttribute, enum_attribute);
    }
    defaulting!(ThreadLocalMode, thread_local_mode, GeneralDynamicTls);
    defaulting!(UnnamedAddr, unnamed_addr, None);
    defaulting!(RuntimePreemption, preemption, DsoPreemptable);
    let (got, want) = (Linkage::from(v), llvm::linkage(v));
    ensure!(llvm::is(&got, want), "linkage {v}: expected {want:?}, got {got:?}");
    let want = match (llvm::reserved_block(v), llvm::ir_block(v)) {
        (Some(r), _) => format!("Reserved({r})"),
        (None, Some(b)) => format!("Ir({b})"),
        _ => format!("Unknown({v})"),
    };
    let got = BlockId::from(v);
    ensure!(llvm::is(&got, &want), "block {v}: expected {want:?}, got {got:?}");
    obs.nontrivial = known > 0 || v >> 32 != 0;
    obs.label_if(known == 0, "assigned by nothing");
    Ok(())
}
