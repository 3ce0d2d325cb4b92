//! C27: bitcode written by the installed LLVM tools.

use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::Arc;

use llvm_bitstream::Bitstream;
use llvm_mapper::Bitcode;
#[cfg(mollusc_verif)]
use llvm_support::{MaybeAlign, Type};

use super::BASE;
use crate::bc::{self, Attr, Ty, DATALAYOUTS};
use crate::engine::*;
use crate::llvm;
use crate::stream::{self, Ent, Finish};
use crate::util::short;

pub const C27: Check = Check {
    id: "C27",
    rule: "random LLVM IR (declarations, identified and literal types, attributes, aliases, variables, COMDATs, metadata, inline assembly, Darwin triples that get a wrapper, and function bodies from llvm-stress and templates), assembled by llvm-as or opt, or combined by llvm-cat; every block, code, field and blob is compared with llvm-bcanalyzer's dump, and modules without bodies are mapped and compared with the source; non-trivial: the tools accepted the source and the stream has at least 20 records",
    quick: 4_000,
    thorough: 60_000,
    run: c27,
    stack: 4 << 20,
    ..BASE
};

// ---------------------------------------------------------------------------------------------
// Running the tools

fn tool(name: &str, args: &[&str], dir: &Path) -> Result<Vec<u8>, String> {
    let out = Command::new(format!("/usr/bin/{name}"))
        .args(args)
        .current_dir(dir)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("{name}: {e}"))?;
    if out.status.success() {
        Ok(out.stdout)
    } else {
        Err(format!("{name}: {}", String::from_utf8_lossy(&out.stderr)))
    }
}

/// An entry as llvm-bcanalyzer reports it: `blob` is what it says about the trailing blob.
#[derive(Debug, PartialEq)]
enum Dumped {
    Enter { id: u64, words: u64 },
    End,
    Rec { abbrev: Option<u64>, code: u64, ops: Vec<u64>, blob: Option<Vec<u8>>, strings: Option<Vec<u8>> },
}

/// The number after `key=`; LLVM prints fields as signed.
fn attr(s: &str, key: &str) -> Option<u64> {
    let i = s.find(&format!(" {key}="))? + key.len() + 2;
    let end = s[i..].find(|c: char| !(c.is_ascii_digit() || c == '-')).map_or(s.len(), |e| i + e);
    let n: i128 = s[i..end].parse().ok()?;
    (i64::MIN as i128..=u64::MAX as i128).contains(&n).then_some(n as u64)
}

fn digits_at_end(s: &str) -> Option<u64> {
    let i = s.rfind(|c: char| !c.is_ascii_digit()).map_or(0, |i| i + 1);
    s[i..].parse().ok()
}

/// Undoes LLVM's `write_escaped` (with hexadecimal escapes).
fn unescape(s: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut it = s.iter().copied();
    while let Some(b) = it.next() {
        if b != b'\\' {
            out.push(b);
            continue;
        }
        out.push(match it.next()? {
            b'\\' => b'\\',
            b't' => b'\t',
            b'n' => b'\n',
            b'"' => b'"',
            b'x' => {
                let h = [it.next()?, it.next()?];
                u8::from_str_radix(std::str::from_utf8(&h).ok()?, 16).ok()?
            }
            _ => return None,
        });
    }
    Some(out)
}

fn quoted(s: &str) -> Option<Vec<u8>> {
    let a = s.find('\'')?;
    let b = s.rfind('\'')?;
    if a >= b {
        return None;
    }
    unescape(s[a + 1..b].as_bytes())
}

fn parse_dump(text: &str) -> Result<Vec<Dumped>, String> {
    let mut out = vec![];
    let mut lines = text.lines();
    while let Some(line) = lines.next() {
        let t = line.trim_start();
        if t.is_empty() {
            // The dump is over; a summary follows.
            break;
        }
        let bad = || format!("llvm-bcanalyzer's output wasn't understood: {}", short(line.to_string()));
        if t.starts_with("</") {
            out.push(Dumped::End);
            continue;
        }
        if t == "<BLOCKINFO_BLOCK/>" || t.starts_with("<BITCODE_WRAPPER_HEADER") {
            continue;
        }
        if !t.starts_with('<') {
            return Err(bad());
        }
        let close = t.find('>').ok_or_else(bad)?;
        let (head, tail) = (&t[..close], &t[close + 1..]);
        let name = head[1..].split([' ', '/']).next().unwrap();
        if let Some(words) = attr(head, "NumWords") {
            let id = match attr(head, "BlockID") {
                Some(i) => i,
                None => name.strip_prefix("UnknownBlock").and_then(digits_at_end).ok_or_else(bad)?,
            };
            out.push(Dumped::Enter { id, words });
            continue;
        }
        let code = match attr(head, "codeid") {
            Some(c) => c,
            None => name.strip_prefix("UnknownCode").and_then(digits_at_end).ok_or_else(bad)?,
        };
        let mut ops = vec![];
        while let Some(v) = attr(head, &format!("op{}", ops.len())) {
            ops.push(v);
        }
        if head.matches(" op").count() != ops.len() {
            return Err(bad());
        }
        let (mut blob, mut strings) = (None, None);
        if let Some(b) = tail.strip_prefix(" blob data = ") {
            blob = Some(quoted(b).ok_or_else(bad)?);
        } else if tail.contains("num-strings = ") {
            let mut all = vec![];
            if !tail.ends_with("{}") {
                loop {
                    let l = lines.next().ok_or_else(bad)?.trim_start();
                    if l == "}" {
                        break;
                    }
                    all.extend(quoted(l).ok_or_else(bad)?);
                }
            }
            strings = Some(all);
        } else if !(tail.is_empty() || tail.starts_with(" record string = ") || tail.starts_with(" (")) {
            return Err(bad());
        }
        out.push(Dumped::Rec { abbrev: attr(head, "abbrevid"), code, ops, blob, strings });
    }
    Ok(out)
}

fn compare(dump: &[Dumped], ents: &[Ent]) -> CaseResult {
    for (i, d) in dump.iter().enumerate() {
        let Some(e) = ents.get(i) else {
            return Err(format!("{} entries, but LLVM reports {}; the next one is {d:?}", ents.len(), dump.len()));
        };
        let same = match (d, e) {
            (Dumped::Enter { id, words }, Ent::Enter { id: i, len }) => id == i && words * 4 == *len || id == i && words == len,
            (Dumped::End, Ent::End) => true,
            (Dumped::Rec { abbrev, code, ops, blob, strings }, Ent::Rec { abbrev: a, code: c, fields }) => {
                let bytes = |f: &[u64]| f.iter().map(|x| u8::try_from(*x).ok()).collect::<Option<Vec<u8>>>();
                abbrev == a
                    && code == c
                    && fields.len() >= ops.len()
                    && fields[..ops.len()] == ops[..]
                    && match (blob, strings) {
                        (Some(b), _) => bytes(&fields[ops.len()..]).as_ref() == Some(b),
                        (None, Some(s)) => {
                            // The blob has the strings' lengths first.
                            bytes(&fields[ops.len()..])
                                .and_then(|b| b.get(ops[1] as usize..).map(|t| t == &s[..]))
                                .unwrap_or(false)
                        }
                        (None, None) => fields.len() == ops.len(),
                    }
            }
            _ => false,
        };
        if !same {
            return Err(short(format!("entry {i}: LLVM reports {d:?}, but it was read as {e:?}")));
        }
    }
    ensure!(dump.len() == ents.len(), "{} entries, but LLVM reports {}", ents.len(), dump.len());
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Sources

/// What a module's source says.
#[derive(Debug, Default, Clone)]
struct Source {
    text: String,
    triple: Option<String>,
    layout: Option<String>,
    asm: Vec<String>,
    functions: Vec<Func>,
    aliases: Vec<Al>,
    comdats: BTreeMap<String, u64>,
    body: bool,
    /// The tools dropped attributes that don't fit their types.
    lossy: bool,
}

#[derive(Debug, Clone)]
struct Func {
    name: String,
    ty: Arc<Ty>,
    cc: u64,
    linkage: u64,
    visibility: u64,
    dll: u64,
    unnamed: u64,
    align: u8,
    section: Option<String>,
    gc: Option<String>,
    /// By target: 0 is the result, 0xffffffff the function.
    attrs: BTreeMap<u64, Vec<Attr>>,
}

#[derive(Debug, Clone)]
struct Al {
    name: String,
    ty: Arc<Ty>,
    linkage: u64,
    visibility: u64,
    dll: u64,
    tls: u64,
    unnamed: u64,
    local: bool,
}

fn escape(s: &str) -> String {
    let mut out = String::new();
    for b in s.bytes() {
        if b.is_ascii_graphic() && b != b'"' && b != b'\\' || b == b' ' {
            out.push(b as char);
        } else {
            write!(out, "\\{b:02X}").unwrap();
        }
    }
    out
}

/// Names, sections and so on: at least two bytes, without NULs.
fn word(src: &mut Src) -> String {
    let s: String = bc::string(src, 12).chars().filter(|c| *c != '\0').collect();
    if s.len() < 2 {
        "xy".into()
    } else {
        s
    }
}

fn symbol(src: &mut Src, used: &mut Vec<String>) -> String {
    let mut s = match src.weighted(&[3, 3, 1]) {
        0 => format!("f{}", src.below(100)),
        1 => word(src),
        _ => src.pick(&["ab", "é", "\u{1}raw", "--"]).to_string(),
    };
    if s.starts_with("llvm.") || used.contains(&s) {
        s = format!("{s}.{}", used.len());
    }
    // String tables of a single byte are a known finding.
    while used.contains(&s) || used.is_empty() && s.len() < 2 {
        s.push('_');
    }
    used.push(s.clone());
    s
}

struct TypeGen {
    /// Definitions of the identified types.
    defs: String,
    named: Vec<(Arc<Ty>, String)>,
    unnamed: usize,
    /// Keeps names apart when modules are combined.
    module: usize,
}

impl TypeGen {
    fn text(&self, t: &Arc<Ty>) -> String {
        if let Some((_, n)) = self.named.iter().find(|(u, _)| Arc::ptr_eq(t, u)) {
            return n.clone();
        }
        let list = |ts: &[Arc<Ty>]| ts.iter().map(|t| self.text(t)).collect::<Vec<_>>().join(", ");
        match &**t {
            Ty::Simple(s) => match s {
                bc::Void => "void",
                bc::Float => "float",
                bc::Double => "double",
                bc::Label => "label",
                bc::Half => "half",
                bc::X86Fp80 => "x86_fp80",
                bc::Fp128 => "fp128",
                bc::PpcFp128 => "ppc_fp128",
                bc::Metadata => "metadata",
                bc::X86Mmx => "x86_mmx",
                bc::Token => "token",
                bc::BFloat => "bfloat",
                bc::X86Amx => "x86_amx",
            }
            .into(),
            Ty::Integer(w) => format!("i{w}"),
            Ty::OpaquePointer(0) => "ptr".into(),
            Ty::OpaquePointer(a) => format!("ptr addrspace({a})"),
            Ty::Array(n, t) => format!("[{n} x {}]", self.text(t)),
            Ty::Vector { n, elem, scalable } => {
                format!("<{}{n} x {}>", if *scalable { "vscale x " } else { "" }, self.text(elem))
            }
            Ty::Struct { fields, packed: false, .. } => format!("{{ {} }}", list(fields)),
            Ty::Struct { fields, packed: true, .. } => format!("<{{ {} }}>", list(fields)),
            Ty::Pointer(..) | Ty::Function { .. } => unreachable!(),
        }
    }

    fn scalar(&mut self, src: &mut Src) -> Arc<Ty> {
        Arc::new(match src.weighted(&[5, 3, 3]) {
            0 => Ty::Integer(*src.pick(&[1, 8, 16, 32, 64, 128, 7, 1000, (1 << 23) - 1])),
            1 => Ty::OpaquePointer(if src.chance(1, 3) { bc::address_space(src) } else { 0 }),
            _ => Ty::Simple(*src.pick(&[bc::Float, bc::Double, bc::Half, bc::BFloat, bc::Fp128, bc::X86Fp80, bc::PpcFp128])),
        })
    }

    /// A type that memory could hold.
    fn data(&mut self, src: &mut Src, depth: usize) -> Arc<Ty> {
        if depth == 0 {
            return self.scalar(src);
        }
        match src.weighted(&[4, 2, 2, 2, 2]) {
            0 => self.scalar(src),
            1 => {
                let e = self.data(src, depth - 1);
                Arc::new(Ty::Array(*src.pick(&[0, 1, 4, 17, 1 << 40]), e))
            }
            2 => {
                let elem = self.scalar(src);
                Arc::new(Ty::Vector { n: *src.pick(&[1, 2, 4, 100]), elem, scalable: false })
            }
            3 => {
                let n = src.len(4);
                let fields = (0..n).map(|_| self.data(src, depth - 1)).collect();
                Arc::new(Ty::Struct { name: None, fields, packed: src.chance(1, 3) })
            }
            _ => {
                if !self.named.is_empty() && src.chance(1, 2) {
                    return self.named[src.below(self.named.len())].0.clone();
                }
                let n = src.len(4);
                let fields: Vec<Arc<Ty>> = (0..n).map(|_| self.data(src, depth - 1)).collect();
                let packed = src.chance(1, 3);
                let (name, text) = if src.chance(1, 5) {
                    self.unnamed += 1;
                    (None, format!("%{}", self.unnamed - 1))
                } else {
                    // LLVM would rename types that share a name.
                    let s = format!("{}{}{}", word(src), [".", "!", "#"][self.module % 3], self.named.len());
                    (Some(s.clone()), format!("%\"{}\"", escape(&s)))
                };
                let t = Arc::new(Ty::Struct { name, fields, packed });
                // Printed by its structure, since it has no name yet.
                let body = self.text(&t);
                writeln!(self.defs, "{text} = type {body}").unwrap();
                self.named.push((t.clone(), text));
                t
            }
        }
    }

    fn param(&mut self, src: &mut Src) -> Arc<Ty> {
        match src.weighted(&[12, 1, 1]) {
            0 => self.data(src, 2),
            1 => {
                let elem = self.scalar(src);
                Arc::new(Ty::Vector { n: 4, elem, scalable: true })
            }
            _ => Arc::new(Ty::Simple(*src.pick(&[bc::Metadata, bc::X86Mmx, bc::Token, bc::X86Amx]))),
        }
    }
}

const FN_ATTRS: &[(&str, u64)] = &[
    ("alwaysinline", 2), ("inlinehint", 4), ("jumptable", 40), ("minsize", 6), ("naked", 7), ("nobuiltin", 10),
    ("noduplicate", 12), ("noimplicitfloat", 13), ("noinline", 14), ("nonlazybind", 15), ("noredzone", 16),
    ("noreturn", 17), ("nounwind", 18), ("optsize", 19), ("returns_twice", 23), ("ssp", 26), ("sspreq", 27),
    ("sspstrong", 28), ("sanitize_address", 30), ("sanitize_thread", 31), ("sanitize_memory", 32), ("builtin", 35),
    ("cold", 36), ("optnone", 37), ("convergent", 43), ("safestack", 44), ("norecurse", 48), ("speculatable", 53),
    ("strictfp", 54), ("sanitize_hwaddress", 55), ("nocf_check", 56), ("optforfuzzing", 57),
    ("shadowcallstack", 58), ("speculative_load_hardening", 59), ("willreturn", 61), ("nofree", 62), ("nosync", 63),
    ("sanitize_memtag", 64), ("nomerge", 66), ("null_pointer_is_valid", 67), ("mustprogress", 70),
    ("nocallback", 71), ("hot", 72), ("noprofile", 73), ("nosanitize_coverage", 76),
    ("disable_sanitizer_instrumentation", 78), ("nosanitize_bounds", 79), ("presplitcoroutine", 83),
    ("fn_ret_thunk_extern", 84), ("skipprofile", 85),
];
const PARAM_ATTRS: &[(&str, u64)] = &[
    ("inreg", 5), ("nest", 8), ("noalias", 9), ("nocapture", 11), ("readnone", 20), ("readonly", 21),
    ("writeonly", 52), ("returned", 22), ("signext", 24), ("zeroext", 34), ("nonnull", 39), ("swiftself", 46),
    ("swifterror", 47), ("immarg", 60), ("noundef", 68), ("swiftasync", 75), ("nofree", 62), ("allocalign", 80),
    ("allocptr", 81),
];
const RET_ATTRS: &[(&str, u64)] =
    &[("inreg", 5), ("noalias", 9), ("signext", 24), ("zeroext", 34), ("nonnull", 39), ("noundef", 68)];

fn key(a: &Attr) -> String {
    match a {
        Attr::Enum(k) | Attr::Int(k, _) => format!("#{k}"),
        Attr::Str(k) | Attr::StrKv(k, _) => k.clone(),
    }
}

/// Attributes for one target, and their text. At most one of each kind.
fn gen_attrs(src: &mut Src, target: u64) -> (Vec<Attr>, Vec<String>) {
    let mut attrs: Vec<Attr> = vec![];
    let mut text = vec![];
    let n = src.len(4);
    for _ in 0..n {
        let function = target == 0xffff_ffff;
        let (a, t) = match src.weighted(&[5, 3, 2]) {
            0 => {
                let (t, id) = *src.pick(match target {
                    0 => RET_ATTRS,
                    0xffff_ffff => FN_ATTRS,
                    _ => PARAM_ATTRS,
                });
                (Attr::Enum(id), t.to_string())
            }
            1 if function => match src.below(7) {
                0 => {
                    let n = 1u64 << src.upto(8);
                    (Attr::Int(llvm::STACK_ALIGNMENT, n), format!("alignstack({n})"))
                }
                1 => {
                    let (v, t) = *src.pick(&[(1, "uwtable(sync)"), (2, "uwtable"), (2, "uwtable(async)")]);
                    (Attr::Int(llvm::UW_TABLE, v), t.into())
                }
                2 => {
                    let a = src.upto(5);
                    if src.chance(1, 2) {
                        (Attr::Int(llvm::ALLOC_SIZE, a << 32 | 0xffff_ffff), format!("allocsize({a})"))
                    } else {
                        let b = src.upto(5);
                        if b == a {
                            continue;
                        }
                        (Attr::Int(llvm::ALLOC_SIZE, a << 32 | b), format!("allocsize({a}, {b})"))
                    }
                }
                3 => {
                    let a = 1u64 << src.upto(6);
                    let b = a << src.upto(3);
                    match src.below(3) {
                        0 => (Attr::Int(llvm::VSCALE_RANGE, a << 32 | b), format!("vscale_range({a},{b})")),
                        1 => (Attr::Int(llvm::VSCALE_RANGE, a << 32), format!("vscale_range({a},0)")),
                        _ => (Attr::Int(llvm::VSCALE_RANGE, a << 32 | a), format!("vscale_range({a})")),
                    }
                }
                4 => {
                    let (v, t) = *src.pick(&[
                        (0, "memory(none)"),
                        (0b010101, "memory(read)"),
                        (0b101010, "memory(write)"),
                        (0b000001, "memory(argmem: read)"),
                        (0b001100, "memory(inaccessiblemem: readwrite)"),
                        (0b000111, "memory(argmem: readwrite, inaccessiblemem: read)"),
                    ]);
                    (Attr::Int(llvm::MEMORY, v), t.into())
                }
                5 => {
                    let (v, t) = *src.pick(&[(1, "alloc"), (2, "realloc"), (4, "free"), (17, "alloc,zeroed"), (41, "alloc,uninitialized,aligned")]);
                    (Attr::Int(llvm::ALLOC_KIND, v), format!("allockind(\"{t}\")"))
                }
                _ => (Attr::Enum(18), "nounwind".into()),
            },
            1 => match src.below(3) {
                0 => {
                    let n = 1u64 << src.upto(32);
                    (Attr::Int(llvm::ALIGNMENT, n), format!("align {n}"))
                }
                1 => {
                    let n = 1 + src.bits(50);
                    (Attr::Int(llvm::DEREFERENCEABLE, n), format!("dereferenceable({n})"))
                }
                _ => {
                    let n = 1 + src.bits(50);
                    (Attr::Int(llvm::DEREFERENCEABLE_OR_NULL, n), format!("dereferenceable_or_null({n})"))
                }
            },
            _ => {
                let k = word(src);
                if src.chance(1, 2) {
                    (Attr::Str(k.clone()), format!("\"{}\"", escape(&k)))
                } else {
                    let v = word(src);
                    (Attr::StrKv(k.clone(), v.clone()), format!("\"{}\"=\"{}\"", escape(&k), escape(&v)))
                }
            }
        };
        if attrs.iter().any(|b| key(b) == key(&a)) {
            continue;
        }
        attrs.push(a);
        text.push(t);
    }
    (attrs, text)
}

const EXTERNAL: u64 = 0;
const EXTERN_WEAK: u64 = 7;
const PRIVATE: u64 = 9;
const INTERNAL: u64 = 3;

const VISIBILITY: &[&str] = &["", "hidden ", "protected "];
const DLL: &[&str] = &["", "dllimport ", "dllexport "];
const UNNAMED: &[&str] = &["", "unnamed_addr ", "local_unnamed_addr "];
const TLS: &[&str] = &[
    "",
    "thread_local ",
    "thread_local(localdynamic) ",
    "thread_local(initialexec) ",
    "thread_local(localexec) ",
];
const COMDAT_KINDS: &[(&str, u64)] =
    &[("any", 1), ("exactmatch", 2), ("largest", 3), ("nodeduplicate", 4), ("samesize", 5)];

/// A module of declarations, for which everything that mapping it reports is known. With
/// `strict`, it can also be taken through tools that validate inline assembly.
fn gen_source(src: &mut Src, strict: bool, module: usize) -> Source {
    let mut s = Source::default();
    let mut used = vec![];
    let mut t = TypeGen { defs: String::new(), named: vec![], unnamed: 0, module };
    let mut head = String::new();
    let mut body = String::new();

    if src.chance(1, 2) {
        let l = src.pick(DATALAYOUTS).to_string();
        writeln!(head, "target datalayout = \"{l}\"").unwrap();
        s.layout = Some(l);
    }
    if src.chance(2, 3) {
        let x = if strict || src.chance(2, 3) {
            src.pick(&["x86_64-pc-linux-gnu", "x86_64-apple-macosx13.0.0", "aarch64-unknown-linux-gnu", "arm64-apple-ios"])
                .to_string()
        } else {
            word(src)
        };
        writeln!(head, "target triple = \"{}\"", escape(&x)).unwrap();
        s.triple = Some(x);
    }
    if src.chance(1, 2) {
        let f = word(src);
        writeln!(head, "source_filename = \"{}\"", escape(&f)).unwrap();
    }
    let n = src.len(3);
    for _ in 0..n {
        let l = if strict { format!(".globl a{}", src.below(50)) } else { word(src) };
        writeln!(head, "module asm \"{}\"", escape(&l)).unwrap();
        s.asm.push(l);
    }

    // COMDATs: only those in use are written.
    let mut comdats: Vec<(String, u64)> = vec![];
    let n = src.len(3);
    for _ in 0..n {
        let name = symbol(src, &mut used);
        let (k, v) = *src.pick(COMDAT_KINDS);
        writeln!(head, "$\"{}\" = comdat {k}", escape(&name)).unwrap();
        comdats.push((name, v));
    }

    let mut globals: Vec<(String, u32)> = vec![];
    let n = 1 + src.len(3);
    for _ in 0..n {
        let name = symbol(src, &mut used);
        let ty = t.data(src, 2);
        let ty = match &*ty {
            // Too big to make an initializer of.
            Ty::Array(..) => Arc::new(Ty::Integer(32)),
            _ => ty,
        };
        let text = t.text(&ty);
        let a = if src.chance(1, 4) { bc::address_space(src) } else { 0 };
        let space = if a > 0 { format!("addrspace({a}) ") } else { String::new() };
        let l = *src.pick(&["", "private ", "internal ", "weak ", "linkonce_odr "]);
        let mut line = format!("@\"{}\" = {l}{space}global {text} zeroinitializer", escape(&name));
        if src.chance(1, 5) {
            let sec = word(src);
            write!(line, ", section \"{}\"", escape(&sec)).unwrap();
        }
        if !comdats.is_empty() && src.chance(1, 2) {
            let (n, k) = comdats[src.below(comdats.len())].clone();
            write!(line, ", comdat($\"{}\")", escape(&n)).unwrap();
            s.comdats.insert(n, k);
        }
        writeln!(body, "{line}").unwrap();
        globals.push((name, a));
    }

    let mut groups = String::new();
    let n = src.len(4);
    let mut unnamed = 0;
    for i in 0..n {
        let anonymous = src.chance(1, 12);
        let name = if anonymous { String::new() } else { symbol(src, &mut used) };
        let at = if anonymous {
            unnamed += 1;
            format!("@{}", unnamed - 1)
        } else {
            format!("@\"{}\"", escape(&name))
        };
        let mut attrs = BTreeMap::new();
        let mut put = |target: u64, a: Vec<Attr>| {
            if !a.is_empty() {
                attrs.insert(target, a);
            }
        };
        let (ra, rt) = gen_attrs(src, 0);
        put(0, ra);
        let ret = match src.weighted(&[2, 4]) {
            0 => Arc::new(Ty::Simple(bc::Void)),
            _ => t.data(src, 2),
        };
        let k = src.len(4);
        let mut params = vec![];
        let mut ptext = vec![];
        for j in 0..k {
            let p = t.param(src);
            let (pa, pt) = gen_attrs(src, j as u64 + 1);
            put(j as u64 + 1, pa);
            ptext.push(format!("{} {}", t.text(&p), pt.join(" ")));
            params.push(p);
        }
        let vararg = src.chance(1, 4);
        if vararg {
            ptext.push("...".into());
        }
        let (fa, ft) = gen_attrs(src, 0xffff_ffff);
        put(0xffff_ffff, fa);
        // Right at the declaration, or through a group.
        let ftext = if !ft.is_empty() && src.chance(1, 2) {
            // Groups spell some attributes differently.
            let g: Vec<String> = ft
                .iter()
                .map(|x| match x.strip_prefix("alignstack(") {
                    Some(r) => format!("alignstack={}", r.trim_end_matches(')')),
                    None => x.clone(),
                })
                .collect();
            writeln!(groups, "attributes #{i} = {{ {} }}", g.join(" ")).unwrap();
            format!("#{i} ")
        } else {
            ft.iter().map(|x| format!("{x} ")).collect()
        };
        let linkage = if src.chance(1, 4) { EXTERN_WEAK } else { EXTERNAL };
        let visibility = src.upto(2);
        let dll = if src.chance(1, 4) && visibility == 0 { src.upto(2) } else { 0 };
        let local = dll == 0 && src.chance(1, 4);
        let unnamed = src.upto(2);
        let align = if src.chance(1, 3) { 1 + src.upto(32) as u8 } else { 0 };
        let section = src.chance(1, 4).then(|| word(src));
        let gc = src.chance(1, 5).then(|| word(src));
        let cc = if src.chance(1, 3) { bc::gen_cc(src) } else { 0 };
        let mut line = String::from("declare ");
        if linkage == EXTERN_WEAK {
            line.push_str("extern_weak ");
        }
        if local {
            line.push_str("dso_local ");
        }
        line.push_str(VISIBILITY[visibility as usize]);
        line.push_str(DLL[dll as usize]);
        if cc > 0 {
            write!(line, "cc {cc} ").unwrap();
        }
        write!(line, "{} {} {at}({}) ", rt.join(" "), t.text(&ret), ptext.join(", ")).unwrap();
        line.push_str(UNNAMED[unnamed as usize]);
        line.push_str(&ftext);
        if let Some(x) = &section {
            write!(line, "section \"{}\" ", escape(x)).unwrap();
        }
        if align > 0 {
            write!(line, "align {} ", 1u64 << (align - 1)).unwrap();
        }
        if let Some(x) = &gc {
            write!(line, "gc \"{}\" ", escape(x)).unwrap();
        }
        writeln!(body, "{line}").unwrap();
        s.functions.push(Func {
            name,
            ty: Arc::new(Ty::Function { ret, params, vararg }),
            cc,
            linkage,
            visibility,
            dll,
            unnamed,
            align,
            section,
            gc,
            attrs,
        });
    }

    let n = src.len(3);
    for _ in 0..n {
        let (g, space) = globals[src.below(globals.len())].clone();
        let name = symbol(src, &mut used);
        let (lt, linkage) = *src.pick(&[
            ("", EXTERNAL),
            ("private ", PRIVATE),
            ("internal ", INTERNAL),
            ("weak ", 16),
            ("weak_odr ", 17),
            ("linkonce ", 18),
            ("linkonce_odr ", 19),
        ]);
        let hidden = matches!(linkage, PRIVATE | INTERNAL);
        let visibility = if hidden { 0 } else { src.upto(2) };
        let dll = if hidden || visibility != 0 || src.chance(2, 3) { 0 } else { src.upto(2) };
        let explicit = dll != 1 && src.chance(1, 4);
        let tls = src.upto(4);
        let unnamed = src.upto(2);
        let ty = t.data(src, 1);
        let p = if space > 0 { format!("ptr addrspace({space})") } else { "ptr".into() };
        writeln!(
            body,
            "@\"{}\" = {lt}{}{}{}{}{}alias {}, {p} @\"{}\"",
            escape(&name),
            if explicit { "dso_local " } else { "" },
            VISIBILITY[visibility as usize],
            DLL[dll as usize],
            TLS[tls as usize],
            UNNAMED[unnamed as usize],
            t.text(&ty),
            escape(&g)
        )
        .unwrap();
        s.aliases.push(Al {
            name,
            ty,
            linkage,
            visibility,
            dll,
            tls,
            unnamed,
            local: explicit || hidden || visibility != 0,
        });
    }

    if src.chance(1, 2) {
        let k = word(src);
        writeln!(body, "!llvm.ident = !{{!0}}\n!named = !{{!1, !0}}").unwrap();
        writeln!(body, "!0 = !{{!\"{}\"}}\n!1 = distinct !{{i32 {}, !0, null}}", escape(&k), src.bits(31)).unwrap();
    }
    s.text = format!("{head}{}{body}{groups}", t.defs);
    s
}

/// Functions with bodies: the reader has to cope, whatever the mapper does.
fn gen_bodies(src: &mut Src, dir: &Path) -> Result<Source, String> {
    let mut text = if src.chance(1, 2) {
        let (size, seed) = (10 + src.below(150), src.bits(30));
        let out = tool("llvm-stress", &["-size", &size.to_string(), "-seed", &seed.to_string()], dir)?;
        String::from_utf8_lossy(&out).into_owned()
    } else {
        String::new()
    };
    let n = 1 + src.len(5);
    for i in 0..n {
        let k = src.upto(1 << 20);
        let w = *src.pick(&[8, 16, 32, 64, 128]);
        let _ = match src.below(9) {
            0 => writeln!(text, "define i{w} @a{i}(i{w} %x, ptr %p) {{\n %y = add nsw i{w} %x, {}\n store i{w} %y, ptr %p, align 4\n %z = load volatile i{w}, ptr %p\n ret i{w} %z\n}}", k % 100),
            1 => writeln!(text, "define i32 @b{i}(i1 %c) {{\n br i1 %c, label %l, label %r\nl:\n br label %e\nr:\n br label %e\ne:\n %v = phi i32 [ {k}, %l ], [ -{k}, %r ]\n ret i32 %v\n}}"),
            2 => writeln!(text, "define void @c{i}(i64 %v) {{\n switch i64 %v, label %d [ i64 {k}, label %a\n i64 -1, label %b ]\na:\n ret void\nb:\n ret void\nd:\n unreachable\n}}"),
            3 => writeln!(text, "@s{i} = private unnamed_addr constant [{} x i8] c\"{}\\00\"\ndeclare i32 @x{i}(ptr, ...)\ndefine i32 @d{i}() {{\n %r = call i32 (ptr, ...) @x{i}(ptr @s{i}, i64 {k}, double 0.5)\n ret i32 %r\n}}", 1 + k % 40, "z".repeat((k % 40) as usize)),
            4 => writeln!(text, "%T{i} = type {{ i32, [4 x i{w}], ptr }}\n@t{i} = global [2 x %T{i}] zeroinitializer\ndefine ptr @e{i}(i64 %k) {{\n %p = getelementptr inbounds [2 x %T{i}], ptr @t{i}, i64 0, i64 %k, i32 1, i64 {}\n ret ptr %p\n}}", k % 4),
            5 => writeln!(text, "declare i32 @__gxx_personality_v0(...)\ndeclare void @may{i}()\ndefine void @f{i}() personality ptr @__gxx_personality_v0 {{\n invoke void @may{i}() to label %n unwind label %u\nn:\n ret void\nu:\n %l = landingpad {{ ptr, i32 }} cleanup\n resume {{ ptr, i32 }} %l\n}}").and(Ok(())),
            6 => writeln!(text, "define i{w} @g{i}(ptr %p) {{\n %o = atomicrmw add ptr %p, i{w} {} seq_cst\n %c = cmpxchg ptr %p, i{w} %o, i{w} 3 acq_rel monotonic\n fence syncscope(\"agent{k}\") release\n %v = extractvalue {{ i{w}, i1 }} %c, 0\n ret i{w} %v\n}}", k % 90),
            7 => writeln!(text, "define <4 x float> @h{i}(<4 x float> %a, <4 x float> %b) {{\n %s = shufflevector <4 x float> %a, <4 x float> %b, <4 x i32> <i32 0, i32 5, i32 {}, i32 undef>\n %m = fmul fast <4 x float> %s, %b\n %n = fneg <4 x float> %m\n %i = insertelement <4 x float> %n, float 1.25, i32 {}\n ret <4 x float> %i\n}}", k % 8, k % 4),
            _ => writeln!(text, "define i32 @i{i}() !dbg !{0} {{\n %r = call i32 asm sideeffect \"mov $0, {k}\", \"=r,~{{memory}}\"(), !dbg !{1}\n ret i32 %r, !dbg !{1}\n}}\n!{0} = distinct !DISubprogram(name: \"i{i}\", file: !{2}, unit: !{3}, line: {k}, spFlags: DISPFlagDefinition)\n!{1} = !DILocation(line: {k}, column: 7, scope: !{0})\n!{2} = !DIFile(filename: \"f{k}\", directory: \"/d\")\n!{3} = distinct !DICompileUnit(language: DW_LANG_C99, file: !{2}, emissionKind: FullDebug)\n!llvm.dbg.cu = !{{!{3}}}\n", 100 * (i + 1), 100 * (i + 1) + 1, 100 * (i + 1) + 2, 100 * (i + 1) + 3),
        };
    }
    if text.matches("declare i32 @__gxx_personality_v0").count() > 1 {
        let d = "declare i32 @__gxx_personality_v0(...)\n";
        text = format!("{d}{}", text.replace(d, ""));
    }
    Ok(Source { text, body: true, ..Default::default() })
}

// ---------------------------------------------------------------------------------------------

/// What a mapped module has to look like, by its source.
#[cfg(mollusc_verif)]
fn check_source(s: &Source, view: &crate::view::View<'_>) -> CaseResult {
    use llvm_mapper::block::AttributeGroupDisposition as D;
    let dl = match &s.layout {
        Some(l) => l.parse().map_err(|e| format!("data layout {l:?}: {e}"))?,
        None => llvm_mapper::record::DataLayout::default(),
    };
    ensure!(
        format!("{dl:?}") == format!("{:?}", view.ctx.datalayout),
        "data layout: expected {:?}, got {:?}",
        s.layout,
        view.ctx.datalayout
    );
    ensure!(
        view.functions.len() == s.functions.len(),
        "{} functions are declared, but {} were mapped",
        s.functions.len(),
        view.functions.len()
    );
    for (w, g) in s.functions.iter().zip(view.functions) {
        let c = |m: String| short(format!("function {:?}: {m}", w.name));
        ensure!(g.name == w.name, "{}", c(format!("got {:?}", g.name)));
        let Type::Function(ty) = w.ty.build().map_err(&c)? else { return Err("model".into()) };
        ensure!(*g.ty == ty, "{}", c(format!("expected the type {ty:?}, got {:?}", g.ty)));
        ensure!(
            llvm::calling_convention(w.cc).is_some_and(|n| llvm::is(&g.calling_convention, n)),
            "{}",
            c(format!("cc {} became {:?}", w.cc, g.calling_convention))
        );
        ensure!(g.is_declaration, "{}", c("it isn't a declaration".into()));
        ensure!(llvm::is(&g.linkage, llvm::linkage(w.linkage)), "{}", c(format!("linkage {} became {:?}", w.linkage, g.linkage)));
        ensure!(
            llvm::visibility(w.visibility).is_some_and(|n| llvm::is(&g.visibility, n)),
            "{}",
            c(format!("visibility {}: {:?}", w.visibility, g.visibility))
        );
        ensure!(
            llvm::dll_storage_class(w.dll).is_some_and(|n| llvm::is(&g.storage_class, n)),
            "{}",
            c(format!("storage class {}: {:?}", w.dll, g.storage_class))
        );
        ensure!(
            llvm::unnamed_addr(w.unnamed).is_some_and(|n| llvm::is(&g.unnamed_addr, n)),
            "{}",
            c(format!("unnamed_addr {}: {:?}", w.unnamed, g.unnamed_addr))
        );
        ensure!(
            g.alignment == MaybeAlign::try_from(w.align).unwrap(),
            "{}",
            c(format!("alignment {}: {:?}", w.align, g.alignment))
        );
        ensure!(g.section == w.section.as_deref(), "{}", c(format!("section {:?}: {:?}", w.section, g.section)));
        ensure!(g.gc_name == w.gc.as_deref(), "{}", c(format!("gc {:?}: {:?}", w.gc, g.gc_name)));
        let groups = g.attributes.map_or(&[][..], |a| a.verif_groups());
        ensure!(
            s.lossy || groups.len() == w.attrs.len(),
            "{}",
            c(format!("attributes for {:?}: {groups:?}", w.attrs.keys()))
        );
        for gr in groups.iter().filter(|_| !s.lossy) {
            let target = match gr.disposition {
                D::Return => 0,
                D::Parameter(n) => n as u64,
                D::Function => 0xffff_ffff,
            };
            let want = w.attrs.get(&target).ok_or_else(|| c(format!("unexpected attributes: {gr:?}")))?;
            ensure!(
                gr.attributes.len() == want.len() && want.iter().all(|a| gr.attributes.iter().any(|b| a.is(b))),
                "{}",
                c(format!("expected the attributes {want:?}, got {gr:?}"))
            );
        }
    }
    ensure!(
        view.aliases.len() == s.aliases.len(),
        "{} aliases are declared, but {} were mapped",
        s.aliases.len(),
        view.aliases.len()
    );
    for (w, g) in s.aliases.iter().zip(view.aliases) {
        let c = |m: String| short(format!("alias {:?}: {m}", w.name));
        ensure!(g.name == w.name, "{}", c(format!("got {:?}", g.name)));
        w.ty.same(g.ty).map_err(&c)?;
        ensure!(llvm::is(&g.linkage, llvm::linkage(w.linkage)), "{}", c(format!("linkage {} became {:?}", w.linkage, g.linkage)));
        ensure!(
            llvm::visibility(w.visibility).is_some_and(|n| llvm::is(&g.visibility, n))
                && llvm::dll_storage_class(w.dll).is_some_and(|n| llvm::is(&g.storage_class, n))
                && llvm::thread_local_mode(w.tls).is_some_and(|n| llvm::is(&g.tls_mode, n))
                && llvm::unnamed_addr(w.unnamed).is_some_and(|n| llvm::is(&g.unnamed_addr, n))
                && llvm::preemption(w.local as u64).is_some_and(|n| llvm::is(&g.preemption_specifier, n)),
            "{}",
            c(format!("expected {w:?}, got {g:?}"))
        );
    }
    let got: BTreeMap<String, u64> = view
        .ctx
        .comdats
        .iter()
        .map(|x| (x.name.to_string(), (1..=5).find(|k| bc::check_comdat(&(*k, x.name.to_string()), x).is_ok()).unwrap_or(0)))
        .collect();
    ensure!(got == s.comdats, "COMDATs: expected {:?}, got {got:?}", s.comdats);
    Ok(())
}

fn c27(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let dir = scratch_dir("llvm");
    let r = c27_in(src, obs, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn c27_in(src: &mut Src, obs: &mut Obs, dir: &Path) -> CaseResult {
    let kind = src.weighted(&[10, 5, 3, 3]);
    let strict = kind == 2;
    let mut sources = vec![];
    let n = if kind == 3 { 2 + src.below(2) } else { 1 };
    for i in 0..n {
        let s = match kind {
            1 => match gen_bodies(src, dir) {
                Ok(s) => s,
                Err(e) => {
                    obs.label("left out: llvm-stress failed");
                    obs.sample(|| e);
                    return Ok(());
                }
            },
            _ => gen_source(src, strict, i),
        };
        sources.push(s);
    }
    obs.label(["declarations", "function bodies", "through opt, with a symbol table", "several modules"][kind]);
    for (i, s) in sources.iter().enumerate() {
        std::fs::write(dir.join(format!("{i}.ll")), &s.text).map_err(|e| e.to_string())?;
    }
    let mut lossy = false;
    let made = (|| -> Result<Vec<u8>, String> {
        let mut names = vec![];
        for i in 0..n {
            let (ll, out) = (format!("{i}.ll"), format!("{i}.bc"));
            match kind {
                2 => {
                    let mut args = vec!["--disable-verify", &ll, "-o", &out];
                    match src.below(3) {
                        0 => args.push("--module-summary"),
                        1 => args.push("--module-hash"),
                        _ => {}
                    }
                    tool("opt", &args, dir)?
                }
                _ => {
                    let mut args = vec!["--disable-verify", &ll, "-o", &out];
                    if src.chance(1, 3) {
                        args.push("--preserve-bc-uselistorder");
                    }
                    tool("llvm-as", &args, dir)?
                }
            };
            names.push(out);
        }
        if kind == 3 {
            let mut args = if src.chance(1, 2) { vec!["-b"] } else { vec![] };
            lossy = args.is_empty();
            args.extend(names.iter().map(|n| n.as_str()));
            args.extend(["-o", "0.bc"]);
            tool("llvm-cat", &args, dir)?;
        }
        std::fs::read(dir.join("0.bc")).map_err(|e| e.to_string())
    })();
    let dump_args = ["--dump", "--disable-histogram", "--non-symbolic", "--show-binary-blobs", "0.bc"];
    let (bytes, dump) = match made.and_then(|b| Ok((b, tool("llvm-bcanalyzer", &dump_args, dir)?))) {
        Ok(x) => x,
        Err(e) => {
            obs.label("left out: the tools refused the source");
            obs.sample(|| short(format!("{e}\n{}", sources[0].text)));
            return Ok(());
        }
    };
    let dump = parse_dump(&String::from_utf8_lossy(&dump))?;
    sources.iter_mut().for_each(|s| s.lossy = lossy);
    // The tools add to data layouts when they know the target.
    let (mut scope, mut at) = (vec![], 0);
    for d in &dump {
        match d {
            Dumped::Enter { id, .. } => scope.push(*id),
            Dumped::End => {
                at += (scope.pop() == Some(8) && scope.is_empty()) as usize;
            }
            Dumped::Rec { code: 3, ops, .. } if scope == [8] && at < n => {
                sources[at].layout = Some(ops.iter().map(|o| *o as u8 as char).collect());
            }
            _ => {}
        }
    }
    obs.key(&sources.iter().flat_map(|s| s.text.bytes()).collect::<Vec<u8>>());
    obs.nontrivial = dump.iter().filter(|d| matches!(d, Dumped::Rec { .. })).count() >= 20;
    obs.sample(|| short(format!("{} bytes, {} entries: {}", bytes.len(), dump.len(), sources[0].text)));
    checkpoint(src);

    let context = |e: String| format!("{e}\n--- source ---\n{}", sources.iter().map(|s| &s.text[..]).collect::<Vec<_>>().join("\n---\n"));
    (|| -> CaseResult {
        let (wrapper, bs) = Bitstream::from(&bytes).map_err(|e| format!("refused to open it: {e:?}"))?;
        obs.label_if(wrapper.is_some(), "wrapped");
        let read = stream::drain(bs, bytes.len());
        compare(&dump, &read.ents)?;
        ensure!(read.finish == Finish::End, "after all entries: {:?}", read.finish);
        map(&bytes, &sources, &dump, obs)
    })()
    .map_err(context)
}

fn map(bytes: &[u8], sources: &[Source], dump: &[Dumped], obs: &mut Obs) -> CaseResult {
    if sources.iter().any(|s| s.body) {
        // Not supported; it's enough that nothing breaks.
        let _ = Bitcode::try_from(bytes);
        return Ok(());
    }
    #[allow(unused_mut)]
    let mut errors: std::rc::Rc<std::cell::RefCell<Vec<String>>> = Default::default();
    #[cfg(mollusc_verif)]
    {
        let (errors, sources) = (errors.clone(), sources.to_vec());
        let mut i = 0;
        llvm_mapper::verif::set_observer(Some(Box::new(move |view| {
            if let Some(s) = sources.get(i) {
                if let Err(e) = check_source(s, view) {
                    errors.borrow_mut().push(e);
                }
            }
            i += 1;
        })));
    }
    let r = Bitcode::try_from(bytes);
    crate::view::reset();
    let b = r.map_err(|e| format!("it isn't mapped: {}", bc::chain(&e)))?;
    obs.label("mapped and compared with the source");
    ensure!(b.modules.len() == sources.len(), "{} modules, not {}", b.modules.len(), sources.len());

    // String and symbol tables, as LLVM reports them.
    let mut scope = vec![];
    let mut blobs: Vec<(u64, Vec<u8>)> = vec![];
    for d in dump {
        match d {
            Dumped::Enter { id, .. } => scope.push(*id),
            Dumped::End => {
                scope.pop();
            }
            Dumped::Rec { blob: Some(x), .. } => {
                if let [id @ (23 | 25)] = scope[..] {
                    blobs.push((id, x.clone()));
                }
            }
            _ => {}
        }
    }
    obs.label_if(blobs.iter().any(|(i, _)| *i == 25), "with a symbol table");
    for (i, (s, m)) in sources.iter().zip(&b.modules).enumerate() {
        let id = &m.identification;
        ensure!(id.producer == "LLVM18.1.3", "module {i}: the producer is {:?}", id.producer);
        ensure!(id.epoch as u64 == 0, "module {i}: the epoch is {:?}", id.epoch);
        if let Some(t) = &s.triple {
            ensure!(m.module.triple == *t, "module {i}: triple {t:?} became {:?}", m.module.triple);
        }
        // Lines are terminated, unless they already are.
        let mut text = String::new();
        for l in &s.asm {
            text.push_str(l);
            if !text.is_empty() && !text.ends_with('\n') {
                text.push('\n');
            }
        }
        let asm: Vec<String> = if text.is_empty() { vec![] } else { text.split('\n').map(String::from).collect() };
        ensure!(m.module.asm == asm, "module {i}: the assembly {asm:?} became {:?}", m.module.asm);
        ensure!(m.module.deplibs.is_empty(), "module {i}: libraries {:?}", m.module.deplibs);
        let tables: Vec<&Vec<u8>> = blobs.iter().filter(|b| b.0 == 23).map(|b| &b.1).collect();
        // One for each, or one for all.
        let want = if tables.len() == 1 { tables[0] } else { tables[i] };
        ensure!(m.strtab.as_ref() == &want[..], "module {i}: the string table isn't what LLVM reports");
        let symtabs: Vec<&Vec<u8>> = blobs.iter().filter(|b| b.0 == 25).map(|b| &b.1).collect();
        match (&m.symtab, &symtabs[..]) {
            (None, []) => {}
            (Some(g), [w]) => {
                ensure!(g.as_ref() == &w[..], "module {i}: the symbol table isn't what LLVM reports")
            }
            (Some(_), [_, _, ..]) => {}
            (g, w) => return Err(format!("module {i}: symbol table {:?}, LLVM reports {}", g.is_some(), w.len())),
        }
    }
    if let Some(e) = errors.borrow().first() {
        return Err(e.clone());
    }
    Ok(())
}
