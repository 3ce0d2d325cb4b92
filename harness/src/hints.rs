//! Numbers and strings that occur in the code under test: worth trying as inputs, wherever one of
//! them is possible. They only steer the search; no verdict depends on them.

use std::path::Path;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Hints {
    /// Ascending.
    pub numbers: Vec<u64>,
    pub strings: Vec<String>,
}

pub fn hints() -> &'static Hints {
    static HINTS: OnceLock<Hints> = OnceLock::new();
    HINTS.get_or_init(|| {
        let mut h = Hints::default();
        if let Some(root) = root() {
            let mut crates: Vec<_> = match std::fs::read_dir(root) {
                Ok(d) => d.flatten().map(|e| e.path().join("src")).filter(|p| p.is_dir()).collect(),
                Err(_) => vec![],
            };
            crates.sort();
            for c in crates {
                walk(&c, &mut h);
            }
        }
        h.numbers.retain(|n| *n > 8);
        h.numbers.sort_unstable();
        h.numbers.dedup();
        h.strings.sort();
        h.strings.dedup();
        h
    })
}

/// Where the code under test is, by the harness's own manifest.
fn root() -> Option<&'static Path> {
    let toml = include_str!("../Cargo.toml");
    let line = toml.lines().find(|l| l.starts_with("llvm-bitcursor"))?;
    let path = line.split('"').find(|s| s.ends_with("/llvm-bitcursor"))?;
    Path::new(path).parent()
}

fn walk(dir: &Path, h: &mut Hints) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    let mut paths: Vec<_> = d.flatten().map(|e| e.path()).collect();
    paths.sort();
    for p in paths {
        if p.is_dir() {
            walk(&p, h);
        } else if p.extension().is_some_and(|e| e == "rs") {
            if let Ok(s) = std::fs::read_to_string(&p) {
                scan(s.split("#[cfg(test)]").next().unwrap_or(""), h);
            }
        }
    }
}

/// Collects the literals of a source text (roughly; it's only about hints).
fn scan(text: &str, h: &mut Hints) {
    let b = text.as_bytes();
    let mut i = 0;
    // For shifts: the literal before, when nothing but `<<` has followed.
    let mut before: Option<u64> = None;
    while i < b.len() {
        match b[i] {
            b'/' if b.get(i + 1) == Some(&b'/') => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'"' => {
                let start = i + 1;
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    i += 1 + (b[i] == b'\\') as usize;
                }
                if let Some(s) = text.get(start..i.min(b.len())) {
                    let plain = !s.contains(|c: char| matches!(c, ' ' | '{' | '\\') || c.is_control());
                    if plain && (1..=40).contains(&s.len()) {
                        h.strings.push(s.to_string());
                    }
                }
                i += 1;
                before = None;
            }
            c if c.is_ascii_digit() => {
                let start = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                if start > 0 && (b[start - 1].is_ascii_alphanumeric() || b[start - 1] == b'_') {
                    continue;
                }
                before = match number(&text[start..i]) {
                    Some(n) => {
                        h.numbers.push(n);
                        if let (Some(m), true) = (before, n < 64) {
                            h.numbers.push(m.wrapping_shl(n as u32));
                        }
                        Some(n)
                    }
                    None => None,
                };
            }
            c => {
                if !(c == b'<' || c == b' ') {
                    before = None;
                }
                i += c_len(c);
            }
        }
    }
}

fn c_len(first: u8) -> usize {
    match first {
        0..=0xbf => 1,
        0xc0..=0xdf => 2,
        0xe0..=0xef => 3,
        _ => 4,
    }
}

fn number(s: &str) -> Option<u64> {
    let s: String = s.chars().filter(|c| *c != '_').collect();
    let s = ["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"]
        .iter()
        .find_map(|t| s.strip_suffix(t))
        .unwrap_or(&s)
        .to_string();
    if let Some(x) = s.strip_prefix("0x") {
        u64::from_str_radix(x, 16).ok()
    } else if let Some(x) = s.strip_prefix("0b") {
        u64::from_str_radix(x, 2).ok()
    } else {
        s.parse().ok()
    }
}
