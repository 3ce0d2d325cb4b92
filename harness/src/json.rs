//! A minimal JSON writer, and the little reading that replay and known-findings files need.

pub fn s(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Extracts the string value of `key` from a flat JSON object.
pub fn get_str(json: &str, key: &str) -> Option<String> {
    let k = format!("\"{key}\"");
    let at = json.find(&k)? + k.len();
    let rest = json[at..].trim_start().strip_prefix(':')?.trim_start().strip_prefix('"')?;
    let mut out = String::new();
    let mut it = rest.chars();
    while let Some(c) = it.next() {
        match c {
            '"' => return Some(out),
            '\\' => match it.next()? {
                'n' => out.push('\n'),
                'u' => {
                    let h: String = it.by_ref().take(4).collect();
                    out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                }
                c => out.push(c),
            },
            c => out.push(c),
        }
    }
    None
}

/// Extracts an array of numbers.
pub fn get_nums(json: &str, key: &str) -> Option<Vec<u64>> {
    let k = format!("\"{key}\"");
    let at = json.find(&k)? + k.len();
    let rest = &json[at..];
    let a = rest.find('[')?;
    let b = rest.find(']')?;
    Some(crate::engine::split(&rest[a + 1..b]))
}
