/// Fails the case with a message unless the condition holds.
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !($c) {
            return Err(format!($($arg)*));
        }
    };
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

/// Shortens long text for messages.
pub fn short(s: impl Into<String>) -> String {
    let mut s = s.into();
    if s.len() > 600 {
        let mut n = 600;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push_str(" ..");
    }
    s
}
