use std::borrow::Cow;

/// Converts bytes into a ready-to-be-printed form.
pub fn escape_byte_string<B: AsRef<[u8]>>(bytes: B) -> String {
    let mut out = String::new();
    for b in bytes.as_ref() {
        match b {
            b'\\' => out.push_str("\\\\"),
            b'"' => out.push_str("\\\""),
            b'\r' => out.push_str("\\r"),
            b'\n' => out.push_str("\\n"),
            b'\t' => out.push_str("\\t"),
            0x20..=0x7e => out.push(*b as char),
            b => out.push_str(&format!("\\x{b:02x}")),
        }
    }
    out
}

pub fn escape_quoted(unescaped: &str) -> Cow<'_, str> {
    if unescaped.contains(['\\', '"']) {
        Cow::Owned(unescaped.replace('\\', "\\\\").replace('"', "\\\""))
    } else {
        Cow::Borrowed(unescaped)
    }
}

pub mod indicators {
    pub fn is_char(b: u8) -> bool {
        (1..=0x7f).contains(&b)
    }
    pub fn is_char8(b: u8) -> bool {
        b != 0
    }
    pub fn is_text_char(b: u8) -> bool {
        is_char(b) && b != b'\r' && b != b'\n'
    }
    pub fn is_ctl(b: u8) -> bool {
        b <= 0x1f || b == 0x7f
    }
    pub fn is_list_wildcards(b: u8) -> bool {
        b == b'%' || b == b'*'
    }
    pub fn is_quoted_specials(b: u8) -> bool {
        b == b'"' || b == b'\\'
    }
    pub fn is_atom_specials(b: u8) -> bool {
        matches!(b, b'(' | b')' | b'{' | b' ' | b']') || is_ctl(b) || is_list_wildcards(b) || is_quoted_specials(b)
    }
    pub fn is_atom_char(b: u8) -> bool {
        is_char(b) && !is_atom_specials(b)
    }
    pub fn is_astring_char(b: u8) -> bool {
        is_atom_char(b) || b == b']'
    }
    pub fn is_any_text_char_except_quoted_specials(b: u8) -> bool {
        is_text_char(b) && !is_quoted_specials(b)
    }
}
