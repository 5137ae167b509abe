//! Shared harness helpers.
use crate::sym::*;
use vcard4::Vcard;

pub const HEAD: &[u8] = b"BEGIN:VCARD\r\nVERSION:4.0\r\n";
pub const TAIL: &[u8] = b"END:VCARD\r\n";

/// A template: label, text with `@` placeholders for the symbolic part.
pub type T = (&'static str, &'static str);

/// Choose a template.
pub fn pick(ts: &[T]) -> &'static str {
    let i = choose(ts.len());
    let mut k = 0;
    for t in ts {
        if k == i {
            label(t.0);
            return unsafe { std::mem::transmute::<&str, &'static str>(t.1) };
        }
        k += 1;
    }
    unreachable!()
}
/// Replace each `@` by the given bytes and `|` by CRLF.
pub fn fill(t: &str, b: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(t.len() + b.len() + 8);
    for c in t.bytes() {
        match c {
            b'@' => v.extend_from_slice(b),
            b'|' => v.extend_from_slice(b"\r\n"),
            c => v.push(c),
        }
    }
    v
}
/// Wrap property lines (without final line break) in a vCard.
pub fn doc(lines: &[u8]) -> String {
    let mut v = Vec::with_capacity(lines.len() + 64);
    v.extend_from_slice(HEAD);
    v.extend_from_slice(lines);
    v.extend_from_slice(b"\r\n");
    v.extend_from_slice(TAIL);
    s(v)
}
pub fn doct(t: &str, b: &[u8]) -> String {
    doc(&fill(t, b))
}
/// Parse a document that must hold exactly one card.
pub fn one(src: &str) -> Option<Vcard> {
    match vcard4::parse(src) {
        Ok(mut v) if v.len() == 1 => v.pop(),
        _ => None,
    }
}
/// Code path warm up: initialises lazily built tables before symbolic input exists.
pub fn warm() {
    let _ = vcard4::parse("BEGIN:VCARD\nVERSION:4.0\nFN:a\\,b\nURL:http://a/\nBDAY:20200101\nEND:VCARD\n").map(|c| c[0].to_string());
}
pub const UCHARS: usize = 8;
/// A symbolic non-control Unicode scalar (UTF-8), by shape: the lead byte is
/// enumerated, continuation bytes are symbolic.
pub fn uchar(kind: usize) -> Vec<u8> {
    let (lead, n, lo0): (&[u8], usize, u8) = match kind {
        0 => (&[0xC3], 1, 0x80),       // Latin-1 letters
        1 => (&[0xCC], 1, 0x80),       // combining marks
        2 => (&[0xD7], 1, 0x80),       // Hebrew
        3 => (&[0xE2, 0x80], 1, 0x80), // general punctuation, ZWJ, bidi, line separators
        4 => (&[0xE4, 0xB8], 1, 0x80), // CJK
        5 => (&[0xF0, 0x9F, 0x87], 1, 0x80), // regional indicators
        6 => (&[0xF0, 0x9F, 0x98], 1, 0x80), // emoji
        _ => (&[0xEA, 0xB0], 1, 0x80), // Hangul syllables
    };
    let mut v = lead.to_vec();
    let c = bytes(n);
    for b in &c {
        assume(*b >= lo0 && *b <= 0xBF);
    }
    v.extend_from_slice(&c);
    v
}
/// Printable content characters allowed in a text value: no control characters but tab.
pub fn no_ctl(b: &[u8]) {
    for c in b {
        assume(*c >= 0x20 && *c != 0x7f || *c == b'\t');
    }
}
/// The types of language tags and media types depend on the crate's features.
#[cfg(not(feature = "types"))]
pub mod ty {
    pub fn lang(s: String) -> Option<String> {
        Some(s)
    }
    pub use lang as media;
    pub fn str(s: &String) -> &str {
        s
    }
    pub use str as mstr;
}
#[cfg(feature = "types")]
pub mod ty {
    pub fn lang(s: String) -> Option<language_tags::LanguageTag> {
        s.parse().ok()
    }
    pub fn media(s: String) -> Option<mime::Mime> {
        s.parse().ok()
    }
    pub fn str(s: &language_tags::LanguageTag) -> &str {
        s.as_str()
    }
    pub fn mstr(s: &mime::Mime) -> &str {
        s.as_ref()
    }
}
