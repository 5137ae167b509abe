//! Reference definitions (RFC 6350) the library is compared with.

/// Escape a text value (component): `\`, line breaks, `,` and optionally `;`.
pub fn escape(v: &[u8], semi: bool) -> Vec<u8> {
    let mut o = Vec::with_capacity(v.len() * 2);
    let mut i = 0;
    while i < v.len() {
        let c = v[i];
        if c == b'\\' {
            o.extend_from_slice(b"\\\\");
        } else if c == b'\n' {
            o.extend_from_slice(b"\\n");
        } else if c == b',' {
            o.extend_from_slice(b"\\,");
        } else if c == b';' && semi {
            o.extend_from_slice(b"\\;");
        } else {
            o.push(c);
        }
        i += 1;
    }
    o
}
/// Split on unescaped delimiters and decode `\\`, `\,`, `\;`, `\n`, `\N`.
/// Other backslashes are kept.
pub fn decode(v: &[u8], delim: u8, limit: usize) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut cur = Vec::with_capacity(v.len());
    let mut i = 0;
    while i < v.len() {
        let c = v[i];
        if c == b'\\' && i + 1 < v.len() {
            let d = v[i + 1];
            if d == b'n' || d == b'N' {
                cur.push(b'\n');
                i += 2;
                continue;
            }
            if d == b'\\' || d == b',' || d == b';' {
                cur.push(d);
                i += 2;
                continue;
            }
        }
        if delim != 0 && c == delim && out.len() + 1 < limit {
            out.push(std::mem::take(&mut cur));
        } else {
            cur.push(c);
        }
        i += 1;
    }
    out.push(cur);
    out
}
pub fn decode_text(v: &[u8]) -> Vec<u8> {
    decode(v, 0, 1).pop().unwrap()
}
/// Remove folds.
pub fn unfold(v: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(v.len());
    let mut i = 0;
    while i < v.len() {
        if v[i] == b'\r' && i + 2 < v.len() && v[i + 1] == b'\n' && (v[i + 2] == b' ' || v[i + 2] == b'\t') {
            i += 3;
        } else if v[i] == b'\n' && i + 1 < v.len() && (v[i + 1] == b' ' || v[i + 1] == b'\t') {
            i += 2;
        } else {
            o.push(v[i]);
            i += 1;
        }
    }
    o
}
/// Logical lines of printed text; None when a line break is not CRLF.
pub fn lines(v: &[u8]) -> Option<Vec<Vec<u8>>> {
    let mut out = vec![];
    let mut cur = vec![];
    let mut i = 0;
    while i < v.len() {
        if v[i] == b'\r' {
            if i + 1 >= v.len() || v[i + 1] != b'\n' {
                return None;
            }
            out.push(std::mem::take(&mut cur));
            i += 2;
            continue;
        }
        if v[i] == b'\n' {
            return None;
        }
        cur.push(v[i]);
        i += 1;
    }
    if !cur.is_empty() {
        return None;
    }
    Some(out)
}
