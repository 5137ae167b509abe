//! Folding and line endings do not change what is parsed.
use crate::common::*;
use crate::entry;
use crate::sym::*;

pub const DOCS: &[T] = &[
    ("text", "BEGIN:VCARD|VERSION:4.0|FN:ab c@d|NOTE:x\\,y\\nz\\\\;é|END:VCARD|"),
    ("params", "BEGIN:VCARD|VERSION:4.0|FN:x|g1.TEL;VALUE=uri;TYPE=\"voice,home\";PREF=1;X-P=a@:tel:+1-2|END:VCARD|"),
    ("struct", "BEGIN:VCARD|VERSION:4.0|FN:x|N:a\\;b;@;c,d;;|ADR;LABEL=\"l@\\n\":;;s\\,t;l;;;|END:VCARD|"),
    ("typed", "BEGIN:VCARD|VERSION:4.0|FN:x|BDAY:19@60415T101010-0500|GENDER:M;a b|X-Ab-c;VALUE=integer:1,-2|TZ;VALUE=utc-offset:-0500|END:VCARD|"),
    ("uri", "BEGIN:VCARD|VERSION:4.0|FN:x|KIND:group|MEMBER:urn:uuid:0@3|CLIENTPIDMAP:1;urn:a|LANG:en|URL:http://h/p?q#f|END:VCARD|"),
    ("two", "BEGIN:VCARD|VERSION:4.0|FN:x|END:VCARD||BEGIN:VCARD|VERSION:3.0|FN:y@|END:VCARD|"),
];
pub const FOLDS: &[&[u8]] = &[b"\r\n ", b"\r\n\t", b"\n ", b"\n\t"];

pub fn same(k: usize, a: &str, b: &str) {
    let x = vcard4::parse(a);
    let y = vcard4::parse(b);
    match (x, y) {
        (Ok(x), Ok(y)) => {
            check(x == y, 1);
            reach(10 + k as u32);
            reach(1);
        }
        (Err(_), Err(_)) => reach(2),
        (Ok(_), Err(_)) => fail(2),
        (Err(_), Ok(_)) => fail(3),
    }
}
/// May a fold go before the byte at `i`? Not inside a character or a line break,
/// and not where the next character is white space that could be taken for another fold.
pub fn place(d: &[u8], i: usize) -> bool {
    (d[i] & 0xC0) != 0x80 && !(d[i] == b'\n' && i > 0 && d[i - 1] == b'\r')
}
fn sym(n: usize) -> Vec<u8> {
    let b = ascii(n);
    for c in &b {
        assume(*c != b'\r' && *c != b'\n');
    }
    b
}
fn go(lf: bool) {
    warm();
    let k = choose(DOCS.len());
    label(DOCS[k].0);
    let b = sym(1);
    let d = fill(DOCS[k].1, &b);
    let d = if lf { d.into_iter().filter(|c| *c != b'\r').collect() } else { d };
    // folds belong in content lines
    let i = 1 + choose(d.len() - 1);
    let f = FOLDS[choose(4)];
    if !place(&d, i) {
        return;
    }
    let mut v = d[..i].to_vec();
    v.extend_from_slice(f);
    v.extend_from_slice(&d[i..]);
    same(k, &s(d), &s(v));
}
entry!(h_fold_one, { go(false) });
entry!(h_fold_lf, { go(true) });

// two folds at a distance
entry!(h_fold_two, {
    warm();
    let k = choose(4);
    label(DOCS[k].0);
    let d = fill(DOCS[k].1, b"q");
    let w = choose(3);
    let i = 26 + choose(d.len() - 26 - 12);
    let j = i + [1, 2, 9][w];
    if !place(&d, i) || !place(&d, j) {
        return;
    }
    let (f, g) = if choose(2) == 0 { (FOLDS[0], FOLDS[3]) } else { (FOLDS[2], FOLDS[1]) };
    let mut v = d[..i].to_vec();
    v.extend_from_slice(f);
    v.extend_from_slice(&d[i..j]);
    v.extend_from_slice(g);
    v.extend_from_slice(&d[j..]);
    same(k, &s(d), &s(v));
});

// what is folded is exactly what is read: values
entry!(h_fold_value, {
    warm();
    label("value");
    let b = ascii(3);
    for c in &b {
        assume(*c >= 0x20 && *c != 0x7f && *c != b'\\' || *c == b'\t');
    }
    let k = choose(4);
    let f = FOLDS[choose(4)];
    let mut v = b"FN:a".to_vec();
    v.extend_from_slice(&b[..k]);
    v.extend_from_slice(f);
    v.extend_from_slice(&b[k..]);
    v.push(b'z');
    let mut want = b"a".to_vec();
    want.extend_from_slice(&b);
    want.push(b'z');
    let Some(c) = one(&doc(&v)) else { fail(4) };
    check(c.formatted_name[0].value.as_bytes() == &want[..], 5);
    reach(1);
});

// any mix of CRLF and LF
entry!(h_fold_eol, {
    warm();
    let k = choose(DOCS.len());
    label(DOCS[k].0);
    let b = sym(1);
    let d = fill(DOCS[k].1, &b);
    let lines = d.iter().filter(|c| **c == b'\n').count();
    let m = choose(1 << lines);
    let mut v = vec![];
    let mut l = 0;
    for (i, c) in d.iter().enumerate() {
        if *c == b'\r' && i + 1 < d.len() && d[i + 1] == b'\n' {
            if (m >> l) & 1 == 0 {
                v.push(b'\r');
            }
            l += 1;
            continue;
        }
        v.push(*c);
    }
    same(k, &s(d), &s(v));
});
