//! Loose parsing keeps everything that is valid.
use crate::common::*;
use crate::entry;
use crate::sym::*;

/// Lines with a symbolic part that may be valid or not.
pub const ANY: &[T] = &[
    ("unknown", "FO@:x"),
    ("start", "@N:x"),
    ("after name", "NOTE@x"),
    ("PREF", "NOTE;PREF=@:x"),
    ("PREF2", "NOTE;PREF=10@:x"),
    ("param name", "NOTE;@=1:x"),
    ("param value", "NOTE;ALTID=@:x"),
    ("quoted", "NOTE;ALTID=\"@\":x"),
    ("open quote", "NOTE;ALTID=\"@:x"),
    ("PID", "NOTE;PID=1@2:x"),
    ("TYPE", "N;TYPE=@:x"),
    ("LABEL", "NOTE;LABEL=@:x"),
    ("CHARSET", "NOTE;CHARSET=UTF-@:x"),
    ("GEO", "ADR;GEO=@:;;;;;;"),
    ("value", "NOTE:@"),
    ("value2", "N:@;b"),
    ("BDAY", "BDAY:2020010@"),
    ("BDAY2", "BDAY:@0200101"),
    ("ANNIVERSARY", "ANNIVERSARY:2020-0@"),
    ("REV", "REV:20200101T10101@Z"),
    ("GENDER", "GENDER:@"),
    ("KIND", "KIND:gr@up"),
    ("ADR", "ADR:;;;;;@"),
    ("LANG", "LANG:@"),
    ("CLIENTPIDMAP", "CLIENTPIDMAP:@;u:a"),
    ("TZ", "TZ;VALUE=utc-offset:+0@00"),
    ("TZ2", "TZ;VALUE=utc-offset:@0100"),
    ("X", "X-A;VALUE=boolean:t@ue"),
    ("X2", "X-A;VALUE=integer:@"),
    ("X3", "X-A;VALUE=date:2020010@"),
    ("group", "g@.TITLE:x"),
    ("group2", "@.TITLE:x"),
    ("multi", "é@:x"),
    ("multi2", "NOTE:é@"),
    ("end", "END@VCARX"),
    ("begin", "BEGIN:@"),
];
pub const URIS: &[T] = &[
    ("URL", "URL:@:x"),
    ("URL2", "URL:u:@"),
    ("IMPP", "IMPP:x@"),
    ("LOGO", "LOGO:@"),
    ("SOURCE", "SOURCE:u@"),
    ("SOUND", "SOUND:@u:a"),
    ("TEL", "TEL;VALUE=uri:t@1"),
    ("UID", "UID;VALUE=integer:@"),
    ("ADR-tz", "ADR;TZ=\"u@\":;;;;;;"),
    ("X-uri", "X-A;VALUE=uri:u@"),
    ("X-float", "X-A;VALUE=float:1@"),
];
const A: &str = "FN:x|";
const B: &[&str] = &["TITLE:a|ROLE:b|", "ROLE:a|g.TITLE;PREF=2:b\\,c|"];

fn card(parts: &[&[u8]]) -> String {
    let mut v = HEAD.to_vec();
    for p in parts {
        v.extend_from_slice(p);
    }
    v.extend_from_slice(TAIL);
    s(v)
}
pub fn line(ts: &[T], n: usize) -> Vec<u8> {
    let t = pick(ts);
    let b = ascii(n);
    for c in &b {
        assume(*c != b'\n');
    }
    if t.as_bytes()[0] == b'@' {
        // not a folded line
        assume(b[0] != b' ' && b[0] != b'\t');
    }
    let mut l = fill(t, &b);
    l.extend_from_slice(b"\r\n");
    l
}
fn go(ts: &[T], n: usize) {
    warm();
    let pos = choose(4);
    let l = line(ts, n);
    let a = fill(A, b"");
    let (b, c) = (fill(B[0], b""), fill(B[1], b""));
    let ok = one(&card(&[&a, &l])).is_some();
    let with = match pos {
        0 => card(&[&l, &a, &b, &c]),
        1 => card(&[&a, &l, &b, &c]),
        2 => card(&[&a, &b, &l, &c]),
        _ => card(&[&a, &b, &c, &l]),
    };
    let Ok(x) = vcard4::parse_loose(&with) else { fail(1) };
    check(x.len() == 1, 2);
    observe(x[0].to_string().as_bytes());
    let want = if ok { one(&with) } else { one(&card(&[&a, &b, &c])) };
    check(want.is_some(), 3);
    check(want.as_ref() == x.first(), if ok { 4 } else { 5 });
    if !ok {
        check(vcard4::parse(&with).is_err(), 6);
        // two in a row
        let y = match pos {
            0 => card(&[&l, &l, &a, &b, &c]),
            1 => card(&[&a, &l, &l, &b, &c]),
            2 => card(&[&a, &l, &b, &l, &c]),
            _ => card(&[&a, &b, &l, &c, &l]),
        };
        let Ok(y) = vcard4::parse_loose(&y) else { fail(7) };
        check(want.as_ref() == y.first() && y.len() == 1, 8);
    }
    reach(if ok { 1 } else { 2 });
}
entry!(h_loose_line, { go(ANY, 1) });
entry!(h_loose_line2, { go(ANY, 2) });
entry!(h_loose_uri, { go(URIS, 1) });

// an unknown value type is ignored
const VT: &[T] = &[("X", "X-A;VALUE=@;PREF=1:a"), ("TEL", "TEL;VALUE=@;PREF=1:a"), ("BDAY", "BDAY;VALUE=@;PREF=1:20200101"), ("TZ", "TZ;VALUE=@;PREF=1:a"),
    ("after", "TEL;VALUE=text;VALUE=@:tel:1"), ("before", "TEL;VALUE=@;VALUE=text:tel:1"), ("apart", "X-A;VALUE=integer;PREF=1;VALUE=@:1"), ("lone", "KEY;VALUE=@;X-P=a:urn:a")];
entry!(h_loose_value, {
    warm();
    let t = pick(VT);
    let b = ascii(2);
    for c in &b {
        assume(c.is_ascii_alphanumeric() || *c == b'-');
    }
    let mut l = fill(A, b"");
    l.extend_from_slice(&fill(t, &b));
    l.extend_from_slice(b"\r\n");
    let src = card(&[&l]);
    check(vcard4::parse(&src).is_err(), 10);
    let Ok(x) = vcard4::parse_loose(&src) else { fail(11) };
    let mut p = fill(A, b"");
    let mut u: Vec<u8> = vec![];
    let mut skip = false;
    let f = t.as_bytes();
    let mut i = 0;
    while i < f.len() {
        if f[i..].starts_with(b";VALUE=@") {
            i += 8;
            skip = true;
            continue;
        }
        u.push(f[i]);
        i += 1;
    }
    check(skip, 12);
    p.extend_from_slice(&u);
    p.extend_from_slice(b"\r\n");
    let Some(w) = one(&card(&[&p])) else { fail(13) };
    check(x.len() == 1 && x[0] == w, 14);
    reach(1);
});

// what strict parsing accepts, loose parsing accepts with the same result
const OK: &[T] = &[("raw", "@"), ("value", "FN:x|NOTE:@"), ("param", "FN:x|NOTE;ALTID=@:a"), ("value type", "FN:x|X-A;VALUE=@:1"), ("two", "FN:x|END:VCARD@BEGIN:VCARD|VERSION:4.0|FN:x"), ("fold", "FN:x|NOTE:a@b"), ("FN", "FN@x"), ("after", "FN:x|END:VCARD|@BEGIN:VCARD|VERSION:4.0|FN:x")];
entry!(h_loose_same, {
    warm();
    let t = pick(OK);
    let b = ascii(2);
    let src = doct(t, &b);
    if let Ok(c) = vcard4::parse(&src) {
        let Ok(d) = vcard4::parse_loose(&src) else { fail(15) };
        check(c == d, 16);
        reach(1);
    }
});
