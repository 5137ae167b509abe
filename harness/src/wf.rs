//! Printed text is well formed.
use crate::bld;
use crate::common::*;
use crate::entry;
use crate::refs;
use crate::sym::*;
use vcard4::VcardBuilder;

/// Checks line breaks and line lengths and returns the logical lines.
fn logical(t: &str) -> Vec<Vec<u8>> {
    let Some(ph) = refs::lines(t.as_bytes()) else { fail(1) };
    let mut out: Vec<Vec<u8>> = vec![];
    for l in ph {
        check(l.len() <= 75, 2);
        if !out.is_empty() && !l.is_empty() && l[0] == b' ' {
            // continuation lines hold something and do not start in a character
            check(l.len() > 1 && (l[1] & 0xC0) != 0x80, 3);
            out.last_mut().unwrap().extend_from_slice(&l[1..]);
        } else {
            check(!l.is_empty(), 4);
            out.push(l);
        }
    }
    check(out.len() >= 3, 5);
    check(&out[0][..] == b"BEGIN:VCARD", 6);
    check(&out[1][..] == b"VERSION:4.0", 7);
    check(&out[out.len() - 1][..] == b"END:VCARD", 8);
    out
}
fn line(name: &str, v: &[u8]) -> Vec<u8> {
    let mut o = name.as_bytes().to_vec();
    o.push(b':');
    o.extend_from_slice(v);
    o
}
// content of each property line
fn go(n: usize, multibyte: bool) {
    warm();
    let k = choose(bld::FIELDS.len());
    label(bld::FIELDS[k]);
    let v = bld::text(n, multibyte);
    let e = refs::escape(&v, true);
    let et = refs::escape(&v, false);
    let cat = |a: &str, v: &[u8], b: &str| {
        let mut o = a.as_bytes().to_vec();
        o.extend_from_slice(v);
        o.extend_from_slice(b.as_bytes());
        o
    };
    let want = match k {
        0 | 1 => line("FN", &et),
        2 => line("NICKNAME", &et),
        3 => line("XML", &et),
        4 => line("TEL", &et),
        5 => line("EMAIL", &et),
        6 => line("TZ", &et),
        7 => line("TITLE", &et),
        8 => line("ROLE", &et),
        9 => line("NOTE", &et),
        10 => line("PRODID", &et),
        11 => line("LANG", &et),
        12 => cat("N:", &e, ";g;h;p;s"),
        13 => cat("N:f;", &e, ";h;p;s"),
        14 => cat("N:f;g;", &e, ";p;s"),
        15 => cat("N:f;g;h;", &e, ";s"),
        16 => cat("N:f;g;h;p;", &e, ""),
        17 => cat("ORG:", &e, ";u"),
        18 => cat("ORG:o;", &e, ""),
        19 => cat("CATEGORIES:", &et, ",u"),
        20 => cat("CATEGORIES:o,", &et, ""),
        21 => cat("ADR:", &e, ";;;;;;"),
        22 => cat("ADR:;", &e, ";;;r;;"),
        23 => cat("ADR:;;", &e, ";;;;"),
        24 => cat("ADR:;;;", &e, ";;;c"),
        25 => cat("ADR:;;;;", &e, ";;"),
        26 => cat("ADR:;;;;;", &e, ";"),
        27 => cat("ADR:;;;;;;", &e, ""),
        28 => cat("GENDER:M;", &e, ""),
        35 => cat("GENDER:O;", &e, ""),
        29 => line("X-A", &et),
        30 => line("PHOTO", &et),
        31 => line("UID", &et),
        32 => line("KEY", &et),
        33 => line("RELATED", &et),
        _ => line("BDAY;VALUE=text", &et),
    };
    let c = bld::set(k, &s(v));
    let t = c.to_string();
    observe(t.as_bytes());
    let l = logical(&t);
    check(l.len() == if k == 0 { 4 } else { 5 }, 9);
    let mut found = false;
    for x in &l[2..] {
        if x[..] == want[..] {
            found = true;
        }
    }
    check(found, 10);
    reach(1);
}
entry!(h_wf_text, { go(2, false) });
entry!(h_wf_uni, { go(1, true) });

// folding: every residue of the line length
fn fold(base: usize, two: bool) {
    warm();
    let n = base + choose(8);
    let shape = choose(1 + UCHARS);
    let tail = choose(3);
    label("fold");
    let mut v = vec![b'a'; n];
    if shape == 0 {
        let b = ascii(1);
        for c in &b {
            assume(*c >= 0x20 && *c != 0x7f || *c == b'\n');
        }
        v.extend_from_slice(&b);
    } else {
        v.extend_from_slice(&uchar(shape - 1));
        if two {
            v.extend_from_slice(&uchar(shape - 1));
        }
    }
    v.extend(std::iter::repeat(b'z').take([0, 1, 80][tail]));
    let want = line("g.NOTE;PREF=1", &refs::escape(&v, false));
    let v = s(v);
    let mut c = VcardBuilder::new(st("x")).note(v.clone()).finish();
    let mut p = vcard4::parameter::Parameters::default();
    p.pref = Some(1);
    c.note[0].parameters = Some(p);
    c.note[0].group = Some(st("g"));
    let t = c.to_string();
    observe(t.as_bytes());
    let l = logical(&t);
    check(l.len() == 5 && l[3][..] == want[..], 11);
    match vcard4::parse(&t) {
        Ok(d) => check(d.len() == 1 && d[0] == c, 12),
        Err(_) => fail(13),
    }
    reach(1);
}
fn st(v: &str) -> String {
    v.to_string()
}
// the first line break is at octet 75, the second one 74 octets later
entry!(h_wf_fold1, { fold(56, false) });
entry!(h_wf_fold2, { fold(130, true) });

// longer lines
entry!(h_wf_fold3, { fold(204, true) });
entry!(h_wf_fold6, { fold(426, true) });
/// Combining marks and joined characters that make one cluster longer than a line.
entry!(h_wf_cluster, {
    warm();
    label("cluster");
    let lead = [0, 30, 59, 60, 61, 62][choose(6)];
    let shape = choose(3);
    let n = [17, 23, 24, 25, 36, 37, 38, 75][choose(8)];
    let at = choose(2);
    let mut v = vec![b'a'; lead];
    let mark: &[u8] = match shape {
        0 => "\u{301}".as_bytes(),
        1 => "\u{200d}\u{1f469}".as_bytes(),
        _ => "\u{20dd}".as_bytes(),
    };
    v.extend_from_slice(if shape == 1 { "\u{1f469}".as_bytes() } else { b"e" });
    for i in 0..n {
        if i == [1, n - 2][at] {
            // a symbolic character of the block of combining marks, or another one
            v.extend_from_slice(&uchar(1));
        }
        v.extend_from_slice(mark);
    }
    v.push(b'z');
    let want = line("NOTE", &v);
    let v = s(v);
    let c = VcardBuilder::new(st("x")).note(v).finish();
    let t = c.to_string();
    observe(t.as_bytes());
    let l = logical(&t);
    check(l.len() == 5 && l[3][..] == want[..], 17);
    match vcard4::parse(&t) {
        Ok(d) => check(d.len() == 1 && d[0] == c, 18),
        Err(_) => fail(19),
    }
    reach(1);
});
/// Every field with a long text.
entry!(h_wf_long, {
    warm();
    let k = choose(bld::FIELDS.len());
    label(bld::FIELDS[k]);
    let n = [230, 1030][choose(2)];
    let b = ascii(1);
    for c in &b {
        assume(*c >= 0x20 && *c != 0x7f && *c != b':' || *c == b'\t' || *c == b'\n');
    }
    let mut v = Vec::new();
    for i in 0..n {
        v.push(if i == n / 2 || i == 60 { b[0] } else { b'a' + (i % 26) as u8 });
    }
    let v = s(v);
    let c = bld::set(k, &v);
    let t = c.to_string();
    observe(t.as_bytes());
    let l = logical(&t);
    check(l.len() == if k == 0 { 4 } else { 5 }, 9);
    match vcard4::parse(&t) {
        Ok(d) => check(d.len() == 1 && d[0] == c, 12),
        Err(_) => fail(13),
    }
    reach(1);
});
// no parameter or group can add a line or break out of its place
const PN: &[&str] = &["LANGUAGE", "ALTID", "MEDIATYPE", "CALSCALE", "SORT-AS", "TZ", "LABEL", "X-", "TYPE", "X-2"];
entry!(h_wf_param, {
    warm();
    let k = choose(PN.len());
    label(PN[k]);
    let b = ascii(2);
    for c in &b {
        assume(*c >= 0x20 && *c != 0x7f || *c == b'\t' || *c == b'\n');
        assume(*c != b'"');
    }
    let b = s(b);
    let mut p = vcard4::parameter::Parameters::default();
    match k {
        0 => p.language = ty::lang(b),
        1 => p.alt_id = Some(b),
        2 => p.media_type = ty::media(b),
        3 => p.calscale = Some(b),
        4 => p.sort_as = Some(vec![b, st("u")]),
        5 => p.timezone = Some(vcard4::parameter::TimeZoneParameter::Text(b)),
        6 => p.label = Some(b),
        7 => p.extensions = Some(vec![(st("X-P"), vec![b])]),
        8 => p.types = Some(vec![vcard4::parameter::TypeParameter::Extension(b)]),
        _ => p.extensions = Some(vec![(st("X-P"), vec![st("a"), b]), (st("X-Q"), vec![st("u")])]),
    }
    let mut c = VcardBuilder::new(st("x")).address(vcard4::property::DeliveryAddress::default()).finish();
    c.address[0].parameters = Some(p);
    let t = c.to_string();
    observe(t.as_bytes());
    let l = logical(&t);
    check(l.len() == 5, 14);
    check(l[3].starts_with(b"ADR;") && l[3].ends_with(b":;;;;;;"), 15);
    check(&l[2][..] == b"FN:x", 16);
    reach(1);
});

// what an application stores may hold a control character, for which vCard has no form
entry!(h_wf_ctl, {
    warm();
    let k = choose(bld::FIELDS.len());
    let b = ascii(1)[0];
    assume((b < 0x20 || b == 0x7f) && b != b'\t' && b != b'\n');
    let v = s(vec![b'a', b, b'b']);
    let c = bld::set(k, &v);
    let t = c.to_string();
    observe(t.as_bytes());
    let Some(l) = refs::lines(&t.replace('\r', "\r\n").replace("\r\n\n", "\r\n").into_bytes()) else { fail(20) };
    // the rest of the card is as it should be
    let n = if k == 0 { 4 } else { 5 };
    check(l.len() == n || l.len() == n + 1 && b == b'\r', 21);
    for x in &l {
        for y in x {
            if (*y < 0x20 || *y == 0x7f) && *y != b'\t' {
                check(*y == b, 22);
                label("control character in a text");
                fail(23);
            }
        }
    }
    label("control character in a text");
    check(l.len() == n, 23);
    reach(1);
});
