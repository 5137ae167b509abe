//! Structure, cardinality and required properties.
use crate::case::{prop, PROPS};
use crate::common::*;
use crate::entry;
use crate::sym::*;

fn ci(a: u8, b: u8) -> bool {
    a == b || a.is_ascii_alphabetic() && b.is_ascii_alphabetic() && (a | 0x20) == (b | 0x20)
}
// one character of the lines every vCard has is arbitrary
const LINES: &[T] = &[("BEGIN", "BEGIN:VCARD"), ("VERSION", "VERSION:4.0"), ("END", "END:VCARD")];
entry!(h_card_frame, {
    warm();
    let k = choose(3);
    label(LINES[k].0);
    let l = LINES[k].1.as_bytes();
    let i = choose(l.len());
    let c = ascii(1)[0];
    assume(c != b'\n' && c != b'\r');
    let mut v = l.to_vec();
    v[i] = c;
    let mut d = vec![];
    for (j, t) in [("BEGIN:VCARD"), ("VERSION:4.0"), ("FN:x"), ("END:VCARD")].iter().enumerate() {
        let at = if k == 2 { 3 } else { k };
        if j == at {
            d.extend_from_slice(&v);
        } else {
            d.extend_from_slice(t.as_bytes());
        }
        d.extend_from_slice(b"\r\n");
    }
    let want = ci(c, l[i]) || k == 1 && i == 8 && c == b'3';
    let r = vcard4::parse(s(d));
    check(r.is_ok() == want, 1);
    reach(if want { 1 } else { 2 });
});
// lines out of place, missing or twice
const BAD: &[T] = &[
    ("empty", ""),
    ("blank", "||"),
    ("no begin", "VERSION:4.0|FN:@|END:VCARD|"),
    ("no version", "BEGIN:VCARD|FN:@|END:VCARD|"),
    ("no end", "BEGIN:VCARD|VERSION:4.0|FN:@|"),
    ("no end 2", "BEGIN:VCARD|VERSION:4.0|FN:@"),
    ("no end 3", "BEGIN:VCARD|VERSION:4.0|FN:@|BEGIN:VCARD|VERSION:4.0|FN:y|END:VCARD|"),
    ("late version", "BEGIN:VCARD|FN:@|VERSION:4.0|END:VCARD|"),
    ("two versions", "BEGIN:VCARD|VERSION:4.0|FN:@|VERSION:4.0|END:VCARD|"),
    ("two versions 2", "BEGIN:VCARD|VERSION:4.0|VERSION:3.0|FN:@|END:VCARD|"),
    ("version 2.1", "BEGIN:VCARD|VERSION:2.1|FN:@|END:VCARD|"),
    ("nested", "BEGIN:VCARD|BEGIN:VCARD|VERSION:4.0|FN:@|END:VCARD|"),
    ("nested 2", "BEGIN:VCARD|VERSION:4.0|FN:@|BEGIN:VCARD|END:VCARD|"),
    ("no FN", "BEGIN:VCARD|VERSION:4.0|NOTE:@|END:VCARD|"),
    ("no FN 2", "BEGIN:VCARD|VERSION:4.0|N:@;;;;|END:VCARD|"),
    ("no FN 3", "BEGIN:VCARD|VERSION:4.0|END:VCARD|"),
    ("no FN second", "BEGIN:VCARD|VERSION:4.0|FN:@|END:VCARD|BEGIN:VCARD|VERSION:4.0|END:VCARD|"),
    ("bad second", "BEGIN:VCARD|VERSION:4.0|FN:@|END:VCARD|BEGIN:VCARD|VERSION:4.0|FOO:y|END:VCARD|"),
    ("text after", "BEGIN:VCARD|VERSION:4.0|FN:@|END:VCARD|x|"),
    ("property after", "BEGIN:VCARD|VERSION:4.0|FN:@|END:VCARD|FN:y|"),
    ("text before", "FN:@|BEGIN:VCARD|VERSION:4.0|FN:x|END:VCARD|"),
    ("unknown", "BEGIN:VCARD|VERSION:4.0|FN:x|FOO:@|END:VCARD|"),
    ("unknown 2", "BEGIN:VCARD|VERSION:4.0|FN:x|FN@FN:x|END:VCARD|"),
    ("no colon", "BEGIN:VCARD|VERSION:4.0|FN:x|NOTE|END:VCARD|"),
    ("member", "BEGIN:VCARD|VERSION:4.0|FN:x|MEMBER:u:@|END:VCARD|"),
    ("member 2", "BEGIN:VCARD|VERSION:4.0|FN:x|KIND:individual|MEMBER:u:@|END:VCARD|"),
    ("member 3", "BEGIN:VCARD|VERSION:4.0|FN:x|KIND:org|MEMBER:u:@|END:VCARD|"),
    ("member 4", "BEGIN:VCARD|VERSION:4.0|FN:x|KIND:location|MEMBER:u:@|END:VCARD|"),
];
entry!(h_card_bad, {
    warm();
    let k = choose(BAD.len());
    label(BAD[k].0);
    let b = ascii(1);
    // the symbolic byte is part of a value
    assume(b[0] > 0x20 && b[0] != 0x7f && b[0] != b';' && b[0] != b':' && b[0] != b'.');
    let t = fill(BAD[k].1, &b);
    let t = s(t);
    check(vcard4::parse(&t).is_err(), 3);
    const LOOSE: &[&str] = &["bad second", "unknown", "unknown 2", "no colon", "nested 2"];
    // a member that is no URI is dropped
    if !LOOSE.contains(&BAD[k].0) && (!BAD[k].0.starts_with("member") || b[0].is_ascii_alphanumeric()) {
        check(vcard4::parse_loose(&t).is_err(), 4);
    }
    // one by one
    let mut n = 0;
    let mut bad = 0;
    for x in vcard4::iter(&t, true) {
        let first = vcard4::Vcard::try_from(&t[..]);
        match (n, x) {
            (0, Ok(x)) => check(first.as_ref().ok() == Some(&x), 5),
            (_, Ok(_)) => {}
            (_, Err(_)) => {
                check(n > 0 || first.is_err(), 6);
                bad += 1;
            }
        }
        n += 1;
        check(n < 6, 7);
    }
    check(bad > 0 || n == 0 && k < 2, 8);
    check(n > 0 || vcard4::Vcard::try_from(&t[..]).is_err(), 9);
    reach(1);
});
const ONCE: &[&str] = &["KIND", "N", "BDAY", "BDAY-text", "ANNIVERSARY", "GENDER", "PRODID", "REV", "UID", "UID-text"];
pub fn once(n: &str) -> bool {
    ONCE.iter().any(|o| *o == n)
}
/// Second values, with a symbolic part.
pub fn second(n: &str, b: u8) -> Vec<u8> {
    let d = |p: &str, x: u8, q: &str| {
        let mut v = p.as_bytes().to_vec();
        v.push(x);
        v.extend_from_slice(q.as_bytes());
        v
    };
    let l = b'a' + (b % 26);
    match n {
        "KIND" => b"KIND:org".to_vec(),
        "N" => d("N:", l, ";;;;"),
        "BDAY" => d("BDAY:2020010", b'1' + b % 9, ""),
        "BDAY-text" => d("BDAY;VALUE=text:", l, ""),
        "ANNIVERSARY" => d("ANNIVERSARY:2020010", b'1' + b % 9, ""),
        "GENDER" => d("GENDER:F;", l, ""),
        "REV" => d("REV:2020010", b'1' + b % 9, "T101010Z"),
        "ADR" => d("ADR:", l, ";;;;;;"),
        "CLIENTPIDMAP" => d("CLIENTPIDMAP:2;u:", l, ""),
        "TZ-offset" => d("TZ;VALUE=utc-offset:+0", b'0' + b % 10, "00"),
        "TZ-uri" => d("TZ;VALUE=uri:u:", l, ""),
        "PHOTO-text" => d("PHOTO:", l, ""),
        "TEL-uri" => d("TEL:t:", l, ""),
        "RELATED-text" => d("RELATED;VALUE=text:", l, ""),
        "UID-text" => d("UID:", l, ""),
        "KEY-text" => d("KEY:", l, ""),
        "X" => d("X-ab:", l, ""),
        "X-int" => d("X-ab;VALUE=integer:", b'0' + b % 10, ""),
        "SOURCE" | "PHOTO" | "IMPP" | "GEO" | "LOGO" | "MEMBER" | "RELATED" | "SOUND" | "UID" | "URL" | "KEY" | "FBURL" | "CALADRURI" | "CALURI" => {
            let mut p = n.to_string();
            p.push_str(":u:");
            d(&p, l, "")
        }
        _ => {
            let mut p = n.to_string();
            p.push(':');
            d(&p, l, "")
        }
    }
}
pub fn count(k: usize, c: &vcard4::Vcard) -> usize {
    match PROPS[k].0 {
        "SOURCE" => c.source.len(),
        "XML" => c.xml.len(),
        "FN" => c.formatted_name.len() - 1,
        "NICKNAME" => c.nickname.len(),
        "PHOTO" | "PHOTO-text" => c.photo.len(),
        "ADR" => c.address.len(),
        "TEL" | "TEL-uri" => c.tel.len(),
        "EMAIL" => c.email.len(),
        "IMPP" => c.impp.len(),
        "LANG" => c.lang.len(),
        "TZ" | "TZ-uri" | "TZ-offset" => c.timezone.len(),
        "GEO" => c.geo.len(),
        "TITLE" => c.title.len(),
        "ROLE" => c.role.len(),
        "LOGO" => c.logo.len(),
        "ORG" => c.org.len(),
        "MEMBER" => c.member.len(),
        "RELATED" | "RELATED-text" => c.related.len(),
        "CATEGORIES" => c.categories.len(),
        "NOTE" => c.note.len(),
        "SOUND" => c.sound.len(),
        "CLIENTPIDMAP" => c.client_pid_map.len(),
        "URL" => c.url.len(),
        "KEY" | "KEY-text" => c.key.len(),
        "FBURL" => c.fburl.len(),
        "CALADRURI" => c.cal_adr_uri.len(),
        "CALURI" => c.cal_uri.len(),
        "X" | "X-int" => c.extensions.len(),
        _ => {
            if prop(k, c).is_some() {
                1
            } else {
                0
            }
        }
    }
}
/// Parameters of the first and of the second.
const PAR: &[(&str, &str)] = &[("", ""), ("", ";ALTID=1"), (";ALTID=1", ""), (";ALTID=1", ";ALTID=1"), (";PREF=1", ";PREF=2"), (";PID=1.1", ";PID=2.1"), ("", ";LANGUAGE=en"), ("", ";X-P=q")];
/// Insert parameters after the name.
pub fn params(l: &[u8], p: &str) -> Vec<u8> {
    let at = l.iter().position(|c| *c == b':' || *c == b';').unwrap_or(0);
    [&l[..at], p.as_bytes(), &l[at..]].concat()
}
/// A line without its parameters.
fn bare(l: &[u8]) -> Vec<u8> {
    let n = l.iter().position(|c| *c == b':' || *c == b';').unwrap_or(0);
    let v = l.iter().position(|c| *c == b':').unwrap_or(0);
    [&l[..n], &l[v..]].concat()
}
const SEP: &[&str] = &["", "NOTE:s\r\n", "g."];
// a property given twice: an error, or both are kept in order
entry!(h_card_twice, {
    warm();
    let k = choose(PROPS.len());
    let n = PROPS[k].0;
    label(n);
    let sep = choose(3);
    if n == "NOTE" && sep == 1 {
        return;
    }
    let par = PAR[choose(PAR.len())];
    if n == "CLIENTPIDMAP" && par.0.starts_with(";PID") {
        return;
    }
    let b = bytes(1)[0];
    assume(b < 26);
    let sec = params(&second(n, b), par.1);
    let mut l = crate::case::with(k, b"");
    let at = l.len() - PROPS[k].1.len();
    let line = params(&l[at..], par.0);
    l.truncate(at);
    l.extend_from_slice(&line);
    l.extend_from_slice(b"\r\n");
    l.extend_from_slice(SEP[sep].as_bytes());
    l.extend_from_slice(&sec);
    let src = doc(&l);
    let r = vcard4::parse(&src);
    if once(n) {
        check(r.is_err(), 4);
        // loose parsing keeps the first
        let Ok(mut c) = vcard4::parse_loose(&src) else { fail(5) };
        check(c.len() == 1, 6);
        let c = c.pop().unwrap();
        let Some(p) = prop(k, &c) else { fail(7) };
        let Some(u) = one(&doc(&crate::case::with(k, b""))) else { fail(8) };
        let Some(q) = prop(k, &u) else { fail(8) };
        check(p.to_string() == q.to_string() && p.group() == q.group(), 9);
        reach(2);
        return;
    }
    let Ok(c) = r else { fail(10) };
    check(c.len() == 1 && count(k, &c[0]) == 2, 11);
    // in the order of the document: the printed lines are in that order
    let t = c[0].to_string();
    observe(t.as_bytes());
    let Some(ls) = crate::refs::lines(t.as_bytes()) else { fail(12) };
    let name = bare(PROPS[k].1.as_bytes());
    let want = bare(&sec);
    let mut first = None;
    let mut last = None;
    for (i, x) in ls.iter().enumerate() {
        if x.starts_with(b"g.") != (sep == 2) && first.is_some() {
            continue;
        }
        let x = bare(if x.starts_with(b"g.") { &x[2..] } else { x });
        if first.is_none() && x == name {
            first = Some(i);
        }
        if x == want {
            last = Some(i);
        }
    }
    match (first, last) {
        (Some(a), Some(z)) => check(z == a + 1 || a == z && want == name, 13),
        _ => fail(14),
    }
    reach(1);
});

// validation of a card that was built
entry!(h_card_validate, {
    warm();
    use vcard4::property::Kind;
    let k = choose(6);
    let m = choose(2);
    let f = choose(2);
    label("validate");
    let b = ascii(1);
    assume(b[0].is_ascii_alphanumeric());
    let mut c = vcard4::Vcard::new(s(b.clone()));
    if f == 0 {
        c.formatted_name.clear();
    }
    let kind = match k {
        0 => None,
        1 => Some(Kind::Individual),
        2 => Some(Kind::Group),
        3 => Some(Kind::Org),
        4 => Some(Kind::Location),
        _ => Some(Kind::Group),
    };
    if let Some(x) = kind {
        c.kind = Some(x.into());
    }
    if m == 1 {
        let mut u = String::from("u:");
        u.push_str(&s(b));
        match u.parse::<vcard4::Uri>() {
            Ok(u) => c.member.push(u.into()),
            Err(_) => fail(20),
        }
    }
    let want = f == 1 && (m == 0 || k == 2 || k == 5);
    check(c.validate().is_ok() == want, 21);
    // what is printed is accepted exactly when it is valid
    check(vcard4::parse(c.to_string()).is_ok() == want, 22);
    let t = c.to_string();
    check(vcard4::parse_loose(&t).is_ok() == want, 23);
    check(vcard4::Vcard::try_from(&t[..]).is_ok() == want, 24);
    let mut it = vcard4::iter(&t, k == 5);
    check(matches!(it.next(), Some(x) if x.is_ok() == want), 25);
    check(it.next().is_none(), 26);
    reach(1);
});
/// A symbolic byte before, after or between the fixed lines: nothing but a line break may
/// stand there. S: a blank line is an error in strict mode.
const LINE: &[(&str, &str)] = &[
    ("before begin", "@BEGIN:VCARD|VERSION:4.0|FN:x|END:VCARD|"),
    ("end at end", "BEGIN:VCARD|VERSION:4.0|FN:x|END:VCARD@"),
    ("after end", "BEGIN:VCARD|VERSION:4.0|FN:x|END:VCARD@|"),
    ("end begin", "BEGIN:VCARD|VERSION:4.0|FN:x|END:VCARD@BEGIN:VCARD|VERSION:4.0|FN:x|END:VCARD|"),
    ("begin version", "BEGIN:VCARD@VERSION:4.0|FN:x|END:VCARD|"),
    ("version name", "BEGIN:VCARD|VERSION:4.0@FN:x|END:VCARD|"),
    ("name end", "BEGIN:VCARD|VERSION:4.0|FN:x@END:VCARD|"),
    ("S after version", "BEGIN:VCARD|VERSION:4.0@|FN:x|END:VCARD|"),
    ("S before end", "BEGIN:VCARD|VERSION:4.0|FN:x|@END:VCARD|"),
    ("B after begin", "BEGIN:VCARD@|VERSION:4.0|FN:x|END:VCARD|"),
    ("B before version", "BEGIN:VCARD|@VERSION:4.0|FN:x|END:VCARD|"),
    ("B begin colon", "BEGIN@VCARD|VERSION:4.0|FN:x|END:VCARD|"),
    ("B version colon", "BEGIN:VCARD|VERSION@4.0|FN:x|END:VCARD|"),
    ("B end colon", "BEGIN:VCARD|VERSION:4.0|FN:x|END@VCARD|"),
    ("B begin value", "BEGIN:@VCARD|VERSION:4.0|FN:x|END:VCARD|"),
    ("B version value", "BEGIN:VCARD|VERSION:@4.0|FN:x|END:VCARD|"),
    ("B end value", "BEGIN:VCARD|VERSION:4.0|FN:x|END:@VCARD|"),
    ("B begin name", "BEGIN@:VCARD|VERSION:4.0|FN:x|END:VCARD|"),
    ("B version name", "BEGIN:VCARD|VERSION@:4.0|FN:x|END:VCARD|"),
    ("B end name", "BEGIN:VCARD|VERSION:4.0|FN:x|END@:VCARD|"),
    ("B begin group", "@.BEGIN:VCARD|VERSION:4.0|FN:x|END:VCARD|"),
    ("B version group", "BEGIN:VCARD|@.VERSION:4.0|FN:x|END:VCARD|"),
    ("B end group", "BEGIN:VCARD|VERSION:4.0|FN:x|@.END:VCARD|"),
    ("B version parameter", "BEGIN:VCARD|VERSION;X-A=@:4.0|FN:x|END:VCARD|"),
    ("B begin parameter", "BEGIN;X-A=@:VCARD|VERSION:4.0|FN:x|END:VCARD|"),
    ("B end parameter", "BEGIN:VCARD|VERSION:4.0|FN:x|END;X-A=@:VCARD|"),
    ("0 begin version", "BEGIN:VCARDVERSION:4.0|FN:@|END:VCARD|"),
    ("0 begin version ;", "BEGIN:VCARD;VERSION:4.0|FN:@|END:VCARD|"),
    ("0 version name", "BEGIN:VCARD|VERSION:4.0FN:@|END:VCARD|"),
    ("0 version name ;", "BEGIN:VCARD|VERSION:4.0;FN:@|END:VCARD|"),
    ("0 end begin", "BEGIN:VCARD|VERSION:4.0|FN:@|END:VCARDBEGIN:VCARD|VERSION:4.0|FN:x|END:VCARD|"),
    ("0 end name", "BEGIN:VCARD|VERSION:4.0|FN:@|END:VCARDFN:x|"),
    ("0 end end", "BEGIN:VCARD|VERSION:4.0|FN:@|END:VCARDEND:VCARD|"),
    ("0 end version", "BEGIN:VCARD|VERSION:4.0|FN:@|END:VCARDVERSION:4.0|"),
];
entry!(h_card_line, {
    warm();
    let k = choose(LINE.len());
    label(LINE[k].0);
    let b = ascii(1);
    let c = LINE[k].0.as_bytes()[0];
    if c == b'0' {
        assume(b[0].is_ascii_alphanumeric());
    }
    if LINE[k].0.contains("colon") {
        assume(b[0] != b':');
    }
    if LINE[k].0.contains("parameter") {
        assume(b[0].is_ascii_alphanumeric());
    }
    let t = s(fill(LINE[k].1, &b));
    let nl = b[0] == b'\n' && c != b'B' && c != b'0';
    let strict = vcard4::parse(&t);
    let loose = vcard4::parse_loose(&t);
    check(strict.is_ok() == (nl && c != b'S'), 1);
    check(loose.is_ok() == nl, 2);
    let mut bad = 0;
    for x in vcard4::iter(&t, true) {
        bad += x.is_err() as usize;
        check(bad < 4, 3);
    }
    check((bad == 0) == strict.is_ok(), 4);
    reach(if nl { 1 } else { 2 });
});
