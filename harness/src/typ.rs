//! Value types.
use crate::case::{prop, PROPS};
use crate::common::*;
use crate::entry;
use crate::sym::*;
use std::str::FromStr;
use vcard4::helper::*;
use vcard4::property::*;
use vcard4::{Uri, Vcard};

fn low(c: u8) -> u8 {
    if c.is_ascii_uppercase() {
        c + 0x20
    } else {
        c
    }
}
fn ci(a: &[u8], b: &str) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for (x, y) in a.iter().zip(b.bytes()) {
        if low(*x) != y {
            return false;
        }
    }
    true
}
// booleans
entry!(h_typ_bool, {
    label("boolean");
    let n = choose(7);
    let b = ascii(n);
    let want = if ci(&b, "true") {
        Some(true)
    } else if ci(&b, "false") {
        Some(false)
    } else {
        None
    };
    let r = parse_boolean(&s(b));
    check(r.ok() == want, 1);
    reach(if want.is_some() { 1 } else { 2 });
});
/// Integer list: an optional sign and digits, separated by commas.
fn ints(b: &[u8]) -> Option<Vec<i64>> {
    let mut out = vec![];
    let mut i = 0;
    loop {
        let mut neg = false;
        if i < b.len() && (b[i] == b'-' || b[i] == b'+') {
            neg = b[i] == b'-';
            i += 1;
        }
        let mut v: i128 = 0;
        let mut n = 0;
        while i < b.len() && b[i].is_ascii_digit() {
            v = v * 10 + (b[i] - b'0') as i128;
            i += 1;
            n += 1;
        }
        if n == 0 {
            return None;
        }
        let v = if neg { -v } else { v };
        if v < i64::MIN as i128 || v > i64::MAX as i128 {
            return None;
        }
        out.push(v as i64);
        if i == b.len() {
            return Some(out);
        }
        if b[i] != b',' {
            return None;
        }
        i += 1;
    }
}
fn int(v: Vec<u8>) {
    let want = ints(&v);
    let r = parse_integer_list(&s(v));
    let some = want.is_some();
    check(r.ok() == want, 2);
    reach(if some { 1 } else { 2 });
}
entry!(h_typ_int, {
    label("integer");
    let n = choose(4);
    int(ascii(n));
});
entry!(h_typ_int4, {
    label("integer");
    int(ascii(4));
});
// at the limits
entry!(h_typ_int_limit, {
    label("integer limits");
    let k = choose(5);
    let b = ascii(2);
    let (p, q) = [("", "223372036854775807"), ("92233720368547758", ""), ("-92233720368547758", ""), ("-", "223372036854775808"), ("1,+922337203685477580", ",-1")][k];
    let mut v = p.as_bytes().to_vec();
    v.extend_from_slice(&b);
    v.extend_from_slice(q.as_bytes());
    int(v);
});
// floats are decimal numbers
entry!(h_typ_float, {
    label("float");
    let k = choose(6);
    let b = ascii(1)[0];
    let (p, q) = [("", ""), ("1", ""), ("-", ".5"), ("+2.", ""), ("3.2", ",1"), ("1.", ",2.5")][k];
    let mut v = p.as_bytes().to_vec();
    v.push(b);
    v.extend_from_slice(q.as_bytes());
    // the exponent and a missing part are not decided
    assume(b != b'e' && b != b'E' && b != b'.');
    let r = parse_float_list(&s(v));
    let d = b.is_ascii_digit();
    let x = if d { (b - b'0') as f64 } else { 0.0 };
    let want: Option<Vec<f64>> = match (k, d) {
        (0, true) => Some(vec![x]),
        (1, true) => Some(vec![10.0 + x]),
        (2, true) => Some(vec![-(x + 0.5)]),
        (3, true) => Some(vec![(20.0 + x) / 10.0]),
        (4, true) => Some(vec![(320.0 + x) / 100.0, 1.0]),
        (5, true) => Some(vec![(10.0 + x) / 10.0, 2.5]),
        (1, false) if b == b',' => None,
        (4, false) if b == b',' => return,
        (5, false) if b == b',' => return,
        _ => None,
    };
    if k == 1 && b == b',' {
        check(r.is_err(), 3);
        return;
    }
    match (r, &want) {
        (Ok(a), Some(w)) => {
            check(&a == w, 4);
            reach(1);
        }
        (Err(_), None) => reach(2),
        _ => fail(5),
    }
});
entry!(h_typ_float_words, {
    label("float words");
    let k = choose(6);
    let w = ["inf", "nan", "infinity", "-inf", "+NaN", "1,inf"][k];
    let i = choose(w.len());
    let b = ascii(1)[0];
    assume(!(b.is_ascii_digit() || b == b'.' || b == b','));
    let mut v = w.as_bytes().to_vec();
    v[i] = b;
    check(parse_float_list(&s(v)).is_err(), 6);
    reach(1);
});

/// Properties where VALUE decides: text, URI, date, ...
const LITS: &[(&str, &str)] = &[
    ("text", "ab@"), ("uri", "u:a@"), ("date", "2020010@"), ("time", "10203@"), ("date-time", "20200102T10101@"), ("date-and-or-time", "2020010@"), ("timestamp", "20200102T10101@Z"), ("boolean", "true"), ("integer", "1@"), ("float", "1.@"), ("utc-offset", "+0@00"), ("language-tag", "e@"),
];
const MULTI: &[&str] = &["TEL", "UID", "RELATED", "KEY", "BDAY", "ANNIVERSARY", "TZ", "X-A"];
fn kind(c: &Vcard, p: usize) -> &'static str {
    fn tu(t: &TextOrUriProperty) -> &'static str {
        match t {
            TextOrUriProperty::Text(_) => "text",
            TextOrUriProperty::Uri(_) => "uri",
        }
    }
    fn dt(t: &DateTimeOrTextProperty) -> &'static str {
        match t {
            DateTimeOrTextProperty::Text(_) => "text",
            DateTimeOrTextProperty::DateTime(_) => "date-and-or-time",
        }
    }
    match p {
        0 => tu(&c.tel[0]),
        1 => tu(c.uid.as_ref().unwrap()),
        2 => tu(&c.related[0]),
        3 => tu(&c.key[0]),
        4 => dt(c.bday.as_ref().unwrap()),
        5 => dt(c.anniversary.as_ref().unwrap()),
        6 => match &c.timezone[0] {
            TimeZoneProperty::Text(_) => "text",
            TimeZoneProperty::Uri(_) => "uri",
            TimeZoneProperty::UtcOffset(_) => "utc-offset",
        },
        _ => match &c.extensions[0].value {
            AnyProperty::Text(_) => "text",
            AnyProperty::Integer(_) => "integer",
            AnyProperty::Float(_) => "float",
            AnyProperty::Boolean(_) => "boolean",
            AnyProperty::Date(_) => "date",
            AnyProperty::DateTime(_) => "date-time",
            AnyProperty::Time(_) => "time",
            AnyProperty::DateAndOrTime(_) => "date-and-or-time",
            AnyProperty::Timestamp(_) => "timestamp",
            AnyProperty::Uri(_) => "uri",
            AnyProperty::UtcOffset(_) => "utc-offset",
            AnyProperty::Language(_) => "language-tag",
        },
    }
}
entry!(h_typ_value, {
    warm();
    let p = choose(MULTI.len());
    label(MULTI[p]);
    let i = choose(LITS.len());
    let (ty, lit) = LITS[i];
    let o = choose(3);
    let b = bytes(1)[0];
    assume(b >= b'1' && b <= b'9');
    let mut l = b"FN:x\r\n".to_vec();
    l.extend_from_slice(MULTI[p].as_bytes());
    match o {
        0 => l.extend_from_slice(b";VALUE="),
        1 => l.extend_from_slice(b";PREF=1;VALUE=\""),
        _ => l.extend_from_slice(b";value="),
    }
    if o == 2 {
        for c in ty.bytes() {
            l.push(if c.is_ascii_lowercase() { c - 0x20 } else { c });
        }
        l.extend_from_slice(b";X-Q=a");
    } else {
        l.extend_from_slice(ty.as_bytes());
    }
    if o == 1 {
        l.push(b'"');
    }
    l.push(b':');
    let lit = fill(lit, &[b]);
    l.extend_from_slice(&lit);
    let allowed = match p {
        0..=3 => ty == "text" || ty == "uri",
        4 | 5 => ty == "text" || ty == "date-and-or-time",
        6 => ty == "text" || ty == "uri" || ty == "utc-offset",
        _ => true,
    };
    let src = doc(&l);
    let r = vcard4::parse(&src);
    check(r.is_ok() == allowed, 10);
    if let Ok(c) = r {
        check(kind(&c[0], p) == ty, 11);
        reach(1);
        // the value is printed as it was read
        let t = c[0].to_string();
        observe(t.as_bytes());
        match one(&t) {
            Some(d) => check(d == c[0], 12),
            None => fail(13),
        }
    } else {
        reach(2);
    }
});
/// May `b` be part of a URI path?
fn pchar(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"-._~!$&'()*+,;=:@/".contains(&b)
}
const TU: &[&str] = &["TEL", "UID", "RELATED", "KEY", "PHOTO"];
// without VALUE a URI is recognised
entry!(h_typ_uri, {
    warm();
    let p = choose(TU.len());
    label(TU[p]);
    let o = choose(4);
    let b = ascii(1)[0];
    assume(b >= 0x20 && b < 0x7f && b != b'\\');
    let (x, y, want) = match o {
        // scheme
        0 => ("u", ":x", b.is_ascii_alphanumeric() || b == b'+' || b == b'-' || b == b'.' || b == b':'),
        1 => ("", "u:x", b.is_ascii_alphabetic()),
        // no scheme
        2 => ("ab", "", false),
        // path, query, fragment
        _ => ("u:a", "b", pchar(b) || b == b'?' || b == b'#'),
    };
    if o == 2 {
        assume(b != b':');
    }
    let mut v = x.as_bytes().to_vec();
    v.push(b);
    v.extend_from_slice(y.as_bytes());
    let mut l = b"FN:x\r\n".to_vec();
    l.extend_from_slice(TU[p].as_bytes());
    l.push(b':');
    l.extend_from_slice(&v);
    let Some(c) = one(&doc(&l)) else { fail(20) };
    let t = match p {
        0 => &c.tel[0],
        1 => c.uid.as_ref().unwrap(),
        2 => &c.related[0],
        3 => &c.key[0],
        _ => &c.photo[0],
    };
    match t {
        TextOrUriProperty::Uri(u) => {
            check(want, 21);
            check(u.value.to_string().as_bytes() == &v[..], 22);
            reach(1);
        }
        TextOrUriProperty::Text(t) => {
            check(!want, 23);
            check(t.value.as_bytes() == &v[..], 24);
            reach(2);
        }
    }
});
// a property that holds a URI accepts nothing else
const U: &[&str] = &["SOURCE", "IMPP", "GEO", "LOGO", "SOUND", "URL", "FBURL", "CALADRURI", "CALURI", "MEMBER"];
entry!(h_typ_only_uri, {
    warm();
    let p = choose(U.len());
    label(U[p]);
    let o = choose(3);
    let b = ascii(1)[0];
    assume(b >= 0x20 && b < 0x7f && b != b'\\');
    let (x, y, want) = match o {
        0 => ("u", ":x", b.is_ascii_alphanumeric() || b == b'+' || b == b'-' || b == b'.' || b == b':'),
        1 => ("ab", "", false),
        _ => ("u:a", "b", pchar(b) || b == b'?' || b == b'#'),
    };
    if o == 1 {
        assume(b != b':');
    }
    let mut v = x.as_bytes().to_vec();
    v.push(b);
    v.extend_from_slice(y.as_bytes());
    let mut l = b"FN:x\r\nKIND:group\r\n".to_vec();
    l.extend_from_slice(U[p].as_bytes());
    l.push(b':');
    l.extend_from_slice(&v);
    let r = vcard4::parse(doc(&l));
    check(r.is_ok() == want, 25);
    if let Ok(c) = r {
        let k = PROPS.iter().position(|x| x.0 == U[p]).unwrap();
        let Some(x) = prop(k, &c[0]) else { fail(26) };
        check(x.to_string().as_bytes() == &v[..], 27);
        reach(1);
    } else {
        reach(2);
    }
});
const UT: &[T] = &[("path", "u:@"), ("path 2", "http://h/@b"), ("query", "http://h/?@"), ("fragment", "http://h/#@"), ("host", "http://@h/"), ("port", "http://h:@/"), ("user", "http://u@b"), ("scheme", "@:a"), ("percent", "u:%@"), ("urn", "urn:uuid:@"), ("geo", "geo:1,@"), ("data", "data:a/b;base64,@"), ("upper", "HTTP://EXAMPLE.com/@")];
// a URI prints as it was given
fn uri(n: usize) {
    let t = pick(UT);
    let b = ascii(n);
    let v = s(fill(t, &b));
    if let Ok(u) = Uri::from_str(&v) {
        let p = u.to_string();
        observe(p.as_bytes());
        // an empty path and the case of the scheme may be normalised
        let l = t.as_bytes();
        if !l.starts_with(b"http://@") && !l.starts_with(b"http://u") && !l.starts_with(b"http://h:") && !l.starts_with(b"H") {
            check(p == v, 30);
        }
        check(matches!(p.parse::<Uri>(), Ok(x) if x == u), 31);
        reach(1);
    }
}
entry!(h_typ_uri_text, { uri(1) });
entry!(h_typ_uri_text2, { uri(2) });

// KIND
const KINDS: &[(&str, Kind)] = &[("individual", Kind::Individual), ("group", Kind::Group), ("org", Kind::Org), ("location", Kind::Location)];
entry!(h_typ_kind, {
    warm();
    let k = choose(4);
    let (name, want) = (KINDS[k].0, KINDS[k].1.clone());
    label(name);
    let ins = choose(3);
    let i = choose(name.len());
    let b = ascii(1)[0];
    assume(b > 0x20 && b < 0x7f && b != b'\\');
    let mut v = name.as_bytes().to_vec();
    let same = match ins {
        0 => {
            // other case is not decided
            assume(b == v[i] || low(b) != v[i]);
            v[i] = b;
            v == name.as_bytes()
        }
        1 => {
            v.insert(i, b);
            false
        }
        _ => {
            v.remove(i);
            assume(b == b'a');
            false
        }
    };
    let mut l = b"FN:x\r\nKIND:".to_vec();
    l.extend_from_slice(&v);
    let r = vcard4::parse(doc(&l));
    check(r.is_ok() == same, 40);
    check(s(v).parse::<Kind>().is_ok() == same, 41);
    if let Ok(c) = r {
        let Some(x) = &c[0].kind else { fail(42) };
        check(x.value == want && x.value.to_string() == name, 43);
        reach(1);
    } else {
        reach(2);
    }
});
// GENDER
entry!(h_typ_sex, {
    warm();
    label("GENDER");
    let n = choose(3);
    let id = choose(3);
    let b = ascii(n);
    for c in &b {
        assume(*c >= 0x20 && *c < 0x7f && *c != b';' && *c != b'\\');
        assume(!b"mfonu".contains(c));
    }
    let mut l = b"FN:x\r\nGENDER:".to_vec();
    l.extend_from_slice(&b);
    match id {
        0 => {}
        1 => l.push(b';'),
        _ => l.extend_from_slice(b";a;b"),
    }
    let want = match &b[..] {
        [] => Some(Sex::None),
        [b'M'] => Some(Sex::Male),
        [b'F'] => Some(Sex::Female),
        [b'O'] => Some(Sex::Other),
        [b'N'] => Some(Sex::NotApplicable),
        [b'U'] => Some(Sex::Unknown),
        _ => None,
    };
    let r = vcard4::parse(doc(&l));
    check(r.is_ok() == want.is_some(), 44);
    if let (Ok(c), Some(w)) = (r, want) {
        let Some(g) = &c[0].gender else { fail(45) };
        check(g.value.sex == w, 46);
        check(w.to_string().as_bytes() == &b[..], 47);
        match (id, &g.value.identity) {
            (0, None) => {}
            (1, Some(x)) => check(x == "", 48),
            (2, Some(x)) => check(x == "a;b", 49),
            _ => fail(50),
        }
        reach(1);
    } else {
        reach(2);
    }
});
// CLIENTPIDMAP
entry!(h_typ_pidmap, {
    warm();
    label("CLIENTPIDMAP");
    let n = choose(4);
    let b = ascii(n);
    for c in &b {
        assume(*c >= 0x20 && *c < 0x7f && *c != b'+' && *c != b'\\');
        assume(*c != b';');
    }
    let mut l = b"FN:x\r\nCLIENTPIDMAP:".to_vec();
    l.extend_from_slice(&b);
    l.extend_from_slice(b";u:a;b");
    let mut v = 0u64;
    let mut ok = n > 0;
    for c in &b {
        if c.is_ascii_digit() {
            v = v * 10 + (*c - b'0') as u64;
        } else {
            ok = false;
        }
    }
    let want = ok && v > 0;
    let r = vcard4::parse(doc(&l));
    check(r.is_ok() == want, 51);
    if let Ok(c) = r {
        check(c[0].client_pid_map.len() == 1, 52);
        let m = &c[0].client_pid_map[0].value;
        check(m.source == v && m.uri.to_string() == "u:a;b", 53);
        reach(1);
    } else {
        reach(2);
    }
});
const PM: &[&str] = &["CLIENTPIDMAP:1@u:a", "CLIENTPIDMAP:1;@:a", "CLIENTPIDMAP:1;u@a", "CLIENTPIDMAP:@"];
entry!(h_typ_pidmap_uri, {
    warm();
    label("CLIENTPIDMAP");
    let i = choose(4);
    let b = ascii(1)[0];
    assume(b > 0x20 && b < 0x7f && b != b'\\');
    let want = match i {
        0 => b == b';',
        1 => b.is_ascii_alphabetic(),
        2 => b == b':',
        _ => false,
    };
    // digits make a number of it
    if i == 0 {
        assume(!b.is_ascii_digit());
    }
    let mut l = b"FN:x\r\n".to_vec();
    l.extend_from_slice(&fill(PM[i], &[b]));
    check(vcard4::parse(doc(&l)).is_ok() == want, 54);
    reach(if want { 1 } else { 2 });
});
