//! Parameters: validation and fidelity.
use crate::case::{prop, with, PROPS};
use crate::common::*;
use crate::entry;
use crate::refs;
use crate::sym::*;
use vcard4::parameter::{Parameters, RelatedType, TelephoneType, TimeZoneParameter, TypeParameter};
use vcard4::Vcard;

/// The document with property `k` given extra parameters (text that starts with `;`).
pub fn withp(k: usize, params: &[u8]) -> String {
    let l = with(k, b"");
    let name = PROPS[k].1.as_bytes();
    let at = l.len() - name.len();
    let mut v = l[..at].to_vec();
    let colon = name.iter().position(|c| *c == b':').unwrap();
    v.extend_from_slice(&name[..colon]);
    v.extend_from_slice(params);
    v.extend_from_slice(&name[colon..]);
    doc(&v)
}
fn idx(n: &str) -> usize {
    PROPS.iter().position(|p| p.0 == n).unwrap()
}
fn params<'a>(k: usize, c: &'a Vcard) -> Option<&'a Parameters> {
    prop(k, c).and_then(|p| p.parameters())
}
/// Bytes that do not end an unquoted value.
fn plain(b: &[u8]) {
    for c in b {
        assume(*c > 0x20 && *c < 0x7f && *c != b';' && *c != b':' && *c != b'"' && *c != b'\\');
    }
}
fn digit(c: u8) -> bool {
    c.is_ascii_digit()
}
fn lines(pre: &str, b: &[u8], post: &str) -> Vec<u8> {
    let mut v = pre.as_bytes().to_vec();
    v.extend_from_slice(b);
    v.extend_from_slice(post.as_bytes());
    v
}
const SOME: &[&str] = &["FN", "ADR", "URL", "TEL-uri", "X", "BDAY"];
fn some() -> usize {
    let i = choose(SOME.len());
    label(SOME[i]);
    idx(SOME[i])
}
fn any() -> usize {
    let k = choose(PROPS.len());
    label(PROPS[k].0);
    k
}

// PREF: 1 to 100
fn pref(k: usize, n: usize, post: &str) {
    let b = bytes(n);
    plain(&b);
    if n > 0 {
        assume(b[0] != b'+');
    }
    let mut t = b.clone();
    t.extend_from_slice(post.as_bytes());
    let mut x = 0u32;
    let mut num = !t.is_empty();
    for c in &t {
        if digit(*c) {
            x = x * 10 + (*c - b'0') as u32;
        } else {
            num = false;
        }
    }
    let want = num && x >= 1 && x <= 100;
    let src = withp(k, &lines(";PREF=", &t, ""));
    let r = vcard4::parse(&src);
    check(r.is_ok() == want, 1);
    if let Ok(c) = r {
        let Some(p) = params(k, &c[0]) else { fail(2) };
        check(p.pref == Some(x as u8), 3);
        reach(1);
    } else {
        reach(2);
    }
}
entry!(h_par_pref, {
    warm();
    let k = some();
    let n = choose(3);
    pref(k, n + 1, "");
});
entry!(h_par_pref_all, {
    warm();
    let k = any();
    pref(k, 1, "0");
});
// PID: digits with an optional second part, separated by commas
fn pid_ok(b: &[u8]) -> Option<Vec<(u64, Option<u64>)>> {
    let mut out = vec![];
    let mut i = 0;
    loop {
        let mut l = 0u64;
        let mut n = 0;
        while i < b.len() && digit(b[i]) {
            l = l * 10 + (b[i] - b'0') as u64;
            i += 1;
            n += 1;
        }
        if n == 0 {
            return None;
        }
        let mut s = None;
        if i < b.len() && b[i] == b'.' {
            i += 1;
            let mut v = 0u64;
            let mut m = 0;
            while i < b.len() && digit(b[i]) {
                v = v * 10 + (b[i] - b'0') as u64;
                i += 1;
                m += 1;
            }
            if m == 0 {
                return None;
            }
            s = Some(v);
        }
        out.push((l, s));
        if i == b.len() {
            return Some(out);
        }
        if b[i] != b',' {
            return None;
        }
        i += 1;
    }
}
fn pid(k: usize, pre: &str, n: usize, post: &str) {
    let b = bytes(n);
    plain(&b);
    for c in &b {
        assume(*c != b'+');
    }
    let t = lines(pre, &b, post);
    let mut want = pid_ok(&t);
    if PROPS[k].0 == "CLIENTPIDMAP" {
        want = None;
    }
    let r = vcard4::parse(withp(k, &lines(";PID=", &t, "")));
    check(r.is_ok() == want.is_some(), 4);
    if let (Ok(c), Some(w)) = (r, want) {
        let Some(p) = params(k, &c[0]) else { fail(5) };
        let Some(p) = &p.pid else { fail(6) };
        check(p.len() == w.len(), 7);
        for (a, b) in p.iter().zip(w.iter()) {
            check(a.local == b.0 && a.source == b.1, 8);
        }
        reach(1);
    } else {
        reach(2);
    }
}
entry!(h_par_pid, {
    warm();
    let k = some();
    let n = choose(3);
    pid(k, "", n + 1, "");
});
entry!(h_par_pid4, {
    warm();
    let k = idx("FN");
    label("FN");
    pid(k, "", 4, "");
});
entry!(h_par_pid_all, {
    warm();
    let k = any();
    pid(k, "1", 1, "2");
});
// TYPE is allowed on some properties
const TYPE_OK: &[&str] = &[
    "FN", "NICKNAME", "PHOTO", "PHOTO-text", "ADR", "TEL", "TEL-uri", "EMAIL", "IMPP", "LANG", "TZ", "TZ-uri", "TZ-offset", "GEO", "TITLE", "ROLE", "LOGO", "ORG", "RELATED", "RELATED-text", "CATEGORIES", "NOTE", "SOUND", "URL", "KEY", "KEY-text", "FBURL", "CALADRURI", "CALURI", "X", "X-int",
];
fn allows_type(k: usize) -> bool {
    TYPE_OK.iter().any(|t| *t == PROPS[k].0)
}
entry!(h_par_type, {
    warm();
    let k = any();
    let b = bytes(2);
    plain(&b);
    assume(b[0] != b',' && b[1] != b',');
    let lower = [b[0] | 0x20, b[1] | 0x20];
    assume(!(b[0].is_ascii_alphabetic() && b[1].is_ascii_alphabetic() && &lower == b"me"));
    let ext = lower[0] == b'x' && b[1] == b'-' && b[0].is_ascii_alphabetic();
    assume(!ext);
    let r = vcard4::parse(withp(k, &lines(";TYPE=", &b, "")));
    check(r.is_ok() == allows_type(k), 9);
    if let Ok(c) = r {
        let Some(p) = params(k, &c[0]) else { fail(10) };
        check(p.types == Some(vec![TypeParameter::Extension(s(b))]), 11);
        reach(1);
    } else {
        reach(2);
    }
});
// LABEL is allowed on addresses only
entry!(h_par_label, {
    warm();
    let k = any();
    let b = bytes(2);
    plain(&b);
    let q = choose(2);
    let t = if q == 1 { lines(";LABEL=\"", &b, "\"") } else { lines(";LABEL=", &b, "") };
    let r = vcard4::parse(withp(k, &t));
    check(r.is_ok() == (PROPS[k].0 == "ADR"), 12);
    if let Ok(c) = r {
        let Some(p) = params(k, &c[0]) else { fail(13) };
        check(p.label == Some(s(b)), 14);
        reach(1);
    } else {
        reach(2);
    }
});
// what counts is the property name, not names that contain it
const CONTAIN: &[&str] = &[
    "SOURCE", "KIND", "XML", "FN", "N", "NICKNAME", "PHOTO", "BDAY", "ANNIVERSARY", "GENDER", "ADR", "TEL", "EMAIL", "IMPP", "LANG", "TZ", "GEO", "TITLE", "ROLE", "LOGO", "ORG", "MEMBER", "RELATED", "CATEGORIES", "NOTE", "PRODID", "REV", "SOUND", "UID", "CLIENTPIDMAP", "URL", "KEY", "FBURL", "CALADRURI", "CALURI",
];
entry!(h_par_where, {
    warm();
    let n = CONTAIN[choose(CONTAIN.len())];
    label(n);
    let b = bytes(1);
    plain(&b);
    assume(b[0] != b',');
    let lab = choose(2) == 1;
    let form = choose(8);
    let (name, value, ok) = match form {
        0 => (["X-", n].concat(), "v", !lab),
        1 => (["X-A-", n].concat(), "v", !lab),
        2 => (["X-A", n].concat(), "v", !lab),
        3 => (["X-", n, "A"].concat(), "v", !lab),
        4 => ([n, ".KIND"].concat(), "group", false),
        5 => ([n, ".NOTE"].concat(), "v", !lab),
        6 => ([n, ".ADR"].concat(), ";;;;;;", true),
        _ => ([n, ".X-A"].concat(), "v", !lab),
    };
    let mut l = b"FN:x\r\n".to_vec();
    l.extend_from_slice(name.as_bytes());
    l.extend_from_slice(if lab { b";LABEL=" } else { b";TYPE=" });
    l.extend_from_slice(&b);
    l.push(b':');
    l.extend_from_slice(value.as_bytes());
    let r = vcard4::parse(doc(&l));
    check(r.is_ok() == ok, 16);
    reach(if ok { 1 } else { 2 });
});
// CHARSET is UTF-8
entry!(h_par_charset, {
    warm();
    let k = some();
    let i = choose(6);
    let b = bytes(1);
    plain(&b);
    let mut v = b"UTF-8 ".to_vec();
    if i == 5 {
        v[5] = b[0];
    } else {
        v.pop();
        // other case is not decided
        assume(!(b[0].is_ascii_lowercase() && b[0] - 0x20 == v[i]));
        v[i] = b[0];
    }
    let r = vcard4::parse(withp(k, &lines(";CHARSET=", &v, "")));
    check(r.is_ok() == (&v[..] == b"UTF-8"), 15);
    reach(if r.is_ok() { 1 } else { 2 });
});
// parameter names
const NAMES: &[T] = &[
    ("LANGUAGE", "en"), ("VALUE", "text"), ("PREF", "1"), ("ALTID", "1"), ("PID", "1"), ("TYPE", "home"), ("MEDIATYPE", "a/b"), ("CALSCALE", "gregorian"), ("SORT-AS", "a"), ("GEO", "\"geo:1\""), ("TZ", "-0500"), ("LABEL", "a"), ("CHARSET", "UTF-8"), ("ENCODING", "b"),
];
fn up(c: u8) -> u8 {
    if c.is_ascii_lowercase() {
        c - 0x20
    } else {
        c
    }
}
entry!(h_par_name, {
    warm();
    let k = idx("ADR");
    let n = choose(NAMES.len());
    label(NAMES[n].0);
    let name = NAMES[n].0.as_bytes();
    let ins = choose(2);
    let i = choose(name.len() + ins);
    let b = ascii(1)[0];
    let mut v = name.to_vec();
    if ins == 1 {
        // not the delimiter
        assume(!(b == b'=' && i == name.len()));
        v.insert(i, b);
    } else {
        assume(up(b) != name[i]);
        v[i] = b;
    }
    let mut t = vec![b';'];
    t.extend_from_slice(&v);
    t.push(b'=');
    t.extend_from_slice(NAMES[n].1.as_bytes());
    let src = withp(k, &t);
    // an extension parameter needs three characters changed
    check(vcard4::parse(&src).is_err(), 16);
    reach(1);
});
// all names are accepted as they are
entry!(h_par_name_ok, {
    warm();
    let k = idx("ADR");
    let n = choose(NAMES.len());
    label(NAMES[n].0);
    let m = bytes(1)[0];
    assume(m.is_ascii_alphanumeric());
    let mut t = vec![b';'];
    t.extend_from_slice(NAMES[n].0.as_bytes());
    t.push(b'=');
    t.extend_from_slice(NAMES[n].1.as_bytes());
    t.extend_from_slice(b";X-");
    t.push(m);
    t.extend_from_slice(b"=1");
    check(vcard4::parse(withp(k, &t)).is_ok(), 17);
    reach(1);
});
// extension parameters
entry!(h_par_ext, {
    warm();
    let k = any();
    let b = bytes(3);
    for c in &b[..2] {
        assume(c.is_ascii_alphanumeric() || *c == b'-');
    }
    let n = bytes(1)[0];
    assume(n == b'X' || n == b'x');
    plain(&b[2..]);
    assume(b[2] != b',');
    let mut t = vec![b';', n, b'-'];
    t.extend_from_slice(&b[..2]);
    t.push(b'=');
    t.push(b[2]);
    let src = withp(k, &t);
    let Some(c) = one(&src) else { fail(18) };
    let Some(p) = params(k, &c) else { fail(19) };
    let Some(x) = &p.extensions else { fail(20) };
    check(x.len() == 1 && x[0].0.as_bytes() == &t[1..5] && x[0].1.len() == 1 && x[0].1[0].as_bytes() == &b[2..], 21);
    reach(1);
});
// the GEO parameter is a quoted URI
entry!(h_par_geo, {
    warm();
    let k = idx("ADR");
    let q = choose(2);
    label("GEO");
    let b = bytes(1);
    assume(digit(b[0]));
    let t = if q == 1 { lines(";GEO=\"geo:", &b, ",2\"") } else { lines(";GEO=geo", &b, "") };
    let r = vcard4::parse(withp(k, &t));
    check(r.is_ok() == (q == 1), 22);
    if let Ok(c) = r {
        let Some(p) = params(k, &c[0]) else { fail(23) };
        let Some(g) = &p.geo else { fail(24) };
        check(g.to_string().as_bytes() == &lines("geo:", &b, ",2")[..], 25);
        reach(1);
    } else {
        reach(2);
    }
});
// an unknown value type is an error
const VALS: &[&str] = &["text", "uri", "date", "time", "date-time", "date-and-or-time", "timestamp", "boolean", "integer", "float", "utc-offset", "language-tag"];
entry!(h_par_value, {
    warm();
    let n = choose(VALS.len());
    label(VALS[n]);
    let name = VALS[n].as_bytes();
    let ins = choose(2);
    let i = choose(name.len() + ins);
    let b = bytes(1);
    plain(&b);
    let b = b[0];
    let mut v = name.to_vec();
    if ins == 1 {
        v.insert(i, b);
    } else {
        assume(up(b) != up(name[i]));
        v[i] = b;
    }
    let mut t = b";VALUE=".to_vec();
    t.extend_from_slice(&v);
    let w: &[&str] = &["FN", "X"];
    check(vcard4::parse(withp(idx(w[choose(2)]), &t)).is_err(), 26);
    reach(1);
});

// ---- fidelity ----
/// Parameter kinds that hold text.
const TEXTS: &[&str] = &["LANGUAGE", "ALTID", "MEDIATYPE", "CALSCALE", "LABEL", "SORT-AS", "X-P", "ENCODING", "TZ", "TYPE"];
fn join(l: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![];
    for (i, x) in l.iter().enumerate() {
        if i > 0 {
            o.push(b',');
        }
        o.extend_from_slice(x);
    }
    o
}
/// The value of text parameter `n` (lists joined), with the number of items.
fn value(n: &str, p: &Parameters) -> Option<(Vec<u8>, usize)> {
    let t = |o: &Option<String>| o.as_ref().map(|v| (v.as_bytes().to_vec(), 1));
    let l = |v: &[String]| {
        let x: Vec<Vec<u8>> = v.iter().map(|s| s.as_bytes().to_vec()).collect();
        (join(&x), x.len())
    };
    match n {
        "LANGUAGE" => p.language.as_ref().map(|v| (ty::str(v).as_bytes().to_vec(), 1)),
        "ALTID" => t(&p.alt_id),
        "MEDIATYPE" => p.media_type.as_ref().map(|v| (ty::mstr(v).as_bytes().to_vec(), 1)),
        "CALSCALE" => t(&p.calscale),
        "LABEL" => t(&p.label),
        "SORT-AS" => p.sort_as.as_ref().map(|v| l(v)),
        "TYPE" => p.types.as_ref().map(|v| {
            let x: Vec<String> = v
                .iter()
                .map(|t| match t {
                    TypeParameter::Extension(s) => s.to_string(),
                    _ => String::from("?"),
                })
                .collect();
            l(&x)
        }),
        "TZ" => match &p.timezone {
            Some(TimeZoneParameter::Text(s)) => Some((s.as_bytes().to_vec(), 1)),
            _ => None,
        },
        _ => match &p.extensions {
            Some(x) if x.len() == 1 && x[0].0 == n => Some(l(&x[0].1)),
            _ => None,
        },
    }
}
fn is_list(n: &str) -> bool {
    n == "SORT-AS" || n == "X-P" || n == "ENCODING" || n == "TYPE"
}
fn again(c: &Vcard) {
    let t = c.to_string();
    observe(t.as_bytes());
    match vcard4::parse(&t) {
        Ok(d) => check(d.len() == 1 && &d[0] == c, 30),
        Err(_) => fail(31),
    }
}
fn read(quoted: bool, n: usize) {
    warm();
    let k = idx("ADR");
    let i = choose(TEXTS.len());
    let name = TEXTS[i];
    label(name);
    if quoted && name == "TZ" {
        return;
    }
    let f = choose(2);
    let b = bytes(n);
    for c in &b {
        assume(*c >= 0x20 && *c < 0x7f || *c == b'\t');
        assume(*c != b'"');
        if !quoted {
            assume(*c != b';' && *c != b':');
        }
    }
    // something around it keeps it from being another type
    let v = match (f, name) {
        (0, "TYPE") => lines("q", &b, "z"),
        (_, "TZ") => lines("q", &b, ""),
        (0, _) => b.clone(),
        _ => lines("u", &b, "v"),
    };
    if name == "TYPE" {
        // `x-` starts an extension type
        for i in 1..v.len() - 1 {
            assume(!(v[i - 1] == b',' && up(v[i]) == b'X' && v[i + 1] == b'-'));
        }
    }
    // commas split, so does one made by an escape
    let mut t = vec![b';'];
    t.extend_from_slice(name.as_bytes());
    t.push(b'=');
    if quoted {
        t.push(b'"');
    }
    t.extend_from_slice(&v);
    if quoted {
        t.push(b'"');
    } else if v.last() == Some(&b'\\') {
        // would escape the delimiter
        return;
    }
    t.extend_from_slice(b";PREF=7");
    let Some(c) = one(&withp(k, &t)) else { fail(32) };
    let Some(p) = params(k, &c) else { fail(33) };
    check(p.pref == Some(7), 34);
    let Some((got, items)) = value(name, p) else { fail(35) };
    let want = refs::decode_text(&v);
    check(got == want, 36);
    let mut commas = 0;
    for c in &want {
        if *c == b',' {
            commas += 1;
        }
    }
    check(items == if is_list(name) { commas + 1 } else { 1 }, 37);
    reach(1);
    again(&c);
}
entry!(h_prm_quoted, { read(true, 2) });
entry!(h_prm_plain, { read(false, 2) });
entry!(h_prm_quoted3, { read(true, 3) });
entry!(h_prm_plain3, { read(false, 3) });

// parameters on every property, in several orders
entry!(h_prm_all, {
    warm();
    let k = any();
    let o = choose(3);
    let b = bytes(2);
    for c in &b {
        assume(*c >= 0x20 && *c < 0x7f && *c != b'"' && *c != b'\\' && *c != b',');
    }
    let q = lines("\"", &b, "\"");
    let mut t: Vec<u8> = vec![];
    match o {
        0 => {
            t.extend_from_slice(b";PREF=9;ALTID=");
            t.extend_from_slice(&q);
            t.extend_from_slice(b";X-P=a,b;LANGUAGE=en");
        }
        1 => {
            t.extend_from_slice(b";LANGUAGE=en;X-P=\"a,b\";ALTID=");
            t.extend_from_slice(&q);
            t.extend_from_slice(b";PREF=9");
        }
        _ => {
            t.extend_from_slice(b";ALTID=");
            t.extend_from_slice(&q);
            t.extend_from_slice(b";X-P=a,b;PREF=9;LANGUAGE=\"en\"");
        }
    }
    let Some(c) = one(&withp(k, &t)) else { fail(38) };
    let Some(p) = params(k, &c) else { fail(39) };
    check(p.pref == Some(9) && p.alt_id.as_ref().map(|a| a.as_bytes()) == Some(&b[..]), 40);
    check(p.language.as_ref().map(|a| ty::str(a).as_bytes()) == Some(b"en"), 41);
    check(value("X-P", p) == Some((b"a,b".to_vec(), 2)), 42);
    check(p.label.is_none() && p.calscale.is_none() && p.media_type.is_none() && p.sort_as.is_none() && p.timezone.is_none() && p.geo.is_none() && p.pid.is_none() && p.types.is_none(), 43);
    reach(1);
    again(&c);
});
// TYPE values
const TYPES: &[(&str, TypeParameter)] = &[
    ("home", TypeParameter::Home),
    ("work", TypeParameter::Work),
    ("text", TypeParameter::Telephone(TelephoneType::Text)),
    ("voice", TypeParameter::Telephone(TelephoneType::Voice)),
    ("fax", TypeParameter::Telephone(TelephoneType::Fax)),
    ("cell", TypeParameter::Telephone(TelephoneType::Cell)),
    ("video", TypeParameter::Telephone(TelephoneType::Video)),
    ("pager", TypeParameter::Telephone(TelephoneType::Pager)),
    ("textphone", TypeParameter::Telephone(TelephoneType::TextPhone)),
    ("contact", TypeParameter::Related(RelatedType::Contact)),
    ("acquaintance", TypeParameter::Related(RelatedType::Acquaintance)),
    ("friend", TypeParameter::Related(RelatedType::Friend)),
    ("met", TypeParameter::Related(RelatedType::Met)),
    ("co-worker", TypeParameter::Related(RelatedType::CoWorker)),
    ("colleague", TypeParameter::Related(RelatedType::Colleague)),
    ("co-resident", TypeParameter::Related(RelatedType::CoResident)),
    ("neighbor", TypeParameter::Related(RelatedType::Neighbor)),
    ("child", TypeParameter::Related(RelatedType::Child)),
    ("parent", TypeParameter::Related(RelatedType::Parent)),
    ("sibling", TypeParameter::Related(RelatedType::Sibling)),
    ("spouse", TypeParameter::Related(RelatedType::Spouse)),
    ("kin", TypeParameter::Related(RelatedType::Kin)),
    ("muse", TypeParameter::Related(RelatedType::Muse)),
    ("crush", TypeParameter::Related(RelatedType::Crush)),
    ("date", TypeParameter::Related(RelatedType::Date)),
    ("sweetheart", TypeParameter::Related(RelatedType::Sweetheart)),
    ("me", TypeParameter::Related(RelatedType::Me)),
    ("agent", TypeParameter::Related(RelatedType::Agent)),
    ("emergency", TypeParameter::Related(RelatedType::Emergency)),
];
entry!(h_prm_types, {
    warm();
    let n = choose(TYPES.len());
    let (name, want) = &TYPES[n];
    label(name);
    let w: &[&str] = &["TEL", "RELATED", "X", "NOTE"];
    let k = idx(w[choose(4)]);
    let o = choose(3);
    let i = choose(name.len());
    let b = bytes(1);
    plain(&b);
    assume(b[0] != b',');
    let mut v = name.as_bytes().to_vec();
    let same = up(b[0]) == up(v[i]);
    // no other name is one letter away
    v[i] = b[0];
    let vs = &v.clone()[..];
    // "x-" starts an extension
    assume(!(v.len() >= 2 && up(v[0]) == b'X' && v[1] == b'-'));
    let t = match o {
        0 => lines(";TYPE=", vs, ""),
        1 => lines(";TYPE=x-a,", vs, ",qq"),
        _ => lines(";TYPE=\"qq,", vs, ",x-a\""),
    };
    let item = if same { (*want).clone() } else { TypeParameter::Extension(s(v)) };
    let Some(c) = one(&withp(k, &t)) else { fail(44) };
    let Some(p) = params(k, &c) else { fail(45) };
    let Some(got) = &p.types else { fail(46) };
    let e = |x: &str| TypeParameter::Extension(x.to_string());
    match o {
        0 => check(got.len() == 1 && got[0] == item, 47),
        1 => check(got.len() == 3 && got[0] == e("a") && got[1] == item && got[2] == e("qq"), 48),
        _ => check(got.len() == 3 && got[0] == e("qq") && got[1] == item && got[2] == e("a"), 49),
    }
    reach(1);
    again(&c);
});
/// Set the parameters of property `k`.
pub fn set(k: usize, c: &mut Vcard, p: Parameters) {
    use vcard4::property::*;
    macro_rules! f {
        ($e:expr) => {
            $e[0].parameters = Some(p)
        };
    }
    macro_rules! o {
        ($e:expr) => {
            if let Some(x) = &mut $e {
                x.parameters = Some(p)
            }
        };
    }
    fn tu(x: &mut TextOrUriProperty, p: Parameters) {
        match x {
            TextOrUriProperty::Text(t) => t.parameters = Some(p),
            TextOrUriProperty::Uri(t) => t.parameters = Some(p),
        }
    }
    fn dt(x: &mut Option<DateTimeOrTextProperty>, p: Parameters) {
        match x {
            Some(DateTimeOrTextProperty::Text(t)) => t.parameters = Some(p),
            Some(DateTimeOrTextProperty::DateTime(t)) => t.parameters = Some(p),
            None => {}
        }
    }
    match PROPS[k].0 {
        "SOURCE" => f!(c.source),
        "KIND" => o!(c.kind),
        "XML" => f!(c.xml),
        "FN" => c.formatted_name[1].parameters = Some(p),
        "N" => o!(c.name),
        "NICKNAME" => f!(c.nickname),
        "PHOTO" | "PHOTO-text" => tu(&mut c.photo[0], p),
        "BDAY" | "BDAY-text" => dt(&mut c.bday, p),
        "ANNIVERSARY" => dt(&mut c.anniversary, p),
        "GENDER" => o!(c.gender),
        "ADR" => f!(c.address),
        "TEL" | "TEL-uri" => tu(&mut c.tel[0], p),
        "EMAIL" => f!(c.email),
        "IMPP" => f!(c.impp),
        "LANG" => f!(c.lang),
        "TZ" | "TZ-uri" | "TZ-offset" => match &mut c.timezone[0] {
            TimeZoneProperty::Text(t) => t.parameters = Some(p),
            TimeZoneProperty::Uri(t) => t.parameters = Some(p),
            TimeZoneProperty::UtcOffset(t) => t.parameters = Some(p),
        },
        "GEO" => f!(c.geo),
        "TITLE" => f!(c.title),
        "ROLE" => f!(c.role),
        "LOGO" => f!(c.logo),
        "ORG" => f!(c.org),
        "MEMBER" => f!(c.member),
        "RELATED" | "RELATED-text" => tu(&mut c.related[0], p),
        "CATEGORIES" => f!(c.categories),
        "NOTE" => f!(c.note),
        "PRODID" => o!(c.prod_id),
        "REV" => o!(c.rev),
        "SOUND" => f!(c.sound),
        "UID" | "UID-text" => {
            if let Some(x) = &mut c.uid {
                tu(x, p)
            }
        }
        "CLIENTPIDMAP" => f!(c.client_pid_map),
        "URL" => f!(c.url),
        "KEY" | "KEY-text" => tu(&mut c.key[0], p),
        "FBURL" => f!(c.fburl),
        "CALADRURI" => f!(c.cal_adr_uri),
        "CALURI" => f!(c.cal_uri),
        _ => f!(c.extensions),
    }
}
fn store(p: &mut Parameters, name: &str, b: String) {
    let st = |s: &str| s.to_string();
    match name {
        "LANGUAGE" => p.language = ty::lang(b),
        "ALTID" => p.alt_id = Some(b),
        "MEDIATYPE" => p.media_type = ty::media(b),
        "CALSCALE" => p.calscale = Some(b),
        "LABEL" => p.label = Some(b),
        "SORT-AS" => p.sort_as = Some(vec![st("u"), b]),
        "TZ" => p.timezone = Some(TimeZoneParameter::Text(b)),
        "TYPE" => p.types = Some(vec![TypeParameter::Work, TypeParameter::Extension(b)]),
        "ENCODING" => p.extensions = Some(vec![(st("ENCODING"), vec![b])]),
        _ => p.extensions = Some(vec![(st("X-P"), vec![b, st("u")]), (st("X-Q"), vec![st("v")])]),
    }
}
// what is stored is read again
entry!(h_prm_store, {
    warm();
    let k = idx("ADR");
    let i = choose(TEXTS.len());
    let name = TEXTS[i];
    let f = choose(2);
    let b = bytes(2);
    for c in &b {
        assume(*c >= 0x20 && *c < 0x7f || *c == b'\t' || *c == b'\n');
        assume(*c != b'"' && !(is_list(name) && *c == b','));
    }
    let v = match (f, name) {
        (_, "TYPE") => lines("q", &b, ""),
        (_, "TZ") => lines("q", &b, ""),
        (0, _) => b.clone(),
        _ => lines("u", &b, "v"),
    };
    label(if name == "TZ" && (b[0] == b':' || b[1] == b':') { "TZ text with a colon" } else { name });
    let Some(mut c) = one(&doc(&with(k, b""))) else { fail(50) };
    let mut p = Parameters::default();
    p.pref = Some(3);
    store(&mut p, name, s(v));
    set(k, &mut c, p);
    reach(1);
    again(&c);
});
entry!(h_prm_store_all, {
    warm();
    let k = any();
    let i = choose(3);
    let name = ["ALTID", "X-P", "LANGUAGE"][i];
    let b = bytes(1);
    assume(b[0] >= 0x20 && b[0] < 0x7f || b[0] == b'\t' || b[0] == b'\n');
    assume(b[0] != b'"' && b[0] != b',');
    let Some(mut c) = one(&doc(&with(k, b""))) else { fail(51) };
    let mut p = Parameters::default();
    p.value = params(k, &c).and_then(|p| p.value.clone());
    store(&mut p, name, s(b));
    set(k, &mut c, p);
    reach(1);
    again(&c);
});

// a double quote cannot be part of a parameter value in vCard text
entry!(h_prm_dquote, {
    warm();
    label("double quote");
    let k = idx("ADR");
    let i = choose(TEXTS.len());
    let b = bytes(1);
    assume(b[0].is_ascii_alphanumeric());
    let mut v = vec![b[0], b'"'];
    v.push(b[0]);
    let Some(mut c) = one(&doc(&with(k, b""))) else { fail(52) };
    let mut p = Parameters::default();
    store(&mut p, TEXTS[i], s(v));
    set(k, &mut c, p);
    reach(1);
    again(&c);
});
// keywords in an unquoted value
const KEYS: &[(&str, &str)] = &[("BEGIN", "VCARD"), ("END", "VCARD"), ("VERSION", "4.0")];
entry!(h_prm_keyword, {
    warm();
    let i = choose(3);
    let n = choose(TEXTS.len());
    let name = TEXTS[n];
    label(name);
    let pre = choose(2);
    let b = bytes(1);
    plain(&b);
    let (a, z) = KEYS[i];
    let mut v = if pre == 1 { b"q".to_vec() } else { vec![] };
    v.extend_from_slice(a.as_bytes());
    let mut l = b"FN:x\r\nADR;".to_vec();
    l.extend_from_slice(name.as_bytes());
    l.push(b'=');
    l.extend_from_slice(&v);
    l.push(b':');
    l.extend_from_slice(z.as_bytes());
    l.extend_from_slice(&b);
    l.extend_from_slice(b";b;c;d;e;f;g\r\nNOTE:y");
    let Some(c) = one(&doc(&l)) else { fail(53) };
    check(c.address.len() == 1 && c.note.len() == 1, 54);
    let Some(p) = &c.address[0].parameters else { fail(55) };
    check(value(name, p) == Some((v, 1)), 56);
    let mut w = z.as_bytes().to_vec();
    w.extend_from_slice(&b);
    check(c.address[0].value.po_box.as_ref().map(|x| x.as_bytes().to_vec()) == Some(w), 57);
    reach(1);
    again(&c);
});
