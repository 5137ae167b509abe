//! Names are case insensitive; groups are kept.
use crate::common::*;
use crate::entry;
use crate::sym::*;
use vcard4::Vcard;

/// Documents in canonical case; the part between `{` and `}` may be in any case.
const DOCS: &[T] = &[
    ("begin", "{BEGIN}:{VCARD}|{VERSION}:4.0|FN:x|{END}:{VCARD}|"),
    ("FN", "+|{FN}:x|-"),
    ("SOURCE", "+|FN:x|{SOURCE}:u:a|-"),
    ("KIND", "+|FN:x|{KIND}:group|-"),
    ("XML", "+|FN:x|{XML}:a|-"),
    ("N", "+|FN:x|{N}:a;b;c;d;e|-"),
    ("NICKNAME", "+|FN:x|{NICKNAME}:a|-"),
    ("PHOTO", "+|FN:x|{PHOTO}:u:a|-"),
    ("BDAY", "+|FN:x|{BDAY}:20200102|-"),
    ("ANNIVERSARY", "+|FN:x|{ANNIVERSARY}:20200102|-"),
    ("GENDER", "+|FN:x|{GENDER}:M;a|-"),
    ("ADR", "+|FN:x|{ADR}:a;b;c;d;e;f;g|-"),
    ("TEL", "+|FN:x|{TEL}:1|-"),
    ("EMAIL", "+|FN:x|{EMAIL}:a|-"),
    ("IMPP", "+|FN:x|{IMPP}:u:a|-"),
    ("LANG", "+|FN:x|{LANG}:en|-"),
    ("TZ", "+|FN:x|{TZ}:a|-"),
    ("GEO", "+|FN:x|{GEO}:geo:1|-"),
    ("TITLE", "+|FN:x|{TITLE}:a|-"),
    ("ROLE", "+|FN:x|{ROLE}:a|-"),
    ("LOGO", "+|FN:x|{LOGO}:u:a|-"),
    ("ORG", "+|FN:x|{ORG}:a;b|-"),
    ("MEMBER", "+|FN:x|KIND:group|{MEMBER}:u:a|-"),
    ("RELATED", "+|FN:x|{RELATED}:u:a|-"),
    ("CATEGORIES", "+|FN:x|{CATEGORIES}:a,b|-"),
    ("NOTE", "+|FN:x|{NOTE}:a|-"),
    ("PRODID", "+|FN:x|{PRODID}:a|-"),
    ("REV", "+|FN:x|{REV}:20200102T101010Z|-"),
    ("SOUND", "+|FN:x|{SOUND}:u:a|-"),
    ("UID", "+|FN:x|{UID}:u:a|-"),
    ("CLIENTPIDMAP", "+|FN:x|{CLIENTPIDMAP}:1;u:a|-"),
    ("URL", "+|FN:x|{URL}:u:a|-"),
    ("KEY", "+|FN:x|{KEY}:u:a|-"),
    ("FBURL", "+|FN:x|{FBURL}:u:a|-"),
    ("CALADRURI", "+|FN:x|{CALADRURI}:u:a|-"),
    ("CALURI", "+|FN:x|{CALURI}:u:a|-"),
    (";LANGUAGE", "+|FN;{LANGUAGE}=en:x|-"),
    (";VALUE", "+|FN:x|X-A;{VALUE}={integer}:1|-"),
    (";VALUE2", "+|FN:x|BDAY;{VALUE}={text}:1|-"),
    (";VALUE3", "+|FN:x|TEL;{VALUE}={uri}:t:1|-"),
    (";VALUE4", "+|FN:x|BDAY;{VALUE}={date-and-or-time}:20200102|-"),
    (";VALUE5", "+|FN:x|X-A;{VALUE}={boolean}:{TRUE}|X-A;VALUE={float}:1|X-A;VALUE={date}:20200102|-"),
    (";VALUE6", "+|FN:x|X-A;VALUE={time}:101010|X-A;VALUE={timestamp}:20200102T101010Z|-"),
    (";VALUE7", "+|FN:x|X-A;VALUE={date-time}:20200102T101010|TZ;VALUE={utc-offset}:+0100|X-A;VALUE={language-tag}:en|-"),
    (";PREF", "+|FN;{PREF}=1:x|-"),
    (";ALTID", "+|FN;{ALTID}=1:x|-"),
    (";PID", "+|FN;{PID}=1.2:x|-"),
    (";TYPE", "+|FN;{TYPE}={home},{work}:x|-"),
    (";TYPE-tel", "+|FN:x|TEL;{TYPE}={text},{voice},{fax},{cell},{video},{pager},{textphone}:1|-"),
    (";TYPE-rel", "+|FN:x|RELATED;TYPE={contact},{acquaintance},{friend},{met},{co-worker},{colleague}:u:1|-"),
    (";TYPE-rel2", "+|FN:x|RELATED;TYPE={co-resident},{neighbor},{child},{parent},{sibling},{spouse},{kin}:u:1|-"),
    (";TYPE-rel3", "+|FN:x|RELATED;TYPE={muse},{crush},{date},{sweetheart},{me},{agent},{emergency}:u:1|-"),
    (";MEDIATYPE", "+|FN;{MEDIATYPE}=text/plain:x|-"),
    (";CALSCALE", "+|FN:x|BDAY;{CALSCALE}=gregorian:20200102|-"),
    (";SORT-AS", "+|FN:x|N;{SORT-AS}=\"a,b\":a;b;c;d;e|-"),
    (";GEO", "+|FN:x|ADR;{GEO}=\"geo:1\":;;;;;;|-"),
    (";TZ", "+|FN:x|ADR;{TZ}=-0500:;;;;;;|-"),
    (";LABEL", "+|FN:x|ADR;{LABEL}=a:;;;;;;|-"),
    ("NICKNAME;TYPE", "+|FN:x|{NICKNAME};{TYPE}=home:a|-"),
    ("PHOTO;TYPE", "+|FN:x|{PHOTO};{TYPE}=home:u:a|-"),
    ("ADR;TYPE", "+|FN:x|{ADR};{TYPE}=home:a;b;c;d;e;f;g|-"),
    ("EMAIL;TYPE", "+|FN:x|{EMAIL};{TYPE}=home:a|-"),
    ("IMPP;TYPE", "+|FN:x|{IMPP};{TYPE}=home:u:a|-"),
    ("LANG;TYPE", "+|FN:x|{LANG};{TYPE}=home:en|-"),
    ("TZ;TYPE", "+|FN:x|{TZ};{TYPE}=home:a|-"),
    ("GEO;TYPE", "+|FN:x|{GEO};{TYPE}=home:geo:1|-"),
    ("TITLE;TYPE", "+|FN:x|{TITLE};{TYPE}=home:a|-"),
    ("ROLE;TYPE", "+|FN:x|{ROLE};{TYPE}=home:a|-"),
    ("LOGO;TYPE", "+|FN:x|{LOGO};{TYPE}=home:u:a|-"),
    ("ORG;TYPE", "+|FN:x|{ORG};{TYPE}=home:a;b|-"),
    ("CATEGORIES;TYPE", "+|FN:x|{CATEGORIES};{TYPE}=home:a,b|-"),
    ("NOTE;TYPE", "+|FN:x|{NOTE};{TYPE}=home:a|-"),
    ("SOUND;TYPE", "+|FN:x|{SOUND};{TYPE}=home:u:a|-"),
    ("URL;TYPE", "+|FN:x|{URL};{TYPE}=home:u:a|-"),
    ("KEY;TYPE", "+|FN:x|{KEY};{TYPE}=home:u:a|-"),
    ("FBURL;TYPE", "+|FN:x|{FBURL};{TYPE}=home:u:a|-"),
    ("CALADRURI;TYPE", "+|FN:x|{CALADRURI};{TYPE}=home:u:a|-"),
    ("CALURI;TYPE", "+|FN:x|{CALURI};{TYPE}=home:u:a|-"),
    (";two", "+|FN:x|{TEL};{PREF}=1;{TYPE}={home};{VALUE}={text}:1|-"),
    (";three", "+|FN:x|g.{ADR};{LABEL}=a;{GEO}=\"geo:1\";{TZ}=-0500;{LANGUAGE}=en:;;;;;;|-"),
    (";four", "+|FN:x|g.{BDAY};{CALSCALE}=gregorian;{ALTID}=1;{PID}=1.1:20200102|-"),
    (";five", "+|FN:x|{PHOTO};{MEDIATYPE}=image/png;{TYPE}={work}:u:a|-"),
    (";six", "+|FN:x|g.{TZ};{VALUE}={utc-offset}:+0100|-"),
    (";seven", "+|FN:x|g.{GEO};{PREF}=2;{TYPE}={home}:geo:1|-"),
    (";CHARSET", "+|FN;{CHARSET}=UTF-8:x|-"),
];
/// Expand `+` and `-` and return the text and the positions of letters in braces.
fn expand(t: &str) -> (Vec<u8>, Vec<usize>) {
    let mut v = vec![];
    let mut pos = vec![];
    let mut inside = false;
    let last = t.len() - 1;
    for (i, c) in t.bytes().enumerate() {
        match c {
            b'+' if i == 0 => v.extend_from_slice(b"BEGIN:VCARD\r\nVERSION:4.0"),
            b'-' if i == last => v.extend_from_slice(b"END:VCARD\r\n"),
            b'|' => v.extend_from_slice(b"\r\n"),
            b'{' => inside = true,
            b'}' => inside = false,
            c => {
                if inside && c.is_ascii_alphabetic() {
                    pos.push(v.len());
                }
                v.push(c)
            }
        }
    }
    (v, pos)
}
fn parse(v: &[u8], code: u32) -> Vec<Vcard> {
    match vcard4::parse(unsafe { std::str::from_utf8_unchecked(v) }) {
        Ok(c) => c,
        Err(_) => fail(code),
    }
}
// the case of `W` adjacent letters is symbolic, the others are lower, upper or alternating
fn go(w: usize) {
    warm();
    let k = choose(DOCS.len());
    label(DOCS[k].0);
    let (d, pos) = expand(DOCS[k].1);
    let n = if pos.len() <= w { 1 } else { pos.len() - w + 1 };
    let at = choose(n);
    let rest = choose(3);
    let m = bytes(w);
    let mut v = d.clone();
    for (i, p) in pos.iter().enumerate() {
        let l = v[*p] | 0x20;
        v[*p] = if i >= at && i < at + w {
            let c = m[i - at];
            assume(c == l || c == l - 0x20);
            c
        } else {
            match rest {
                0 => l,
                1 => l - 0x20,
                _ => {
                    if i % 2 == 0 {
                        l
                    } else {
                        l - 0x20
                    }
                }
            }
        };
    }
    for i in pos.len().min(w)..w {
        assume(m[i] == 0);
    }
    let a = parse(&d, 1);
    let b = parse(&v, 2);
    check(a == b, 3);
    reach(1);
}
entry!(h_case_2, { go(2) });
entry!(h_case_4, { go(4) });

/// Property lines with every property, used with a group.
pub const PROPS: &[T] = &[
    ("SOURCE", "SOURCE:u:a"), ("KIND", "KIND:group"), ("XML", "XML:a"), ("FN", "FN:y"), ("N", "N:a;b;c;d;e"), ("NICKNAME", "NICKNAME:a"), ("PHOTO", "PHOTO:u:a"), ("PHOTO-text", "PHOTO:a"), ("BDAY", "BDAY:20200102"), ("BDAY-text", "BDAY;VALUE=text:a"), ("ANNIVERSARY", "ANNIVERSARY:20200102"),
    ("GENDER", "GENDER:M;a"), ("ADR", "ADR:a;b;c;d;e;f;g"), ("TEL", "TEL:1"), ("TEL-uri", "TEL:t:1"), ("EMAIL", "EMAIL:a"), ("IMPP", "IMPP:u:a"), ("LANG", "LANG:en"), ("TZ", "TZ:a"), ("TZ-uri", "TZ;VALUE=uri:u:a"), ("TZ-offset", "TZ;VALUE=utc-offset:+0100"), ("GEO", "GEO:geo:1"), ("TITLE", "TITLE:a"), ("ROLE", "ROLE:a"),
    ("LOGO", "LOGO:u:a"), ("ORG", "ORG:a;b"), ("MEMBER", "MEMBER:u:a"), ("RELATED", "RELATED:u:a"), ("RELATED-text", "RELATED;VALUE=text:a"), ("CATEGORIES", "CATEGORIES:a,b"), ("NOTE", "NOTE:a"), ("PRODID", "PRODID:a"), ("REV", "REV:20200102T101010Z"), ("SOUND", "SOUND:u:a"), ("UID", "UID:u:a"), ("UID-text", "UID:a"), ("CLIENTPIDMAP", "CLIENTPIDMAP:1;u:a"),
    ("URL", "URL:u:a"), ("KEY", "KEY:u:a"), ("KEY-text", "KEY:a"), ("FBURL", "FBURL:u:a"), ("CALADRURI", "CALADRURI:u:a"), ("CALURI", "CALURI:u:a"), ("X", "X-ab:a"), ("X-int", "X-ab;VALUE=integer:1"),
];
/// The group of the property `k`.
pub fn prop(k: usize, c: &Vcard) -> Option<&dyn vcard4::property::Property> {
    named(PROPS[k].0, c)
}
pub fn named<'a>(name: &str, c: &'a Vcard) -> Option<&'a dyn vcard4::property::Property> {
    macro_rules! f {
        ($e:expr) => {
            $e.first().map(|p| p as &dyn vcard4::property::Property)
        };
    }
    macro_rules! o {
        ($e:expr) => {
            $e.as_ref().map(|p| p as &dyn vcard4::property::Property)
        };
    }
    match name {
        "SOURCE" => f!(c.source),
        "KIND" => o!(c.kind),
        "XML" => f!(c.xml),
        "FN" => c.formatted_name.get(1).map(|p| p as &dyn vcard4::property::Property),
        "N" => o!(c.name),
        "NICKNAME" => f!(c.nickname),
        "PHOTO" | "PHOTO-text" => f!(c.photo),
        "BDAY" | "BDAY-text" => o!(c.bday),
        "ANNIVERSARY" => o!(c.anniversary),
        "GENDER" => o!(c.gender),
        "ADR" => f!(c.address),
        "TEL" | "TEL-uri" => f!(c.tel),
        "EMAIL" => f!(c.email),
        "IMPP" => f!(c.impp),
        "LANG" => f!(c.lang),
        "TZ" | "TZ-uri" | "TZ-offset" => f!(c.timezone),
        "GEO" => f!(c.geo),
        "TITLE" => f!(c.title),
        "ROLE" => f!(c.role),
        "LOGO" => f!(c.logo),
        "ORG" => f!(c.org),
        "MEMBER" => f!(c.member),
        "RELATED" | "RELATED-text" => f!(c.related),
        "CATEGORIES" => f!(c.categories),
        "NOTE" => f!(c.note),
        "PRODID" => o!(c.prod_id),
        "REV" => o!(c.rev),
        "SOUND" => f!(c.sound),
        "UID" | "UID-text" => o!(c.uid),
        "CLIENTPIDMAP" => f!(c.client_pid_map),
        "URL" => f!(c.url),
        "KEY" | "KEY-text" => f!(c.key),
        "FBURL" => f!(c.fburl),
        "CALADRURI" => f!(c.cal_adr_uri),
        "CALURI" => f!(c.cal_uri),
        _ => f!(c.extensions),
    }
}
/// Document with line `k`, after `pre`.
pub fn with(k: usize, pre: &[u8]) -> Vec<u8> {
    let mut v = b"FN:x\r\n".to_vec();
    if PROPS[k].0 == "MEMBER" {
        v.extend_from_slice(b"KIND:group\r\n");
    }
    v.extend_from_slice(pre);
    v.extend_from_slice(PROPS[k].1.as_bytes());
    v
}
fn group(n: usize) {
    warm();
    let k = choose(PROPS.len());
    label(PROPS[k].0);
    let g = bytes(n);
    for c in &g {
        assume(c.is_ascii_alphanumeric() || *c == b'-');
    }
    let mut pre = g.clone();
    pre.push(b'.');
    let mut line = with(k, &pre);
    if choose(2) == 1 && !PROPS[k].0.starts_with('X') {
        // the name in lower case
        let at = line.len() - PROPS[k].1.len();
        for c in &mut line[at..] {
            if *c == b':' || *c == b';' {
                break;
            }
            *c = c.to_ascii_lowercase();
        }
    }
    let Some(c) = one(&doc(&line)) else { fail(4) };
    let Some(p) = prop(k, &c) else { fail(5) };
    check(p.group().map(|x| x.as_bytes()) == Some(&g[..]), 6);
    // the rest is as without a group
    let Some(u) = one(&doc(&with(k, b""))) else { fail(7) };
    let Some(q) = prop(k, &u) else { fail(8) };
    check(q.group().is_none(), 9);
    check(p.to_string() == q.to_string(), 10);
    // and it is printed
    let t = c.to_string();
    observe(t.as_bytes());
    match one(&t) {
        Some(d) => check(d == c, 11),
        None => fail(12),
    }
    reach(1);
}
entry!(h_case_group, { group(2) });
entry!(h_case_group3, { group(3) });

// extension names are kept as they are, in any case
entry!(h_case_ext, {
    warm();
    label("X-");
    let b = bytes(3);
    assume(b[0] == b'X' || b[0] == b'x');
    for c in &b[1..] {
        assume(c.is_ascii_alphanumeric() || *c == b'-');
    }
    let mut n = vec![b[0], b'-'];
    n.extend_from_slice(&b[1..]);
    let mut l = b"FN:x\r\n".to_vec();
    l.extend_from_slice(&n);
    const MORE: &[&str] = &["", ";TYPE=home", ";VALUE=text", ";PREF=1", ";LANGUAGE=en", ";ALTID=1", ";PID=1.1", ";MEDIATYPE=a/b", ";CALSCALE=c", ";SORT-AS=s", ";type=Home", ";Value=Text"];
    let more = choose(MORE.len());
    l.extend_from_slice(MORE[more].as_bytes());
    l.extend_from_slice(b";");
    l.extend_from_slice(&n);
    l.extend_from_slice(b"=v:a\\,b");
    let Some(c) = one(&doc(&l)) else { fail(13) };
    check(c.extensions.len() == 1 && c.extensions[0].name.as_bytes() == &n[..], 14);
    check(c.extensions[0].value == vcard4::property::AnyProperty::Text("a,b".to_string()), 15);
    let Some(p) = &c.extensions[0].parameters else { fail(16) };
    let Some(x) = &p.extensions else { fail(17) };
    check(x.len() == 1 && x[0].0.as_bytes() == &n[..] && x[0].1.len() == 1 && x[0].1[0] == "v", 18);
    reach(1);
});

/// Every explicit value type: property, value type, value.
const FORMS: &[(&str, &str, &str)] = &[
    ("BDAY", "text", "a"), ("BDAY", "date-and-or-time", "20200102"), ("BDAY", "date-and-or-time", "20200102T101010"), ("BDAY", "date-and-or-time", "T101010"),
    ("ANNIVERSARY", "text", "a"), ("ANNIVERSARY", "date-and-or-time", "20200102"), ("PHOTO", "text", "a"), ("PHOTO", "uri", "u:a"), ("TEL", "text", "1"), ("TEL", "uri", "t:1"),
    ("RELATED", "text", "a"), ("RELATED", "uri", "u:a"), ("UID", "text", "a"), ("UID", "uri", "u:a"), ("KEY", "text", "a"), ("KEY", "uri", "u:a"), ("TZ", "text", "a"), ("TZ", "uri", "u:a"), ("TZ", "utc-offset", "+0100"),
    ("X-ab", "text", "a"), ("X-ab", "uri", "u:a"), ("X-ab", "date", "20200102"), ("X-ab", "time", "101010"), ("X-ab", "date-time", "20200102T101010"), ("X-ab", "date-and-or-time", "20200102"), ("X-ab", "timestamp", "20200102T101010Z"),
    ("X-ab", "boolean", "true"), ("X-ab", "integer", "1"), ("X-ab", "float", "1.5"), ("X-ab", "utc-offset", "-0330"), ("X-ab", "language-tag", "en"), ("X-ab", "", "a"),
    ("KIND", "text", "org"), ("FN", "text", "a"), ("N", "text", "a;b;c;d;e"), ("NICKNAME", "text", "a"), ("GENDER", "text", "M;a"), ("ADR", "text", "a;b;c;d;e;f;g"), ("EMAIL", "text", "a"), ("TITLE", "text", "a"), ("ROLE", "text", "a"),
    ("ORG", "text", "a;b"), ("CATEGORIES", "text", "a,b"), ("NOTE", "text", "a"), ("PRODID", "text", "a"), ("XML", "text", "a"), ("LANG", "language-tag", "en"), ("REV", "timestamp", "20200102T101010Z"),
    ("SOURCE", "uri", "u:a"), ("IMPP", "uri", "u:a"), ("GEO", "uri", "geo:1"), ("LOGO", "uri", "u:a"), ("SOUND", "uri", "u:a"), ("URL", "uri", "u:a"), ("FBURL", "uri", "u:a"), ("CALADRURI", "uri", "u:a"), ("CALURI", "uri", "u:a"),
];
// group and parameters beside an explicit value type
entry!(h_case_form, {
    warm();
    let (name, ty, value) = FORMS[choose(FORMS.len())];
    label(name);
    let b = ascii(3);
    for c in &b {
        assume(c.is_ascii_alphanumeric());
    }
    let first = choose(2) == 0;
    let mut v: Vec<u8> = if name == "FN" { vec![] } else { b"FN:x\r\n".to_vec() };
    v.extend_from_slice(&[b"g", &b[..1], b".", name.as_bytes()].concat());
    if first && !ty.is_empty() {
        v.extend_from_slice(&[b";VALUE=", ty.as_bytes()].concat());
    }
    v.extend_from_slice(&[b";ALTID=q", &b[1..2], b";PREF=42;X-P=a,", &b[2..]].concat());
    if !first && !ty.is_empty() {
        v.extend_from_slice(&[b";VALUE=", ty.as_bytes()].concat());
    }
    v.extend_from_slice(&[b":", value.as_bytes()].concat());
    let Some(c) = one(&doc(&v)) else { fail(20) };
    let p = match name {
        "FN" => c.formatted_name.first().map(|p| p as &dyn vcard4::property::Property),
        _ => named(name, &c),
    };
    let Some(p) = p else { fail(21) };
    check(p.group().map(|g| g.as_bytes()) == Some(&[b'g', b[0]][..]), 22);
    let Some(q) = p.parameters() else { fail(23) };
    check(q.alt_id.as_ref().map(|a| a.as_bytes()) == Some(&[b'q', b[1]][..]) && q.pref == Some(42), 24);
    check(q.value.as_ref().map(|v| v.to_string()).unwrap_or_default() == ty, 25);
    let Some(x) = &q.extensions else { fail(26) };
    check(x.len() == 1 && x[0].0 == "X-P" && x[0].1.len() == 2 && x[0].1[0] == "a" && x[0].1[1].as_bytes() == &b[2..], 27);
    match one(&c.to_string()) {
        Some(d) => check(d == c, 28),
        None => fail(29),
    }
    reach(1);
});
