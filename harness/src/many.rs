//! Longer lists, more lines, more cards, more folds: what holds for one or two holds for many.
use crate::case::PROPS;
use crate::common::*;
use crate::entry;
use crate::refs;
use crate::sym::*;
use vcard4::property::*;
use vcard4::Vcard;

fn st(v: &str) -> String {
    v.to_string()
}
fn digit19() -> Vec<u8> {
    let b = bytes(1);
    assume(b[0] >= b'1' && b[0] <= b'9');
    b
}
fn letter() -> Vec<u8> {
    let b = bytes(1);
    assume(b[0].is_ascii_lowercase());
    b
}
/// Lists in the form they are printed in.
pub const LISTS: &[T] = &[
    ("X integer", "X-A;VALUE=integer:5,2,@,@,-5,5,0"),
    ("X float", "X-A;VALUE=float:1.5,2,@.@,-3,1.5,1.5,0.25"),
    ("X date", "X-A;VALUE=date:20000101,2001020@,20000101,20000101,19991231"),
    ("X time", "X-A;VALUE=time:101010+0000,10101@-0530,101010+0000,101010+0000,235959+1200"),
    ("X date-time", "X-A;VALUE=date-time:20000101T101010Z,20000101T10101@-0530,20000101T101010Z,20000101T101010Z,20000102T101010+0100"),
    ("X timestamp", "X-A;VALUE=timestamp:20000101T101010Z,20000101T10101@-0530,20000101T101010Z,20000101T101010Z,20000102T101010+0100"),
    ("X date-and-or-time", "X-A;VALUE=date-and-or-time:20000101,T10101@-0530,20000101,20000101,20000101T101010Z,T101010+0000"),
    ("BDAY", "BDAY:20000101,2000010@,20000101,20000101,T101010+0000,20000101T101010Z"),
    ("ANNIVERSARY", "ANNIVERSARY:20000101T101010Z,2000010@T101010Z,20000101,20000101,T101010+0000"),
    ("PID", "NOTE;PID=1.1,2,@.@,1.1,1.1,40,2,2,7.1,1,2,3,4,5,6,1.2,1.@,9:a"),
];
/// Lists of texts.
pub const TEXTS: &[T] = &[
    ("CATEGORIES", "CATEGORIES:a,b,@,a,a,c,@"),
    ("ORG", "ORG:a;b;@;a;a;c;@"),
    ("N", "N:a;a;@;a;a"),
    ("TYPE", "NOTE;TYPE=home,X-a,X-@,home,home,work:a"),
    ("TYPE tel", "TEL;TYPE=voice,X-a,X-@,voice,text,home,home,X-@,cell,fax,video,X-b,pager,textphone,work,X-z,text:1"),
    ("SORT-AS", "NOTE;SORT-AS=\"a,b,@,a,a,c,@,d,e,f,g,h,a,b,i,j,k\":a"),
    ("X-P", "NOTE;X-P=\"a,b,@,a,a,c,@,d,e,f,g,h,a,b,i,j,k\":a"),
    ("X params", "NOTE;X-P=\"a\";X-Q=\"@\";X-P=\"a\";X-P=\"a\";X-R=\"b\":a"),
];
/// The line is printed as it was, and the card is read again.
fn line(t: &str, b: &[u8]) {
    let mut l = b"FN:x\r\n".to_vec();
    let x = fill(t, b);
    l.extend_from_slice(&x);
    let Some(c) = one(&doc(&l)) else { fail(1) };
    let t = c.to_string();
    observe(t.as_bytes());
    let Some(ls) = refs::lines(&refs::unfold(t.as_bytes())) else { fail(2) };
    let mut found = false;
    for y in &ls {
        if y[..] == x[..] {
            found = true;
        }
    }
    check(found, 3);
    match one(&t) {
        Some(d) => check(d == c, 4),
        None => fail(5),
    }
    reach(1);
}
/// The list twice over.
fn twice(t: &str, sep: &str) -> String {
    let Some((_, v)) = t.split_once(':') else { fail(9) };
    if v == "a" || v == "1" {
        return st(t);
    }
    [t, sep, v, sep, v].concat()
}
entry!(h_many_list, {
    warm();
    let t = pick(LISTS);
    let b = digit19();
    let t = if choose(2) == 1 { twice(t, ",") } else { st(t) };
    line(&t, &b);
});
entry!(h_many_text, {
    warm();
    let t = pick(TEXTS);
    let b = letter();
    let t = if choose(2) == 1 { twice(t, if t.starts_with('C') { "," } else { ";" }) } else { st(t) };
    line(&t, &b);
});
/// Lists of any length are read item by item.
const ITEMS: &[(&str, &str, &str)] = &[
    ("TYPE", "NOTE;TYPE=", ":a"),
    ("SORT-AS", "NOTE;SORT-AS=\"", "\":a"),
    ("SORT-AS unquoted", "NOTE;SORT-AS=", ":a"),
    ("X-P", "NOTE;X-P=\"", "\":a"),
    ("X-P unquoted", "NOTE;X-P=", ":a"),
    ("PID", "NOTE;PID=", ":a"),
    ("CATEGORIES", "CATEGORIES:", ""),
    ("ORG", "ORG:", ""),
    ("NICKNAME", "NICKNAME:", ""),
    ("integer", "X-A;VALUE=integer:", ""),
    ("float", "X-A;VALUE=float:", ""),
    ("date", "X-A;VALUE=date:", ""),
    ("time", "X-A;VALUE=time:", ""),
    ("date-time", "X-A;VALUE=date-time:", ""),
    ("timestamp", "X-A;VALUE=timestamp:", ""),
    ("BDAY", "BDAY:", ""),
];
entry!(h_many_items, {
    warm();
    let (n, head, tail) = ITEMS[choose(ITEMS.len())];
    label(n);
    let m = [1, 2, 3, 4, 5, 6, 7, 8, 9, 17, 33, 65][choose(12)];
    let at = [0, m / 2, m - 1][choose(3)];
    let d = digit19()[0];
    let sep = if n == "ORG" { b';' } else { b',' };
    let mut src = b"FN:x\r\n".to_vec();
    src.extend_from_slice(head.as_bytes());
    let mut items: Vec<Vec<u8>> = vec![];
    for i in 0..m {
        let c = if i == at { d } else { b'1' + (i % 9) as u8 };
        let x: Vec<u8> = match n {
            "TYPE" => vec![b'X', b'-', c],
            "PID" => vec![c, b'.', b'7'],
            "integer" => vec![b'-', c],
            "float" => vec![c, b'.', b'5'],
            "date" | "BDAY" => [&b"2020010"[..], &[c]].concat(),
            "time" => [&b"10101"[..], &[if c > b'5' { b'5' } else { c }], b"Z"].concat(),
            "date-time" | "timestamp" => [&b"2020010"[..], &[c], b"T101010Z"].concat(),
            _ => vec![b'v', c],
        };
        if i > 0 {
            src.push(sep);
        }
        src.extend_from_slice(&x);
        items.push(x);
    }
    src.extend_from_slice(tail.as_bytes());
    let Some(c) = one(&doc(&src)) else { fail(60) };
    let got: Vec<Vec<u8>> = match n {
        "TYPE" => c.note[0].parameters.as_ref().unwrap().types.as_ref().unwrap().iter().map(|t| t.to_string().into_bytes()).collect(),
        "SORT-AS" | "SORT-AS unquoted" => c.note[0].parameters.as_ref().unwrap().sort_as.as_ref().unwrap().iter().map(|t| t.as_bytes().to_vec()).collect(),
        "X-P" | "X-P unquoted" => c.note[0].parameters.as_ref().unwrap().extensions.as_ref().unwrap()[0].1.iter().map(|t| t.as_bytes().to_vec()).collect(),
        "PID" => c.note[0].parameters.as_ref().unwrap().pid.as_ref().unwrap().iter().map(|p| vec![b'0' + p.local as u8, b'.', b'0' + p.source.unwrap() as u8]).collect(),
        "CATEGORIES" => c.categories[0].value.iter().map(|t| t.as_bytes().to_vec()).collect(),
        "ORG" => c.org[0].value.iter().map(|t| t.as_bytes().to_vec()).collect(),
        // a nickname is one text here; its commas stay in it
        "NICKNAME" => {
            let v = c.nickname[0].value.as_bytes();
            v.split(|c| *c == b',').map(|t| t.to_vec()).collect()
        }
        "BDAY" => match c.bday.as_ref().unwrap() {
            DateTimeOrTextProperty::DateTime(v) => {
                let v = &v.value;
                v.iter().map(|t| t.to_string().into_bytes()).collect()
            }
            _ => fail(62),
        },
        _ => match &c.extensions[0].value {
            AnyProperty::Integer(v) => v.iter().map(|t| vec![b'-', b'0' + (-*t) as u8]).collect(),
            AnyProperty::Float(v) => v.iter().map(|t| {
                check(*t == t.trunc() + 0.5, 64);
                vec![b'0' + *t as u8, b'.', b'5']
            }).collect(),
            AnyProperty::Date(v) => v.iter().map(|t| t.to_string().bytes().filter(|c| c.is_ascii_digit()).collect()).collect(),
            AnyProperty::Time(v) => v.iter().map(|t| [&b"10101"[..], &[b'0' + t.0.second() - 10], b"Z"].concat()).collect(),
            AnyProperty::DateTime(v) | AnyProperty::Timestamp(v) => v.iter().map(|t| {
                let d: Vec<u8> = t.to_string().bytes().filter(|c| c.is_ascii_digit()).take(14).collect();
                [&d[..8], b"T", &d[8..], b"Z"].concat()
            }).collect(),
            _ => fail(63),
        },
    };
    check(got.len() == m, 65);
    for i in 0..m {
        check(got[i] == items[i], 66);
    }
    reach(1);
});
// Items given in several parameters or in several forms.
entry!(h_many_types, {
    warm();
    label("TYPE");
    let b = letter();
    let src = doct("FN:x|NOTE;TYPE=home;TYPE=X-@,x-a;PREF=1;TYPE=home;TYPE=work:a", &b);
    let Some(c) = one(&src) else { fail(1) };
    let Some(p) = &c.note[0].parameters else { fail(2) };
    let Some(t) = &p.types else { fail(3) };
    let want: [&[u8]; 5] = [b"home", &[b'X', b'-', b[0]], b"X-a", b"home", b"work"];
    check(t.len() == 5, 4);
    for i in 0..5 {
        check(t[i].to_string().as_bytes() == want[i], 5);
    }
    reach(1);
});
entry!(h_many_json, {
    crate::json::warm_json();
    if choose(2) == 0 {
        let t = pick(LISTS);
        crate::json::parsed(&["FN:x|", t].concat(), &digit19());
    } else {
        let t = pick(TEXTS);
        crate::json::parsed(&["FN:x|", t].concat(), &letter());
    }
});
/// A malformed item at any place of a list.
const BAD: &[(&str, &str, &str)] = &[
    ("integer", "X-A;VALUE=integer:", "1"),
    ("float", "X-A;VALUE=float:", "1"),
    ("date", "X-A;VALUE=date:", "2021022@"),
    ("time", "X-A;VALUE=time:", "2@1010"),
    ("date-time", "X-A;VALUE=date-time:", "2021022@T101010Z"),
    ("timestamp", "X-A;VALUE=timestamp:", "2021022@T101010Z"),
    ("BDAY", "BDAY:", "2021022@"),
    ("PID", "NOTE;PID=", "1.1"),
];
entry!(h_many_bad, {
    warm();
    let k = choose(BAD.len());
    label(BAD[k].0);
    let n = 5;
    let at = choose(n);
    let (_, pre, item) = BAD[k];
    let b = ascii(1);
    let date = item.contains('@');
    if date {
        assume(b[0].is_ascii_digit());
    } else {
        assume(b[0] > 0x20 && b[0] < 0x7f && b[0] != b',' && b[0] != b';' && b[0] != b':' && b[0] != b'"' && b[0] != b'+');
    }
    let mut l = b"FN:x\r\n".to_vec();
    l.extend_from_slice(pre.as_bytes());
    for i in 0..n {
        if i > 0 {
            l.push(b',');
        }
        if i == at && !date {
            l.extend_from_slice(&b);
        } else {
            l.extend_from_slice(&fill(item, if i == at { &b } else { b"1" }));
        }
    }
    if k == 7 {
        l.extend_from_slice(b":a");
    }
    let want = match k {
        2 | 4 | 5 | 6 => b[0] != b'9',
        3 => b[0] < b'4',
        _ => b[0].is_ascii_digit(),
    };
    match one(&doc(&l)) {
        Some(c) => {
            check(want, 6);
            let n = match c.extensions.first().map(|x| &x.value) {
                Some(AnyProperty::Integer(v)) => v.len(),
                Some(AnyProperty::Float(v)) => v.len(),
                Some(AnyProperty::Date(v)) => v.len(),
                Some(AnyProperty::Time(v)) => v.len(),
                Some(AnyProperty::DateTime(v)) | Some(AnyProperty::Timestamp(v)) => v.len(),
                None => match (&c.bday, c.note.first()) {
                    (Some(DateTimeOrTextProperty::DateTime(v)), _) => v.value.len(),
                    (_, Some(x)) => x.parameters.as_ref().and_then(|p| p.pid.as_ref()).map_or(0, |v| v.len()),
                    _ => 0,
                },
                _ => 0,
            };
            check(n == 5, 7);
            reach(1);
        }
        None => {
            check(!want, 8);
            reach(2);
        }
    }
});
/// Lists an application builds, with special characters in any item.
const FIELDS: &[&str] = &["categories", "org", "name", "types", "sort-as", "ext", "lines"];
entry!(h_many_build, {
    warm();
    let k = choose(FIELDS.len());
    label(FIELDS[k]);
    let n = if k == 2 { 5 } else { [1, 3, 6][choose(3)] };
    let at = choose(n);
    let b = ascii(1);
    for c in &b {
        assume(*c >= 0x20 && *c != 0x7f || *c == b'\t' || *c == b'\n');
        // lists in parameters are split at commas; there is no form for a quote
        assume(k < 3 || k == 6 || *c != b',' && *c != b'"');
    }
    let b = s([&b"v"[..], &b, b"w"].concat());
    let mut v = vec![st("a"); n];
    v[at] = b;
    let x = vcard4::VcardBuilder::new(st("x"));
    let par = |f: &dyn Fn(&mut vcard4::parameter::Parameters)| {
        let mut c = vcard4::VcardBuilder::new(st("x")).note(st("a")).finish();
        let mut p = vcard4::parameter::Parameters::default();
        f(&mut p);
        c.note[0].parameters = Some(p);
        c
    };
    let c = match k {
        0 => x.categories(v.clone()).finish(),
        1 => x.org(v.clone()).finish(),
        2 => x.name([st(&v[0]), st(&v[1]), st(&v[2]), st(&v[3]), st(&v[4])]).finish(),
        3 => par(&|p| p.types = Some(v.iter().map(|x| vcard4::parameter::TypeParameter::Extension(x.clone())).collect())),
        4 => par(&|p| p.sort_as = Some(v.clone())),
        5 => par(&|p| p.extensions = Some(vec![(st("X-P"), v.clone()), (st("X-P"), vec![st("u")]), (st("X-P"), v.clone())])),
        _ => {
            let mut c = x.finish();
            for y in &v {
                c.note.push(y.clone().into());
                c.email.push(y.clone().into());
            }
            c
        }
    };
    let t = c.to_string();
    observe(t.as_bytes());
    let Some(d) = one(&t) else { fail(10) };
    check(d == c, 11);
    let got: Vec<&String> = match k {
        0 => d.categories[0].value.iter().collect(),
        1 => d.org[0].value.iter().collect(),
        2 => d.name.as_ref().unwrap().value.iter().collect(),
        4 => d.note[0].parameters.as_ref().unwrap().sort_as.as_ref().unwrap().iter().collect(),
        5 => d.note[0].parameters.as_ref().unwrap().extensions.as_ref().unwrap()[2].1.iter().collect(),
        6 => d.note.iter().map(|x| &x.value).collect(),
        _ => return reach(1),
    };
    check(got.len() == n, 12);
    for i in 0..n {
        check(*got[i] == v[i], 13);
    }
    reach(1);
});
// A property given several times keeps every occurrence in its place, also equal ones.
entry!(h_many_lines, {
    warm();
    let k = choose(PROPS.len());
    let n = PROPS[k].0;
    label(n);
    if crate::card::once(n) {
        return;
    }
    let b = bytes(1)[0];
    assume(b < 26);
    let base = PROPS[k].1.as_bytes().to_vec();
    let sec = crate::card::second(n, b);
    let third = crate::card::second(n, 25 - b);
    let par = choose(3);
    let add = |l: &[u8], p: &str| if par == 0 { l.to_vec() } else { crate::card::params(l, p) };
    let ls = if par < 2 {
        [add(&base, ";PREF=3"), add(&sec, ";PREF=1"), add(&base, ";PREF=3"), add(&base, ";PREF=2"), add(&third, ";PREF=1"), add(&sec, ";PREF=3")]
    } else {
        // the same alternative or type says nothing about the order
        [add(&base, ";ALTID=2"), add(&sec, ";ALTID=1"), add(&base, ";ALTID=1"), add(&base, ";ALTID=1"), add(&third, ";ALTID=2"), add(&sec, ";ALTID=2")]
    };
    let other = if n == "TITLE" { "ROLE:s" } else { "TITLE:s" };
    let mut l = vec![];
    if n == "MEMBER" {
        l.extend_from_slice(b"KIND:group\r\n");
    }
    l.extend_from_slice(b"FN:first\r\n");
    for (i, x) in ls.iter().enumerate() {
        l.extend_from_slice(x);
        l.extend_from_slice(b"\r\n");
        if i == 2 {
            l.extend_from_slice(other.as_bytes());
            l.extend_from_slice(b"\r\n");
        }
    }
    let src = doc(&l[..l.len() - 2]);
    let Some(c) = one(&src) else { fail(20) };
    check(crate::card::count(k, &c) == 6, 21);
    let t = c.to_string();
    observe(t.as_bytes());
    let Some(out) = refs::lines(t.as_bytes()) else { fail(22) };
    let mut i = 0;
    let want: Vec<Vec<u8>> = ls.iter().map(|x| key(x)).collect();
    for x in &out {
        let x = key(x);
        if i < 6 && x == want[i] {
            i += 1;
        } else {
            // no other line of this property
            check(i == 0 || i == 6, 23);
        }
    }
    check(i == 6, 24);
    let Ok(d) = vcard4::parse_loose(&src) else { fail(25) };
    check(d.len() == 1 && d[0] == c, 26);
    check(one(&t).as_ref() == Some(&c), 27);
    reach(1);
});
/// Value and the digit of the parameter: both forms of quoting are the same.
fn key(l: &[u8]) -> Vec<u8> {
    let colon = l.iter().position(|c| *c == b':').unwrap_or(0);
    let name = l.iter().position(|c| *c == b':' || *c == b';').unwrap_or(0);
    let mut v = l[..name].to_vec();
    for p in l[name..colon].split(|c| *c == b';') {
        if p.starts_with(b"PREF=") || p.starts_with(b"ALTID=") {
            v.extend(p.iter().filter(|c| c.is_ascii_digit()));
        }
    }
    v.extend_from_slice(&l[colon..]);
    v
}
// Many bad lines between good ones.
entry!(h_many_loose, {
    warm();
    label("loose");
    let b = ascii(1);
    for c in &b {
        assume(*c != b'\n' && *c != b'\r');
    }
    let good = ["FN:x", "NOTE:a", "NOTE:a", "g.TEL;PREF=2:1", "NOTE:b", "X-A:c", "EMAIL:d"];
    let bad = ["NOTE;PREF=0:@", "@", "FOO:@", "NOTE", "REV:@", "GENDER;TYPE=home:M@"];
    assume(b[0] != b' ' && b[0] != b'\t');
    let shape = choose(3);
    let mut g = vec![];
    let mut all = vec![];
    for i in 0..7 {
        let l = fill(good[i], &b);
        g.extend_from_slice(&l);
        g.extend_from_slice(b"\r\n");
        all.extend_from_slice(&l);
        all.extend_from_slice(b"\r\n");
        for j in 0..6 {
            let here = match shape {
                0 => i == j,
                1 => i == 3,
                _ => (i + j) % 2 == 0,
            };
            if here {
                all.extend_from_slice(&fill(bad[j], &b));
                all.extend_from_slice(b"\r\n");
            }
        }
    }
    g.truncate(g.len() - 2);
    all.truncate(all.len() - 2);
    let Some(want) = one(&doc(&g)) else { fail(30) };
    let Ok(x) = vcard4::parse_loose(&doc(&all)) else { fail(31) };
    check(x.len() == 1 && x[0] == want, 32);
    check(vcard4::parse(&doc(&all)).is_err(), 33);
    let mut it = vcard4::iter("", false);
    check(it.next().is_none(), 34);
    reach(1);
});
// Many cards, two of which may be broken.
entry!(h_many_cards, {
    warm();
    label("cards");
    let strict = choose(2) == 0;
    let i = choose(6);
    let j = choose(6);
    if j < i {
        return;
    }
    let b = ascii(1);
    for c in &b {
        assume(*c != b'\n' && *c != b'\r');
    }
    let mut v = vec![];
    let mut parts = vec![];
    for k in 0..6 {
        let mut l = b"FN:".to_vec();
        l.push(b'a' + (k / 2) as u8);
        if k == i || k == j {
            l.extend_from_slice(b"\r\nNOTE;PREF=");
            l.extend_from_slice(&b);
            l.extend_from_slice(b":x\r\nNOTE:y");
        }
        let d = doc(&l);
        v.extend_from_slice(d.as_bytes());
        if k == 2 {
            v.extend_from_slice(b"\r\n");
        }
        parts.push(d);
    }
    let src = s(v);
    let read = |x: &str| if strict { vcard4::parse(x) } else { vcard4::parse_loose(x) };
    let mut it = vcard4::iter(&src, strict);
    let mut all = true;
    for p in &parts {
        match (it.next(), read(p)) {
            (Some(Ok(c)), Ok(d)) => check(d.len() == 1 && d[0] == c, 40),
            (Some(Err(_)), Err(_)) => all = false,
            _ => fail(41),
        }
    }
    check(it.next().is_none(), 42);
    match read(&src) {
        Ok(c) => {
            check(all && c.len() == 6, 43);
            for k in 0..6 {
                let Ok(d) = read(&parts[k]) else { fail(44) };
                check(c[k] == d[0], 45);
            }
            reach(1);
        }
        Err(_) => {
            check(!all, 46);
            reach(2);
        }
    }
});
/// Folds everywhere.
entry!(h_many_folds, {
    warm();
    let k = choose(crate::fold::DOCS.len());
    label(crate::fold::DOCS[k].0);
    let b = ascii(1);
    for c in &b {
        assume(*c != b'\r' && *c != b'\n');
    }
    let d = fill(crate::fold::DOCS[k].1, &b);
    let every = [1, 2, 5][choose(3)];
    let mut v = vec![];
    for (i, c) in d.iter().enumerate() {
        if i > 0 && i % every == 0 && crate::fold::place(&d, i) {
            v.extend_from_slice(crate::fold::FOLDS[i % 4]);
        }
        v.push(*c);
    }
    let (d, v) = (s(d), s(v));
    crate::fold::same(k, &d, &v);
    // one by one as well, and loosely
    match (vcard4::parse_loose(&d), vcard4::parse_loose(&v)) {
        (Ok(x), Ok(y)) => check(x == y, 50),
        (Err(_), Err(_)) => {}
        _ => fail(51),
    }
    let mut y = vcard4::iter(&v, true);
    for x in vcard4::iter(&d, true) {
        match (x, y.next()) {
            (Ok(x), Some(Ok(y))) => check(x == y, 52),
            (Err(_), Some(Err(_))) => {}
            _ => fail(53),
        }
    }
    check(y.next().is_none(), 54);
    match (Vcard::try_from(&d[..]), Vcard::try_from(&v[..])) {
        (Ok(x), Ok(y)) => check(x == y, 55),
        (Err(_), Err(_)) => {}
        _ => fail(56),
    }
});
