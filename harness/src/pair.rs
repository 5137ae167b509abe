//! Properties beside each other: no property changes what is read or printed of another.
use crate::card::{count, once, params, second};
use crate::case::{prop, PROPS};
use crate::common::*;
use crate::entry;
use crate::refs;
use crate::sym::*;
use vcard4::property::*;
use vcard4::{Uri, Vcard, VcardBuilder};

fn lines(t: &str) -> Vec<Vec<u8>> {
    let Some(mut v) = refs::lines(&refs::unfold(t.as_bytes())) else { fail(1) };
    for x in v.iter_mut() {
        *x = norm(x);
    }
    v.sort();
    v
}
/// A line without quotes and with its parameters in the order of their names.
fn norm(l: &[u8]) -> Vec<u8> {
    let l: Vec<u8> = l.iter().filter(|c| **c != b'"').copied().collect();
    let at = l.iter().position(|c| *c == b':').unwrap_or(l.len());
    let mut h: Vec<&[u8]> = l[..at].split(|c| *c == b';').collect();
    h[1..].sort();
    [&h.join(&b';')[..], &l[at..]].concat()
}
fn base(k: usize) -> &'static str {
    PROPS[k].1.split([':', ';']).next().unwrap()
}
/// What the line of a property may have beside its value, for each of the two.
const WITH: &[(&str, &str, &str, &str)] = &[
    ("", "", "", ""),
    ("g.", "", "", ""),
    ("g.", "", "g.", ""),
    ("", ";PREF=1", "", ";PREF=1"),
    ("", ";ALTID=1", "", ";ALTID=1"),
    ("h.", ";X-P=\"q\"", "g.", ";LANGUAGE=en"),
];
fn two(json: bool) {
    if json {
        crate::json::warm_json();
    } else {
        warm();
    }
    let i = choose(PROPS.len());
    let j = choose(PROPS.len());
    if base(i) == base(j) && once(PROPS[i].0) {
        return;
    }
    label(PROPS[i].0);
    let w = if json { &WITH[[0, 5][choose(2)]] } else { &WITH[choose(WITH.len())] };
    let b = bytes(1)[0];
    assume(b < 2);
    let first = [w.0.as_bytes(), &params(PROPS[i].1.as_bytes(), w.1)].concat();
    let x = if PROPS[j].0 == "KIND" { PROPS[j].1.as_bytes().to_vec() } else { second(PROPS[j].0, b) };
    // a card with members is a group
    let x = if PROPS[i].0 == "MEMBER" && PROPS[j].0 == "KIND" { PROPS[j].1.as_bytes().to_vec() } else { x };
    let next = [w.2.as_bytes(), &params(&x, w.3)].concat();
    let mut l = vec![b"FN:x".to_vec()];
    if (PROPS[i].0 == "MEMBER" || PROPS[j].0 == "MEMBER") && PROPS[i].0 != "KIND" && PROPS[j].0 != "KIND" {
        l.push(b"KIND:group".to_vec());
    }
    l.push(first);
    l.push(next);
    if l.len() == 4 && choose(2) == 1 {
        l[1..].rotate_left(1);
    }
    let Some(c) = one(&doc(&l.join(&b"\r\n"[..]))) else { fail(2) };
    if json {
        let Ok(t) = serde_json::to_string(&c) else { fail(10) };
        match serde_json::from_str::<Vcard>(&t) {
            Ok(d) => check(d == c && d.to_string() == c.to_string(), 11),
            Err(_) => fail(12),
        }
        reach(1);
        return;
    }
    let t = c.to_string();
    observe(t.as_bytes());
    for v in [&b"BEGIN:VCARD"[..], b"VERSION:4.0", b"END:VCARD"] {
        l.push(v.to_vec());
    }
    for x in l.iter_mut() {
        *x = norm(x);
    }
    l.sort();
    let ls = lines(&t);
    check(ls.len() == l.len(), 3);
    for (x, y) in ls.iter().zip(&l) {
        check(x == y, 4);
    }
    let n = if base(i) == base(j) { 2 } else { 1 };
    if PROPS[i].0 != "FN" {
        check(count(i, &c) == n, 5);
    }
    if PROPS[j].0 != "FN" {
        check(count(j, &c) == n, 6);
    }
    check(one(&t).as_ref() == Some(&c), 7);
    match vcard4::parse_loose(&t) {
        Ok(d) => check(d.len() == 1 && d[0] == c, 8),
        Err(_) => fail(9),
    }
    reach(1);
}
entry!(h_pair_line, { two(false) });
entry!(h_pair_json, { two(true) });

/// A card with one line of every property but one, in the order of the table or the other way round.
fn all(json: bool) {
    if json {
        crate::json::warm_json();
    } else {
        warm();
    }
    let gap = choose(PROPS.len());
    label(PROPS[gap].0);
    let rev = choose(2) == 1;
    let special = (gap + [1, 13, 29][choose(3)]) % PROPS.len();
    let b = bytes(1)[0];
    assume(b < 2);
    let mut l = vec![];
    let mut seen: Vec<&str> = vec![];
    for k in 0..PROPS.len() {
        let k = if rev { PROPS.len() - 1 - k } else { k };
        if k == gap || seen.contains(&base(k)) {
            continue;
        }
        // members and the kind of group come together
        if base(gap) == "KIND" && base(k) == "MEMBER" {
            continue;
        }
        seen.push(base(k));
        l.push(if k == special && base(k) != "KIND" { second(PROPS[k].0, b) } else { PROPS[k].1.as_bytes().to_vec() });
    }
    if gap == 3 {
        l.push(b"FN:z".to_vec());
    }
    let Some(c) = one(&doc(&l.join(&b"\r\n"[..]))) else { fail(22) };
    if json {
        let Ok(t) = serde_json::to_string(&c) else { fail(30) };
        match serde_json::from_str::<Vcard>(&t) {
            Ok(d) => check(d == c && d.to_string() == c.to_string(), 31),
            Err(_) => fail(32),
        }
        reach(1);
        return;
    }
    for k in 0..PROPS.len() {
        if k != 3 {
            check(prop(k, &c).is_some() == seen.contains(&base(k)), 23);
        }
    }
    let t = c.to_string();
    observe(t.as_bytes());
    for v in [&b"BEGIN:VCARD"[..], b"VERSION:4.0", b"END:VCARD"] {
        l.push(v.to_vec());
    }
    for x in l.iter_mut() {
        *x = norm(x);
    }
    l.sort();
    let ls = lines(&t);
    check(ls.len() == l.len(), 24);
    for (x, y) in ls.iter().zip(&l) {
        check(x == y, 25);
    }
    check(one(&t).as_ref() == Some(&c), 26);
    reach(1);
}
entry!(h_pair_all, { all(false) });
entry!(h_pair_all_json, { all(true) });

// ---- setters ----
const SETTERS: usize = 36;
fn st(v: &str) -> String {
    v.to_string()
}
fn uri(v: &str) -> Uri {
    match format!("urn:x:{v}").parse() {
        Ok(u) => u,
        Err(_) => fail(40),
    }
}
fn set(x: VcardBuilder, k: usize, v: &str) -> VcardBuilder {
    use vcard4::time::{Date as D, Month, PrimitiveDateTime, Time};
    let Ok(d) = D::from_calendar_date(2001, Month::March, 5) else { fail(41) };
    let e = || Some(st(v));
    match k {
        0 => x.kind(Kind::Group),
        1 => x.source(uri(v)),
        2 => x.xml(st(v)),
        3 => x.formatted_name(st(v)),
        4 => x.name([st(v), st("b"), st("c"), st("d"), st("e")]),
        5 => x.nickname(st(v)),
        6 => x.photo(uri(v)),
        7 => x.birthday(d.into()),
        8 => x.anniversary(d.into()),
        9 => x.gender("M;i"),
        10 => x.address(crate::bld::adr(|a| {
            a.locality = e();
            a.region = Some(st("r"));
        })),
        11 => x.telephone(st(v)),
        12 => x.email(st(v)),
        13 => x.impp(uri(v)),
        14 => match ty::lang(st("en")) {
            Some(l) => x.lang(l),
            None => fail(42),
        },
        15 => x.timezone(st(v)),
        16 => x.geo(uri(v)),
        17 => x.title(st(v)),
        18 => x.role(st(v)),
        19 => x.logo(uri(v)),
        20 => x.org(vec![st(v), st("u")]),
        21 => x.member(uri(v)),
        22 => x.related(uri(v)),
        23 => x.categories(vec![st(v), st("u")]),
        24 => x.note(st(v)),
        25 => x.prod_id(st(v)),
        26 => {
            let Ok(t) = Time::from_hms(10, 11, 12) else { fail(43) };
            x.rev(PrimitiveDateTime::new(d, t).assume_utc().into())
        }
        27 => x.sound(uri(v)),
        28 => x.uid(uri(v)),
        29 => x.url(uri(v)),
        30 => x.key(uri(v)),
        31 => x.fburl(uri(v)),
        32 => x.cal_adr_uri(uri(v)),
        33 => x.cal_uri(uri(v)),
        34 => x.note(st("n")).note(st(v)),
        _ => x.name([st(""), st(v), st(""), st(""), st("")]).gender("F"),
    }
}
/// Sets what holds one value only.
const ONE: &[usize] = &[0, 4, 7, 8, 9, 25, 26, 28, 35];
fn text() -> Vec<u8> {
    let b = bytes(1);
    assume(b[0] == b'p' || b[0] == b'w');
    b
}
/// The lines a setter adds to the printed card.
fn adds(k: usize, v: &str) -> Vec<Vec<u8>> {
    let c = set(VcardBuilder::new(st("x")), k, v).finish();
    let mut a = lines(&c.to_string());
    for y in lines(&VcardBuilder::new(st("x")).finish().to_string()) {
        let Some(i) = a.iter().position(|x| *x == y) else { fail(44) };
        a.remove(i);
    }
    a
}
fn same(c: &Vcard, mut want: Vec<Vec<u8>>) {
    want.extend(lines(&VcardBuilder::new(st("x")).finish().to_string()));
    want.sort();
    let t = c.to_string();
    observe(t.as_bytes());
    let got = lines(&t);
    check(got.len() == want.len(), 45);
    for (x, y) in got.iter().zip(&want) {
        check(x == y, 46);
    }
    let member = !c.member.is_empty() && c.kind.is_none();
    match one(&t) {
        Some(d) => check(d == *c, 47),
        None => check(member, 48),
    }
    check(c.validate().is_ok() != member, 49);
    reach(1);
}
entry!(h_pair_build, {
    warm();
    let i = choose(SETTERS);
    let j = choose(SETTERS);
    if ONE.contains(&i) && (i == j || i + j == 4 + 35 || i + j == 9 + 35) && ONE.contains(&j) {
        return;
    }
    let v = s(text());
    let mut want = adds(i, &v);
    check(!want.is_empty(), 50);
    want.extend(adds(j, &v));
    let c = set(set(VcardBuilder::new(st("x")), i, &v), j, &v).finish();
    same(&c, want);
});
// every setter, from any one on, forwards or backwards
entry!(h_pair_build_all, {
    warm();
    let from = choose(SETTERS - 1);
    let back = choose(2) == 1;
    let v = s(text());
    let mut x = VcardBuilder::new(st("x"));
    let mut want = vec![];
    let n = SETTERS - 1;
    for k in 0..n {
        let k = (if back { from + n - k } else { from + k }) % n;
        x = set(x, k, &v);
        want.extend(adds(k, &v));
    }
    same(&x.finish(), want);
});
