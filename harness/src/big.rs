//! Values, lists and documents beyond the sizes 255 and 256.
use crate::card::{count, once, second};
use crate::case::PROPS;
use crate::common::*;
use crate::entry;
use crate::refs;
use crate::sym::*;

fn letter() -> u8 {
    let b = bytes(1);
    assume(b[0].is_ascii_lowercase());
    b[0]
}
/// More than 600 octets; every octet position is inside of a character for one of the shifts.
const UNITS: &[(&str, usize, usize)] = &[("p", 0, 600), ("é", 0, 300), ("é", 1, 300), ("€", 0, 200), ("€", 1, 200), ("😀", 1, 150), (" ", 1, 600), ("e\u{301}", 0, 200)];
fn big(u: usize) -> Vec<u8> {
    let (t, shift, n) = UNITS[u];
    let mut v = vec![b'q'; shift];
    for _ in 0..n {
        v.extend_from_slice(t.as_bytes());
    }
    v.push(letter());
    v
}
/// Text of any character.
const ANY: &[&str] = &[
    "NOTE:@", "FN:@", "N:@;b;@;d;@", "NICKNAME:@", "ADR:a;@;c;d;@;f;@", "ORG:@;b;@", "CATEGORIES:@,b,@", "TITLE:@", "ROLE:@", "EMAIL:@", "TEL:@", "TZ:@", "GENDER:M;@", "BDAY;VALUE=text:@", "PHOTO:@", "LOGO;X-P=\"@\":u:a",
    "RELATED;VALUE=text:@", "UID;VALUE=text:@", "KEY;VALUE=text:@", "X-A:@", "X-A;VALUE=text:@", "PRODID:@", "XML:@", "NOTE;ALTID=\"@\":a", "NOTE;SORT-AS=\"@\":a", "ADR;LABEL=\"@\":;;;;;;",
];
/// Text of ASCII letters.
const ASCII: &[&str] = &["@.NOTE:a", "X-@:a", "NOTE;X-@=\"a\":a", "NOTE;TYPE=X-@:a", "SOURCE:u:@", "PHOTO:u:@", "CLIENTPIDMAP:1;u:@", "X-A;VALUE=uri:u:@", "URL:http://@/", "URL:http://a/?@", "URL:http://a/#@", "GEO:geo:@", "NOTE;MEDIATYPE=a/@:a"];
fn value(l: &str, b: &[u8], json: bool) {
    let mut d = b"FN:x\r\n".to_vec();
    let x = fill(l, b);
    d.extend_from_slice(&x);
    let Some(c) = one(&doc(&d)) else { fail(1) };
    if json {
        let Ok(t) = serde_json::to_string(&c) else { fail(2) };
        match serde_json::from_str::<vcard4::Vcard>(&t) {
            Ok(e) => check(e == c && e.to_string() == c.to_string(), 3),
            Err(_) => fail(4),
        }
        reach(1);
        return;
    }
    let t = c.to_string();
    observe(t.as_bytes());
    let Some(ls) = refs::lines(&refs::unfold(t.as_bytes())) else { fail(5) };
    // quotes of parameters are optional
    let bare = |l: &[u8]| l.iter().filter(|c| **c != b'"').copied().collect::<Vec<u8>>();
    let want = bare(&x);
    check(ls.iter().any(|l| bare(l) == want), 6);
    for l in t.split_inclusive("\r\n") {
        check(l.len() <= 77 && l.ends_with("\r\n"), 7);
    }
    match one(&t) {
        Some(d) => check(d == c, 8),
        None => fail(9),
    }
    match vcard4::parse_loose(&t) {
        Ok(d) => check(d.len() == 1 && d[0] == c, 10),
        Err(_) => fail(11),
    }
    reach(1);
}
fn values(json: bool) {
    warm();
    let u = choose(UNITS.len());
    let (t, b) = if choose(2) == 0 {
        let k = choose(ANY.len());
        label(ANY[k]);
        (ANY[k], big(u))
    } else {
        if u > 0 {
            return;
        }
        let k = choose(ASCII.len());
        label(ASCII[k]);
        (ASCII[k], big(u))
    };
    value(t, &b, json);
}
entry!(h_big_value, { values(false) });
entry!(h_big_json, { values(true) });

/// Long lists.
const LISTS: &[(&str, &str)] = &[
    ("CATEGORIES:", "a,"), ("ORG:", "a;"), ("NOTE;TYPE=", "home,"), ("NOTE;PID=", "1.2,"), ("NOTE;SORT-AS=\"", "a,"), ("NOTE;X-P=\"", "a,"), ("X-A;VALUE=integer:", "7,"), ("X-A;VALUE=float:", "7.5,"), ("X-A;VALUE=date:", "20200101,"), ("X-A;VALUE=time:", "101010+0000,"), ("X-A;VALUE=date-time:", "20200101T101010Z,"), ("X-A;VALUE=timestamp:", "20200101T101010Z,"), ("X-A;VALUE=date-and-or-time:", "20200101,"), ("BDAY:", "20200101,"), ("NOTE", ";X-P=\"b\""), ("X-A;VALUE=text:", "a\\,"), ("NICKNAME:", "a\\,"),
];
entry!(h_big_list, {
    warm();
    let k = choose(LISTS.len());
    let (head, item) = LISTS[k];
    label(head);
    let n = 260;
    let mut v = head.as_bytes().to_vec();
    for _ in 0..n {
        v.extend_from_slice(item.as_bytes());
    }
    let b = letter();
    assume(b < b'e');
    let d = b'1' + (b - b'a') / 3;
    match head {
        "NOTE;TYPE=" => v.extend_from_slice(&[b"X-", &[b][..], b":a"].concat()),
        "NOTE;PID=" => v.extend_from_slice(&[d, b':', b'a']),
        "NOTE" => v.extend_from_slice(&[b';', b'X', b'-', b'Q', b'=', b'"', b, b'"', b':', b'a']),
        "X-A;VALUE=integer:" => v.push(d),
        "X-A;VALUE=float:" => v.extend_from_slice(&[d, b'.', b'5']),
        "X-A;VALUE=time:" => v.extend_from_slice(&[b"10101", &[d][..], b"+0000"].concat()),
        "X-A;VALUE=date-time:" | "X-A;VALUE=timestamp:" => v.extend_from_slice(&[b"2020010", &[d][..], b"T101010Z"].concat()),
        "X-A;VALUE=date:" | "X-A;VALUE=date-and-or-time:" | "BDAY:" => v.extend_from_slice(&[b"2020010", &[d][..]].concat()),
        _ if head.ends_with('"') => v.extend_from_slice(&[b, b'"', b':', b'a']),
        _ => v.push(b),
    }
    let t = s(v);
    value(&t, b"", false);
});
// Many lines of one property.
entry!(h_big_lines, {
    warm();
    let k = choose(PROPS.len());
    let n = PROPS[k].0;
    label(n);
    if once(n) {
        return;
    }
    let b = bytes(1)[0];
    assume(b < 2);
    let mut l = b"FN:first\r\n".to_vec();
    if n == "MEMBER" {
        l.extend_from_slice(b"KIND:group\r\n");
    }
    let num = 257;
    for i in 0..num {
        if i == num - 2 {
            l.extend_from_slice(&second(n, b));
        } else {
            l.extend_from_slice(PROPS[k].1.as_bytes());
        }
        l.extend_from_slice(b"\r\n");
    }
    let Some(c) = one(&doc(&l[..l.len() - 2])) else { fail(20) };
    check(count(k, &c) == num, 21);
    let t = c.to_string();
    let want = second(n, b);
    let mut at = None;
    for (i, x) in t.split("\r\n").filter(|x| x.split([':', ';']).next().unwrap() == PROPS[k].1.split([':', ';']).next().unwrap()).enumerate() {
        if x.as_bytes() == &want[..] && want != PROPS[k].1.as_bytes() {
            check(at.is_none(), 22);
            at = Some(i);
        }
    }
    let first = (n == "FN") as usize;
    check(want == PROPS[k].1.as_bytes() || at == Some(num - 2 + first), 23);
    check(one(&t).as_ref() == Some(&c), 24);
    reach(1);
});
// Many cards: all at once, one by one; with a broken one at the end or inside.
entry!(h_big_cards, {
    warm();
    let b = letter();
    let bad = choose(3);
    let n = 130;
    let mut t = String::with_capacity(8192);
    for i in 0..n {
        t.push_str("BEGIN:VCARD\r\nVERSION:4.0\r\nFN:");
        t.push((b'a' + (i % 26) as u8) as char);
        t.push(b as char);
        t.push_str(if bad == 1 && i == 128 || bad == 2 && i + 1 == n { "\r\nFN\r\nEND:VCARD\r\n" } else { "\r\nEND:VCARD\r\n" });
    }
    let name = |i: usize, c: &vcard4::Vcard| {
        let v = c.formatted_name[0].value.as_bytes();
        v == [b'a' + (i % 26) as u8, b] && c.formatted_name.len() == 1
    };
    let all = vcard4::parse(&t);
    check(all.is_ok() == (bad == 0), 30);
    if let Ok(all) = &all {
        check(all.len() == n && all.iter().enumerate().all(|(i, c)| name(i, c)), 31);
    }
    match vcard4::parse_loose(&t) {
        Ok(all) => check(all.len() == n && all.iter().enumerate().all(|(i, c)| name(i, c)), 32),
        Err(_) => fail(33),
    }
    let mut m = 0;
    for (i, x) in vcard4::iter(&t, true).enumerate() {
        let broken = bad == 1 && i == 128 || bad == 2 && i + 1 == n;
        match x {
            Ok(c) => check(!broken && name(i, &c), 34),
            Err(_) => check(broken, 35),
        }
        m += 1;
    }
    check(m == n, 36);
    reach(1);
});
// One value, list or document beyond the size 65536.
const HUGE: &[&str] = &["NOTE:@", "X-A:@", "ADR:;;@;;;;", "NOTE;X-P=\"@\":a", "CATEGORIES:@"];
entry!(h_big_huge, {
    warm();
    let k = choose(HUGE.len());
    label(HUGE[k]);
    let mut v = Vec::with_capacity(70000);
    let unit: &[u8] = if HUGE[k] == "CATEGORIES:@" { b"abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz," } else { "abcdefé".as_bytes() };
    while v.len() < 65536 {
        v.extend_from_slice(unit);
    }
    let b = letter();
    assume(b < b'c');
    v.push(b);
    value(HUGE[k], &v, false);
});
entry!(h_big_huge_json, {
    warm();
    let mut v = Vec::with_capacity(70000);
    while v.len() < 65536 {
        v.extend_from_slice("abcdefé".as_bytes());
    }
    let b = letter();
    assume(b < b'c');
    v.push(b);
    value("NOTE:@", &v, true);
});
// A file of many cards: what follows the first 65536 octets.
entry!(h_big_file, {
    warm();
    let b = letter();
    assume(b < b'c');
    let mode = choose(2);
    let mut t = String::with_capacity(80000);
    let mut n = 0;
    while t.len() < 66000 {
        t.push_str("BEGIN:VCARD\r\nVERSION:4.0\r\nFN:a\r\n");
        for _ in 0..16 {
            t.push_str("NOTE;LANGUAGE=en:");
            t.push_str("abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdef\r\n");
        }
        t.push_str("END:VCARD\r\n");
        n += 1;
    }
    t.push_str("BEGIN:VCARD\r\nVERSION:4.0\r\nFN:x\r\nX-A;X-P=");
    t.push(b as char);
    t.push_str(":y\r\n z\r\nEND:VCARD\r\n");
    let all = if mode == 0 {
        match vcard4::parse(&t) {
            Ok(v) => v,
            Err(_) => fail(40),
        }
    } else {
        let mut v = vec![];
        for x in vcard4::iter(&t, false) {
            match x {
                Ok(c) => v.push(c),
                Err(_) => fail(41),
            }
        }
        v
    };
    check(all.len() == n + 1, 42);
    for c in &all[..n] {
        check(c.note.len() == 16 && c.formatted_name[0].value == "a", 43);
    }
    let l = &all[n];
    let mut want = b"X-A;X-P=".to_vec();
    want.extend_from_slice(&[b, b':', b'y', b'z']);
    let t = l.to_string();
    let bare: Vec<u8> = t.bytes().filter(|c| *c != b'"').collect();
    check(l.formatted_name[0].value == "x" && bare.windows(want.len()).any(|w| w == &want[..]), 44);
    reach(1);
});
