//! Value types: printing and parsing are inverse.
use crate::common::*;
use crate::entry;
use crate::sym::*;
use std::fmt::Display;
use std::str::FromStr;
use vcard4::{parameter::*, property::*, Date, DateTime, Uri};

fn warm_val() {
    warm();
    let _ = "2020-01-01".parse::<Date>().is_ok();
    let _ = "2020-01-01T10:10:10Z".parse::<DateTime>().is_ok();
}
/// 1: the printed value does not parse, 2: it parses to another value, 3: it is printed differently then
fn inverse<V: Display + FromStr + PartialEq>(v: &V) {
    let t = v.to_string();
    observe(t.as_bytes());
    match t.parse::<V>() {
        Ok(w) => {
            check(*v == w, 2);
            check(w.to_string() == t, 3);
        }
        Err(_) => fail(1),
    }
    reach(1);
}
fn text<V: Display + FromStr + PartialEq>(t: &str) {
    if let Ok(v) = t.parse::<V>() {
        inverse(&v);
    } else {
        reach(2);
    }
}
const NAMES: &[(u8, &str)] = &[
    (0, "home"), (0, "work"), (0, "text"), (0, "voice"), (0, "fax"), (0, "cell"), (0, "video"), (0, "pager"), (0, "textphone"), (0, "contact"), (0, "acquaintance"), (0, "friend"), (0, "met"), (0, "co-worker"), (0, "colleague"), (0, "co-resident"), (0, "neighbor"), (0, "child"), (0, "parent"), (0, "sibling"), (0, "spouse"), (0, "kin"), (0, "muse"), (0, "crush"), (0, "date"), (0, "sweetheart"), (0, "me"), (0, "agent"), (0, "emergency"), (0, "x-a"), (0, "X-"), (0, "x-home"), (0, "jpeg"),
    (1, "text"), (1, "voice"), (1, "fax"), (1, "cell"), (1, "video"), (1, "pager"), (1, "textphone"),
    (2, "contact"), (2, "acquaintance"), (2, "friend"), (2, "met"), (2, "co-worker"), (2, "colleague"), (2, "co-resident"), (2, "neighbor"), (2, "child"), (2, "parent"), (2, "sibling"), (2, "spouse"), (2, "kin"), (2, "muse"), (2, "crush"), (2, "date"), (2, "sweetheart"), (2, "me"), (2, "agent"), (2, "emergency"),
    (3, "text"), (3, "uri"), (3, "date"), (3, "time"), (3, "date-time"), (3, "date-and-or-time"), (3, "timestamp"), (3, "boolean"), (3, "integer"), (3, "float"), (3, "utc-offset"), (3, "language-tag"),
    (4, "individual"), (4, "group"), (4, "org"), (4, "location"),
    (5, ""), (5, "M"), (5, "F"), (5, "O"), (5, "N"), (5, "U"),
    (6, "M"), (6, "F;abc"), (6, ";abc"), (6, ""), (6, "U;"), (6, "O;a\\;b"),
    (7, "1.2"), (7, "12"), (7, "255.3"), (7, "18446744073709551615.9"),
    (8, "1;urn:a"), (8, "18446744073709551615;http://a/"), (8, "7;a:"),
    (9, ";;a b;c;d;e;f"), (9, "a;b;c;d;e;f;g"), (9, ";;;;;;"), (9, "a\\;;\\\\;\\,;\\n;e;f;g"),
    (10, "20200131"), (10, "T101112Z"), (10, "20200131T101112-0530"), (10, "2020-01"), (10, "T101112+0130"),
    (11, "2020-01-31"), (11, "2020-12-01"),
    (12, "2020-01-31T10:11:12Z"), (12, "2020-01-31T10:11:12-05:30"), (12, "2020-01-31T10:11:12.25+00:30"),
    (13, "-0530"), (13, "+0130"), (13, "Z"), (13, "+00"),
    (14, "http://a/b?c#d"), (14, "urn:a:b"), (14, "mailto:a@b"), (14, "geo:1,2"), (14, "tel:+1"),
];
fn any(k: u8, t: &str) {
    match k {
        0 => text::<TypeParameter>(t),
        1 => text::<TelephoneType>(t),
        2 => text::<RelatedType>(t),
        3 => text::<ValueType>(t),
        4 => text::<Kind>(t),
        5 => text::<Sex>(t),
        6 => text::<Gender>(t),
        7 => text::<Pid>(t),
        8 => text::<ClientPidMap>(t),
        9 => text::<DeliveryAddress>(t),
        10 => text::<DateAndOrTime>(t),
        11 => text::<Date>(t),
        12 => text::<DateTime>(t),
        13 => text::<UtcOffsetProperty>(t),
        _ => text::<Uri>(t),
    }
}
// Each character of a printed value replaced by any ASCII character, or one inserted.
entry!(h_val_char, {
    warm_val();
    let i = choose(NAMES.len());
    label(NAMES[i].1);
    let mut t = NAMES[i].1.as_bytes().to_vec();
    let b = ascii(1);
    let ins = choose(2);
    let p = choose(t.len() + ins);
    if t.is_empty() && ins == 0 {
        return;
    }
    if ins == 1 {
        t.insert(p, b[0]);
    } else {
        t[p] = b[0];
    }
    // (a carriage return before a line feed is normalised away by the printer)
    assume(b[0] != b'\r');
    any(NAMES[i].0, &s(t));
});
/// Short texts of any ASCII characters.
fn short(n: usize) {
    warm_val();
    let k = choose(15);
    let b = ascii(n);
    for c in &b {
        assume(*c != b'\r');
    }
    any(k as u8, &s(b));
}
entry!(h_val_short, { short(2) });
entry!(h_val_short3, { short(3) });
// Words for the enumerations, in any case.
entry!(h_val_case, {
    warm_val();
    let i = choose(NAMES.len());
    if NAMES[i].0 > 3 {
        return;
    }
    label(NAMES[i].1);
    let t = NAMES[i].1.as_bytes();
    let b = bytes(t.len());
    for (c, l) in b.iter().zip(t) {
        assume(*c == *l || *c == l.to_ascii_uppercase());
    }
    let u = s(b.clone());
    let l = s(t.to_vec());
    fn same<V: FromStr + PartialEq>(a: &str, b: &str) {
        match (a.parse::<V>(), b.parse::<V>()) {
            (Ok(a), Ok(b)) => check(a == b, 4),
            _ => fail(5),
        }
        reach(1);
    }
    match NAMES[i].0 {
        0 if i < 29 => same::<TypeParameter>(&u, &l),
        0 => any(0, &u),
        1 => same::<TelephoneType>(&u, &l),
        2 => same::<RelatedType>(&u, &l),
        _ => same::<ValueType>(&u, &l),
    }
});
// Values built by the application.
entry!(h_val_build, {
    warm_val();
    let k = choose(5);
    let b = ascii(2);
    no_ctl(&b);
    let t = || s([&b"a"[..], &b, b"z"].concat());
    match k {
        0 => {
            label("TypeParameter");
            inverse(&TypeParameter::Extension(t()));
        }
        1 => {
            label("Gender");
            let sex = [Sex::None, Sex::Male, Sex::Female, Sex::Other, Sex::NotApplicable, Sex::Unknown];
            let i = choose(6);
            for (j, x) in sex.into_iter().enumerate() {
                if i == j {
                    inverse(&Gender { sex: x.clone(), identity: Some(t()) });
                    inverse(&Gender { sex: x, identity: None });
                }
            }
        }
        2 => {
            label("DeliveryAddress");
            let i = choose(7);
            let mut a = DeliveryAddress::default();
            match i {
                0 => a.po_box = Some(t()),
                1 => a.extended_address = Some(t()),
                2 => a.street_address = Some(t()),
                3 => a.locality = Some(t()),
                4 => a.region = Some(t()),
                5 => a.postal_code = Some(t()),
                _ => a.country_name = Some(t()),
            }
            inverse(&a);
        }
        3 => {
            label("Pid");
            let n = b[0] as u64;
            let m = [n, n + 100, u64::MAX - n][choose(3)];
            inverse(&Pid::new(m, None));
            inverse(&Pid::new(7, Some(m)));
            inverse(&Pid::new(m, Some(m)));
        }
        _ => {
            label("ClientPidMap");
            let n = b[0] as u64;
            let Ok(uri) = "urn:a".parse::<Uri>() else { fail(6) };
            inverse(&ClientPidMap { source: n + 1, uri: uri.clone() });
            inverse(&ClientPidMap { source: u64::MAX - n, uri });
        }
    }
});
// Dates and times of every field value.
entry!(h_val_date, {
    warm_val();
    let f = choose(8);
    let b = bytes(1)[0];
    let base = choose(3);
    let (y, mo, d, h, mi, se, oh, om) = [(2020, 2, 28, 10, 20, 30, 5, 30), (0, 12, 31, 23, 59, 59, -11, -45), (9999, 1, 1, 0, 0, 0, 0, 0)][base];
    let (mut mo, mut d, mut h, mut mi, mut se, mut oh, mut om, mut y) = (mo, d, h, mi, se, oh, om, y);
    match f {
        0 => {
            assume(b >= 1 && b <= 12);
            mo = b;
            d = 15;
        }
        1 => {
            assume(b >= 1 && b <= 31);
            d = b;
            mo = 7;
        }
        2 => {
            assume(b < 24);
            h = b;
        }
        3 => {
            assume(b < 60);
            mi = b;
        }
        4 => {
            assume(b < 60);
            se = b;
        }
        5 => {
            assume(b < 47);
            oh = b as i8 - 23;
            om = 0;
        }
        6 => {
            assume(b < 119);
            oh = 0;
            om = b as i8 - 59;
        }
        _ => {
            y = y / 256 * 256 + b as i32;
            assume(y <= 9999);
        }
    }
    use vcard4::time;
    let Ok(m) = time::Month::try_from(mo) else { fail(7) };
    let Ok(date) = time::Date::from_calendar_date(y, m, d) else { return };
    let Ok(t) = time::Time::from_hms(h, mi, se) else { fail(8) };
    let Ok(o) = time::UtcOffset::from_hms(oh, om, 0) else { fail(9) };
    let dt: DateTime = time::OffsetDateTime::new_in_offset(date, t, o).into();
    let date: Date = date.into();
    match choose(6) {
        0 => inverse(&date),
        1 => inverse(&dt),
        2 => inverse(&DateAndOrTime::Date(date)),
        3 => inverse(&DateAndOrTime::DateTime(dt)),
        4 => inverse(&DateAndOrTime::Time((t, o))),
        _ => inverse(&UtcOffsetProperty::from(o)),
    }
});
