//! Dates, times and offsets.
use crate::common::*;
use crate::entry;
use crate::sym::*;
use vcard4::helper::*;
use vcard4::property::{AnyProperty, DateAndOrTime, DateTimeOrTextProperty, TimeZoneProperty};
use vcard4::time::{Date, Month, OffsetDateTime, PrimitiveDateTime, Time, UtcOffset};

/// Formats: Y M D h m s are fields, H N the offset, `_` a sign, others literal.
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Date,
    Time,
    DateTime,
    Stamp,
    Offset,
}
use Kind::*;
const FORMATS: &[(&str, Kind, &str)] = &[
    ("YYYYMMDD", Date, "YMD"),
    ("YYYY-MM-DD", Date, "Y-M-D"),
    ("YYYY-MM", Date, "Y-M"),
    ("YYYY", Date, "Y"),
    ("--MMDD", Date, "--MD"),
    ("---DD", Date, "---D"),
    ("hh", Time, "h"),
    ("hhmm", Time, "hm"),
    ("hhmmss", Time, "hms"),
    ("hhmmssZ", Time, "hmsZ"),
    ("hhmmss+zzzz", Time, "hms_HN"),
    ("hhmmss+zz", Time, "hms_H"),
    ("hhmm+zzzz", Time, "hm_HN"),
    ("-mmss", Time, "-ms"),
    ("-mm", Time, "-m"),
    ("--ss", Time, "--s"),
    ("date-time", DateTime, "YMDThms"),
    ("date-timeZ", DateTime, "YMDThmsZ"),
    ("date-time+zzzz", DateTime, "YMDThms_HN"),
    ("date-time short", DateTime, "--MDThm"),
    ("date-time day", DateTime, "---DTh"),
    ("timestamp", Stamp, "YMDThms"),
    ("timestampZ", Stamp, "YMDThmsZ"),
    ("timestamp+zzzz", Stamp, "YMDThms_HN"),
    ("timestamp+zz", Stamp, "YMDThms_H"),
    ("offset", Offset, "_HN"),
    ("offset hh", Offset, "_H"),
];
struct F {
    y: i32,
    mo: u8,
    d: u8,
    h: u8,
    mi: u8,
    s: u8,
    neg: bool,
    oh: u8,
    om: u8,
}
const BASE: &[F] = &[
    F { y: 2020, mo: 2, d: 29, h: 23, mi: 59, s: 58, neg: false, oh: 9, om: 30 },
    F { y: 1985, mo: 11, d: 30, h: 0, mi: 7, s: 0, neg: true, oh: 0, om: 45 },
    F { y: 2400, mo: 1, d: 1, h: 12, mi: 0, s: 5, neg: true, oh: 12, om: 0 },
];
fn two(v: &mut Vec<u8>, n: u8) {
    v.push(b'0' + n / 10);
    v.push(b'0' + n % 10);
}
fn num(a: u8, b: u8) -> u8 {
    (a - b'0') * 10 + (b - b'0')
}
fn month(m: u8) -> Option<Month> {
    Month::try_from(m).ok()
}
fn days(y: i32, m: u8) -> u8 {
    match m {
        2 => {
            if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) {
                29
            } else {
                28
            }
        }
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
enum V {
    D(Date_),
    T(Time, UtcOffset),
    O(UtcOffset),
    DT(OffsetDateTime),
}
type Date_ = vcard4::time::Date;
/// The value of the fields, None when one is out of range; skips what is not decided.
fn reference(kind: Kind, f: &F) -> Option<V> {
    // leap seconds and offsets of a day are not decided
    assume(f.s != 60 && !(f.oh >= 24 && f.oh <= 25));
    let date_ok = f.mo >= 1 && f.mo <= 12 && f.d >= 1 && f.d <= days(f.y, f.mo);
    let time_ok = f.h <= 23 && f.mi <= 59 && f.s <= 59;
    let off_ok = f.oh <= 23 && f.om <= 59;
    let date = || Date_::from_calendar_date(f.y, month(f.mo).unwrap(), f.d).unwrap();
    let time = || Time::from_hms(f.h, f.mi, f.s).unwrap();
    let off = || {
        let (a, b) = (f.oh as i8, f.om as i8);
        if f.neg {
            UtcOffset::from_hms(-a, -b, 0).unwrap()
        } else {
            UtcOffset::from_hms(a, b, 0).unwrap()
        }
    };
    let ok = match kind {
        Date => date_ok,
        Time => time_ok && off_ok,
        Offset => off_ok,
        DateTime | Stamp => date_ok && time_ok && off_ok,
    };
    if !ok {
        return None;
    }
    Some(match kind {
        Date => V::D(date()),
        Time => V::T(time(), off()),
        Offset => V::O(off()),
        _ => V::DT(PrimitiveDateTime::new(date(), time()).assume_offset(off())),
    })
}
/// Text of format `fmt` where field number `at` has the bytes `b`; sets `f` to what it says.
fn text(fmt: &str, f: &mut F, at: usize, b: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(32);
    let mut n = 0;
    let mut has = [false; 9];
    for c in fmt.bytes() {
        let hit = n == at;
        let start = v.len();
        match c {
            b'Y' => {
                let p = (f.y / 100) as u8;
                let q = (f.y % 100) as u8;
                if hit {
                    v.extend_from_slice(b);
                    two(&mut v, q);
                    f.y = num(b[0], b[1]) as i32 * 100 + q as i32;
                } else if n + 1 == at {
                    two(&mut v, p);
                    v.extend_from_slice(b);
                    f.y = p as i32 * 100 + num(b[0], b[1]) as i32;
                } else {
                    two(&mut v, p);
                    two(&mut v, q);
                }
                has[0] = true;
                n += 2;
                continue;
            }
            b'M' => {
                two(&mut v, f.mo);
                has[1] = true;
                if hit {
                    f.mo = num(b[0], b[1]);
                }
            }
            b'D' => {
                two(&mut v, f.d);
                has[2] = true;
                if hit {
                    f.d = num(b[0], b[1]);
                }
            }
            b'h' => {
                two(&mut v, f.h);
                has[3] = true;
                if hit {
                    f.h = num(b[0], b[1]);
                }
            }
            b'm' => {
                two(&mut v, f.mi);
                has[4] = true;
                if hit {
                    f.mi = num(b[0], b[1]);
                }
            }
            b's' => {
                two(&mut v, f.s);
                has[5] = true;
                if hit {
                    f.s = num(b[0], b[1]);
                }
            }
            b'H' => {
                two(&mut v, f.oh);
                has[7] = true;
                if hit {
                    f.oh = num(b[0], b[1]);
                }
            }
            b'N' => {
                two(&mut v, f.om);
                has[8] = true;
                if hit {
                    f.om = num(b[0], b[1]);
                }
            }
            b'_' => {
                v.push(if f.neg { b'-' } else { b'+' });
                continue;
            }
            c => {
                v.push(c);
                continue;
            }
        }
        if hit {
            v.truncate(start);
            v.extend_from_slice(b);
        }
        n += 1;
    }
    if !has[0] {
        f.y = 0;
    }
    if !has[1] {
        f.mo = 1;
    }
    if !has[2] {
        f.d = 1;
    }
    if !has[3] {
        f.h = 0;
    }
    if !has[4] {
        f.mi = 0;
    }
    if !has[5] {
        f.s = 0;
    }
    if !has[7] {
        f.oh = 0;
    }
    if !has[8] {
        f.om = 0;
    }
    v
}
fn fields(fmt: &str) -> usize {
    let mut n = 0;
    for c in fmt.bytes() {
        n += match c {
            b'Y' => 2,
            b'M' | b'D' | b'h' | b'm' | b's' | b'H' | b'N' => 1,
            _ => 0,
        };
    }
    n
}
fn same(v: &V, kind: Kind, t: &str) -> bool {
    match (v, kind) {
        (V::D(d), _) => matches!(parse_date(t), Ok(x) if x == *d),
        (V::T(a, b), _) => matches!(parse_time(t), Ok((x, y)) if x == *a && y == *b),
        (V::O(o), _) => matches!(parse_utc_offset(t), Ok(x) if x == *o),
        (V::DT(d), Stamp) => matches!(parse_timestamp(t), Ok(x) if eq(x.as_ref(), d)),
        (V::DT(d), _) => matches!(parse_date_time(t), Ok(x) if eq(x.as_ref(), d)),
    }
}
// equality of `OffsetDateTime` ignores the offset
fn eq(a: &OffsetDateTime, b: &OffsetDateTime) -> bool {
    a.date() == b.date() && a.time() == b.time() && a.offset() == b.offset()
}
fn is_err(kind: Kind, t: &str) -> bool {
    match kind {
        Date => parse_date(t).is_err(),
        Time => parse_time(t).is_err(),
        Offset => parse_utc_offset(t).is_err(),
        Stamp => parse_timestamp(t).is_err(),
        DateTime => parse_date_time(t).is_err(),
    }
}
fn start() -> (&'static str, Kind, F) {
    let i = choose(FORMATS.len());
    label(FORMATS[i].0);
    let j = choose(BASE.len());
    let b = &BASE[j];
    let f = F { y: b.y, mo: b.mo, d: b.d, h: b.h, mi: b.mi, s: b.s, neg: b.neg, oh: b.oh, om: b.om };
    (FORMATS[i].2, FORMATS[i].1, f)
}
fn digits(mask: usize) -> Vec<u8> {
    let b = bytes(2);
    for c in &b {
        assume(c.is_ascii_digit());
    }
    let _ = mask;
    b
}
// two digits of one field
entry!(h_date_field, {
    let (fmt, kind, mut f) = start();
    let n = fields(fmt);
    let at = choose(n);
    let b = digits(2);
    let t = s(text(fmt, &mut f, at, &b));
    match reference(kind, &f) {
        Some(v) => {
            check(same(&v, kind, &t), 1);
            reach(1);
        }
        None => {
            check(is_err(kind, &t), 2);
            reach(2);
        }
    }
});
// two adjacent fields
entry!(h_date_pair, {
    let (fmt, kind, mut f) = start();
    let n = fields(fmt);
    if n < 2 {
        return;
    }
    let at = choose(n - 1);
    let b = digits(2);
    let c = digits(2);
    // the first field keeps its text: set it before the second
    let mut g = F { ..f };
    let t1 = text(fmt, &mut f, at, &b);
    let t2 = text(fmt, &mut g, at + 1, &c);
    // merge: the bytes that the first run changed
    let (mut p, mut k) = (0, 0);
    for (i, x) in fmt.bytes().enumerate() {
        let _ = i;
        match x {
            b'Y' => {
                if k == at {
                    break;
                }
                p += 2;
                k += 1;
                if k == at {
                    break;
                }
                p += 2;
                k += 1;
            }
            b'M' | b'D' | b'h' | b'm' | b's' | b'H' | b'N' => {
                if k == at {
                    break;
                }
                p += 2;
                k += 1;
            }
            _ => p += 1,
        }
    }
    if fmt.as_bytes()[0] == b'_' {
        p = 1;
    }
    let mut t = t2;
    t[p] = t1[p];
    t[p + 1] = t1[p + 1];
    let v0 = num(b[0], b[1]);
    let mut h = g;
    match field(fmt, at) {
        b'Y' => {
            let low = h.y % 100;
            h.y = v0 as i32 * 100 + low;
        }
        b'y' => {
            let hi = h.y / 100;
            h.y = hi * 100 + v0 as i32;
        }
        b'M' => h.mo = v0,
        b'D' => h.d = v0,
        b'h' => h.h = v0,
        b'm' => h.mi = v0,
        b's' => h.s = v0,
        b'H' => h.oh = v0,
        _ => h.om = v0,
    }
    let t = s(t);
    observe(t.as_bytes());
    match reference(kind, &h) {
        Some(v) => {
            check(same(&v, kind, &t), 1);
            reach(1);
        }
        None => {
            check(is_err(kind, &t), 2);
            reach(2);
        }
    }
});
/// The letter of field `at` (`y` for the second half of the year).
fn field(fmt: &str, at: usize) -> u8 {
    let mut n = 0;
    for c in fmt.bytes() {
        match c {
            b'Y' => {
                if at == n {
                    return b'Y';
                }
                if at == n + 1 {
                    return b'y';
                }
                n += 2;
            }
            b'M' | b'D' | b'h' | b'm' | b's' | b'H' | b'N' => {
                if at == n {
                    return c;
                }
                n += 1;
            }
            _ => {}
        }
    }
    0
}
// a character that is no digit
entry!(h_date_bad, {
    let (fmt, kind, mut f) = start();
    let mut t = text(fmt, &mut f, 99, b"");
    let i = choose(t.len());
    let b = ascii(1)[0];
    assume(!b.is_ascii_digit());
    // these may make another format
    assume(b != b'-' && b != b'+' && b != b'W' && b != b'T' && b != b'Z' && b != b':' && b != b'.' && b != b',');
    // the time separator may be in lower case
    t[i] = b;
    assume(!(b == b't' && fmt.as_bytes().contains(&b'T')));
    assume(!(b == b'z' && i + 1 == t.len()));
    check(is_err(kind, &s(t)), 3);
    reach(1);
});
/// Cards with a date or time: label, start of the line, kind of the value.
const DOCS: &[(&str, &str, u8)] = &[
    ("BDAY", "BDAY:", b'a'),
    ("BDAY value", "BDAY;VALUE=date-and-or-time:", b'a'),
    ("ANNIVERSARY", "ANNIVERSARY:", b'a'),
    ("ANNIVERSARY value", "g.ANNIVERSARY;PREF=1;VALUE=date-and-or-time:", b'a'),
    ("REV", "REV:", b's'),
    ("TZ", "TZ;VALUE=utc-offset:", b'o'),
    ("X date", "X-A;VALUE=date:", b'd'),
    ("X time", "X-A;VALUE=time:", b't'),
    ("X date-time", "X-A;VALUE=date-time:", b'x'),
    ("X timestamp", "X-A;VALUE=timestamp:", b's'),
    ("X date-and-or-time", "X-A;VALUE=date-and-or-time:", b'a'),
    ("X offset", "X-A;VALUE=utc-offset:", b'o'),
    ("ADR TZ", "ADR;TZ=", b'p'),
];
fn dot(a: &DateAndOrTime, v: &V) -> bool {
    match (a, v) {
        (DateAndOrTime::Date(x), V::D(y)) => x.as_ref() == y,
        (DateAndOrTime::Time((x, o)), V::T(y, p)) => x == y && o == p,
        (DateAndOrTime::DateTime(x), V::DT(y)) => eq(x.as_ref(), y),
        _ => false,
    }
}
fn in_doc(mode: u8) {
    warm();
    let i = choose(DOCS.len());
    let (l, pre, want) = DOCS[i];
    label(l);
    let j = choose(FORMATS.len());
    let (_, kind, fmt) = FORMATS[j];
    let ok = match want {
        b'd' => kind == Date,
        b't' => kind == Time,
        b'x' => kind == DateTime,
        b's' => kind == Stamp,
        b'o' | b'p' => kind == Offset,
        _ => kind == Date || kind == DateTime || kind == Time,
    };
    if !ok {
        return;
    }
    let k = choose(BASE.len());
    let b = &BASE[k];
    let mut f = F { ..*b };
    let n = fields(fmt);
    let at = if mode > 0 { choose(n) } else { n - 1 };
    let d = digits(2);
    if want == b'p' || mode == 0 || mode == 1 {
        // the first digit is fixed
        assume(d[0] == b'1');
    } else if mode == 2 {
        assume(d[1] == b'0');
    }
    let mut t = text(fmt, &mut f, at, &d);
    if want == b'a' && kind == Time {
        // a time alone starts with T
        t.insert(0, b'T');
    }
    let list = if want == b's' && pre == "REV:" || want == b'o' || want == b'p' { 0 } else { choose(2) };
    let mut line = b"FN:x\r\n".to_vec();
    line.extend_from_slice(pre.as_bytes());
    line.extend_from_slice(&t);
    if list == 1 {
        line.push(b',');
        line.extend_from_slice(match want {
            b'd' => b"20010203",
            b't' => b"010203",
            _ => b"20010203T040506Z",
        });
    }
    if want == b'p' {
        line.extend_from_slice(b":;;;;;;");
    }
    let src = doc(&line);
    let r = vcard4::parse(&src);
    let Some(v) = reference(kind, &f) else {
        check(r.is_err() || want == b'p', 10);
        reach(2);
        return;
    };
    let Ok(c) = r else { fail(11) };
    let c = &c[0];
    let dl = |x: &Vec<DateAndOrTime>| x.len() == list + 1 && dot(&x[0], &v) && (list == 0 || matches!(&x[1], DateAndOrTime::DateTime(_)));
    let got = match i {
        0 | 1 => matches!(&c.bday, Some(DateTimeOrTextProperty::DateTime(p)) if dl(&p.value)),
        2 | 3 => matches!(&c.anniversary, Some(DateTimeOrTextProperty::DateTime(p)) if dl(&p.value)),
        4 => matches!((&c.rev, &v), (Some(p), V::DT(d)) if eq(p.value.as_ref(), d)),
        5 => matches!((&c.timezone[0], &v), (TimeZoneProperty::UtcOffset(p), V::O(o)) if p.value == *o),
        12 => matches!((&c.address[0].parameters.as_ref().unwrap().timezone, &v), (Some(vcard4::parameter::TimeZoneParameter::UtcOffset(p)), V::O(o)) if p == o),
        _ => match (&c.extensions[0].value, &v) {
            (AnyProperty::Date(x), V::D(d)) => x.len() == list + 1 && x[0].as_ref() == d,
            (AnyProperty::Time(x), V::T(a, b)) => x.len() == list + 1 && x[0].0 == *a && x[0].1 == *b,
            (AnyProperty::DateTime(x), V::DT(d)) => i == 8 && x.len() == list + 1 && eq(x[0].as_ref(), d),
            (AnyProperty::Timestamp(x), V::DT(d)) => i == 9 && x.len() == list + 1 && eq(x[0].as_ref(), d),
            (AnyProperty::DateAndOrTime(x), _) => dl(x),
            (AnyProperty::UtcOffset(x), V::O(o)) => x == o,
            _ => false,
        },
    };
    check(got, 12);
    reach(1);
    // printed and read again
    let t = c.to_string();
    observe(t.as_bytes());
    match one(&t) {
        Some(d) => {
            check(&d == c, 13);
            check(d.to_string() == t, 14);
        }
        None => fail(15),
    }
}
entry!(h_date_doc, { in_doc(0) });
entry!(h_date_doc_low, { in_doc(1) });
entry!(h_date_doc_high, { in_doc(2) });
entry!(h_date_doc2, { in_doc(3) });
// values an application stores
entry!(h_date_build, {
    warm();
    let i = choose(5);
    let j = choose(BASE.len());
    let l = ["birthday", "anniversary", "rev", "time", "offset"][i];
    label(l);
    let b = &BASE[j];
    let mut f = F { ..*b };
    let at = choose(3);
    let d = bytes(1)[0];
    assume(d >= 1 && d <= 28);
    match at {
        0 => f.d = d,
        1 => {
            f.mi = d + 7;
            f.om = d;
        }
        _ => {
            assume(d <= 23);
            f.h = d;
            f.oh = d;
        }
    }
    let date = || Date_::from_calendar_date(f.y, month(f.mo).unwrap(), f.d).unwrap();
    let time = || Time::from_hms(f.h, f.mi, f.s).unwrap();
    let off = || {
        let (a, b) = (f.oh as i8, f.om as i8);
        if f.neg {
            UtcOffset::from_hms(-a, -b, 0).unwrap()
        } else {
            UtcOffset::from_hms(a, b, 0).unwrap()
        }
    };
    let x = vcard4::VcardBuilder::new("x".to_string());
    let c = match i {
        0 => x.birthday(date().into()),
        1 => x.anniversary(date().into()),
        2 => x.rev(PrimitiveDateTime::new(date(), time()).assume_offset(off()).into()),
        3 => {
            let mut c = x.finish();
            c.bday = Some((time(), off()).into());
            return check_built(c);
        }
        _ => {
            let mut c = x.finish();
            let mut p: vcard4::property::UtcOffsetProperty = off().into();
            let mut q = vcard4::parameter::Parameters::default();
            q.value = Some(vcard4::parameter::ValueType::UtcOffset);
            p.parameters = Some(q);
            c.timezone.push(TimeZoneProperty::UtcOffset(p));
            return check_built(c);
        }
    };
    check_built(c.finish())
});
fn check_built(c: vcard4::Vcard) {
    let t = c.to_string();
    observe(t.as_bytes());
    match one(&t) {
        Some(d) => check(d == c, 20),
        None => fail(21),
    }
    reach(1);
}

/// The fields of `t` in format `fmt`.
fn read(fmt: &str, t: &[u8], f: &mut F) -> bool {
    let mut p = 0;
    let mut pair = |p: &mut usize| -> Option<u8> {
        let (a, b) = (*t.get(*p)?, *t.get(*p + 1)?);
        if !a.is_ascii_digit() || !b.is_ascii_digit() {
            return None;
        }
        *p += 2;
        Some(num(a, b))
    };
    for c in fmt.bytes() {
        match c {
            b'Y' => {
                let (Some(a), Some(b)) = (pair(&mut p), pair(&mut p)) else { return false };
                f.y = a as i32 * 100 + b as i32;
            }
            b'M' | b'D' | b'h' | b'm' | b's' | b'H' | b'N' => {
                let Some(v) = pair(&mut p) else { return false };
                match c {
                    b'M' => f.mo = v,
                    b'D' => f.d = v,
                    b'h' => f.h = v,
                    b'm' => f.mi = v,
                    b's' => f.s = v,
                    b'H' => f.oh = v,
                    _ => f.om = v,
                }
            }
            _ => {
                let Some(&x) = t.get(p) else { return false };
                p += 1;
                match c {
                    b'_' if x == b'+' || x == b'-' => f.neg = x == b'-',
                    b'_' => return false,
                    c if c != x => return false,
                    _ => {}
                }
            }
        }
    }
    p == t.len()
}
const D: &[&str] = &["YMD", "Y-M-D", "Y-M", "Y", "--MD", "---D"];
const C: &[&str] = &["h", "hm", "hms", "-ms", "-m", "--s"];
const Z: &[&str] = &["", "Z", "_H", "_HN"];
fn date(t: &[u8], f: &mut F) -> bool {
    D.iter().any(|p| read(p, t, f))
}
fn time(t: &[u8], f: &mut F) -> bool {
    C.iter().any(|c| {
        Z.iter().any(|z| {
            let mut p = String::with_capacity(8);
            p.push_str(c);
            p.push_str(z);
            read(&p, t, f)
        })
    })
}
/// What RFC 6350 makes of the text.
fn recognise(kind: Kind, t: &[u8]) -> Option<F> {
    let mut f = F { y: 0, mo: 1, d: 1, h: 0, mi: 0, s: 0, neg: false, oh: 0, om: 0 };
    let ok = match kind {
        Date => date(t, &mut f),
        Time => time(t, &mut f),
        Offset => read("_H", t, &mut f) || read("_HN", t, &mut f),
        DateTime => match t.iter().position(|c| *c == b'T') {
            Some(i) => date(&t[..i], &mut f) && time(&t[i + 1..], &mut f),
            None => false,
        },
        Stamp => Z.iter().any(|z| {
            let mut p = String::with_capacity(16);
            p.push_str("YMDThms");
            p.push_str(z);
            read(&p, t, &mut f)
        }),
    };
    ok.then_some(f)
}
/// Whether what is not recognised must be an error: other forms of ISO 8601 (ordinal dates,
/// fractions, colons, signs before the year) may be read as well.
fn closed(kind: Kind, t: &[u8]) -> bool {
    let d = |t: &[u8]| t.iter().all(|c| c.is_ascii_digit());
    let first = t.first().is_some_and(|c| c.is_ascii_digit());
    match kind {
        Offset => true,
        Stamp => first,
        Date => d(t) && t.len() != 7,
        Time => {
            let n = t.iter().position(|c| *c == b'+' || *c == b'-');
            first && n.map_or(d(t), |n| d(&t[..n]) && d(&t[n + 1..]))
        }
        DateTime => match t.iter().position(|c| *c == b'T') {
            None => true,
            Some(i) => d(t) || closed(Date, &t[..i]) && closed(Time, &t[i + 1..]),
        },
    }
}
// one character less, more or other
entry!(h_date_edit, {
    let (fmt, kind, mut f) = start();
    let mut t = text(fmt, &mut f, 99, b"");
    let op = choose(3);
    let i = choose(t.len() + (op == 1) as usize);
    match op {
        0 => {
            t.remove(i);
        }
        1 => t.insert(i, ascii(1)[0]),
        _ => t[i] = ascii(1)[0],
    }
    let t = s(t);
    observe(t.as_bytes());
    let f = recognise(kind, t.as_bytes());
    let known = f.is_some();
    match f.and_then(|f| reference(kind, &f)) {
        Some(v) => {
            check(same(&v, kind, &t), 1);
            reach(1);
        }
        None if known || closed(kind, t.as_bytes()) => {
            check(is_err(kind, &t), 2);
            reach(2);
        }
        None => reach(3),
    }
});
