//! Card -> JSON -> card.
use crate::bld;
use crate::common::*;
use crate::entry;
use crate::sym::*;
use vcard4::Vcard;

pub fn warm_json() {
    warm();
    if let Some(c) = one(&doct("FN:a|BDAY:20200101|X-A:b", b"")) {
        let t = serde_json::to_string(&c).unwrap_or_default();
        let _ = serde_json::from_str::<Vcard>(&t).is_ok();
    }
}
/// 1: no JSON, 2: JSON is not read, 3, 4: another card is read
pub fn json(c: &Vcard) {
    let Ok(t) = serde_json::to_string(c) else { fail(1) };
    observe(t.as_bytes());
    let Ok(d) = serde_json::from_str::<Vcard>(&t) else { fail(2) };
    check(*c == d, 3);
    check(c.to_string() == d.to_string(), 4);
    reach(1);
}
pub fn parsed(t: &str, b: &[u8]) {
    let src = doct(t, b);
    if let Some(c) = one(&src) {
        json(&c);
    }
}
/// Text fields that take no URI in JSON.
fn field() -> usize {
    let k = choose(bld::FIELDS.len());
    label(bld::FIELDS[k]);
    k
}
fn text(n: usize) {
    warm_json();
    let k = field();
    let b = ascii(n);
    let v = s([b"a ", &b[..], b"\\z"].concat());
    json(&bld::set(k, &v));
}
entry!(h_json_text, {
    text(1);
});
entry!(h_json_text2, {
    // apart from each other: the scanner reads eight bytes at a time
    warm_json();
    let k = field();
    let b = ascii(2);
    let v = s([b"a ", &b[..1], b"\\bcdefghijklm\"", &b[1..], b"z"].concat());
    json(&bld::set(k, &v));
});
fn alone(n: usize) {
    warm_json();
    let k = field();
    let b = ascii(n);
    for c in &b {
        assume(*c != b':');
    }
    let v = s(b);
    json(&bld::set(k, &v));
}
entry!(h_json_alone, {
    alone(1);
});
entry!(h_json_alone2, {
    alone(2);
});
entry!(h_json_uni, {
    warm_json();
    let k = field();
    let u = choose(UCHARS);
    let v = s([b"a ", &uchar(u)[..], b"z"].concat());
    json(&bld::set(k, &v));
});
pub const TYPED: &[T] = &[
    ("SOURCE", "FN:a|SOURCE:http://a/@"),
    ("KIND", "FN:a|KIND:org|NOTE:@"),
    ("KIND-group", "FN:a|KIND:group|MEMBER:urn:@|MEMBER:mailto:a"),
    ("PHOTO", "FN:a|PHOTO:http://a/@"),
    ("BDAY", "FN:a|BDAY:2000010@"),
    ("BDAY-time", "FN:a|BDAY:T10111@Z"),
    ("BDAY-date-time", "FN:a|BDAY:20000101T10101@Z"),
    ("BDAY-offset", "FN:a|BDAY:20000101T101010+0@30"),
    ("BDAY-list", "FN:a|BDAY:20000101,2000010@,T101010Z"),
    ("BDAY-text", "FN:a|BDAY;VALUE=text:a@"),
    ("BDAY-datelike", "FN:a|BDAY;VALUE=text:200@-01-01"),
    ("ANNIVERSARY", "FN:a|ANNIVERSARY:2000010@"),
    ("ANNIVERSARY-date-time", "FN:a|ANNIVERSARY:20000101T101010-0@00"),
    ("GENDER", "FN:a|GENDER:F;@"),
    ("GENDER-bare", "FN:a|GENDER:U|NOTE:@"),
    ("GENDER-none", "FN:a|GENDER:|NOTE:@"),
    ("ADR", "FN:a|ADR:a;b@;c;;e;;g"),
    ("TEL-uri", "FN:a|TEL;VALUE=uri:tel:1@"),
    ("TEL", "FN:a|TEL:1@"),
    ("IMPP", "FN:a|IMPP:im:a@"),
    ("LANG", "FN:a|LANG:e@"),
    ("TZ", "FN:a|TZ:a @"),
    ("TZ-offset", "FN:a|TZ;VALUE=utc-offset:-0@30"),
    ("TZ-uri", "FN:a|TZ;VALUE=uri:http://a/@"),
    ("GEO", "FN:a|GEO:geo:1@,2"),
    ("LOGO", "FN:a|LOGO:http://a/@"),
    ("ORG", "FN:a|ORG:a;@"),
    ("RELATED", "FN:a|RELATED:urn:@"),
    ("CATEGORIES", "FN:a|CATEGORIES:a,@,c"),
    ("REV", "FN:a|REV:2000010@T101010Z"),
    ("REV-offset", "FN:a|REV:20000101T101010+0@30"),
    ("SOUND", "FN:a|SOUND:http://a/@"),
    ("UID", "FN:a|UID:urn:@"),
    ("UID-text", "FN:a|UID;VALUE=text: @"),
    ("CLIENTPIDMAP", "FN:a|CLIENTPIDMAP:@;urn:a"),
    ("URL", "FN:a|URL:http://a/@"),
    ("KEY", "FN:a|KEY:urn:@"),
    ("FBURL", "FN:a|FBURL:http://a/@"),
    ("CALADRURI", "FN:a|CALADRURI:mailto:a@"),
    ("CALURI", "FN:a|CALURI:http://a/@"),
    ("X-text", "FN:a|X-A:a@"),
    ("X-text2", "FN:a|X-A;VALUE=text:a@"),
    ("X-integer", "FN:a|X-A;VALUE=integer:-1@,7"),
    ("X-float", "FN:a|X-A;VALUE=float:1.@,-2.5"),
    ("X-float-digits", "FN:a|X-A;VALUE=float:1.234567890123@"),
    ("X-float-large", "FN:a|X-A;VALUE=float:12345678901@.5"),
    ("X-float-small", "FN:a|X-A;VALUE=float:-0.000012345@,3"),
    ("X-integer-large", "FN:a|X-A;VALUE=integer:922337203685477580@,-922337203685477580@"),
    ("X-float-whole", "FN:a|X-A;VALUE=float:1@"),
    ("X-boolean", "FN:a|X-A;VALUE=boolean:true|NOTE:@"),
    ("X-date", "FN:a|X-A;VALUE=date:2000010@,20010203"),
    ("X-time", "FN:a|X-A;VALUE=time:10101@Z,111111-0500"),
    ("X-date-time", "FN:a|X-A;VALUE=date-time:20000101T10101@Z"),
    ("X-date-and-or-time", "FN:a|X-A;VALUE=date-and-or-time:2000010@,T101010Z"),
    ("X-date-and-or-time-mixed", "FN:a|X-A;VALUE=date-and-or-time:20000101T10101@Z,20000101"),
    ("X-date-and-or-time-dates", "FN:a|X-A;VALUE=date-and-or-time:2000010@"),
    ("X-date-and-or-time-times", "FN:a|X-A;VALUE=date-and-or-time:T10101@Z"),
    ("X-date-and-or-time-dts", "FN:a|X-A;VALUE=date-and-or-time:20000101T10101@Z"),
    ("X-timestamp", "FN:a|X-A;VALUE=timestamp:20000101T10101@Z"),
    ("X-uri", "FN:a|X-A;VALUE=uri:http://a/@"),
    ("X-utc-offset", "FN:a|X-A;VALUE=utc-offset:+0@30"),
    ("X-language-tag", "FN:a|X-A;VALUE=language-tag:e@"),
    ("TEL-urilike", "FN:a|TEL;VALUE=text:tel:1@"),
    ("UID-urilike", "FN:a|UID;VALUE=text:urn:@"),
    ("RELATED-urilike", "FN:a|RELATED;VALUE=text:urn:@"),
    ("KEY-urilike", "FN:a|KEY;VALUE=text:urn:@"),
    ("TZ-urilike", "FN:a|TZ;VALUE=text:urn:@"),
    ("TZ-urilike2", "FN:a|TZ:urn:@"),
];
entry!(h_json_typed, {
    warm_json();
    let t = pick(TYPED);
    let b = ascii(1);
    no_ctl(&b);
    parsed(t, &b);
});
pub const PARAMS: &[T] = &[
    ("LANGUAGE", "FN;LANGUAGE=@:a"),
    ("PREF", "FN;PREF=1@:a"),
    ("ALTID", "FN;ALTID=\"@\":a"),
    ("PID", "FN;PID=1@.2,3:a"),
    ("PID1", "FN;PID=1,3@:a"),
    ("TYPE", "FN;TYPE=@:a"),
    ("TYPE-tel", "FN:a|TEL;TYPE=text,voice,fax,cell,video,pager,textphone,home,@:1"),
    ("TYPE-related", "FN:a|RELATED;TYPE=contact,acquaintance,friend,met,co-worker,colleague,co-resident,neighbor,child,parent,@:urn:a"),
    ("TYPE-related2", "FN:a|RELATED;TYPE=sibling,spouse,kin,muse,crush,date,sweetheart,me,agent,emergency,X-@:urn:a"),
    ("MEDIATYPE", "FN:a|PHOTO;MEDIATYPE=image/@:http://a/"),
    ("CALSCALE", "FN:a|BDAY;CALSCALE=@:20000101"),
    ("SORT-AS", "FN:a|N;SORT-AS=\"@,b\":a;b;c;d;e"),
    ("GEO", "FN:a|ADR;GEO=\"geo:1,@\":;;;;;;"),
    ("TZ", "FN:a|ADR;TZ=-0@30:;;;;;;"),
    ("TZ-uri", "FN:a|ADR;TZ=\"http://a/@\":;;;;;;"),
    ("TZ-text", "FN:a|ADR;TZ=a@:;;;;;;"),
    ("LABEL", "FN:a|ADR;LABEL=\"@\":;;;;;;"),
    ("X-P", "FN;X-P=\"@,b\";X-Q=c:a"),
    ("VALUE", "FN:a|TEL;VALUE=text;X-P=@:1"),
    ("group", "FN:a|g@.NOTE:a"),
    ("group-date", "FN:a|g@.BDAY:20000101"),
    ("group-ext", "FN:a|g@.X-A;X-P=@:20000101"),
];
entry!(h_json_param, {
    warm_json();
    let t = pick(PARAMS);
    let b = ascii(1);
    no_ctl(&b);
    parsed(t, &b);
});
entry!(h_json_param2, {
    warm_json();
    let t = pick(PARAMS);
    let b = ascii(2);
    no_ctl(&b);
    parsed(t, &b);
});

/// What only an application can store.
const BUILT: &[&str] = &[
    "rev", "time", "date-time", "offset", "categories", "org", "name", "bday-empty", "parameters", "no types", "no pid", "no sort-as", "no extensions", "no values",
    "address", "address-empty", "group", "gender", "X-date-time", "X-timestamp", "X-time", "text",
];
fn built(k: usize, d: u8) -> Vcard {
    use vcard4::parameter::{Parameters, Pid, TypeParameter, ValueType};
    use vcard4::property::*;
    use vcard4::time::{Date, Month, PrimitiveDateTime, Time, UtcOffset};
    let mut c = vcard4::VcardBuilder::new("x".to_string()).finish();
    let mut nano = d as u32;
    if matches!(k, 0..=3 | 18..=20) {
        assume(d >= 1 && d <= 9);
        for _ in 0..choose(9) {
            nano *= 10;
        }
    }
    let time = || Time::from_hms_nano(10, 20, 30, nano).unwrap();
    let off = UtcOffset::from_hms(-3, -30, 0).unwrap();
    let dt = || -> vcard4::DateTime {
        let date = Date::from_calendar_date(2020, Month::February, 3).unwrap();
        let v = PrimitiveDateTime::new(date, time());
        if k == 3 { v.assume_offset(off).into() } else { v.assume_utc().into() }
    };
    let ext = |value, t| {
        let mut p = Parameters::default();
        p.value = Some(t);
        ExtensionProperty { name: "X-A".to_string(), group: None, value, parameters: Some(p) }
    };
    let par = |f: &dyn Fn(&mut Parameters)| {
        let mut p = Parameters::default();
        f(&mut p);
        let mut t: TextProperty = "a".to_string().into();
        t.parameters = Some(p);
        t
    };
    match k {
        0 | 3 => c.rev = Some(dt().into()),
        1 => c.bday = Some((time(), off).into()),
        2 => c.anniversary = Some(dt().into()),
        4 => c.categories.push(TextListProperty::new_comma(vec![])),
        5 => c.org.push(TextListProperty::new_semi_colon(vec![])),
        6 => c.name = Some(TextListProperty::new_semi_colon(vec![])),
        7 => c.bday = Some(DateTimeOrTextProperty::DateTime(DateAndOrTimeProperty { group: None, value: vec![], parameters: None })),
        8 => c.note.push(par(&|_| ())),
        9 => c.note.push(par(&|p| p.types = Some(vec![]))),
        10 => c.note.push(par(&|p| p.pid = Some(vec![]))),
        11 => c.note.push(par(&|p| p.sort_as = Some(vec![]))),
        12 => c.note.push(par(&|p| p.extensions = Some(vec![]))),
        13 => c.note.push(par(&|p| {
            p.extensions = Some(vec![("X-P".to_string(), vec![])]);
            p.pid = Some(vec![Pid::new(d as u64, Some(d as u64))]);
            p.types = Some(vec![TypeParameter::Extension(String::new())]);
            p.sort_as = Some(vec![String::new()]);
            p.alt_id = Some(String::new());
        })),
        14 => c.address.push(DeliveryAddress::default().into()),
        15 => {
            let mut a = DeliveryAddress::default();
            a.po_box = Some(String::new());
            a.country_name = Some(String::new());
            c.address.push(a.into());
        }
        16 => {
            let mut t: TextProperty = String::new().into();
            t.group = Some(String::new());
            c.note.push(t);
        }
        17 => c.gender = Some(Gender { sex: Sex::None, identity: Some(String::new()) }.into()),
        18 => c.extensions.push(ext(AnyProperty::DateTime(vec![dt()]), ValueType::DateTime)),
        19 => c.extensions.push(ext(AnyProperty::Timestamp(vec![dt(), dt()]), ValueType::Timestamp)),
        20 => c.extensions.push(ext(AnyProperty::Time(vec![(time(), off)]), ValueType::Time)),
        _ => c.formatted_name.clear(),
    }
    c
}
entry!(h_json_built, {
    warm_json();
    let k = choose(BUILT.len());
    label(BUILT[k]);
    let d = bytes(1)[0];
    json(&built(k, d));
});
// Group and parameters of every property.
entry!(h_json_props, {
    use crate::case::{prop, with, PROPS};
    warm_json();
    let k = choose(PROPS.len());
    label(PROPS[k].0);
    let shape = choose(3);
    let b = ascii(1);
    assume(b[0].is_ascii_alphanumeric());
    let (g, p): (&[&[u8]], &[&[u8]]) = match shape {
        0 => (&[b"g", &b, b"."], &[]),
        1 => (&[], &[b";ALTID=", &b, b";PREF=7;X-P=p"]),
        _ => (&[b"g", &b, b"."], &[b";LANGUAGE=", &b, b";X-P=p;X-Q=\"q,", &b, b"\""]),
    };
    let mut line = with(k, &g.concat());
    let start = line.len() - PROPS[k].1.len();
    let Some(at) = line[start..].iter().position(|c| *c == b':' || *c == b';') else { fail(5) };
    let at = start + at;
    let tail = line.split_off(at);
    line.extend_from_slice(&p.concat());
    line.extend_from_slice(&tail);
    let Some(c) = one(&doc(&line)) else { fail(6) };
    let Some(x) = prop(k, &c) else { fail(7) };
    check(x.group().is_some() == (shape != 1), 8);
    check(x.parameters().is_some_and(|p| p.extensions.is_some()) == (shape != 0), 9);
    json(&c);
});
