//! No input makes the library panic or loop.
use crate::common::*;
use crate::entry;
use crate::sym::*;
use vcard4::Vcard;

pub const VALS: &[T] = &[
    ("FN", "FN:@"),
    ("N", "FN:x|N:@;"),
    ("ORG", "FN:x|ORG:@"),
    ("CATEGORIES", "FN:x|CATEGORIES:@,"),
    ("NOTE", "FN:x|NOTE:a@"),
    ("KIND", "FN:x|KIND:@"),
    ("GENDER", "FN:x|GENDER:@"),
    ("GENDER;", "FN:x|GENDER:M@"),
    ("ADR", "FN:x|ADR:;;;;;@"),
    ("CLIENTPIDMAP", "FN:x|CLIENTPIDMAP:@;u:a"),
    ("TZ", "FN:x|TZ:@"),
    ("TZ-offset", "FN:x|TZ;VALUE=utc-offset:@"),
    ("LANG", "FN:x|LANG:@"),
    ("X", "FN:x|X-A:@"),
    ("X-int", "FN:x|X-A;VALUE=integer:@"),
    ("X-int2", "FN:x|X-A;VALUE=integer:-922337203685477580@"),
    ("X-bool", "FN:x|X-A;VALUE=boolean:tru@"),
    ("X-date3", "FN:x|X-A;VALUE=date:-@"),
    ("X-ts", "FN:x|X-A;VALUE=timestamp:@"),
    ("X-offset", "FN:x|X-A;VALUE=utc-offset:-@"),
    ("X-lang", "FN:x|X-A;VALUE=language-tag:@"),
];
// expensive on symbolic input
const SLOW: &[T] = &[
    ("BDAY-day", "FN:x|BDAY:202001@"),
    ("BDAY-year", "FN:x|BDAY:20@"),
    ("BDAY-dt", "FN:x|BDAY:20200101T@"),
    ("BDAY-T", "FN:x|BDAY:T@"),
    ("BDAY-list", "FN:x|BDAY:20200101,@"),
    ("BDAY-month", "FN:x|BDAY:2020@"),
    ("BDAY-month2", "FN:x|BDAY:2020-@"),
    ("BDAY-nyear", "FN:x|BDAY:--@"),
    ("BDAY-T2", "FN:x|BDAY:T10@"),
    ("BDAY-dt2", "FN:x|BDAY:20200101T10@00"),
    ("ANNIVERSARY", "FN:x|ANNIVERSARY:-@"),
    ("X-date", "FN:x|X-A;VALUE=date:@"),
    ("X-date2", "FN:x|X-A;VALUE=date:2020@"),
    ("X-time3", "FN:x|X-A;VALUE=time:1010@"),
    ("X-time4", "FN:x|X-A;VALUE=time:1010+@"),
    ("X-time2", "FN:x|X-A;VALUE=time:-@"),
    ("X-dt", "FN:x|X-A;VALUE=date-time:@"),
    ("X-dt3", "FN:x|X-A;VALUE=date-time:@T10"),
    ("REV", "FN:x|REV:@"),
    ("REV2", "FN:x|REV:20200101T1010@"),
    ("REV3", "FN:x|REV:20200101T101010@"),
    ("TZ-offset2", "FN:x|TZ;VALUE=utc-offset:+@00"),
    ("X-time", "FN:x|X-A;VALUE=time:@"),
    ("X-dot", "FN:x|X-A;VALUE=date-and-or-time:@"),
    ("X-dt2", "FN:x|X-A;VALUE=date-time:20200101T@"),
    ("BDAY", "FN:x|BDAY:@"),
    ("PHOTO-b", "FN:x|PHOTO;ENCODING=b;TYPE=JPEG:aGk@"),
];
// parsed by the (expensive) URI parser or a float parser
const URIS: &[T] = &[
    ("URL", "FN:x|URL:@"),
    ("URL:", "FN:x|URL:a:@"),
    ("URL//", "FN:x|URL:a://@"),
    ("URL/[", "FN:x|URL:a://[@]"),
    ("URL/:", "FN:x|URL:a://b:@"),
    ("URL%", "FN:x|URL:a:%@"),
    ("URL?", "FN:x|URL:a:b?@"),
    ("URL#", "FN:x|URL:a:b#@"),
    ("URL-rel", "FN:x|URL:./@"),
    ("URL-rel2", "FN:x|URL:a/b:@"),
    ("TEL", "FN:x|TEL:@"),
    ("TEL+", "FN:x|TEL:1@"),
    ("PHOTO", "FN:x|PHOTO:@"),
    ("UID", "FN:x|UID:@:"),
    ("RELATED", "FN:x|RELATED::@"),
    ("KEY", "FN:x|KEY:/@"),
    ("CLIENTPIDMAP", "FN:x|CLIENTPIDMAP:1;@"),
    ("GEO", "FN:x|GEO:@"),
    ("MEMBER", "FN:x|KIND:group|MEMBER:@"),
    ("X-uri", "FN:x|X-A;VALUE=uri:@"),
    ("TZ-uri", "FN:x|TZ;VALUE=uri:@"),
    ("ADR-geo", "FN:x|ADR;GEO=\"@\":;;;;;;"),
    ("ADR-tz", "FN:x|ADR;TZ=\"@\":;;;;;;"),
    ("X-float", "FN:x|X-A;VALUE=float:@"),
    ("X-float2", "FN:x|X-A;VALUE=float:1@"),
];
const PARAMS: &[T] = &[
    ("PREF", "FN;PREF=@:x"),
    ("PREF2", "FN;PREF=1@:x"),
    ("PID", "FN;PID=@:x"),
    ("PID2", "FN;PID=1.@:x"),
    ("TYPE", "FN;TYPE=@:x"),
    ("TYPE2", "FN;TYPE=x@:x"),
    ("TYPE3", "FN;TYPE=\"@\":x"),
    ("LANGUAGE", "FN;LANGUAGE=@:x"),
    ("ALTID", "FN;ALTID=@:x"),
    ("MEDIATYPE", "FN;MEDIATYPE=@:x"),
    ("CALSCALE", "FN;CALSCALE=@:x"),
    ("SORT-AS", "FN;SORT-AS=\"@\":x"),
    ("CHARSET", "FN;CHARSET=UTF@:x"),
    ("LABEL", "FN:x|ADR;LABEL=@:;;;;;;"),
    ("TZ", "FN;TZ=@:x"),
    ("ENCODING", "FN;ENCODING=@:x"),
    ("X-", "FN;X-A=@:x"),
    ("X-name", "FN;X-@=1:x"),
    ("VALUE", "FN;VALUE=@:x"),
    ("name", "FN;@:x"),
    ("name2", "FN@:x"),
    ("after", "FN;PREF=1@x"),
    ("second", "FN;PREF=1;@PID=1:x"),
    ("quoted", "FN;ALTID=\"a\"@:x"),
];
fn tell(e: &vcard4::Error) {
    let t = e.to_string();
    observe(t.as_bytes());
}
/// Parse in every mode, print and use the result.
pub fn all(src: &str, modes: usize) {
    let lines = src.bytes().filter(|b| *b == b'\n').count();
    let mut cards: Vec<Vcard> = vec![];
    match choose(modes) {
        0 => match vcard4::parse(src) {
            Ok(c) => cards = c,
            Err(e) => tell(&e),
        },
        1 => match vcard4::parse_loose(src) {
            Ok(c) => cards = c,
            Err(e) => tell(&e),
        },
        m => {
            let mut it = vcard4::iter(src, m == 2);
            let mut n = 0;
            while let Some(c) = it.next() {
                // every item consumes a line at least
                check(n <= lines + 1, 1);
                n += 1;
                match c {
                    Ok(c) => cards.push(c),
                    Err(e) => tell(&e),
                }
            }
            check(it.next().is_none(), 2);
        }
    }
    for c in &cards {
        let t = c.to_string();
        observe(t.as_bytes());
        let _ = c.validate();
        let _ = c.parse_photo_jpeg();
        let _ = format!("{c:?}").len();
    }
    reach(1);
}
fn go(ts: &[T], n: usize, modes: usize) {
    warm();
    let t = pick(ts);
    let b = ascii(n);
    all(&doct(t, &b), modes);
}
entry!(h_np_val, { go(VALS, 2, 2) });
entry!(h_np_val3, { go(VALS, 3, 2) });
entry!(h_np_slow, { go(SLOW, 1, 2) });
entry!(h_np_slow2, { go(SLOW, 2, 2) });
entry!(h_np_uri, { go(URIS, 1, 2) });
entry!(h_np_uri2, { go(URIS, 2, 2) });
entry!(h_np_param, { go(PARAMS, 2, 2) });
entry!(h_np_param3, { go(PARAMS, 3, 2) });

// a multibyte character anywhere
fn multibyte(ts: &[T]) {
    warm();
    let t = pick(ts);
    let k = choose(UCHARS);
    let mut b = vec![];
    if choose(2) == 1 {
        b.push(b'-');
    }
    b.extend_from_slice(&uchar(k));
    if choose(2) == 1 {
        b.push(b'1');
    }
    all(&doct(t, &b), 1);
}
entry!(h_np_mbval, { multibyte(VALS) });
entry!(h_np_mbslow, { multibyte(SLOW) });
entry!(h_np_mburi, { multibyte(URIS) });
entry!(h_np_mbparam, { multibyte(PARAMS) });

const RAW: &[T] = &[
    ("doc", "@"),
    ("before", "@BEGIN:VCARD|VERSION:4.0|FN:x|END:VCARD|"),
    ("begin", "BEGIN:VCARD@VERSION:4.0|FN:x|END:VCARD|"),
    ("begin2", "BEGIN:VCAR@|VERSION:4.0|FN:x|END:VCARD|"),
    ("version", "BEGIN:VCARD|VERSION:@|FN:x|END:VCARD|"),
    ("version2", "BEGIN:VCARD|VERSION:4.0@FN:x|END:VCARD|"),
    ("line", "BEGIN:VCARD|VERSION:4.0|@|FN:x|END:VCARD|"),
    ("line2", "BEGIN:VCARD|VERSION:4.0|FN:x|@"),
    ("line3", "BEGIN:VCARD|VERSION:4.0|FN:x|X-@:y|END:VCARD|"),
    ("group", "BEGIN:VCARD|VERSION:4.0|@.FN:x|END:VCARD|"),
    ("eol", "BEGIN:VCARD|VERSION:4.0|FN:x@END:VCARD|"),
    ("end", "BEGIN:VCARD|VERSION:4.0|FN:x|END:VC@RD|"),
    ("after", "BEGIN:VCARD|VERSION:4.0|FN:x|END:VCARD@"),
    ("between", "BEGIN:VCARD|VERSION:4.0|FN:x|END:VCARD@BEGIN:VCARD|VERSION:4.0|FN:x|END:VCARD|"),
    ("trunc", "BEGIN:VCARD|VERSION:4.0|FN;PREF=@"),
    ("trunc2", "BEGIN:VCARD|VERSION:4.0|FN;PREF=\"@"),
    ("trunc3", "BEGIN:VCARD|VERSION:4.0|FN:@"),
];
fn raw(n: usize) {
    warm();
    let t = pick(RAW);
    let b = ascii(n);
    all(&s(fill(t, &b)), 4);
}
entry!(h_np_raw, { raw(2) });
entry!(h_np_raw3, { raw(3) });
entry!(h_np_mbraw, {
    warm();
    let t = pick(RAW);
    let k = choose(UCHARS);
    let b = uchar(k);
    all(&s(fill(t, &b)), 4);
});

// every prefix of a document
entry!(h_np_prefix, {
    warm();
    const D: &str = "BEGIN:VCARD|VERSION:4.0|FN;TYPE=work;PREF=1:x\\,y| z|g1.BDAY:20200101T101010-0500|ADR;LABEL=\"@\";GEO=\"geo:1,2\":;;a;;;;|TEL;VALUE=uri:tel:+1|END:VCARD|";
    let b = ascii(1);
    let d = fill(D, &b);
    let n = choose(d.len());
    label("prefix");
    all(&s(d[..n].to_vec()), 4);
});

// string conversions and helper functions
const FNS: &[&str] = &[
    "parse_date", "parse_time", "parse_date_time", "parse_timestamp", "parse_utc_offset", "parse_boolean", "parse_integer_list", "parse_date_list",
    "parse_time_list", "parse_date_time_list", "parse_timestamp_list", "parse_date_and_or_time_list", "Date", "DateTime", "DateAndOrTime", "UtcOffsetProperty",
    "Pid", "Kind", "Sex", "Gender", "ClientPidMap", "DeliveryAddress", "TypeParameter", "RelatedType", "TelephoneType", "ValueType", "Vcard", "parse_float_list", "Uri", "UriProperty",
];
fn call(k: usize, v: &str) -> bool {
    use vcard4::helper::*;
    use vcard4::parameter::*;
    use vcard4::property::*;
    match k {
        0 => parse_date(v).is_ok(),
        1 => parse_time(v).is_ok(),
        2 => parse_date_time(v).is_ok(),
        3 => parse_timestamp(v).is_ok(),
        4 => parse_utc_offset(v).is_ok(),
        5 => parse_boolean(v).is_ok(),
        6 => parse_integer_list(v).is_ok(),
        7 => parse_date_list(v).is_ok(),
        8 => parse_time_list(v).is_ok(),
        9 => parse_date_time_list(v).is_ok(),
        10 => parse_timestamp_list(v).is_ok(),
        11 => parse_date_and_or_time_list(v).is_ok(),
        12 => v.parse::<vcard4::Date>().map(|x| x.to_string()).is_ok(),
        13 => v.parse::<vcard4::DateTime>().map(|x| x.to_string()).is_ok(),
        14 => v.parse::<DateAndOrTime>().map(|x| x.to_string()).is_ok(),
        15 => v.parse::<UtcOffsetProperty>().map(|x| x.to_string()).is_ok(),
        16 => v.parse::<Pid>().map(|x| x.to_string()).is_ok(),
        17 => v.parse::<Kind>().map(|x| x.to_string()).is_ok(),
        18 => v.parse::<Sex>().map(|x| x.to_string()).is_ok(),
        19 => v.parse::<Gender>().map(|x| x.to_string()).is_ok(),
        20 => v.parse::<ClientPidMap>().map(|x| x.to_string()).is_ok(),
        21 => v.parse::<DeliveryAddress>().map(|x| x.to_string()).is_ok(),
        22 => v.parse::<TypeParameter>().map(|x| x.to_string()).is_ok(),
        23 => v.parse::<RelatedType>().map(|x| x.to_string()).is_ok(),
        24 => v.parse::<TelephoneType>().map(|x| x.to_string()).is_ok(),
        25 => v.parse::<ValueType>().map(|x| x.to_string()).is_ok(),
        26 => Vcard::try_from(v).map(|x| x.to_string()).is_ok(),
        27 => parse_float_list(v).is_ok(),
        28 => v.parse::<vcard4::Uri>().map(|x| x.to_string()).is_ok(),
        _ => UriProperty::try_from(v).map(|x| x.to_string()).is_ok(),
    }
}
fn fns(n: usize) {
    warm();
    let k = choose(FNS.len());
    label(FNS[k]);
    let shape = choose(3 + UCHARS);
    let n = if n == 2 && (k >= 27 || k == 16) { 1 } else { n };
    let v = match shape {
        0 => ascii(n),
        1 => {
            let mut v = b"2020".to_vec();
            v.extend_from_slice(&ascii(n));
            v
        }
        2 => {
            let mut v = b"--".to_vec();
            v.extend_from_slice(&ascii(n));
            v
        }
        i => {
            let mut v = ascii(1);
            v.extend_from_slice(&uchar(i - 3));
            v
        }
    };
    let v = s(v);
    let r = call(k, &v);
    observe(&[r as u8]);
    reach(1);
}
entry!(h_np_fn, { fns(2) });
entry!(h_np_fn3, { fns(3) });

// JSON of any content: an error or a card that can be used
const JSON: &[T] = &[
    ("empty", "{@}"),
    ("key", "{\"formattedName\":[{\"value\":\"a\"}],\"@\":1}"),
    ("fn", "{\"formattedName\":[{\"value\":@}]}"),
    ("fn-text", "{\"formattedName\":[{\"value\":\"@\"}]}"),
    ("fn-u", "{\"formattedName\":[{\"value\":\"\\u@00\"}]}"),
    ("pref", "{\"formattedName\":[{\"value\":\"a\",\"parameters\":{\"pref\":@}}]}"),
    ("kind", "{\"formattedName\":[{\"value\":\"a\"}],\"kind\":{\"value\":\"@\"}}"),
    ("gender", "{\"formattedName\":[{\"value\":\"a\"}],\"gender\":{\"value\":{\"sex\":\"Female\",\"identity\":\"@\"}}}"),
    ("n", "{\"formattedName\":[{\"value\":\"a\"}],\"name\":{\"value\":[@]}}"),
    ("adr", "{\"formattedName\":[{\"value\":\"a\"}],\"address\":[{\"value\":{\"locality\":\"@\"}}]}"),
    ("bday", "{\"formattedName\":[{\"value\":\"a\"}],\"bday\":{\"value\":[\"2020-01-0@\"]}}"),
    ("bday-time", "{\"formattedName\":[{\"value\":\"a\"}],\"bday\":{\"value\":[[[10,10,@,0],[0,0,0]]]}}"),
    ("bday-offset", "{\"formattedName\":[{\"value\":\"a\"}],\"bday\":{\"value\":[[[10,10,10,0],[1,2,-@]]]}}"),
    ("bday-num", "{\"formattedName\":[{\"value\":\"a\"}],\"bday\":{\"value\":[\"-@20-01-01\"]}}"),
    ("rev", "{\"formattedName\":[{\"value\":\"a\"}],\"rev\":{\"value\":\"2020-01-01T10:10:@Z\"}}"),
    ("rev-year", "{\"formattedName\":[{\"value\":\"a\"}],\"rev\":{\"value\":\"@9999-12-31T10:10:10Z\"}}"),
    ("tz", "{\"formattedName\":[{\"value\":\"a\"}],\"timezone\":[{\"value\":[@,0,0]}]}"),
    ("tz-uri", "{\"formattedName\":[{\"value\":\"a\"}],\"timezone\":[{\"value\":\"u:@\"}]}"),
    ("url", "{\"formattedName\":[{\"value\":\"a\"}],\"url\":[{\"value\":\"u@a\"}]}"),
    ("map", "{\"formattedName\":[{\"value\":\"a\"}],\"clientPidMap\":[{\"value\":{\"source\":@,\"uri\":\"u:a\"}}]}"),
    ("ext", "{\"formattedName\":[{\"value\":\"a\"}],\"extensions\":[{\"name\":\"X-@\",\"value\":\"a\"}]}"),
    ("ext-value", "{\"formattedName\":[{\"value\":\"a\"}],\"extensions\":[{\"name\":\"X-A\",\"value\":@}]}"),
    ("ext-ints", "{\"formattedName\":[{\"value\":\"a\"}],\"extensions\":[{\"name\":\"X-A\",\"value\":[@],\"parameters\":{\"value\":\"utc-offset\"}}]}"),
    ("ext-offset", "{\"formattedName\":[{\"value\":\"a\"}],\"extensions\":[{\"name\":\"X-A\",\"value\":[-@,-@,@],\"parameters\":{\"value\":\"utc-offset\"}}]}"),
];
fn from_json(n: usize) {
    warm();
    let t = pick(JSON);
    let b = ascii(n);
    match serde_json::from_str::<Vcard>(&s(fill(t, &b))) {
        Ok(c) => {
            let t = c.to_string();
            observe(t.as_bytes());
            let _ = c.validate();
            let _ = c.parse_photo_jpeg();
            let _ = serde_json::to_string(&c).is_ok();
            reach(2);
        }
        Err(_) => reach(1),
    }
}
entry!(h_np_json, { from_json(1) });
entry!(h_np_json2, { from_json(2) });
