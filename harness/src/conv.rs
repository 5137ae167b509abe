//! Values an application converts into properties, or gives to the builder more than once.
use crate::bld::adr;
use crate::common::*;
use crate::entry;
use crate::sym::*;
use vcard4::parameter::Parameters;
use vcard4::property::*;
use vcard4::time::{Date as D, Month, OffsetDateTime, PrimitiveDateTime, Time, UtcOffset};
use vcard4::{Date, DateTime, Uri, Vcard, VcardBuilder};

fn st(v: &str) -> String {
    v.to_string()
}
fn bare<P: Property>(p: &P) {
    check(p.group().is_none(), 10);
    check(p.parameters().is_none_or(|p| *p == Parameters::default()), 11);
}
/// The card is printed and read again.
fn kept(c: &Vcard) {
    let t = c.to_string();
    observe(t.as_bytes());
    match one(&t) {
        Some(d) => check(d == *c, 20),
        None => fail(21),
    }
    reach(1);
}
fn blank() -> Vcard {
    Vcard::new(st("x"))
}
// Conversions of dates and times.
entry!(h_conv_date, {
    warm();
    let k = choose(10);
    let b = bytes(1)[0];
    let f = choose(6);
    let lim = [28, 12, 24, 60, 60, 24][f];
    assume(b < lim);
    let n = |i: usize, v: u8| if f == i { b } else { v };
    let Ok(month) = Month::try_from(1 + n(1, 5)) else { fail(1) };
    let Ok(d) = D::from_calendar_date(2001, month, 1 + n(0, 6)) else { fail(2) };
    let Ok(t) = Time::from_hms(n(2, 7), n(3, 8), n(4, 9)) else { fail(3) };
    let neg = choose(2) == 1;
    let h = n(5, 10) as i8;
    let Ok(o) = UtcOffset::from_hms(if neg { -h } else { h }, if neg { -30 } else { 30 }, 0) else { fail(4) };
    let dt: OffsetDateTime = PrimitiveDateTime::new(d, t).assume_offset(o);
    let same = |x: &DateTime| {
        let x: &OffsetDateTime = x.as_ref();
        check(x.date() == d && x.time() == t && x.offset() == o, 12);
    };
    let mut c = blank();
    match k {
        0 => {
            label("Date");
            let x: Date = d.into();
            check(*x.as_ref() == d, 13);
            check(D::from(x.clone()) == d, 14);
            c = VcardBuilder::new(st("x")).birthday(x).finish();
            let Some(DateTimeOrTextProperty::DateTime(p)) = &c.bday else { fail(15) };
            check(p.value == vec![DateAndOrTime::Date(d.into())], 16);
            bare(p);
        }
        1 => {
            label("DateTime");
            let x: DateTime = dt.into();
            same(&x);
            let y = OffsetDateTime::from(x.clone());
            check(y == dt && y.offset() == o, 14);
            c = VcardBuilder::new(st("x")).rev(x).finish();
            let Some(p) = &c.rev else { fail(15) };
            same(&p.value);
            bare(p);
        }
        2 => {
            label("anniversary");
            c = VcardBuilder::new(st("x")).anniversary(d.into()).finish();
            let Some(DateTimeOrTextProperty::DateTime(p)) = &c.anniversary else { fail(15) };
            check(p.value == vec![DateAndOrTime::Date(d.into())], 16);
            bare(p);
        }
        3 => {
            label("date-time property");
            let p: DateTimeOrTextProperty = DateTime::from(dt).into();
            bare(&p);
            let DateTimeOrTextProperty::DateTime(q) = &p else { fail(15) };
            let [DateAndOrTime::DateTime(x)] = &q.value[..] else { fail(16) };
            same(x);
            c.bday = Some(p);
        }
        4 => {
            label("time property");
            let p: DateTimeOrTextProperty = (t, o).into();
            bare(&p);
            let DateTimeOrTextProperty::DateTime(q) = &p else { fail(15) };
            check(q.value == vec![DateAndOrTime::Time((t, o))], 16);
            c.anniversary = Some(p);
        }
        5 => {
            label("date and or time property");
            let p: DateAndOrTimeProperty = match choose(3) {
                0 => Date::from(d).into(),
                1 => DateTime::from(dt).into(),
                _ => (t, o).into(),
            };
            bare(&p);
            let [x] = &p.value[..] else { fail(15) };
            match x {
                DateAndOrTime::Date(x) => check(*x.as_ref() == d, 16),
                DateAndOrTime::DateTime(x) => same(x),
                DateAndOrTime::Time(x) => check(*x == (t, o), 17),
            }
            c.bday = Some(DateTimeOrTextProperty::DateTime(p));
        }
        6 => {
            label("date and or time");
            let p: DateAndOrTime = match choose(3) {
                0 => Date::from(d).into(),
                1 => DateTime::from(dt).into(),
                _ => (t, o).into(),
            };
            match &p {
                DateAndOrTime::Date(x) => check(*x.as_ref() == d, 16),
                DateAndOrTime::DateTime(x) => same(x),
                DateAndOrTime::Time(x) => check(*x == (t, o), 17),
            }
            return reach(1);
        }
        7 => {
            label("UTC offset property");
            let p: UtcOffsetProperty = o.into();
            check(p.value == o, 16);
            bare(&p);
            return reach(1);
        }
        8 => {
            label("time zone");
            let p: TimeZoneProperty = o.into();
            bare(&p);
            let TimeZoneProperty::UtcOffset(q) = &p else { fail(15) };
            check(q.value == o, 16);
            return reach(1);
        }
        _ => {
            label("revision");
            let p: DateTimeProperty = DateTime::from(dt).into();
            same(&p.value);
            bare(&p);
            c.rev = Some(p);
        }
    }
    kept(&c);
});
// Conversions of texts, URIs and structured values.
entry!(h_conv_text, {
    warm();
    let k = choose(13);
    let b = ascii(2);
    no_ctl(&b);
    let v = s(b.clone());
    let u = || -> Uri {
        match "urn:a".parse() {
            Ok(u) => u,
            Err(_) => fail(9),
        }
    };
    match k {
        0 => {
            label("text");
            let p: TextProperty = v.clone().into();
            check(p.value == v, 1);
            bare(&p);
        }
        1 => {
            label("text or URI");
            let p: TextOrUriProperty = v.clone().into();
            bare(&p);
            let TextOrUriProperty::Text(q) = &p else { fail(2) };
            check(q.value == v, 1);
        }
        2 => {
            label("date or text");
            let p: DateTimeOrTextProperty = v.clone().into();
            bare(&p);
            let DateTimeOrTextProperty::Text(q) = &p else { fail(2) };
            check(q.value == v, 1);
        }
        3 => {
            label("time zone");
            let p: TimeZoneProperty = v.clone().into();
            bare(&p);
            let TimeZoneProperty::Text(q) = &p else { fail(2) };
            check(q.value == v, 1);
        }
        4 => {
            label("lists");
            let l = vec![v.clone(), st("a"), v.clone(), st("")];
            let p = TextListProperty::new_comma(l.clone());
            bare(&p);
            check(p.value == l && p.delimiter == TextListDelimiter::Comma, 1);
            let p = TextListProperty::new_semi_colon(l.clone());
            bare(&p);
            check(p.value == l && p.delimiter == TextListDelimiter::SemiColon, 1);
        }
        5 => {
            label("URI");
            let p: UriProperty = u().into();
            bare(&p);
            check(p.value == u(), 1);
            let p: TextOrUriProperty = u().into();
            bare(&p);
            let TextOrUriProperty::Uri(q) = &p else { fail(2) };
            check(q.value == u(), 1);
            let p: TimeZoneProperty = u().into();
            bare(&p);
            let TimeZoneProperty::Uri(q) = &p else { fail(2) };
            check(q.value == u(), 1);
            let Ok(p) = UriProperty::try_from("urn:a") else { fail(3) };
            bare(&p);
            check(p.value == u(), 1);
        }
        6 => {
            label("kind");
            let ks = [Kind::Individual, Kind::Group, Kind::Org, Kind::Location];
            for x in ks {
                let p: KindProperty = x.clone().into();
                bare(&p);
                check(p.value == x, 1);
                let c = VcardBuilder::new(st("x")).kind(x.clone()).finish();
                check(c.kind.as_ref().map(|k| &k.value) == Some(&x), 2);
                kept(&c);
            }
        }
        7 => {
            label("gender");
            let p: GenderProperty = Gender { sex: Sex::Other, identity: Some(v.clone()) }.into();
            bare(&p);
            check(p.value.sex == Sex::Other && p.value.identity.as_ref() == Some(&v), 1);
        }
        8 => {
            label("address");
            let a = adr(|a| {
                a.po_box = Some(v.clone());
                a.country_name = Some(st("c"));
            });
            let p: AddressProperty = a.clone().into();
            bare(&p);
            check(p.value == a, 1);
        }
        9 => {
            label("new");
            let c = Vcard::new(v.clone());
            check(c.formatted_name.len() == 1 && c.formatted_name[0].value == v, 1);
            bare(&c.formatted_name[0]);
            let mut d = c;
            d.formatted_name.clear();
            check(d == Vcard::default(), 2);
        }
        10 => {
            label("gender of the builder");
            // any text after the delimiter is the identity
            let c = VcardBuilder::new(st("x")).gender(&["M;", &v].concat()).finish();
            let Some(g) = &c.gender else { fail(1) };
            check(g.value.sex == Sex::Male, 2);
            bare(g);
            kept(&c);
        }
        11 => {
            label("gender of the builder, not one");
            let c = VcardBuilder::new(st("x")).gender("M;a").gender(&["Q", &v].concat()).finish();
            let Some(g) = &c.gender else { fail(1) };
            check(g.value.sex == Sex::Male && g.value.identity.as_deref() == Some("a"), 2);
        }
        _ => {
            label("language");
            let Some(l) = ty::lang(st("en")) else { fail(1) };
            let p: LanguageProperty = l.into();
            bare(&p);
            check(ty::str(&p.value) == "en", 2);
        }
    }
    reach(1);
});
// A value given to the builder again is added, or replaces the first where there is only one.
entry!(h_conv_again, {
    warm();
    let k = choose(14);
    label(["formatted_name", "nickname", "xml", "telephone", "email", "timezone", "title", "role", "note", "prod_id", "org, categories", "name", "address", "lang"][k]);
    let b = ascii(1);
    no_ctl(&b);
    // (text that is a URI is read as one)
    assume(b[0] != b':');
    let v = s([&b[..], b"q"].concat());
    let w = st("w,;z");
    let x = VcardBuilder::new(st("x"));
    let three = |l: &[TextProperty]| {
        check(l.len() == 3 && l[0].value == w && l[1].value == v && l[2].value == w, 1);
        for p in l {
            bare(p);
        }
    };
    macro_rules! add {
        ($f:ident) => {
            x.$f(w.clone()).$f(v.clone()).$f(w.clone()).finish()
        };
    }
    let c = match k {
        0 => {
            let c = VcardBuilder::new(w.clone()).formatted_name(v.clone()).formatted_name(w.clone()).finish();
            three(&c.formatted_name);
            c
        }
        1 => {
            let c = add!(nickname);
            three(&c.nickname);
            c
        }
        2 => {
            let c = add!(xml);
            three(&c.xml);
            c
        }
        3 => {
            let c = add!(telephone);
            let l: Vec<_> = c.tel.iter().map(|t| if let TextOrUriProperty::Text(t) = t { t.clone() } else { fail(2) }).collect();
            three(&l);
            c
        }
        4 => {
            let c = add!(email);
            three(&c.email);
            c
        }
        5 => {
            let c = add!(timezone);
            let l: Vec<_> = c.timezone.iter().map(|t| if let TimeZoneProperty::Text(t) = t { t.clone() } else { fail(2) }).collect();
            three(&l);
            c
        }
        6 => {
            let c = add!(title);
            three(&c.title);
            c
        }
        7 => {
            let c = add!(role);
            three(&c.role);
            c
        }
        8 => {
            let c = add!(note);
            three(&c.note);
            c
        }
        9 => {
            let c = add!(prod_id);
            check(c.prod_id.as_ref().map(|p| &p.value) == Some(&w), 3);
            c
        }
        10 => {
            let l = |y: &str| vec![st(y), v.clone(), st(y)];
            let c = x.org(l("a")).org(l("a")).org(l("b")).categories(l("b")).categories(l("a")).categories(l("a")).finish();
            check(c.org.len() == 3 && c.categories.len() == 3, 4);
            check(c.org[0].value == l("a") && c.org[1].value == l("a") && c.org[2].value == l("b"), 5);
            check(c.categories[0].value == l("b") && c.categories[1].value == l("a") && c.categories[2].value == l("a"), 6);
            c
        }
        11 => {
            let l = |y: &str| [st(y), v.clone(), st(y), st(""), st("e")];
            let c = x.name(l("a")).name(l("b")).finish();
            check(c.name.as_ref().map(|n| &n.value[..]) == Some(&l("b")[..]), 7);
            c
        }
        12 => {
            let a = |y: &str| {
                adr(|a| {
                    a.street_address = Some(v.clone());
                    a.region = Some(st(y));
                    a.postal_code = Some(st(y));
                })
            };
            let c = x.address(a("1")).address(a("2")).address(a("1")).finish();
            check(c.address.len() == 3 && c.address[0].value == a("1") && c.address[1].value == a("2") && c.address[2].value == a("1"), 8);
            c
        }
        _ => {
            let l = |y: &str| match ty::lang(st(y)) {
                Some(l) => l,
                None => fail(9),
            };
            let c = x.lang(l("en")).lang(l("de")).lang(l("en")).finish();
            check(c.lang.len() == 3 && ty::str(&c.lang[0].value) == "en" && ty::str(&c.lang[1].value) == "de" && ty::str(&c.lang[2].value) == "en", 9);
            c
        }
    };
    kept(&c);
});
