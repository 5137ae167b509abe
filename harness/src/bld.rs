//! Builder -> text -> parse.
use crate::common::*;
use crate::entry;
use crate::sym::*;
use vcard4::property::*;
use vcard4::{Uri, Vcard, VcardBuilder};

pub const FIELDS: &[&str] = &[
    "new", "formatted_name", "nickname", "xml", "telephone", "email", "timezone", "title", "role", "note", "prod_id", "lang",
    "name0", "name1", "name2", "name3", "name4", "org0", "org1", "categories0", "categories1",
    "po_box", "extended_address", "street_address", "locality", "region", "postal_code", "country_name", "gender", "ext", "photo-text", "uid-text", "key-text", "related-text", "bday-text", "gender-set",
];
fn st(v: &str) -> String {
    v.to_string()
}
pub fn adr(f: impl FnOnce(&mut DeliveryAddress)) -> DeliveryAddress {
    let mut a = DeliveryAddress::default();
    f(&mut a);
    a
}
pub fn set(k: usize, v: &str) -> Vcard {
    let b = VcardBuilder::new(st("x"));
    let nm = |i: usize| {
        let mut a = [st("f"), st("g"), st("h"), st("p"), st("s")];
        a[i] = st(v);
        a
    };
    let e = || Some(st(v));
    match k {
        0 => VcardBuilder::new(st(v)).finish(),
        1 => b.formatted_name(st(v)).finish(),
        2 => b.nickname(st(v)).finish(),
        3 => b.xml(st(v)).finish(),
        4 => b.telephone(st(v)).finish(),
        5 => b.email(st(v)).finish(),
        6 => b.timezone(st(v)).finish(),
        7 => b.title(st(v)).finish(),
        8 => b.role(st(v)).finish(),
        9 => b.note(st(v)).finish(),
        10 => b.prod_id(st(v)).finish(),
        11 => match ty::lang(st(v)) {
            Some(l) => b.lang(l).finish(),
            None => b.finish(),
        },
        12..=16 => b.name(nm(k - 12)).finish(),
        17 => b.org(vec![st(v), st("u")]).finish(),
        18 => b.org(vec![st("o"), st(v)]).finish(),
        19 => b.categories(vec![st(v), st("u")]).finish(),
        20 => b.categories(vec![st("o"), st(v)]).finish(),
        21 => b.address(adr(|a| { a.po_box = e(); })).finish(),
        22 => b.address(adr(|a| { a.extended_address = e(); a.region = Some(st("r")); })).finish(),
        23 => b.address(adr(|a| { a.street_address = e(); })).finish(),
        24 => b.address(adr(|a| { a.locality = e(); a.country_name = Some(st("c")); })).finish(),
        25 => b.address(adr(|a| { a.region = e(); })).finish(),
        26 => b.address(adr(|a| { a.postal_code = e(); })).finish(),
        27 => b.address(adr(|a| { a.country_name = e(); })).finish(),
        28 => {
            let mut c = b.gender("M;x").finish();
            c.gender.as_mut().unwrap().value.identity = e();
            c
        }
        29 => {
            let mut c = b.finish();
            c.extensions.push(ExtensionProperty { name: st("X-A"), group: None, value: AnyProperty::Text(st(v)), parameters: None });
            c
        }
        30 => {
            let mut c = b.finish();
            c.photo.push(st(v).into());
            c
        }
        31 => {
            let mut c = b.finish();
            c.uid = Some(st(v).into());
            c
        }
        32 => {
            let mut c = b.finish();
            c.key.push(st(v).into());
            c
        }
        33 => {
            let mut c = b.finish();
            c.related.push(st(v).into());
            c
        }
        35 => b.gender(&["O;", &v.replace('\\', "\\\\").replace('\n', "\\n")].concat()).finish(),
        _ => {
            let mut c = b.finish();
            let mut t: TextProperty = st(v).into();
            let mut p = vcard4::parameter::Parameters::default();
            p.value = Some(vcard4::parameter::ValueType::Text);
            t.parameters = Some(p);
            c.bday = Some(DateTimeOrTextProperty::Text(t));
            c
        }
    }
}
fn txt(t: &TextOrUriProperty) -> Option<&str> {
    match t {
        TextOrUriProperty::Text(t) => Some(&t.value),
        _ => None,
    }
}
fn get(k: usize, c: &Vcard) -> Option<&str> {
    Some(match k {
        0 => &c.formatted_name.first()?.value,
        1 => &c.formatted_name.get(1)?.value,
        2 => &c.nickname.first()?.value,
        3 => &c.xml.first()?.value,
        4 => txt(c.tel.first()?)?,
        5 => &c.email.first()?.value,
        6 => match c.timezone.first()? {
            TimeZoneProperty::Text(t) => &t.value,
            _ => return None,
        },
        7 => &c.title.first()?.value,
        8 => &c.role.first()?.value,
        9 => &c.note.first()?.value,
        10 => &c.prod_id.as_ref()?.value,
        11 => ty::str(&c.lang.first()?.value),
        12..=16 => c.name.as_ref()?.value.get(k - 12)?,
        17 => c.org.first()?.value.first()?,
        18 => c.org.first()?.value.get(1)?,
        19 => c.categories.first()?.value.first()?,
        20 => c.categories.first()?.value.get(1)?,
        21 => c.address.first()?.value.po_box.as_ref()?,
        22 => c.address.first()?.value.extended_address.as_ref()?,
        23 => c.address.first()?.value.street_address.as_ref()?,
        24 => c.address.first()?.value.locality.as_ref()?,
        25 => c.address.first()?.value.region.as_ref()?,
        26 => c.address.first()?.value.postal_code.as_ref()?,
        27 => c.address.first()?.value.country_name.as_ref()?,
        28 | 35 => c.gender.as_ref()?.value.identity.as_ref()?,
        29 => match &c.extensions.first()?.value {
            AnyProperty::Text(t) => t,
            _ => return None,
        },
        30 => txt(c.photo.first()?)?,
        31 => txt(c.uid.as_ref()?)?,
        32 => txt(c.key.first()?)?,
        33 => txt(c.related.first()?)?,
        _ => match c.bday.as_ref()? {
            DateTimeOrTextProperty::Text(t) => &t.value,
            _ => return None,
        },
    })
}
/// A text with a symbolic part: any printable ASCII, tab or line feed, or a multibyte character.
pub fn text(n: usize, multibyte: bool) -> Vec<u8> {
    let shape = choose(if multibyte { 2 + UCHARS } else { 2 });
    let mut v = vec![];
    if shape == 0 || shape >= 2 {
        v.push(b'a');
    }
    if shape < 2 {
        let b = ascii(n);
        for c in &b {
            assume(*c >= 0x20 && *c != 0x7f || *c == b'\t' || *c == b'\n');
        }
        v.extend_from_slice(&b);
    } else {
        v.extend_from_slice(&uchar(shape - 2));
    }
    if shape == 0 || shape >= 2 {
        v.push(b'b');
    }
    v
}
fn go(n: usize, multibyte: bool, lo: usize, hi: usize) {
    warm();
    let k = lo + choose(hi - lo);
    label(FIELDS[k]);
    // the URI and language tag parsers are expensive on symbolic input
    let n = if k == 4 || k == 6 || (30..=33).contains(&k) { 1 } else { n };
    let v = text(n, multibyte);
    // text that is a valid URI is read back as a URI by these properties
    if k == 4 || (30..=33).contains(&k) {
        for c in &v {
            assume(*c != b':');
        }
    }
    let v = s(v);
    let c = set(k, &v);
    check(get(k, &c) == Some(&v[..]), 1);
    let t = c.to_string();
    observe(t.as_bytes());
    match vcard4::parse(&t) {
        Ok(d) => {
            check(d.len() == 1, 3);
            check(get(k, &d[0]) == Some(&v[..]), 4);
            check(d[0] == c, 5);
            reach(1);
        }
        Err(_) => fail(2),
    }
}
entry!(h_bld_text, { go(2, false, 0, 12) });
entry!(h_bld_struct, { go(2, false, 12, FIELDS.len()) });
entry!(h_bld_uni, { go(1, true, 0, FIELDS.len()) });

fn uri(x: &str, b: &str) -> Uri {
    let mut u = String::from("urn:x:");
    u.push_str(x);
    u.push_str(b);
    match u.parse() {
        Ok(u) => u,
        Err(_) => fail(9),
    }
}
fn us(u: &UriProperty) -> String {
    u.value.to_string()
}
fn ts(u: &TextOrUriProperty) -> String {
    match u {
        TextOrUriProperty::Uri(u) => u.value.to_string(),
        _ => fail(8),
    }
}
// every URI setter stores the value in its own property
entry!(h_bld_uri, {
    warm();
    let b = ascii(1);
    for c in &b {
        assume(c.is_ascii_alphanumeric());
    }
    let b = s(b);
    let b = &b[..];
    let c = VcardBuilder::new("x".into())
        .kind(Kind::Group)
        .source(uri("so", b)).photo(uri("ph", b)).impp(uri("im", b)).geo(uri("ge", b)).logo(uri("lo", b)).member(uri("me", b))
        .related(uri("re", b)).sound(uri("sn", b)).uid(uri("ui", b)).url(uri("ur", b)).key(uri("ke", b)).fburl(uri("fb", b))
        .cal_adr_uri(uri("ca", b)).cal_uri(uri("cu", b))
        .source(uri("so2", b)).url(uri("ur2", b))
        .finish();
    let t = c.to_string();
    observe(t.as_bytes());
    let Ok(d) = vcard4::parse(&t) else { fail(2) };
    check(d.len() == 1 && d[0] == c, 5);
    let d = &d[0];
    let want = |x: &str, got: String, code: u32| check(got == format!("urn:x:{x}{b}"), code);
    check(d.source.len() == 2 && d.url.len() == 2 && d.photo.len() == 1 && d.impp.len() == 1 && d.geo.len() == 1 && d.logo.len() == 1, 10);
    check(d.member.len() == 1 && d.related.len() == 1 && d.sound.len() == 1 && d.key.len() == 1 && d.fburl.len() == 1 && d.cal_adr_uri.len() == 1 && d.cal_uri.len() == 1, 11);
    want("so", us(&d.source[0]), 20);
    want("so2", us(&d.source[1]), 20);
    want("ur", us(&d.url[0]), 21);
    want("ur2", us(&d.url[1]), 21);
    want("ph", ts(&d.photo[0]), 22);
    want("im", us(&d.impp[0]), 23);
    want("ge", us(&d.geo[0]), 24);
    want("lo", us(&d.logo[0]), 25);
    want("me", us(&d.member[0]), 26);
    want("re", ts(&d.related[0]), 27);
    want("sn", us(&d.sound[0]), 28);
    want("ui", ts(d.uid.as_ref().unwrap()), 29);
    want("ke", ts(&d.key[0]), 30);
    want("fb", us(&d.fburl[0]), 31);
    want("ca", us(&d.cal_adr_uri[0]), 32);
    want("cu", us(&d.cal_uri[0]), 33);
    check(d.kind.as_ref().map(|k| &k.value) == Some(&Kind::Group), 34);
    reach(1);
});
