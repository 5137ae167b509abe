//! Decoding of text and structured values.
use crate::common::*;
use crate::entry;
use crate::refs;
use crate::sym::*;
use vcard4::property::*;
use vcard4::Vcard;

fn raw(n: usize) -> Vec<u8> {
    let b = ascii(n);
    no_ctl(&b);
    b
}
fn eqv(a: &[String], r: &[Vec<u8>], code: u32) {
    check(a.len() == r.len(), code);
    for i in 0..r.len() {
        check(a[i].as_bytes() == &r[i][..], code);
    }
}
const TEXTS: &[T] = &[
    ("FN", "FN:@"),
    ("NICKNAME", "FN:x|NICKNAME:@"),
    ("TITLE", "FN:x|TITLE:@"),
    ("ROLE", "FN:x|ROLE:@"),
    ("NOTE", "FN:x|NOTE:@"),
    ("EMAIL", "FN:x|EMAIL:@"),
    ("PRODID", "FN:x|PRODID:@"),
    ("XML", "FN:x|XML:@"),
    ("TZ", "FN:x|TZ:@"),
    ("X-", "FN:x|X-FOO:@"),
    ("BDAY", "FN:x|BDAY;VALUE=text:@"),
    ("ANNIVERSARY", "FN:x|ANNIVERSARY;VALUE=text:@"),
    ("TEL", "FN:x|TEL;VALUE=text:@"),
    ("UID", "FN:x|UID;VALUE=text:@"),
    ("RELATED", "FN:x|RELATED;VALUE=text:@"),
    ("KEY", "FN:x|KEY;VALUE=text:@"),
    ("LANG", "FN:x|LANG:@"),
];
fn tu(t: &TextOrUriProperty) -> Option<&str> {
    match t {
        TextOrUriProperty::Text(t) => Some(&t.value),
        _ => None,
    }
}
fn dt(t: &DateTimeOrTextProperty) -> Option<&str> {
    match t {
        DateTimeOrTextProperty::Text(t) => Some(&t.value),
        _ => None,
    }
}
fn get(k: usize, c: &Vcard) -> Option<&str> {
    Some(match k {
        0 => &c.formatted_name.first()?.value,
        1 => &c.nickname.first()?.value,
        2 => &c.title.first()?.value,
        3 => &c.role.first()?.value,
        4 => &c.note.first()?.value,
        5 => &c.email.first()?.value,
        6 => &c.prod_id.as_ref()?.value,
        7 => &c.xml.first()?.value,
        8 => match c.timezone.first()? {
            TimeZoneProperty::Text(t) => &t.value,
            _ => return None,
        },
        9 => match &c.extensions.first()?.value {
            AnyProperty::Text(t) => t,
            _ => return None,
        },
        10 => dt(c.bday.as_ref()?)?,
        11 => dt(c.anniversary.as_ref()?)?,
        12 => tu(c.tel.first()?)?,
        13 => tu(c.uid.as_ref()?)?,
        14 => tu(c.related.first()?)?,
        15 => tu(c.key.first()?)?,
        _ => ty::str(&c.lang.first()?.value),
    })
}
fn text(n: usize, suffix: bool) {
    warm();
    let k = choose(TEXTS.len());
    label(TEXTS[k].0);
    let mut b = raw(n);
    if suffix && choose(2) == 1 {
        b.push(b'n');
    }
    let want = refs::decode_text(&b);
    let src = doct(TEXTS[k].1, &b);
    let Some(c) = one(&src) else { fail(1) };
    let g = get(k, &c);
    check(g.is_some(), 2);
    observe(g.unwrap().as_bytes());
    check(g.unwrap().as_bytes() == &want[..], 3);
    reach(1);
}
entry!(h_dec_text, { text(2, true) });
entry!(h_dec_text3, { text(3, false) });

const LISTS: &[T] = &[
    ("N", "FN:x|N:@"),
    ("N;", "FN:x|N:a;@;c;d;e"),
    ("ORG", "FN:x|ORG:@"),
    ("ORG;", "FN:x|ORG:a;@"),
    ("CATEGORIES", "FN:x|CATEGORIES:@"),
    ("CATEGORIES,", "FN:x|CATEGORIES:a,@\\,b"),
];
fn list(n: usize) {
    warm();
    let k = choose(LISTS.len());
    label(LISTS[k].0);
    let b = raw(n);
    let line = fill(LISTS[k].1, &b);
    let mut p = 0;
    for i in 6..line.len() {
        if line[i] == b':' {
            p = i + 1;
            break;
        }
    }
    let (d, other) = if k < 4 { (b';', b',') } else { (b',', b';') };
    let _ = other;
    let want = refs::decode(&line[p..], d, usize::MAX);
    let Some(c) = one(&doc(&line)) else { fail(1) };
    let got = match k {
        0 | 1 => &c.name.as_ref().unwrap_or_else(|| fail(2)).value,
        2 | 3 => &c.org.first().unwrap_or_else(|| fail(2)).value,
        _ => &c.categories.first().unwrap_or_else(|| fail(2)).value,
    };
    for g in got {
        observe(g.as_bytes());
    }
    eqv(got, &want, 3);
    reach(1);
}
entry!(h_dec_list, { list(3) });
entry!(h_dec_list2, { list(2) });
entry!(h_dec_list4, { list(4) });

fn adr(n: usize) {
    warm();
    // position of the symbolic part among the separators
    const A: &[T] = &[("0", "@;;;;;;"), ("2", ";;@;L;;;C"), ("6", "a;b;c;d;e;f;@"), ("short", "a;b;c;d;e@"), ("exact", ";;;;;@")];
    let k = choose(A.len());
    label(A[k].0);
    let b = raw(n);
    let line = fill(A[k].1, &b);
    let want = refs::decode(&line, b';', 7);
    let mut l = b"FN:x\r\nADR:".to_vec();
    l.extend_from_slice(&line);
    let r = vcard4::parse(&doc(&l));
    if want.len() < 7 {
        check(r.is_err(), 4);
        reach(2);
        return;
    }
    let Ok(r) = r else { fail(1) };
    check(r.len() == 1 && r[0].address.len() == 1, 2);
    let a = &r[0].address[0].value;
    let got = [&a.po_box, &a.extended_address, &a.street_address, &a.locality, &a.region, &a.postal_code, &a.country_name];
    for i in 0..7 {
        match got[i] {
            None => check(want[i].is_empty(), 3),
            Some(g) => {
                observe(g.as_bytes());
                check(!want[i].is_empty() && g.as_bytes() == &want[i][..], 3)
            }
        }
    }
    reach(1);
}
entry!(h_dec_adr, { adr(2) });
entry!(h_dec_adr3, { adr(3) });

fn gender(n: usize) {
    warm();
    const A: &[T] = &[("sex", "@"), ("identity", "M;@"), ("identity2", ";a@"), ("sex;", "@;x")];
    let k = choose(A.len());
    label(A[k].0);
    let b = raw(n);
    let line = fill(A[k].1, &b);
    let want = refs::decode(&line, b';', 2);
    let mut l = b"FN:x\r\nGENDER:".to_vec();
    l.extend_from_slice(&line);
    let sex = match &want[0][..] {
        b"" => Some(Sex::None),
        b"M" => Some(Sex::Male),
        b"F" => Some(Sex::Female),
        b"O" => Some(Sex::Other),
        b"N" => Some(Sex::NotApplicable),
        b"U" => Some(Sex::Unknown),
        _ => None,
    };
    let r = vcard4::parse(&doc(&l));
    let Some(sex) = sex else {
        check(r.is_err(), 4);
        reach(2);
        return;
    };
    let Ok(r) = r else { fail(1) };
    let g = r[0].gender.as_ref().unwrap_or_else(|| fail(2));
    check(g.value.sex == sex, 3);
    if want.len() == 2 {
        check(g.value.identity.as_ref().map(|x| x.as_bytes()) == Some(&want[1][..]), 5);
    } else {
        check(g.value.identity.is_none(), 6);
    }
    reach(1);
}
entry!(h_dec_gender, { gender(2) });
