//! The crate's optional value types: language tags and media types.
use crate::common::*;
use crate::entry;
use crate::json::{json, warm_json};
use crate::rt::rt;
use crate::sym::*;
use language_tags::LanguageTag;
use mime::Mime;
use vcard4::parameter::Parameters;
use vcard4::property::*;
use vcard4::{Vcard, VcardBuilder};

const LANGS: &[&str] = &["", "e", "en", "en-", "en-US", "zh-Hant-TW", "de-CH-1901", "x-ab", "en-x-", "i-klingon", "sgn-BE-FR", "en-a-bc", "zh-cmn-", "123", "EN-us"];
const MIMES: &[&str] = &["a/b", "", "image", "image/", "image/svg+xml", "a/b;c=d", "a/b; charset=utf-8", "a/b;c=D;e=", "Text/Plain", "*/*", "a/b; c=\"d e\""];

/// A symbolic text: a template with characters inserted anywhere.
fn insert(ts: &[&'static str], n: usize) -> String {
    let i = choose(ts.len());
    label(ts[i]);
    let t = ts[i].as_bytes();
    let b = ascii(n);
    no_ctl(&b);
    let p = choose(t.len() + 1);
    s([&t[..p], &b[..], &t[p..]].concat())
}
/// Characters that have a meaning of their own in a vCard.
fn plain(t: &str, quoted: bool) {
    for c in t.bytes() {
        assume(c != b'\\' && c != b'"' && c != b'^' && (quoted || c != b';' && c != b':' && c != b','));
    }
}
/// 1: a malformed value is accepted, 2: a well-formed one is refused, 3: another value is stored,
/// 4: a malformed one is kept or takes other properties with it in loose mode
fn decide<V: PartialEq>(src: &str, want: Option<V>, get: fn(&Vcard) -> Option<&V>, skipped: fn(&Vcard) -> bool) {
    observe(src.as_bytes());
    match (vcard4::parse(src), &want) {
        (Ok(c), Some(v)) => {
            check(c.len() == 1 && get(&c[0]) == Some(v), 3);
            reach(1);
        }
        (Ok(_), None) => fail(1),
        (Err(e), None) => {
            let _ = e.to_string();
            reach(2);
        }
        (Err(_), Some(_)) => fail(2),
    }
    match vcard4::parse_loose(src) {
        Ok(c) => match &want {
            Some(v) => check(c.len() == 1 && get(&c[0]) == Some(v), 3),
            None => check(c.len() == 1 && skipped(&c[0]) && c[0].title.len() == 1, 4),
        },
        Err(_) => fail(4),
    }
}
fn warm_feat() {
    warm_json();
    let _ = vcard4::parse("BEGIN:VCARD\nVERSION:4.0\nFN;LANGUAGE=en-US:a\nLANG:zh-Hant\nPHOTO;MEDIATYPE=a/b:u:a\nEND:VCARD\n").map(|c| c[0].to_string());
}
fn lang(n: usize) {
    warm_feat();
    let t = insert(LANGS, n);
    let k = choose(5);
    plain(&t, false);
    let want = t.parse::<LanguageTag>().ok();
    match k {
        0 => decide(&doct("FN:a|LANG:@|TITLE:b", t.as_bytes()), want, |c| c.lang.first().map(|l| &l.value), |c| c.lang.is_empty()),
        1 => decide(&doct("FN:a|NOTE;LANGUAGE=@:x|TITLE:b", t.as_bytes()), want, |c| c.note.first().and_then(|n| n.parameters.as_ref()?.language.as_ref()), |c| c.note.is_empty()),
        2 => decide(&doct("FN:a|ADR;LANGUAGE=\"@\":;;;;;;|TITLE:b", t.as_bytes()), want, |c| c.address.first().and_then(|n| n.parameters.as_ref()?.language.as_ref()), |c| c.address.is_empty()),
        3 => decide(&doct("FN:a|LANG;PREF=1;VALUE=language-tag:@|TITLE:b", t.as_bytes()), want, |c| c.lang.first().map(|l| &l.value), |c| c.lang.is_empty()),
        _ => decide(
            &doct("FN:a|X-A;VALUE=language-tag:@|TITLE:b", t.as_bytes()),
            want,
            |c| match &c.extensions.first()?.value {
                AnyProperty::Language(v) => Some(v),
                _ => None,
            },
            |c| c.extensions.is_empty(),
        ),
    }
}
// What is accepted, and as which value.
entry!(h_feat_lang, { lang(1) });
entry!(h_feat_lang2, { lang(2) });
fn media(n: usize) {
    warm_feat();
    let t = insert(MIMES, n);
    let k = choose(4);
    plain(&t, k == 1 || k == 3);
    let want = t.parse::<Mime>().ok();
    match k {
        0 => decide(&doct("FN:a|PHOTO;MEDIATYPE=@:u:a|TITLE:b", t.as_bytes()), want, |c| mt(c.photo.first()), |c| c.photo.is_empty()),
        1 => decide(&doct("FN:a|LOGO;MEDIATYPE=\"@\";PREF=1:u:a|TITLE:b", t.as_bytes()), want, |c| c.logo.first().and_then(|u| u.parameters.as_ref()?.media_type.as_ref()), |c| c.logo.is_empty()),
        2 => decide(&doct("FN:a|URL;MEDIATYPE=@:u:a|TITLE:b", t.as_bytes()), want, |c| c.url.first().and_then(|u| u.parameters.as_ref()?.media_type.as_ref()), |c| c.url.is_empty()),
        _ => decide(&doct("FN:a|X-A;MEDIATYPE=\"@\":a|TITLE:b", t.as_bytes()), want, |c| c.extensions.first().and_then(|u| u.parameters.as_ref()?.media_type.as_ref()), |c| c.extensions.is_empty()),
    }
}
fn mt(p: Option<&TextOrUriProperty>) -> Option<&Mime> {
    match p? {
        TextOrUriProperty::Uri(u) => u.parameters.as_ref()?.media_type.as_ref(),
        TextOrUriProperty::Text(u) => u.parameters.as_ref()?.media_type.as_ref(),
    }
}
entry!(h_feat_media, { media(1) });
entry!(h_feat_media2, { media(2) });

// Values set by the application survive printing and JSON.
fn params(l: Option<LanguageTag>, m: Option<Mime>) -> Parameters {
    let mut p = Parameters::default();
    p.language = l;
    p.media_type = m;
    p
}
fn carry(t: &str, k: usize) {
    let mut b = VcardBuilder::new("a".into());
    if k < 3 {
        let Ok(l) = t.parse::<LanguageTag>() else { return };
        match k {
            0 => b = b.lang(l),
            1 => b = b.note("x".into()),
            _ => b = b.title("x".into()),
        }
        let mut c = b.finish();
        let l = t.parse::<LanguageTag>().ok();
        match k {
            0 => {}
            1 => c.note[0].parameters = Some(params(l, None)),
            _ => c.title[0].parameters = Some(params(l, None)),
        }
        out(&c);
    } else {
        let Ok(m) = t.parse::<Mime>() else { return };
        // (a parameter value cannot hold a quote)
        assume(!t.bytes().any(|c| c == b'"'));
        // (a few texts are printed by the mime crate so that it reads them differently)
        if m.to_string().parse::<Mime>().ok().as_ref() != Some(&m) {
            return;
        }
        let Ok(u) = "u:a".parse::<vcard4::Uri>() else { fail(7) };
        let mut c = b.url(u).finish();
        c.url[0].parameters = Some(params(None, Some(m)));
        out(&c);
    }
}
/// 10: the printed card does not parse, 11: it parses to another card
fn out(c: &Vcard) {
    let t = c.to_string();
    observe(t.as_bytes());
    match one(&t) {
        Some(d) => check(*c == d, 11),
        None => fail(10),
    }
    json(c);
    reach(3);
}
entry!(h_feat_carry, {
    warm_feat();
    let k = choose(4);
    let t = insert(if k < 3 { LANGS } else { MIMES }, 1);
    carry(&t, k);
});
entry!(h_feat_carry2, {
    warm_feat();
    let k = choose(4);
    let t = insert(if k < 3 { LANGS } else { MIMES }, 2);
    carry(&t, k);
});
const TEMPLATES: &[T] = &[
    ("LANG", "FN:a|LANG:en@"),
    ("LANG-esc", "FN:a|LANG:@en"),
    ("LANGUAGE", "FN;LANGUAGE=@:a"),
    ("LANGUAGE-quoted", "FN;LANGUAGE=\"en-@\":a"),
    ("X-language", "FN:a|X-A;VALUE=language-tag;LANGUAGE=en:@en"),
    ("MEDIATYPE", "FN:a|PHOTO;MEDIATYPE=image/@:http://a/"),
    ("MEDIATYPE-par", "FN:a|PHOTO;MEDIATYPE=\"a/b;c=@\":http://a/"),
    ("MEDIATYPE-par2", "FN:a|PHOTO;MEDIATYPE=\"a/b;c=^'@^'\":http://a/"),
    ("MEDIATYPE-ext", "FN:a|X-A;MEDIATYPE=@/b:a"),
    ("MEDIATYPE-date", "FN:a|BDAY;VALUE=text;MEDIATYPE=a/@b:a"),
];
// What is parsed survives printing and JSON.
entry!(h_feat_rt, {
    warm_feat();
    let t = pick(TEMPLATES);
    let b = ascii(2);
    no_ctl(&b);
    rt(&doct(t, &b));
});
entry!(h_feat_json, {
    warm_feat();
    let t = pick(TEMPLATES);
    let b = ascii(1);
    no_ctl(&b);
    if let Some(c) = one(&doct(t, &b)) {
        json(&c);
    }
});
