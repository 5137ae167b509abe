//! Parse -> print -> parse.
use crate::common::*;
use crate::entry;
use crate::sym::*;

pub const TEXT: &[T] = &[
    ("FN", "FN:@"),
    ("NICKNAME", "FN:x|NICKNAME:@"),
    ("XML", "FN:x|XML:@"),
    ("TITLE", "FN:x|TITLE:@"),
    ("ROLE", "FN:x|ROLE:a@"),
    ("NOTE", "FN:x|NOTE:a@b"),
    ("EMAIL", "FN:x|EMAIL:@"),
    ("PRODID", "FN:x|PRODID:@"),
    ("TZ", "FN:x|TZ:@"),
    ("LANG", "FN:x|LANG:@"),
    ("X-", "FN:x|X-A:@"),
    ("X-text", "FN:x|X-A;VALUE=text:@"),
    ("X-lang", "FN:x|X-A;VALUE=language-tag:@"),
    ("BDAY-text", "FN:x|BDAY;VALUE=text:@"),
    ("ANN-text", "FN:x|ANNIVERSARY;VALUE=text:@"),
];
pub const STRUCT: &[T] = &[
    ("N", "FN:x|N:@"),
    ("N2", "FN:x|N:a;@;b;;"),
    ("ORG", "FN:x|ORG:a@b"),
    ("CATEGORIES", "FN:x|CATEGORIES:a@b"),
    ("ADR0", "FN:x|ADR:@;;;;;;"),
    ("ADR2", "FN:x|ADR:;;a@b;L;R;P;C"),
    ("ADR6", "FN:x|ADR:;;;;;;a@b"),
    ("ADR5", "FN:x|ADR:;;;;;@"),
    ("GENDER", "FN:x|GENDER:@"),
    ("GENDER-id", "FN:x|GENDER:M;@"),
    ("GENDER-id2", "FN:x|GENDER:;@"),
    ("KIND", "FN:x|KIND:o@g"),
    ("CLIENTPIDMAP", "FN:x|CLIENTPIDMAP:@;urn:a"),
];
pub const URIS: &[T] = &[
    ("URL2", "FN:x|URL:http://h/@"),
    ("URL3", "FN:x|URL:http://a@b/"),
    ("URL4", "FN:x|URL:http://h/?a@#b"),
    ("SOURCE", "FN:x|SOURCE:s:@"),
    ("IMPP", "FN:x|IMPP:x:@"),
    ("GEO", "FN:x|GEO:geo:1@2"),
    ("LOGO", "FN:x|LOGO:h:@"),
    ("MEMBER", "FN:x|KIND:group|MEMBER:u:@"),
    ("SOUND", "FN:x|SOUND:u:@"),
    ("FBURL", "FN:x|FBURL:u:@"),
    ("CALADRURI", "FN:x|CALADRURI:u:@"),
    ("CALURI", "FN:x|CALURI:u:@"),
    ("TZ-uri", "FN:x|TZ;VALUE=uri:u:@"),
    ("X-uri", "FN:x|X-A;VALUE=uri:u:@"),
    ("TEL2", "FN:x|TEL:tel:@"),
    ("TEL-uri", "FN:x|TEL;VALUE=uri:t:@"),
    ("TEL-text", "FN:x|TEL;VALUE=text:t:@"),
];
pub const SCHEMES: &[T] = &[
    ("CLIENTPIDMAP2", "FN:x|CLIENTPIDMAP:1;u@n:a"),
    ("URL", "FN:x|URL:@:a"),
    ("TEL", "FN:x|TEL:t@l:1"),
    ("UID", "FN:x|UID:urn@1"),
    ("RELATED", "FN:x|RELATED:a@b"),
    ("KEY", "FN:x|KEY:a@b"),
    ("PHOTO", "FN:x|PHOTO:d@a"),
];
pub fn rt(src: &str) {
    if let Ok(cards) = vcard4::parse(src) {
        reach(1);
        for c in &cards {
            let t = c.to_string();
            observe(t.as_bytes());
            match vcard4::parse(&t) {
                Ok(d) => {
                    check(d.len() == 1, 2);
                    check(c == &d[0], 1);
                }
                Err(_) => fail(3),
            }
        }
    }
}
fn go(ts: &[T], n: usize) {
    warm();
    let t = pick(ts);
    let b = ascii(n);
    rt(&doct(t, &b));
}
entry!(h_rt_text, { go(TEXT, 2) });
entry!(h_rt_struct, { go(STRUCT, 2) });
entry!(h_rt_uri, { go(URIS, 2) });
entry!(h_rt_text3, { go(TEXT, 3) });
entry!(h_rt_scheme, { go(SCHEMES, 1) });
entry!(h_rt_scheme2, { go(SCHEMES, 2) });
// typed values and parameters
fn typed(ts: &[T], n: usize) {
    warm();
    let t = pick(ts);
    let b = ascii(n);
    no_ctl(&b);
    rt(&doct(t, &b));
}
entry!(h_rt_typed, { typed(crate::json::TYPED, 1) });
entry!(h_rt_typed2, { typed(crate::json::TYPED, 2) });
entry!(h_rt_param, { typed(crate::json::PARAMS, 2) });
