//! Dropped cards leave no secret text in the memory they release.
use crate::common::*;
use crate::entry;
use crate::sym::*;
use vcard4::Vcard;

/// In mode 1 releasing a block that still holds secret text is a failure: the executor
/// looks for symbolic bytes, the native allocator for the QZQ and JXJ around them.
fn release(c: Vcard) {
    reach(1);
    mode(1);
    drop(c);
    mode(0);
}
fn letter() -> u8 {
    let b = bytes(1)[0];
    assume(b >= b'a' && b <= b'z');
    b
}
fn secret(n: usize) -> Vec<u8> {
    let mut v = b"QZQ".to_vec();
    v.push(letter());
    let b = ascii(n);
    no_ctl(&b);
    v.extend_from_slice(&b);
    v.extend_from_slice(b"JXJ");
    v
}
fn word() -> Vec<u8> {
    let mut v = b"QZQ".to_vec();
    v.push(letter());
    v.extend_from_slice(b"JXJ");
    v
}
fn parsed(t: &str, b: &[u8]) {
    let src = doct(t, b);
    let c = one(&src);
    std::mem::forget(src);
    if let Some(c) = c {
        release(c);
    }
}
const VALUES: &[T] = &[
    ("FN", "FN:@"),
    ("XML", "FN:a|XML:@"),
    ("N0", "FN:a|N:@;b;c;d;e"),
    ("N4", "FN:a|N:a;b;c;d;@"),
    ("NICKNAME", "FN:a|NICKNAME:@"),
    ("PHOTO", "FN:a|PHOTO: @"),
    ("BDAY", "FN:a|BDAY;VALUE=text:@"),
    ("ANNIVERSARY", "FN:a|ANNIVERSARY;VALUE=text:@"),
    ("GENDER", "FN:a|GENDER:M;@"),
    ("ADR0", "FN:a|ADR:@;;;;;;"),
    ("ADR1", "FN:a|ADR:;@;;;;;"),
    ("ADR2", "FN:a|ADR:a;b;@;d;e;f;g"),
    ("ADR3", "FN:a|ADR:;;;@;;;"),
    ("ADR4", "FN:a|ADR:;;;;@;;"),
    ("ADR5", "FN:a|ADR:a;b;c;d;e;@;g"),
    ("ADR6", "FN:a|ADR:;;;;;;@"),
    ("TEL", "FN:a|TEL;VALUE=text:@"),
    ("TEL2", "FN:a|TEL: @"),
    ("EMAIL", "FN:a|EMAIL:@"),
    ("TZ", "FN:a|TZ:@"),
    ("TZ2", "FN:a|TZ;VALUE=text:@"),
    ("TITLE", "FN:a|TITLE:@"),
    ("ROLE", "FN:a|ROLE:@"),
    ("ORG0", "FN:a|ORG:@;b"),
    ("ORG1", "FN:a|ORG:a;@"),
    ("RELATED", "FN:a|RELATED;VALUE=text:@"),
    ("CATEGORIES", "FN:a|CATEGORIES:@,b"),
    ("CATEGORIES1", "FN:a|CATEGORIES:a,@"),
    ("NOTE", "FN:a|NOTE:@"),
    ("NOTE2", "FN:a|NOTE:first|NOTE:@|NOTE:third"),
    ("NOTE-LONG", "FN:a|NOTE:@ and a longer text so that the value is not short and @ stands inside it as well and at the end: @"),
    ("NOTE-5", "FN:a|NOTE:@|NOTE:a|NOTE:b|NOTE:@|NOTE:@"),
    ("NOTE-300", "FN:a|NOTE:a longer text so that the value is not short and 0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789 @"),
    ("ORG-6", "FN:a|ORG:a;b;c;d;@;f;@"),
    ("CATEGORIES-6", "FN:a|CATEGORIES:a,b,c,d,@,f,@"),
    ("EMAIL-TEL", "FN:a|EMAIL:a|EMAIL:@|EMAIL:c|TEL: @|TEL: a|TEL: @|FN:b|FN:@"),
    ("all", "FN:@|N:@;@;@;@;@|NICKNAME:@|GENDER:F;@|ADR:@;@;@;@;@;@;@|EMAIL:@|TITLE:@|ORG:@;@|CATEGORIES:@,@|NOTE:@|PRODID:@|X-A:@|X-B:@"),
    ("PRODID", "FN:a|PRODID:@"),
    ("UID", "FN:a|UID;VALUE=text:@"),
    ("KEY", "FN:a|KEY;VALUE=text:@"),
    ("X-A", "FN:a|X-A:@"),
    ("X-A-text", "FN:a|X-A;VALUE=text:@"),
];
entry!(h_zero_value, {
    warm();
    let t = pick(VALUES);
    parsed(t, &secret(1));
});
entry!(h_zero_value2, {
    warm();
    let t = pick(VALUES);
    parsed(t, &secret(2));
});
const GROUPS: &[T] = &[
    ("SOURCE", "FN:a|@.SOURCE:http://a/"),
    ("KIND", "FN:a|@.KIND:org"),
    ("XML", "FN:a|@.XML:a"),
    ("FN", "@.FN:a"),
    ("N", "FN:a|@.N:a;b;c;d;e"),
    ("NICKNAME", "FN:a|@.NICKNAME:a"),
    ("PHOTO", "FN:a|@.PHOTO:http://a/"),
    ("PHOTO-text", "FN:a|@.PHOTO: a"),
    ("BDAY", "FN:a|@.BDAY:20000101"),
    ("BDAY-text", "FN:a|@.BDAY;VALUE=text:a"),
    ("ANNIVERSARY", "FN:a|@.ANNIVERSARY:20000101"),
    ("ANNIVERSARY-time", "FN:a|@.ANNIVERSARY:20000101T101010Z"),
    ("GENDER", "FN:a|@.GENDER:M;a"),
    ("ADR", "FN:a|@.ADR:a;b;c;d;e;f;g"),
    ("TEL", "FN:a|@.TEL:123"),
    ("TEL-uri", "FN:a|@.TEL;VALUE=uri:tel:1"),
    ("EMAIL", "FN:a|@.EMAIL:a"),
    ("IMPP", "FN:a|@.IMPP:im:a"),
    ("LANG", "FN:a|@.LANG:en"),
    ("TZ", "FN:a|@.TZ:a"),
    ("TZ-uri", "FN:a|@.TZ;VALUE=uri:http://a/"),
    ("TZ-offset", "FN:a|@.TZ;VALUE=utc-offset:+0100"),
    ("GEO", "FN:a|@.GEO:geo:1,2"),
    ("TITLE", "FN:a|@.TITLE:a"),
    ("ROLE", "FN:a|@.ROLE:a"),
    ("LOGO", "FN:a|@.LOGO:http://a/"),
    ("ORG", "FN:a|@.ORG:a;b"),
    ("MEMBER", "FN:a|KIND:group|@.MEMBER:urn:a"),
    ("RELATED", "FN:a|@.RELATED:urn:a"),
    ("CATEGORIES", "FN:a|@.CATEGORIES:a,b"),
    ("NOTE", "FN:a|@.NOTE:a"),
    ("PRODID", "FN:a|@.PRODID:a"),
    ("REV", "FN:a|@.REV:20000101T101010Z"),
    ("SOUND", "FN:a|@.SOUND:http://a/"),
    ("UID", "FN:a|@.UID:urn:a"),
    ("CLIENTPIDMAP", "FN:a|@.CLIENTPIDMAP:1;urn:a"),
    ("URL", "FN:a|@.URL:http://a/"),
    ("KEY", "FN:a|@.KEY:urn:a"),
    ("FBURL", "FN:a|@.FBURL:http://a/"),
    ("CALADRURI", "FN:a|@.CALADRURI:http://a/"),
    ("CALURI", "FN:a|@.CALURI:http://a/"),
    ("X-A", "FN:a|@.X-A:a"),
    ("X-A-date", "FN:a|@.X-A;VALUE=date:20000101"),
    ("X-A-uri", "FN:a|@.X-A;VALUE=uri:http://a/"),
    ("X-name", "FN:a|X-@:a"),
];
entry!(h_zero_group, {
    warm();
    let t = pick(GROUPS);
    parsed(t, &word());
});
const PARAMS: &[T] = &[
    ("LANGUAGE", "LANGUAGE=@"),
    ("ALTID", "ALTID=@"),
    ("ALTID-quoted", "ALTID=\"@\""),
    ("TYPE", "TYPE=@"),
    ("TYPE-list", "TYPE=home,@,work"),
    ("CALSCALE", "CALSCALE=@"),
    ("SORT-AS", "SORT-AS=\"@,b\""),
    ("SORT-AS1", "SORT-AS=\"a,@\""),
    ("TZ", "TZ=@"),
    ("LABEL", "LABEL=\"@\""),
    ("X-P", "X-P=@"),
    ("X-P-list", "X-O=1;X-P=\"a,@\""),
    ("ENCODING", "ENCODING=@"),
    ("SORT-AS-5", "SORT-AS=\"a,b,c,@,d\""),
    ("X-many", "X-O=1;X-P=\"a,b,c,@\";X-Q=b;X-R=@"),
    ("TYPE-many", "TYPE=home;TYPE=work,a,@;TYPE=b,c,d,e,@"),
    ("X-name", "X-@=a"),
];
/// Property before and after the parameter.
const OWNERS: &[(&str, &str, &str)] = &[
    ("FN", "FN;", ":a"),
    ("SOURCE", "FN:a|SOURCE;", ":http://a/"),
    ("KIND", "FN:a|KIND;", ":org"),
    ("N", "FN:a|N;", ":a;b;c;d;e"),
    ("PHOTO", "FN:a|PHOTO;", ": a"),
    ("BDAY", "FN:a|BDAY;", ":20000101"),
    ("ANNIVERSARY", "FN:a|ANNIVERSARY;VALUE=text;", ":a"),
    ("GENDER", "FN:a|GENDER;", ":M"),
    ("ADR", "FN:a|ADR;", ":a;b;c;d;e;f;g"),
    ("TEL", "FN:a|TEL;", ":123"),
    ("IMPP", "FN:a|IMPP;", ":im:a"),
    ("LANG", "FN:a|LANG;", ":en"),
    ("TZ", "FN:a|TZ;VALUE=utc-offset;", ":+0100"),
    ("CATEGORIES", "FN:a|CATEGORIES;", ":a,b"),
    ("REV", "FN:a|REV;", ":20000101T101010Z"),
    ("UID", "FN:a|UID;", ":urn:a"),
    ("CLIENTPIDMAP", "FN:a|CLIENTPIDMAP;", ":1;urn:a"),
    ("X-A", "FN:a|X-A;", ":a"),
    ("X-A-time", "FN:a|X-A;VALUE=time;", ":101010"),
];
entry!(h_zero_param, {
    warm();
    let k = choose(OWNERS.len());
    label(OWNERS[k].0);
    let p = pick(PARAMS);
    let t = [OWNERS[k].1, p, OWNERS[k].2].concat();
    parsed(&t, &word());
});
entry!(h_zero_param1, {
    warm();
    label("ADR");
    let p = pick(&PARAMS[..16]);
    let t = ["FN:a|ADR;", p, ":a;b;c;d;e;f;g"].concat();
    parsed(&t, &secret(1));
});
entry!(h_zero_build, {
    warm();
    let k = choose(crate::bld::FIELDS.len());
    label(crate::bld::FIELDS[k]);
    let v = s(secret(2));
    let c = crate::bld::set(k, &v);
    std::mem::forget(v);
    release(c);
});
entry!(h_zero_clone, {
    warm();
    let k = choose(crate::bld::FIELDS.len());
    label(crate::bld::FIELDS[k]);
    let v = s(secret(1));
    let c = crate::bld::set(k, &v);
    std::mem::forget(v);
    release(c.clone());
    release(c);
});
