//! Control characters and malformed lines.
use crate::case::{with, PROPS};
use crate::common::*;
use crate::entry;
use crate::sym::*;

/// A control character other than tab and line feed.
fn control() -> u8 {
    let b = bytes(1)[0];
    assume(b < 0x20 && b != b'\t' && b != b'\n' || b == 0x7f);
    b
}
fn rejects(src: String, code: u32) {
    check(vcard4::parse(&src).is_err(), code);
    // the iterator and loose parsing do not accept the line either
    let mut it = vcard4::iter(&src, true);
    check(matches!(it.next(), Some(Err(_))), code + 1);
    reach(1);
}
// at any position of a value
entry!(h_ctl_value, {
    warm();
    let k = choose(PROPS.len());
    label(PROPS[k].0);
    let l = with(k, b"");
    let name = PROPS[k].1.as_bytes();
    let colon = name.iter().position(|c| *c == b':').unwrap();
    let n = name.len() - colon;
    let i = choose(n);
    let mut v = l;
    let at = v.len() - i;
    let b = control();
    // before the line break it is part of it
    assume(!(i == 0 && b == b'\r'));
    v.insert(at, b);
    rejects(doc(&v), 1);
});
// between other characters of a text value
entry!(h_ctl_text, {
    warm();
    const K: &[T] = &[("FN", "FN:"), ("NOTE", "FN:x|NOTE:"), ("N", "FN:x|N:"), ("ADR", "FN:x|ADR:"), ("ORG", "FN:x|g.ORG;PREF=1:"), ("X", "FN:x|X-A:"), ("BDAY", "FN:x|BDAY;VALUE=text:")];
    let t = pick(K);
    let o = choose(3);
    let c = bytes(1)[0];
    assume(c >= 0x20 && c < 0x7f);
    let b = control();
    let mut v = fill(t, b"");
    match o {
        0 => v.extend_from_slice(&[c, b, b'z']),
        1 => v.extend_from_slice(&[b, c]),
        _ => {
            v.extend_from_slice("\u{e9}".as_bytes());
            v.extend_from_slice(&[b, c]);
        }
    }
    rejects(doc(&v), 3);
});
const PARAMS: &[T] = &[
    ("LANGUAGE", "LANGUAGE=en"), ("VALUE", "VALUE=text"), ("PREF", "PREF=1"), ("ALTID", "ALTID=ab"), ("PID", "PID=1.1"), ("TYPE", "TYPE=home"), ("MEDIATYPE", "MEDIATYPE=a/b"), ("CALSCALE", "CALSCALE=ab"), ("SORT-AS", "SORT-AS=ab"), ("TZ", "TZ=ab"), ("LABEL", "LABEL=ab"), ("X-", "X-A=ab"), ("ENCODING", "ENCODING=b"),
    ("LANGUAGE q", "LANGUAGE=\"en\""), ("ALTID q", "ALTID=\"ab\""), ("SORT-AS q", "SORT-AS=\"a,b\""), ("LABEL q", "LABEL=\"ab\""), ("X- q", "X-A=\"ab\""), ("GEO q", "GEO=\"geo:1\""), ("TZ q", "TZ=\"u:a\""), ("TYPE q", "TYPE=\"home,work\""),
];
fn param_line(p: &[u8]) -> Vec<u8> {
    let mut v = b"FN:x\r\nADR;".to_vec();
    v.extend_from_slice(p);
    v.extend_from_slice(b":a;b;c;d;e;f;g");
    v
}
// at any position of a parameter
entry!(h_ctl_param, {
    warm();
    let k = choose(PARAMS.len());
    label(PARAMS[k].0);
    let mut v = PARAMS[k].1.as_bytes().to_vec();
    check(one(&doc(&param_line(&v))).is_some(), 9);
    let i = choose(v.len() + 1);
    let b = control();
    v.insert(i, b);
    rejects(doc(&param_line(&v)), 5);
});
// a name is made of letters, digits and hyphens
entry!(h_ctl_name, {
    warm();
    let k = choose(PROPS.len());
    label(PROPS[k].0);
    let l = with(k, b"");
    let name = PROPS[k].1.as_bytes();
    let end = name.iter().position(|c| *c == b':' || *c == b';').unwrap();
    let start = l.len() - name.len();
    let ins = choose(2);
    let i = choose(end + ins);
    let b = bytes(1)[0];
    assume(b < 0x80 && !b.is_ascii_alphanumeric() && b != b'-');
    // delimiters of a group, parameters and values
    assume(b != b'.' && b != b':' && b != b';');
    let mut v = l;
    if ins == 1 {
        // a line starting with a blank continues the one before
        assume(!(i == 0 && (b == b' ' || b == b'\t' || b == b'\n' || b == b'\r')));
        v.insert(start + i, b);
    } else {
        assume(!(i == 0 && (b == b' ' || b == b'\t' || b == b'\n' || b == b'\r')));
        v[start + i] = b;
    }
    rejects(doc(&v), 7);
});
// so is a group
entry!(h_ctl_group, {
    warm();
    let k = choose(PROPS.len());
    label(PROPS[k].0);
    let o = choose(4);
    let b = bytes(1)[0];
    assume(b < 0x80 && !b.is_ascii_alphanumeric() && b != b'-' && b != b':' && b != b';');
    assume(b != b' ' && b != b'\t' && b != b'\n' && b != b'\r');
    let g: Vec<u8> = match o {
        0 => vec![b, b'.'],
        1 => vec![b'g', b, b'.'],
        2 => vec![b'g', b, b'h', b'.'],
        _ => {
            assume(b != b'.');
            vec![b'g', b]
        }
    };
    rejects(doc(&with(k, &g)), 11);
});
// quotes
const Q: &[T] = &[
    ("open", "ALTID=\"@"),
    ("open 2", "PREF=1;X-A=\"a,@"),
    ("inside", "ALTID=a\"@"),
    ("inside 2", "ALTID=a@\"b"),
    ("inside 3", "SORT-AS=a,\"@\""),
    ("after", "ALTID=\"a\"@"),
    ("after 2", "X-A=\"\"@;PREF=1"),
    ("twice", "ALTID=\"a\"\"@\""),
    ("line", "ALTID=\"@|b\""),
    ("line 2", "ALTID=@|b"),
    ("line 3", "ALTID=@|"),
    ("no value", "ALTID;X-A=@"),
    ("no value 2", "X-A=@;ALTID"),
    ("no name", "=@"),
    ("no name 2", "PREF=1;;X-A=@"),
    ("no name 3", "X-A=@;"),
];
entry!(h_ctl_quote, {
    warm();
    let t = pick(Q);
    let b = bytes(1)[0];
    assume(b > 0x20 && b < 0x7f && b != b'"' && b != b';' && b != b':' && b != b'\\');
    rejects(doc(&param_line(&fill(t, &[b]))), 13);
});
// multibyte characters are no part of names and groups
entry!(h_ctl_multi, {
    warm();
    let k = choose(PROPS.len());
    label(PROPS[k].0);
    let c = uchar(choose(UCHARS));
    let o = choose(4);
    let l = with(k, b"");
    let name = PROPS[k].1.as_bytes();
    let end = name.iter().position(|c| *c == b':' || *c == b';').unwrap();
    let start = l.len() - name.len();
    let mut v = l[..start].to_vec();
    match o {
        0 => {
            v.extend_from_slice(&c);
            v.extend_from_slice(name);
        }
        1 => {
            v.extend_from_slice(&name[..end]);
            v.extend_from_slice(&c);
            v.extend_from_slice(&name[end..]);
        }
        2 => {
            v.extend_from_slice(&c);
            v.push(b'.');
            v.extend_from_slice(name);
        }
        _ => {
            v.extend_from_slice(&name[..1]);
            v.extend_from_slice(&c);
            v.extend_from_slice(&name[1..]);
        }
    }
    rejects(doc(&v), 15);
});
