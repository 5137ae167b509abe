//! Iterating over cards.
use crate::common::*;
use crate::entry;
use crate::loose;
use crate::sym::*;
use vcard4::Vcard;

const SEPS: &[&str] = &["", "\n", "\r\n\r\n"];
const C1: &str = "BEGIN:VCARD|VERSION:4.0|FN:one|NOTE:a\\,b| c|END:VCARD|";
const C3: &str = "BEGIN:VCARD|VERSION:3.0|FN:three|X-A:END:VCARD|END:VCARD";

fn go(ts: &[T], n: usize, seps: usize, order: usize) {
    with(ts, n, seps, order, true)
}
fn with(ts: &[T], n: usize, seps: usize, order: usize, fname: bool) {
    warm();
    let strict = choose(2) == 0;
    let sep = SEPS[choose(seps)];
    let trail = ["", "\n", "\r\n\n"][choose(seps)];
    let l = loose::line(ts, n);
    let mut m = HEAD.to_vec();
    if fname {
        m.extend_from_slice(b"FN:two\r\n");
    }
    m.extend_from_slice(&l);
    m.extend_from_slice(TAIL);
    let a = fill(C1, b"");
    let c = fill(C3, b"");
    let mut eol = c.clone();
    eol.extend_from_slice(b"\r\n");
    // position of the card with the symbolic line
    let at = order;
    let parts: [&[u8]; 3] = match at {
        0 => [&m, &a, &c],
        1 => [&a, &m, &c],
        _ => [&a, &eol, &m],
    };
    let mut v = vec![];
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            v.extend_from_slice(sep.as_bytes());
        }
        v.extend_from_slice(p);
    }
    v.extend_from_slice(trail.as_bytes());
    let src = s(v);
    let parse = |x: &[u8]| -> Option<Vcard> {
        let x = unsafe { std::str::from_utf8_unchecked(x) };
        let r = if strict { vcard4::parse(x) } else { vcard4::parse_loose(x) };
        match r {
            Ok(mut c) => {
                check(c.len() == 1, 1);
                c.pop()
            }
            Err(_) => None,
        }
    };
    let mut it = vcard4::iter(&src, strict);
    let mut all = true;
    for (i, p) in parts.iter().enumerate() {
        let want = parse(p);
        check(i == at || want.is_some(), 2);
        match (it.next(), want) {
            (Some(Ok(c)), Some(w)) => check(c == w, 3),
            (Some(Err(_)), None) => all = false,
            (Some(Ok(_)), None) => fail(4),
            (Some(Err(_)), Some(_)) => fail(5),
            (None, _) => fail(6),
        }
    }
    check(it.next().is_none(), 7);
    check(it.next().is_none(), 8);
    // the same cards as parsing at once
    let r = if strict { vcard4::parse(&src) } else { vcard4::parse_loose(&src) };
    match r {
        Ok(c) => {
            check(all, 9);
            let mut it = vcard4::iter(&src, strict);
            check(c.len() == 3, 10);
            for x in &c {
                match it.next() {
                    Some(Ok(y)) => check(*x == y, 11),
                    _ => fail(12),
                }
            }
            reach(1);
        }
        Err(_) => {
            check(!all, 13);
            reach(2);
        }
    }
}
// cards that may be invalid as a whole
const WHOLE: &[T] = &[
    ("no FN", "NOTE:@"),
    ("bad FN", "NOTE:x|FN;PREF=@:x"),
    ("FN", "NOTE:x|F@:x"),
    ("FN2", "NOTE:x|FN:@"),
    ("member", "FN:x|MEMBER:u:@"),
    ("member kind", "FN:x|MEMBER:u:a|KIND:gr@up"),
    ("member org", "FN:x|KIND:org|MEMBER:u:@"),
    ("member pref", "FN:x|KIND;PREF=@:group|MEMBER:u:a"),
];
entry!(h_it_whole, { with(WHOLE, 1, 2, choose(3), false) });
entry!(h_it_mid, { go(loose::ANY, 1, 3, 1) });
entry!(h_it_first, { go(loose::ANY, 1, 1, 0) });
entry!(h_it_last, { go(loose::ANY, 1, 1, 2) });
entry!(h_it_mid2, { go(loose::ANY, 2, 1, 1) });

// a single card from a string is the first card
const SRC: &[T] = &[
    ("value", "BEGIN:VCARD|VERSION:4.0|FN:@|END:VCARD|BEGIN:VCARD|VERSION:4.0|FN:y|END:VCARD|"),
    ("name", "BEGIN:VCARD|VERSION:4.0|FN:x|NOTE@x|END:VCARD|BEGIN:VCARD|VERSION:4.0|FN:y|END:VCARD|"),
    ("second", "|BEGIN:VCARD|VERSION:4.0|FN:x|END:VCARD|BEGIN:VCARD|VERSION:4.0|FN@y|END:VCARD|"),
    ("before", "@BEGIN:VCARD|VERSION:4.0|FN:x|END:VCARD|"),
    ("after", "BEGIN:VCARD|VERSION:4.0|FN:x|END:VCARD|@"),
    ("none", "@"),
];
entry!(h_it_try, {
    warm();
    let t = pick(SRC);
    let b = ascii(2);
    let src = s(fill(t, &b));
    let r = Vcard::try_from(&src[..]);
    match (vcard4::iter(&src, true).next(), &r) {
        (Some(Ok(c)), Ok(d)) => check(c == *d, 20),
        (Some(Err(_)), Err(_)) | (None, Err(_)) => {}
        _ => fail(21),
    }
    if let Ok(c) = vcard4::parse(&src) {
        match r {
            Ok(d) => check(c[0] == d, 22),
            Err(_) => fail(23),
        }
        // all of them
        let mut n = 0;
        for x in vcard4::iter(&src, true) {
            match x {
                Ok(x) => check(n < c.len() && c[n] == x, 24),
                Err(_) => fail(25),
            }
            n += 1;
        }
        check(n == c.len(), 26);
        reach(1);
    }
});
