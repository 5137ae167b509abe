//! Embedded photos.
use crate::common::*;
use crate::entry;
use crate::sym::*;
use vcard4::{property::TextOrUriProperty, Vcard};

fn sel(c: bool, a: u32, b: u32) -> u32 {
    b ^ ((a ^ b) & (c as u32).wrapping_neg())
}
fn within(c: u32, lo: u8, hi: u8) -> bool {
    c.wrapping_sub(lo as u32) <= (hi - lo) as u32
}
/// Value of a character without branches, 64 when it is not in the alphabet.
fn digit(c: u8) -> u32 {
    let c = c as u32;
    let mut v = 64;
    v = sel(within(c, b'A', b'Z'), c.wrapping_sub(65), v);
    v = sel(within(c, b'a', b'z'), c.wrapping_sub(71), v);
    v = sel(within(c, b'0', b'9'), c.wrapping_add(4), v);
    v = sel(within(c, b'+', b'+'), 62, v);
    sel(within(c, b'/', b'/'), 63, v)
}
/// None: not base64. Some((bytes, true)): base64 whose unused bits are not zero.
fn decode(t: &[u8]) -> Option<(Vec<u8>, bool)> {
    if t.len() % 4 != 0 {
        return None;
    }
    let mut v = Vec::new();
    let mut odd = 0;
    let mut bad = 0;
    let mut i = 0;
    while i < t.len() {
        let last = i + 4 == t.len();
        let a = digit(t[i]);
        let b = digit(t[i + 1]);
        bad |= a | b;
        let one = last && t[i + 2] == b'=' && t[i + 3] == b'=';
        let two = last && !one && t[i + 3] == b'=';
        v.push((a << 2 | b >> 4) as u8);
        if one {
            odd = b & 15;
            break;
        }
        let c = digit(t[i + 2]);
        bad |= c;
        v.push((b << 4 | c >> 2) as u8);
        if two {
            odd = c & 3;
            break;
        }
        let d = digit(t[i + 3]);
        bad |= d;
        v.push((c << 6 | d) as u8);
        i += 4;
    }
    if bad & 64 != 0 {
        return None;
    }
    Some((v, odd != 0))
}
fn letter(v: u32) -> u8 {
    let v = v & 63;
    let mut c = v.wrapping_add(65);
    c = sel(v >= 26, v.wrapping_add(71), c);
    c = sel(v >= 52, v.wrapping_sub(4), c);
    c = sel(v >= 62, 43, c);
    sel(v >= 63, 47, c) as u8
}
fn encode(b: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    for c in b.chunks(3) {
        let x = c[0] as u32;
        let y = if c.len() > 1 { c[1] as u32 } else { 0 };
        let z = if c.len() > 2 { c[2] as u32 } else { 0 };
        v.push(letter(x >> 2));
        v.push(letter(x << 4 | y >> 4));
        v.push(if c.len() > 1 { letter(y << 2 | z >> 6) } else { b'=' });
        v.push(if c.len() > 2 { letter(z) } else { b'=' });
    }
    v
}
fn warm_photo() {
    warm();
    if let Some(c) = one(&doct("FN:a|PHOTO;ENCODING=b;TYPE=JPEG:QUJDREVG", b"")) {
        let _ = c.parse_photo_jpeg().is_ok();
    }
}
/// Photos of the card; 1: parse error.
fn card(t: &str, b: &[u8]) -> Vcard {
    let src = doct(t, b);
    observe(src.as_bytes());
    let Some(c) = one(&src) else { fail(1) };
    c
}
/// The card of the template with the text as the value of the n-th embedded photo.
fn with(t: &str, n: usize, b: &[u8]) -> Vcard {
    let mut c = card(t, b"QUJD");
    let mut k = 0;
    for p in c.photo.iter_mut() {
        if let TextOrUriProperty::Text(p) = p {
            if p.value == "QUJD" {
                if k == n {
                    p.value = s(b.to_vec());
                    return c;
                }
                k += 1;
            }
        }
    }
    fail(1)
}
/// 2: valid base64 is an error, 3: wrong bytes, 4: invalid base64 is accepted, 5: other number of photos
fn compare(c: &Vcard, text: &[u8], at: usize, count: usize) {
    match (decode(text), c.parse_photo_jpeg()) {
        (Some((_, true)), _) => {}
        (Some((v, _)), Ok(d)) => {
            check(d.len() == count, 5);
            check(d[at] == v, 3);
            reach(1);
        }
        (Some(_), Err(_)) => fail(2),
        (None, Ok(_)) => fail(4),
        (None, Err(_)) => reach(2),
    }
}
const AROUND: &[(&str, &[u8], &[u8])] = &[
    ("alone", b"", b""),
    ("start", b"", b"QUJD"),
    ("end", b"QUJD", b""),
    ("middle", b"/9j/", b"AAAA"),
    ("second block", b"QUJDREVG", b""),
    ("before padding", b"", b"QQ=="),
    ("long", b"QUJDREVGQUJDREVGQUJDREVGQUJDREVGQUJDREVG", b"QUI="),
    ("long start", b"", b"QUJDREVGQUJDREVGQUJDREVGQUJDREVGQUJDREVGQUI="),
    ("long middle", b"QUJDREVGQUJDREVGQUJD", b"REVGQUJDREVGQUJDREVGQUJDREVGQUI="),
];
fn text(n: usize) {
    warm_photo();
    let k = choose(AROUND.len());
    label(AROUND[k].0);
    let b = ascii(n);
    let t = [AROUND[k].1, &b, AROUND[k].2].concat();
    let c = with("FN:a|PHOTO;ENCODING=b;TYPE=JPEG:@", 0, &t);
    compare(&c, &t, 0, 1);
}
entry!(h_photo_text, {
    text(4);
});
entry!(h_photo_text8, {
    text(8);
});
entry!(h_photo_one, {
    text(1);
});
entry!(h_photo_short, {
    text(2);
});
entry!(h_photo_short3, {
    text(3);
});
/// A broken character at any position of a longer value.
entry!(h_photo_pos, {
    warm_photo();
    const L: &[u8] = b"QUJDREVGR0hJSktMTU5PUFFSU1RVVldYWVowMTIzNDU2Nzg5KysvLw==";
    let p = choose(L.len());
    let b = ascii(1);
    let mut t = L.to_vec();
    t[p] = b[0];
    let c = with("FN:a|PHOTO;ENCODING=b;TYPE=JPEG:@", 0, &t);
    compare(&c, &t, 0, 1);
});
/// Label, lines, place among the decoded photos, their number, place among the QUJD texts.
const CARDS: &[(&str, &str, usize, usize, usize)] = &[
    ("params swapped", "FN:a|PHOTO;TYPE=JPEG;ENCODING=b:@", 0, 1, 0),
    ("case", "FN:a|photo;encoding=b;type=jpeg:@", 0, 1, 0),
    ("case2", "FN:a|Photo;Encoding=b;Type=Jpeg:@", 0, 1, 0),
    ("group", "FN:a|item1.PHOTO;ENCODING=b;TYPE=JPEG:@", 0, 1, 0),
    ("other parameter first", "FN:a|PHOTO;X-ABCROP-RECTANGLE=a&0&0;ENCODING=b;TYPE=JPEG:@", 0, 1, 0),
    ("other parameter last", "FN:a|PHOTO;ENCODING=b;X-A=b;TYPE=JPEG:@", 0, 1, 0),
    ("other type first", "FN:a|PHOTO;ENCODING=b;TYPE=home,JPEG:@", 0, 1, 0),
    ("other type last", "FN:a|PHOTO;ENCODING=b;TYPE=JPEG,pref:@", 0, 1, 0),
    ("pref", "FN:a|PHOTO;PREF=1;ENCODING=b;TYPE=JPEG:@", 0, 1, 0),
    ("value", "FN:a|PHOTO;VALUE=text;ENCODING=b;TYPE=JPEG:@", 0, 1, 0),
    ("after URI", "FN:a|PHOTO:http://a/|PHOTO;ENCODING=b;TYPE=JPEG:@", 0, 1, 0),
    ("before URI", "FN:a|PHOTO;ENCODING=b;TYPE=JPEG:@|PHOTO:http://a/", 0, 1, 0),
    ("after PNG", "FN:a|PHOTO;ENCODING=b;TYPE=PNG:!!!|PHOTO;ENCODING=b;TYPE=JPEG:@", 0, 1, 0),
    ("after plain", "FN:a|PHOTO:abc|PHOTO;ENCODING=b;TYPE=JPEG:@", 0, 1, 0),
    ("after no type", "FN:a|PHOTO;ENCODING=b:abc|PHOTO;ENCODING=b;TYPE=JPEG:@", 0, 1, 0),
    ("after no encoding", "FN:a|PHOTO;TYPE=JPEG:abc|PHOTO;ENCODING=b;TYPE=JPEG:@", 0, 1, 0),
    ("first of two", "FN:a|PHOTO;ENCODING=b;TYPE=JPEG:@|PHOTO;ENCODING=b;TYPE=JPEG:QUJD", 0, 2, 0),
    ("second of two", "FN:a|PHOTO;ENCODING=b;TYPE=JPEG:QUJD|PHOTO;ENCODING=b;TYPE=JPEG:@", 1, 2, 1),
    ("second of three", "FN:a|PHOTO;ENCODING=b;TYPE=JPEG:QQ==|PHOTO:http://a/|PHOTO;ENCODING=b;TYPE=JPEG:@|NOTE:x|PHOTO;ENCODING=b;TYPE=JPEG:REVG", 1, 3, 0),
    ("fourth of five", "FN:a|PHOTO;ENCODING=b;TYPE=JPEG:QQ==|PHOTO;ENCODING=b;TYPE=JPEG:QUI=|PHOTO;ENCODING=b;TYPE=JPEG:QQ==|PHOTO;ENCODING=b;TYPE=JPEG:@|PHOTO;ENCODING=b;TYPE=JPEG:QQ==", 3, 5, 0),
    ("folded", "FN:a|PHOTO;ENCODING=b;TYPE=JPEG:| @", 0, 1, 0),
];
/// Three bytes, encoded here, come back from every kind of card.
entry!(h_photo_bytes, {
    warm_photo();
    let k = choose(CARDS.len());
    label(CARDS[k].0);
    let n = 1 + choose(3);
    let b = bytes(n);
    let c = with(CARDS[k].1, CARDS[k].4, &encode(&b));
    let Ok(d) = c.parse_photo_jpeg() else { fail(2) };
    check(d.len() == CARDS[k].3, 5);
    check(d[CARDS[k].2] == b, 3);
    reach(1);
});
entry!(h_photo_cards, {
    warm_photo();
    let k = choose(CARDS.len());
    label(CARDS[k].0);
    let b = ascii(2);
    let t = [&b"QU"[..], &b].concat();
    let c = with(CARDS[k].1, CARDS[k].4, &t);
    compare(&c, &t, CARDS[k].2, CARDS[k].3);
});
/// A photo counts when TYPE is JPEG and ENCODING is b.
entry!(h_photo_which, {
    warm_photo();
    const W: &[(&str, &str, u8)] = &[
        ("ENCODING", "FN:a|PHOTO;ENCODING=@;TYPE=JPEG:QUJD", b'b'),
        ("TYPE", "FN:a|PHOTO;ENCODING=b;TYPE=JPE@:QUJD", b'g'),
        ("TYPE0", "FN:a|PHOTO;ENCODING=b;TYPE=@PEG:QUJD", b'j'),
        ("name", "FN:a|PHOTO;ENCODIN@=b;TYPE=JPEG:QUJD", b'g'),
    ];
    let k = choose(W.len());
    label(W[k].0);
    let b = ascii(1);
    let l = b[0] | 0x20;
    assume(l >= b'a' && l <= b'z');
    // other case of b is not decided
    assume(k != 0 || b[0] != b'B');
    let src = doct(W[k].1, &b);
    let Some(c) = one(&src) else {
        check(k == 3 && l != b'g', 1);
        return;
    };
    let Ok(d) = c.parse_photo_jpeg() else { fail(2) };
    if l == W[k].2 {
        check(d.len() == 1 && d[0] == b"ABC", 5);
        reach(1);
    } else {
        check(d.is_empty(), 6);
        reach(2);
    }
});
// A large photo, before and after it was printed with many folds.
fn photo(n: usize) {
    warm_photo();
    let mut data: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
    let b = bytes(1)[0];
    let at = [0, n / 2, n - 1][choose(3)];
    data[at] = b;
    let c = with("FN:a|PHOTO;ENCODING=b;TYPE=JPEG:@", 0, &encode(&data));
    match c.parse_photo_jpeg() {
        Ok(v) => check(v.len() == 1 && v[0] == data, 50),
        Err(_) => fail(51),
    }
    let t = c.to_string();
    let Some(d) = one(&t) else { fail(52) };
    check(d == c, 53);
    match d.parse_photo_jpeg() {
        Ok(v) => check(v.len() == 1 && v[0] == data, 54),
        Err(_) => fail(55),
    }
    reach(1);
}
entry!(h_photo_big, {
    photo([255, 256, 600, 1201, 3000][choose(5)]);
});
entry!(h_big_photo, {
    photo(50000);
});
