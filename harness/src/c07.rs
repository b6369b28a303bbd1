//! C07: text in both encodings, at every position where the format has text.
use crate::attr::Env;
use crate::enc::*;
use crate::*;
use boxcars::*;
const M: u32 = 7;

/// the 32 characters of Windows-1252 that differ from Latin-1 (undefined ones map to themselves)
const HIGH: [u32; 32] = [
    0x20ac, 0x81, 0x201a, 0x192, 0x201e, 0x2026, 0x2020, 0x2021, 0x2c6, 0x2030, 0x160, 0x2039, 0x152, 0x8d, 0x17d, 0x8f, 0x90, 0x2018, 0x2019,
    0x201c, 0x201d, 0x2022, 0x2013, 0x2014, 0x2dc, 0x2122, 0x161, 0x203a, 0x153, 0x9d, 0x17e, 0x178,
];

fn w1252(b: u8) -> u32 {
    if b >= 0x80 && b < 0xa0 {
        HIGH[(b - 0x80) as usize]
    } else {
        b as u32
    }
}

/// the characters of UTF-16 code units, ill-formed surrogates replaced
fn utf16(u: &[u16]) -> Vec<u32> {
    let mut v = Vec::with_capacity(u.len());
    let mut i = 0;
    while i < u.len() {
        let a = u[i];
        i += 1;
        if a & 0xf800 != 0xd800 {
            v.push(a as u32);
        } else if a & 0x0400 == 0 && i < u.len() && u[i] & 0xfc00 == 0xdc00 {
            v.push(0x10000 + (((a & 0x3ff) as u32) << 10) + (u[i] & 0x3ff) as u32);
            i += 1;
        } else {
            v.push(0xfffd);
        }
    }
    v
}

/// the UTF-8 form of characters
fn chars(v: &[u32]) -> Vec<u8> {
    let mut o = Vec::with_capacity(4 * v.len() + 4);
    for &c in v {
        if c < 0x80 {
            o.push(c as u8);
        } else if c < 0x800 {
            o.push(0xc0 | (c >> 6) as u8);
            o.push(0x80 | (c & 0x3f) as u8);
        } else if c < 0x10000 {
            o.push(0xe0 | (c >> 12) as u8);
            o.push(0x80 | (c >> 6 & 0x3f) as u8);
            o.push(0x80 | (c & 0x3f) as u8);
        } else {
            o.push(0xf0 | (c >> 18) as u8);
            o.push(0x80 | (c >> 12 & 0x3f) as u8);
            o.push(0x80 | (c >> 6 & 0x3f) as u8);
            o.push(0x80 | (c & 0x3f) as u8);
        }
    }
    o
}

/// a text: raw encoded form (length word, data, terminator) and its expected UTF-8
struct T {
    raw: Vec<u8>,
    want: Vec<u8>,
}

fn latin(data: &[u8]) -> T {
    let mut raw = W::new();
    raw.i32(data.len() as i32 + 1).raw(data).u8(vp::u8_());
    let v: Vec<u32> = data.iter().map(|b| w1252(*b)).collect();
    T { raw: raw.b, want: chars(&v) }
}
fn wide(data: &[u16]) -> T {
    let mut raw = W::new();
    raw.i32(-(data.len() as i32 + 1));
    for u in data {
        raw.raw(&u.to_le_bytes());
    }
    raw.u8(vp::u8_()).u8(vp::u8_());
    T { raw: raw.b, want: chars(&utf16(data)) }
}
/// length word zero: nothing follows
fn none() -> T {
    T { raw: vec![0; 4], want: vec![] }
}
fn any_latin(n: usize) -> T {
    let mut v = vec![0u8; n];
    vp::sym(&mut v);
    latin(&v)
}
fn any_wide(n: usize) -> T {
    let mut v = vec![0u16; n];
    for u in v.iter_mut() {
        *u = vp::u16_();
    }
    wide(&v)
}
/// few texts that cover all the classes of characters
fn some() -> T {
    match vp::choose(4) {
        0 => any_latin(1),
        1 => any_wide(1),
        2 => none(),
        _ => {
            let x = vp::u8_() & 0x7f;
            latin(&[b'a', x, 0x80, 0xe9])
        }
    }
}
fn plain(b: &[u8]) -> T {
    let mut raw = W::new();
    raw.text(b);
    T { raw: raw.b, want: b.to_vec() }
}

/// every text position of a replay
const SLOTS: usize = 15;
struct Doc {
    t: Vec<T>,
}
impl Doc {
    fn new() -> Doc {
        let mut t = Vec::new();
        for i in 0..SLOTS {
            t.push(plain(&[b'A' + i as u8]));
        }
        Doc { t }
    }
    fn enc(&self) -> Vec<u8> {
        let r = |w: &mut W, i: usize| {
            w.raw(&self.t[i].raw);
        };
        let mut h = W::new();
        h.i32(868).i32(32).i32(10);
        r(&mut h, 0);
        h.prop("s", "StrProperty", 0, 0);
        r(&mut h, 1);
        h.prop("n", "NameProperty", 0, 0);
        r(&mut h, 2);
        h.int("e", 77).str("None");
        let mut w = W::new();
        w.i32(2);
        r(&mut w, 3);
        r(&mut w, 4);
        w.i32(0);
        w.i32(0);
        w.i32(1).i32(5);
        r(&mut w, 5);
        r(&mut w, 6);
        w.i32(2);
        r(&mut w, 7);
        w.i32(8);
        r(&mut w, 8);
        w.i32(9);
        w.i32(2);
        r(&mut w, 9);
        r(&mut w, 10);
        w.i32(2);
        r(&mut w, 11);
        r(&mut w, 12);
        w.i32(2);
        r(&mut w, 13);
        r(&mut w, 14);
        w.i32(1).str("cls").i32(3);
        w.i32(1).i32(1).i32(2).i32(3).i32(0);
        file(&h.b, &w.b)
    }
    fn check(&self) {
        let r = parse_with(&self.enc(), CrcCheck::Never, NetworkParse::Never);
        match &r {
            Ok(r) => {
                let s = |i: usize| match &r.properties[i].1 {
                    HeaderProp::Str(x) | HeaderProp::Name(x) => x.as_bytes(),
                    _ => b"?".as_slice(),
                };
                va!(r.properties.len() == 3);
                va!(r.properties[2].1.as_i32() == Some(77));
                va!((r.levels.len() == 2) & (r.debug_info.len() == 1) & (r.tick_marks.len() == 2) & (r.packages.len() == 2) & (r.objects.len() == 2) & (r.names.len() == 2));
                va!((r.debug_info[0].frame == 5) & (r.tick_marks[0].frame == 8) & (r.tick_marks[1].frame == 9));
                va!((r.class_indices.len() == 1) & (r.net_cache.len() == 1));
                va!((r.class_indices[0].index == 3) & (r.net_cache[0].cache_id == 3));
                let got: [&[u8]; SLOTS] = [
                    r.game_type.as_bytes(),
                    s(0),
                    s(1),
                    r.levels[0].as_bytes(),
                    r.levels[1].as_bytes(),
                    r.debug_info[0].user.as_bytes(),
                    r.debug_info[0].text.as_bytes(),
                    r.tick_marks[0].description.as_bytes(),
                    r.tick_marks[1].description.as_bytes(),
                    r.packages[0].as_bytes(),
                    r.packages[1].as_bytes(),
                    r.objects[0].as_bytes(),
                    r.objects[1].as_bytes(),
                    r.names[0].as_bytes(),
                    r.names[1].as_bytes(),
                ];
                for i in 0..SLOTS {
                    vbytes!(got[i], &self.t[i].want);
                }
                cov!();
            }
            Err(_) => va!(false),
        }
        core::mem::forget(r);
    }
}

// every position takes every kind of text
entry!(c07_slots, {
    let i = vp::first(SLOTS as u64) as usize;
    let mut d = Doc::new();
    d.t[i] = some();
    d.check();
});

/// one text as the last property of a header
fn one(t: T) {
    let mut h = W::new();
    header_start(&mut h, MODERN);
    h.prop("s", "StrProperty", 0, 0).raw(&t.raw).int("e", 77).str("None");
    let r = parse_with(&file(&h.b, &net_body(&[], &[], &[])), CrcCheck::Never, NetworkParse::Never);
    match &r {
        Ok(r) => {
            va!(r.properties.len() == 2);
            va!(r.properties[1].1.as_i32() == Some(77));
            match &r.properties[0].1 {
                HeaderProp::Str(s) => vbytes!(s.as_bytes(), &t.want),
                _ => va!(false),
            }
            cov!();
        }
        Err(_) => va!(false),
    }
    core::mem::forget(r);
}

// every Windows-1252 text of up to 4 (6) characters
entry!(c07_latin, {
    let n = vp::first(7) as usize;
    if n > 4 && !vp::thorough() {
        one(none());
        return;
    }
    one(any_latin(n));
});
/// positions at the ends, in the middle and around block sizes
fn edge(n: usize) -> usize {
    let e = [0, 1, 7, 8, 15, 16, 31, 32, 63, n / 2, n - 33, n - 17, n - 16, n - 9, n - 8, n - 2, n - 1];
    core::cmp::min(e[vp::choose(17) as usize], n - 1)
}

// long texts: any character at any position of a text long enough for the fast paths
entry!(c07_latin_long, {
    let n = [5usize, 6, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 127, 128, 129, 255, 256, 257, 1_000, 4_097][vp::first(20) as usize];
    let mut v = vec![b'x'; n];
    for i in 0..n {
        v[i] = b'a' + (i % 26) as u8;
    }
    let i = if n <= 64 { vp::choose(n as u64) as usize } else { edge(n) };
    v[i] = vp::u8_();
    // a second character that is not ASCII, elsewhere
    if vp::choose(2) == 1 {
        let j = (i + 7) % n;
        v[j] = 0xe9;
    }
    one(latin(&v));
});
// every UTF-16 text of up to 3 (5) code units
entry!(c07_wide, {
    let n = vp::first(6) as usize;
    if n > 3 && !vp::thorough() {
        one(wide(&[]));
        return;
    }
    one(any_wide(n));
});
// three units, the outer ones out of every class
entry!(c07_wide3, {
    let c = |k: u64| match k {
        0 => 0xd800 | (vp::u16_() & 0x3ff),
        1 => 0xdc00 | (vp::u16_() & 0x3ff),
        2 => 0x41u16,
        3 => 0xfeff,
        _ => 0xfffe,
    };
    let a = c(vp::first(5));
    let b = c(vp::choose(5));
    one(wide(&[a, vp::u16_(), b]));
});
entry!(c07_wide_long, {
    let n = [5usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1_000, 4_097][vp::first(21) as usize];
    let mut v = vec![0u16; n];
    for i in 0..n {
        v[i] = b'a' as u16 + (i % 26) as u16;
    }
    let i = if n <= 33 { vp::choose(n as u64) as usize } else { edge(n) };
    v[i] = vp::u16_();
    if vp::choose(2) == 1 {
        v[(i + 1) % n] = 0xdc11;
    }
    one(wide(&v));
});
// byte order marks are text
entry!(c07_bom, {
    match vp::first(5) {
        0 => one(latin(&[0xef, 0xbb, 0xbf, vp::u8_()])),
        1 => one(latin(&[0xff, 0xfe, vp::u8_()])),
        2 => one(latin(&[0xfe, 0xff, vp::u8_(), b'x'])),
        3 => one(wide(&[0xfeff, vp::u16_()])),
        _ => one(wide(&[0xfffe, vp::u16_()])),
    }
});

// the longest texts, one character symbolic; one more is an error
entry!(c07_limit, {
    match vp::first(4) {
        0 => {
            let mut v = vec![b'q'; 9_999];
            v[[0, 5_000, 9_998][vp::choose(3) as usize]] = vp::u8_();
            one(latin(&v));
        }
        1 => {
            let mut v = vec![0x71u16; 9_999];
            v[[0, 5_000, 9_998][vp::choose(3) as usize]] = 0x400 | (vp::u16_() & 0x3ff);
            one(wide(&v));
        }
        2 => too_large(false),
        _ => too_large(true),
    }
});
fn reason(e: &ParseError) -> &ParseError {
    match e {
        ParseError::ParseError(_, _, e) => reason(e),
        e => e,
    }
}
/// every other length is rejected although the data would be there
fn too_large(body: bool) {
    let n = vp::i32_();
    vp::assume((n > 10_000) | (n < -10_000));
    let fill = vec![0x61u8; 20_100];
    let mut h = W::new();
    h.i32(868).i32(32).i32(10);
    if !body {
        h.i32(n).raw(&fill);
    } else {
        h.str("g").str("None");
    }
    let mut b = W::new();
    b.i32(1).i32(n).raw(&fill);
    let r = parse_with(&file(&h.b, &b.b), CrcCheck::Never, NetworkParse::Never);
    match &r {
        Ok(_) => va!(false),
        Err(e) => match reason(e) {
            ParseError::TextTooLarge(x) => {
                ve!(*x, n);
                cov!();
            }
            _ => va!(false),
        },
    }
    core::mem::forget(r);
}

// a declared length that reaches past the end of the data is an error, in both encodings
entry!(c07_short, {
    let have = vp::first(6) as usize;
    let n = vp::i32_();
    let mut data = vec![0u8; have];
    vp::sym(&mut data);
    let mut h = W::new();
    h.i32(868).i32(32).i32(10).i32(n).raw(&data);
    vp::assume((n > have as i32) | (n < -(have as i32 / 2)));
    let mut w = W::new();
    section(&mut w, &h.b, 0);
    let r = parse_with(&w.b, CrcCheck::Never, NetworkParse::Never);
    match &r {
        Ok(_) => va!(false),
        Err(e) => match reason(e) {
            ParseError::TextTooLarge(_) | ParseError::InsufficientData(..) => cov!(),
            _ => va!(false),
        },
    }
    core::mem::forget(r);
});

/// reference validity of UTF-8 (table 3-7 of the Unicode standard)
fn valid(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let a = b[i];
        let (n, lo, hi) = if a < 0x80 {
            (0, 0, 0)
        } else if a < 0xc2 {
            return false;
        } else if a < 0xe0 {
            (1, 0x80, 0xbf)
        } else if a == 0xe0 {
            (2, 0xa0, 0xbf)
        } else if a == 0xed {
            (2, 0x80, 0x9f)
        } else if a < 0xf0 {
            (2, 0x80, 0xbf)
        } else if a == 0xf0 {
            (3, 0x90, 0xbf)
        } else if a < 0xf4 {
            (3, 0x80, 0xbf)
        } else if a == 0xf4 {
            (3, 0x80, 0x8f)
        } else {
            return false;
        };
        for k in 0..n {
            let j = i + 1 + k;
            if j >= b.len() {
                return false;
            }
            let c = b[j];
            if k == 0 {
                if c < lo || c > hi {
                    return false;
                }
            } else if c & 0xc0 != 0x80 {
                return false;
            }
        }
        i += 1 + n;
    }
    true
}

/// one UTF-8 field at one of its positions
fn utf8_at(pos: u64, k: &[u8]) {
    vp::assume(!same(k, b"None"));
    let mut h = W::new();
    header_start(&mut h, MODERN);
    // the terminator is dropped whatever it is
    let put = |h: &mut W| {
        h.i32(k.len() as i32 + 1).raw(k).u8(vp::u8_());
    };
    match pos {
        0 => {
            put(&mut h);
            h.str("IntProperty").u32(4).u32(0).i32(5);
        }
        1 => {
            h.prop("x", "StructProperty", 0, 0);
            put(&mut h);
            h.str("None");
        }
        2 => {
            h.prop("x", "ByteProperty", 0, 0);
            put(&mut h);
            h.str("v");
        }
        3 => {
            h.prop("x", "ByteProperty", 0, 0).str("k");
            put(&mut h);
        }
        _ => {}
    }
    h.int("e", 77).str("None");
    let mut b = W::new();
    for _ in 0..8 {
        b.i32(0);
    }
    if pos == 4 {
        b.i32(1);
        put(&mut b);
        b.i32(9);
    } else {
        b.i32(0);
    }
    b.i32(1).i32(1).i32(2).i32(3).i32(0);
    let ok = valid(k);
    let r = parse_with(&file(&h.b, &b.b), CrcCheck::Never, NetworkParse::Never);
    match &r {
        Ok(r) => {
            va!(ok);
            let p = &r.properties;
            va!(p.len() == if pos == 4 { 1 } else { 2 });
            va!(p[p.len() - 1].1.as_i32() == Some(77));
            va!((r.net_cache.len() == 1) & (r.net_cache[0].cache_id == 3));
            match (pos, &p[0].1) {
                (0, _) => vbytes!(p[0].0.as_bytes(), k),
                (1, HeaderProp::Struct { name, .. }) => vbytes!(name.as_bytes(), k),
                (2, HeaderProp::Byte { kind, .. }) => vbytes!(kind.as_bytes(), k),
                (3, HeaderProp::Byte { value, .. }) => vbytes!(value.as_ref().unwrap().as_bytes(), k),
                (4, _) => {
                    vbytes!(r.class_indices[0].class.as_bytes(), k);
                    va!(r.class_indices[0].index == 9);
                }
                _ => va!(false),
            }
            cov!();
        }
        Err(e) => {
            va!(!ok);
            va!(matches!(reason(e), ParseError::Utf8Error(_)));
            cov!();
        }
    }
    core::mem::forget(r);
}

// property names: any bytes
entry!(c07_key, {
    let n = vp::first(7) as usize;
    let n = if n > 4 && !vp::thorough() { 0 } else { n };
    let mut k = vec![0u8; n];
    vp::sym(&mut k);
    utf8_at(0, &k);
});
// property names of any length with arbitrary bytes at the end, in front or in the middle
entry!(c07_key_long, {
    let n = vp::first(20) as usize + 3;
    let n = if n == 22 { 40 } else { n };
    let m = 1 + vp::choose(if vp::thorough() { 3 } else { 2 }) as usize;
    let at = [n - m, 0, n / 2][vp::choose(3) as usize];
    let mut k: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
    if vp::choose(2) == 1 {
        // the beginning of a longer character in front of them
        k[n - 1 - n / 3] = 0xe2;
    }
    vp::sym(&mut k[at..core::cmp::min(at + m, n)]);
    utf8_at(0, &k);
});
// the other UTF-8 positions
entry!(c07_utf8, {
    let pos = vp::first(5);
    let n = vp::choose(3) as usize;
    let mut k = vec![0u8; n];
    vp::sym(&mut k);
    utf8_at(pos, &k);
});
// a length word of zero: an empty name
entry!(c07_utf8_zero, {
    let _ = vp::first(1);
    let mut h = W::new();
    header_start(&mut h, MODERN);
    h.i32(0).str("IntProperty").u32(4).u32(0).i32(5).int("e", 77).str("None");
    let r = parse_with(&file(&h.b, &net_body(&[], &[], &[])), CrcCheck::Never, NetworkParse::Never);
    match &r {
        Ok(r) => {
            va!((r.properties.len() == 2) & (r.properties[0].0.len() == 0));
            va!(r.properties[0].1.as_i32() == Some(5));
            cov!();
        }
        Err(_) => va!(false),
    }
    core::mem::forget(r);
});

const STR: &str = "Engine.PlayerReplicationInfo:PlayerName";

/// a string attribute
fn net(t: &T) {
    let ver = MODERN;
    Env::new(ver, STR).anywhere().run(
        |b| {
            b.bytes(&t.raw);
        },
        |x| match x {
            Attribute::String(s) => {
                vbytes!(s.as_bytes(), &t.want);
                cov!();
            }
            _ => va!(false),
        },
    );
}
entry!(c07_net_latin, {
    let n = vp::first(3) as usize;
    net(&any_latin(n));
});
entry!(c07_net_wide, {
    let n = vp::first(2) as usize;
    net(&any_wide(n));
});
// network texts of any length with an arbitrary character
entry!(c07_net_long, {
    let n = [3usize, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 509, 510][vp::first(22) as usize];
    let i = if n <= 17 { vp::choose(n as u64) as usize } else { [0, 7, 8, n / 2, n - 9, n - 8, n - 2, n - 1][vp::choose(8) as usize] };
    if vp::choose(2) == 0 {
        // the text fits when the other characters take one byte each
        let mut v: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        v[i] = vp::u8_();
        if vp::choose(2) == 1 {
            v[(i + 1) % n] = vp::u8_() | 0x80;
        }
        net_at(&latin(&v));
    } else {
        let mut v: Vec<u16> = (0..n).map(|i| b'a' as u16 + (i % 26) as u16).collect();
        v[i] = vp::u16_();
        if vp::choose(2) == 1 {
            v[(i + 1) % n] = 0xdc00 | (vp::u16_() & 0x3ff);
        }
        net_at(&wide(&v));
    }
});
/// at two alignments
fn net_at(t: &T) {
    let mut e = Env::new(MODERN, STR);
    e.shift = vp::choose(2) as u32 * 3;
    e.marker = vp::i32_();
    e.run(
        |b| {
            b.bytes(&t.raw);
        },
        |x| match x {
            Attribute::String(s) => {
                vbytes!(s.as_bytes(), &t.want);
                cov!();
            }
            _ => va!(false),
        },
    );
}
entry!(c07_net_zero, {
    let _ = vp::first(1);
    net(&none());
});
// texts of exactly 1024 encoded bytes are read, longer ones are an error carrying the length
entry!(c07_net_limit, {
    match vp::first(3) {
        0 => {
            let mut v = vec![b'q'; 1023];
            v[[0, 511, 1022][vp::choose(3) as usize]] = vp::u8_() & 0x7f;
            net(&latin(&v));
        }
        1 => {
            let mut v = vec![0x71u16; 511];
            v[[0, 255, 510][vp::choose(3) as usize]] = 0x400 | (vp::u16_() & 0x3ff);
            net(&wide(&v));
        }
        _ => {
            let n = vp::i32_();
            vp::assume((n > 1024) | (n < -512));
            let mut e = Env::new(MODERN, STR);
            e.shift = vp::choose(8) as u32;
            let mut b = e.begin();
            b.i32(n);
            b.bytes(&[0x61; 1100]);
            b.bit(false).bit(false);
            let r = parse(&e.file(&b.done()));
            match &r {
                Ok(_) => va!(false),
                Err(ParseError::NetworkError(x)) => match &**x {
                    NetworkError::FrameError(f, _) => match f {
                        FrameError::AttributeError { error: AttributeError::TooBigString(m), .. } => {
                            ve!(*m, n);
                            cov!();
                        }
                        _ => va!(false),
                    },
                    _ => va!(false),
                },
                Err(_) => va!(false),
            }
            core::mem::forget(r);
        }
    }
});
