//! C06: header fields and properties.
use crate::enc::*;
use crate::tree::*;
use crate::*;
use boxcars::*;
const M: u32 = 6;

const QUIRKS: Ver = Ver { major: 0, minor: 0, stored: None };

fn is_quirks(v: &Ver) -> bool {
    v.major == 0 && v.minor == 0 && v.stored.is_none()
}

/// parse a header with the given properties and compare
fn run(v: Ver, l: &[F], q: bool) {
    let mut h = W::new();
    h.i32(v.major).i32(v.minor);
    if let Some(n) = v.stored {
        h.i32(n);
    }
    h.str("TAGame.Replay_Soccar_TA");
    enc(&mut h, l, q);
    let r = parse_with(&file(&h.b, &net_body(&[], &["marker"], &[])), CrcCheck::Never, NetworkParse::Never);
    match &r {
        Ok(r) => {
            check(l, &r.properties, q);
            vbytes!(r.game_type.as_bytes(), b"TAGame.Replay_Soccar_TA");
            va!(r.objects.len() == 1);
            vbytes!(r.objects[0].as_bytes(), b"marker");
            cov!();
        }
        Err(_) => va!(false),
    }
    core::mem::forget(r);
}

fn leaf(k: u64) -> P {
    match k {
        0 => P::Bool(vp::bytes()),
        1 => P::Int(vp::i32_()),
        2 => P::QWord(vp::u64_()),
        3 => P::Float(vp::u32_()),
        4 => P::Name(ascii(3)),
        5 => P::Str(ascii(5)),
        6 => P::Byte(ascii(3), ascii(2)),
        7 => P::Struct(ascii(2), vec![]),
        8 => P::Array(vec![]),
        9 => P::ByteNone(vp::u8_()),
        10 => P::Struct(b"PlayerId".to_vec(), vec![fs(b"Uid", P::QWord(vp::u64_())), fs(b"b", P::Bool(vp::bytes()))]),
        11 => P::Array(vec![vec![fs(b"frame", P::Int(vp::i32_())), fs(b"n", P::Str(ascii(2)))], vec![], vec![fs(b"frame", P::Float(vp::u32_()))]]),
        12 => P::Name(vec![]),
        13 => P::Str(ascii(17)),
        _ => P::Byte(vec![], vec![]),
    }
}

// every kind with any content, between two neighbours
entry!(c06_leaf, {
    let i = vp::first(15 + 14);
    let q = i >= 15;
    let mut k = if q { i - 15 } else { i };
    if q && k >= 9 {
        k += 1;
    }
    let l = [fs(b"Before", P::Int(vp::i32_())), fs(&ascii(2), leaf(k)), fs(b"After", P::QWord(vp::u64_()))];
    run(if q { QUIRKS } else { MODERN }, &l, q);
});

// an old replay whose network version is absent is still standard unless both numbers are zero
entry!(c06_versions, {
    let i = vp::first(8);
    let v = match i {
        0 | 1 => Ver::any(),
        2 | 3 => QUIRKS,
        4 => {
            let m = vp::i32_();
            vp::assume(m != 0);
            Ver { major: 0, minor: m, stored: None }
        }
        5 => {
            let m = vp::i32_();
            vp::assume((m != 0) & (m <= 865));
            Ver { major: m, minor: 0, stored: None }
        }
        6 => Ver { major: 866, minor: 18, stored: Some(vp::i32_()) },
        _ => {
            if vp::choose(2) == 0 {
                Ver { major: 866, minor: 17, stored: None }
            } else {
                Ver { major: 865, minor: 18, stored: None }
            }
        }
    };
    let q = is_quirks(&v);
    let l = [f(b"bWin", P::Bool(vp::bytes())), f(b"Platform", P::Byte(b"OnlinePlatform".to_vec(), b"Steam".to_vec())), f(b"X", P::Int(vp::i32_()))];
    let mut h = W::new();
    h.i32(v.major).i32(v.minor);
    if let Some(n) = v.stored {
        h.i32(n);
    }
    let g = match i & 3 {
        0 => ascii(5),
        1 => ascii(0),
        2 => b"None".to_vec(),
        _ => ascii(4),
    };
    h.text(&g);
    enc(&mut h, &l, q);
    let body = net_body(&[], &[], &[]);
    let (c1, c2) = (vp::u32_(), vp::u32_());
    let mut out = W::new();
    section(&mut out, &h.b, c1);
    section(&mut out, &body, c2);
    let r = parse_with(&out.b, CrcCheck::Never, NetworkParse::Never);
    match &r {
        Ok(r) => {
            ve!(r.major_version, v.major);
            ve!(r.minor_version, v.minor);
            va!(r.net_version.is_some() == v.stored.is_some());
            if let (Some(a), Some(b)) = (r.net_version, v.stored) {
                ve!(a, b);
            }
            ve!(r.header_crc, c1);
            ve!(r.content_crc, c2);
            ve!(r.header_size, h.b.len() as i32);
            ve!(r.content_size, body.len() as i32);
            vbytes!(r.game_type.as_bytes(), &g);
            check(&l, &r.properties, q);
            cov!();
        }
        Err(_) => va!(false),
    }
    core::mem::forget(r);
});

// the stored sizes are reported as stored, even when they cover less or more than the section
entry!(c06_sizes, {
    let big = vp::first(2) == 1;
    let mut h = W::new();
    header_start(&mut h, MODERN);
    enc(&mut h, &[f(b"X", P::Int(vp::i32_()))], false);
    let body = net_body(&[], &["a"], &[]);
    let (n1, n2) = (vp::i32_(), vp::i32_());
    let mut w = W::new();
    w.i32(n1).u32(0).raw(&h.b).i32(n2).u32(0).raw(&body);
    let t = w.b.len() as i32;
    if big {
        vp::assume((n1 as u32 > (t - 8) as u32) | (n2 as u32 > body.len() as u32));
    } else {
        vp::assume((n1 as u32 <= (t - 8) as u32) & (n2 as u32 <= body.len() as u32));
    }
    let r = parse_with(&w.b, CrcCheck::Never, NetworkParse::Never);
    match &r {
        Ok(r) => {
            va!(!big);
            ve!(r.header_size, n1);
            ve!(r.content_size, n2);
            va!(r.properties.len() == 1);
            va!(r.objects.len() == 1);
            cov!();
        }
        Err(_) => {
            va!(big);
            cov!();
        }
    }
    core::mem::forget(r);
});

/// a tree of at most `left` more nodes, shape chosen, contents symbolic
fn shape(depth: u32, left: &mut u32, pre: &mut Vec<u64>) -> Vec<F> {
    let mut l = Vec::new();
    while *left > 0 {
        let n = if depth == 0 { 4 } else { 6 };
        let k = match pre.pop() {
            Some(k) => {
                vp::assume(k < n);
                k
            }
            None => vp::choose(n),
        };
        if k == 0 {
            break;
        }
        *left -= 1;
        let key = [b'a' + *left as u8];
        l.push(match k {
            1 => fs(&key, P::Int(vp::i32_())),
            2 => fs(&key, P::ByteNone(vp::u8_())),
            3 => fs(&key, P::Str(ascii(1))),
            4 => {
                let s = shape(depth - 1, left, pre);
                fs(&key, P::Struct(ascii(1), s))
            }
            _ => {
                let mut a = Vec::new();
                while *left > 0 && vp::choose(2) == 1 {
                    a.push(shape(depth - 1, left, pre));
                    if a.len() == 3 {
                        break;
                    }
                }
                fs(&key, P::Array(a))
            }
        });
    }
    l
}

// any nesting of properties within the node bound
entry!(c06_nest, {
    let n = vp::first(36);
    let mut left = if vp::thorough() { 5 } else { 4 };
    let l = shape(3, &mut left, &mut vec![n / 6, n % 6]);
    run(MODERN, &l, false);
});
// the same under the rules of the all-zero version
entry!(c06_nest_quirks, {
    let n = vp::first(4);
    let inner = vec![fs(b"i", leaf([0, 6, 1, 5][n as usize])), fs(b"j", P::Bool(vp::bytes()))];
    let l = match vp::choose(3) {
        0 => vec![fs(b"s", P::Struct(ascii(1), inner)), fs(b"k", P::Byte(ascii(2), vec![]))],
        1 => vec![fs(b"a", P::Array(vec![inner, vec![], vec![fs(b"z", P::Byte(ascii(1), vec![]))]])), fs(b"k", P::Int(vp::i32_()))],
        _ => vec![fs(b"a", P::Array(vec![vec![fs(b"s", P::Struct(ascii(1), inner))]])), fs(b"k", P::Int(vp::i32_()))],
    };
    run(QUIRKS, &l, true);
});

// deep but ordinary chains: structs in arrays in structs
entry!(c06_deep, {
    let d = [4usize, 8, 16, 32][vp::first(4) as usize];
    let mut p = P::Int(vp::i32_());
    for i in 0..d {
        p = if i % 2 == 0 { P::Struct(b"s".to_vec(), vec![f(b"x", p)]) } else { P::Array(vec![vec![f(b"y", p)]]) };
    }
    run(MODERN, &[f(b"top", p), f(b"end", P::Int(vp::i32_()))], false);
});

// every kind of property at the end of every depth of structs and arrays
entry!(c06_chain, {
    let d = vp::first(if vp::thorough() { 61 } else { 31 }) as usize;
    let q = vp::choose(2) == 1;
    let k = vp::choose(10);
    vp::assume(!(q & (k == 9)));
    let arrays = vp::choose(3);
    let mut p = leaf(k);
    for i in 0..d {
        let a = match arrays {
            0 => true,
            1 => false,
            _ => i % 3 == 0,
        };
        // with a neighbour in front and behind at one of the levels
        let mut l = vec![f(b"x", p)];
        if i == d / 2 {
            l = vec![f(b"w", P::Byte(b"k".to_vec(), b"v".to_vec())), l.pop().unwrap(), f(b"y", P::Bool(vp::bytes()))];
        }
        p = if a { P::Array(vec![l]) } else { P::Struct(b"s".to_vec(), l) };
    }
    run(if q { QUIRKS } else { MODERN }, &[f(b"top", p), f(b"end", P::Int(vp::i32_()))], q);
});

// keys may repeat; every entry is kept, in order
entry!(c06_dup, {
    let (a, b) = (ascii(1), ascii(1));
    let (k1, k2) = (vp::first(3), vp::choose(3));
    let kk = [1, 5, 3];
    let l = [fs(&a, leaf(kk[k1 as usize])), fs(&b, leaf(kk[k2 as usize])), fs(&a, P::QWord(vp::u64_()))];
    run(MODERN, &l, false);
});

// every key that is not exactly "None" is a key
entry!(c06_key, {
    let n = vp::first(8);
    let key = match n {
        0 => vec![],
        1 => b"none".to_vec(),
        2 => b"Non".to_vec(),
        3 => b"None1".to_vec(),
        4 => {
            let k = ascii(4);
            vp::assume(!same(&k, b"None"));
            k
        }
        5 => b" None".to_vec(),
        6 => ascii(9),
        _ => b"None\0".to_vec(),
    };
    run(MODERN, &[fs(&key, P::Int(vp::i32_())), fs(b"Z", P::Int(vp::i32_()))], false);
});

// the names of byte properties: only the exact type "None" is omitted
entry!(c06_bytekind, {
    let n = vp::first(6);
    let k = match n {
        0 => b"none".to_vec(),
        1 => b"Non".to_vec(),
        2 => b"None1".to_vec(),
        3 => {
            let k = ascii(4);
            vp::assume(!same(&k, b"None"));
            k
        }
        4 => vec![],
        _ => b"OnlinePlatform".to_vec(),
    };
    run(MODERN, &[fs(b"P", P::Byte(k, b"OnlinePlatform_Steam".to_vec())), fs(b"Z", P::Int(vp::i32_()))], false);
});

// texts that spell "None" mean nothing special anywhere but in keys and types of byte properties
entry!(c06_none, {
    let k = vp::first(7);
    let q = vp::choose(2) == 1;
    let none = || if k & 1 == 0 || vp::choose(2) == 0 { b"None".to_vec() } else { ascii(4) };
    let inner = || vec![fs(b"i", P::Int(vp::i32_())), fs(b"j", P::Str(ascii(1)))];
    let p = match k {
        0 => P::Struct(none(), inner()),
        1 => P::Struct(none(), vec![fs(b"n", P::Struct(none(), inner())), fs(b"e", P::Struct(none(), vec![]))]),
        2 => P::Str(none()),
        3 => P::Name(none()),
        4 => P::Byte(b"Kind".to_vec(), none()),
        5 => P::Array(vec![inner(), vec![fs(b"s", P::Struct(none(), inner()))]]),
        _ => {
            // the type counts only where a value may follow
            if q {
                P::Byte(none(), vec![])
            } else {
                P::ByteNone(vp::u8_())
            }
        }
    };
    run(if q { QUIRKS } else { MODERN }, &[fs(b"top", p), fs(b"end", P::Int(vp::i32_()))], q);
});

// keys may repeat inside structs and elements of arrays, too
entry!(c06_dup_nested, {
    let s = vp::first(6);
    let kk = [1, 5, 3, 0];
    let (k1, k2) = (kk[vp::choose(4) as usize], kk[vp::choose(4) as usize]);
    let l = vec![fs(&ascii(1), leaf(k1)), fs(&ascii(1), leaf(k2)), fs(&ascii(1), P::QWord(vp::u64_()))];
    let p = match s {
        0 => P::Struct(b"T".to_vec(), l),
        1 => P::Array(vec![l]),
        2 => P::Array(vec![vec![fs(b"x", P::Int(vp::i32_()))], l]),
        3 => P::Struct(b"T".to_vec(), vec![fs(b"in", P::Struct(b"U".to_vec(), l))]),
        4 => P::Array(vec![vec![fs(b"in", P::Array(vec![vec![], l]))]]),
        _ => P::Array(vec![vec![fs(b"in", P::Struct(b"U".to_vec(), l.clone()))], l]),
    };
    let a = ascii(1);
    run(MODERN, &[fs(&a, p), fs(&ascii(1), P::Int(vp::i32_()))], false);
});

// dictionaries, structs and arrays of many entries
entry!(c06_many, {
    let i = vp::first(16) as usize;
    let big = 25_000;
    let n = [9, 15, 16, 17, 31, 33, 63, 65, 127, 129, 255, 257, 511, 513, 1025, big][i];
    let w = vp::choose(4);
    let item = |i: usize| {
        if i == 0 || i == n / 2 || i + 1 == n {
            f(&ascii(1), P::Int(vp::i32_()))
        } else {
            f(&[b'a' + (i % 26) as u8], if i % 7 == 0 { P::ByteNone(i as u8) } else { P::Int(i as i32 * 77) })
        }
    };
    let l = match w {
        0 => (0..n).map(item).collect(),
        1 => vec![f(b"s", P::Struct(b"T".to_vec(), (0..n).map(item).collect()))],
        2 => vec![f(b"a", P::Array((0..n).map(|i| if i % 3 == 1 { vec![] } else { vec![item(i)] }).collect()))],
        _ => vec![f(b"a", P::Array(vec![vec![], (0..n).map(item).collect(), vec![f(b"z", P::Int(1))]]))],
    };
    let mut l = l;
    l.push(f(b"end", P::Int(vp::i32_())));
    run(MODERN, &l, false);
});

/// does the error name the unknown kind
fn names(e: &ParseError, kind: &[u8], depth: u32) -> bool {
    match e {
        ParseError::UnexpectedProperty(s) => same(s.as_bytes(), kind),
        ParseError::ParseError(w, _, e) if depth > 0 => *w == "header properties" && names(e, kind, depth - 1),
        _ => false,
    }
}

const KINDS: [&str; 9] = [
    "BoolProperty",
    "ByteProperty",
    "IntProperty",
    "QWordProperty",
    "FloatProperty",
    "NameProperty",
    "StrProperty",
    "StructProperty",
    "ArrayProperty",
];

// a kind that is none of the nine is an error naming it, at any depth
entry!(c06_unknown, {
    let i = vp::first(13) as usize;
    let mut k: Vec<u8> = if i < 9 { KINDS[i].as_bytes().to_vec() } else { ascii([0, 1, 5, 12][i - 9]) };
    if i < 9 {
        // one byte differs
        let j = vp::choose(k.len() as u64) as usize;
        let c = vp::u8_() & 0x7f;
        vp::assume(c != k[j]);
        k[j] = c;
    }
    let mut known = false;
    for n in KINDS {
        known |= same(n.as_bytes(), &k);
    }
    vp::assume(!known);
    let mut h = W::new();
    header_start(&mut h, MODERN);
    h.int("A", 1);
    let d = if i < 9 { 0 } else { vp::choose(3) };
    match d {
        1 => {
            h.prop("s", "StructProperty", 0, 0).str("T");
        }
        2 => {
            h.prop("s", "ArrayProperty", 0, 0).i32(1);
        }
        _ => {}
    }
    h.str("K").text(&k).u32(vp::u32_()).u32(vp::u32_()).u64(0);
    for _ in 0..4 {
        h.str("None");
    }
    let r = parse_with(&file(&h.b, &net_body(&[], &[], &[])), CrcCheck::Never, NetworkParse::Never);
    match &r {
        Ok(_) => va!(false),
        Err(e) => {
            va!(names(e, &k, 3));
            cov!();
        }
    }
    core::mem::forget(r);
});
