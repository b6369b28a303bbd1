//! C10: the result is a function of the replay's own bytes.
use crate::attr::*;
use crate::c09::{CRC, NET};
use crate::docs::*;
use crate::enc::*;
use crate::tree::{self, ascii, fs, P};
use crate::*;
use boxcars::crc::calc_crc;
use boxcars::*;
const M: u32 = 10;

/// documents with the right checksums
fn sealed(d: &Doc) -> Vec<u8> {
    d.with_crc(calc_crc(&d.h), calc_crc(&d.b))
}

/// inputs to parse in between: other documents, faulty ones, other options
fn disturb(k: u64) {
    let (data, crc, net) = match k {
        0 => (sealed(&modern()), CrcCheck::Always, NetworkParse::Always),
        1 => (sealed(&legacy()), CrcCheck::Never, NetworkParse::Never),
        2 => (sealed(&ancient()), CrcCheck::OnError, NetworkParse::IgnoreOnError),
        3 => (vec![1, 2, 3], CrcCheck::OnError, NetworkParse::Always),
        4 => {
            // network data that fails
            let mut d = modern();
            let at = d.net.0 + 3;
            d.b[at] = 0xff;
            (d.file(), CrcCheck::OnError, NetworkParse::Always)
        }
        5 => {
            // header that fails
            let mut d = modern();
            let n = d.h.len();
            d.h.truncate(n - 7);
            (d.file(), CrcCheck::OnError, NetworkParse::Always)
        }
        6 => {
            // the same objects and cache under other ids
            let mut w = W::new();
            header_start(&mut w, MODERN);
            w.int("NumFrames", 1).int("MaxChannels", 9).strp("BuildVersion", "221120.42953.406184").name("MatchType", "Lan").str("None");
            let mut o = NET_OBJS.to_vec();
            o.reverse();
            (file(&w.b, &net_body(&[0; 12], &o, &[(0, &[(1, 5)])])), CrcCheck::Never, NetworkParse::Always)
        }
        _ => {
            let mut d = modern();
            let i = d.net.0 + 40;
            d.b[i] = vp::u8_();
            (d.file(), CrcCheck::Never, NetworkParse::IgnoreOnError)
        }
    };
    core::mem::forget(parse_with(&data, crc, net));
}

/// a document with arbitrary values in it
fn varied(u: u64) -> Doc {
    let mut d = pick(u % 3);
    // rotation and flags of the spawned ball, an integer attribute and a word of the header's end
    let i = d.net.0 + 21 + (u as usize / 3) * 9;
    d.b[i] = vp::u8_();
    d
}

// again, after other parses
entry!(c10_again, {
    let u = vp::first(24);
    let d = varied(u % 6);
    let k = (u / 6) * 2 + vp::choose(2);
    let k2 = if vp::thorough() { vp::choose(8) } else { (k + 3) % 8 };
    let data = d.file();
    let a = parse_with(&data, CRC[(k % 3) as usize], NetworkParse::Always);
    disturb(k);
    disturb(k2);
    let b = parse_with(&data, CRC[(k % 3) as usize], NetworkParse::Always);
    same_result(&a, &b);
    cov!();
    core::mem::forget((a, b));
});

// the first parse of a run equals any later one: compared with what the document says
entry!(c10_order, {
    let u = vp::first(16);
    let (first, k) = (u % 2 == 0, u / 2);
    let x = vp::i32_();
    let mut w = W::new();
    header_start(&mut w, MODERN);
    w.int("NumFrames", 1).int("MaxChannels", 8).int("X", x).str("None");
    let e = Env::new(MODERN, "Engine.PlayerReplicationInfo:Score");
    let mut b = e.begin();
    b.i32(x);
    let net = e.end(&mut b);
    let data = file(&w.b, &net_body(&net, &[OBJ, "Engine.PlayerReplicationInfo:Score", MARK], &[(0, &[(1, 0), (2, 1), (2, 2)])]));
    if !first {
        disturb(k);
    }
    match parse(&data) {
        Ok(r) => {
            let i = r.properties.iter().position(|p| p.0 == "X");
            match i {
                Some(i) => match r.properties[i].1 {
                    HeaderProp::Int(v) => ve!(v, x),
                    _ => va!(false),
                },
                None => va!(false),
            }
            e.judge(&r, |a| match a {
                Attribute::Int(v) => ve!(*v, x),
                _ => va!(false),
            });
            cov!();
            core::mem::forget(r);
        }
        Err(_) => va!(false),
    }
});

// arbitrary bytes behind the replay
entry!(c10_trailing, {
    let u = vp::first(12);
    let d = varied(u % 6);
    let n = [1, 2, 3, 4, 7, 8, 16, 64][(u / 6 * 4 + vp::choose(4)) as usize];
    let k = if vp::thorough() { vp::choose(9) } else { vp::choose(3) * 4 } as usize;
    let data = sealed(&d);
    let mut e = data.clone();
    let mut t = vec![0u8; n];
    vp::sym(&mut t);
    e.extend_from_slice(&t);
    let a = parse_with(&data, CRC[k % 3], NET[k / 3]);
    let b = parse_with(&e, CRC[k % 3], NET[k / 3]);
    same_result(&a, &b);
    cov!();
    core::mem::forget((a, b));
});

// arbitrary bytes behind a replay that is refused do not make it acceptable in another way: a
// replay that parses keeps its result when its sizes leave out what follows
entry!(c10_sections, {
    let u = vp::first(9);
    let d = pick(u % 3);
    // sizes that cover less than the contents
    let (hs, bs) = ([d.h.len(), 0, d.h.len() / 2][(u / 3) as usize], [d.b.len(), 0, 5][vp::choose(3) as usize]);
    let (c1, c2) = (vp::u32_(), vp::u32_());
    let enc = |t: &[u8]| {
        let mut w = W::new();
        w.i32(hs as i32).u32(c1).raw(&d.h).i32(bs as i32).u32(c2).raw(&d.b).raw(t);
        w.b
    };
    let t: [u8; 12] = vp::bytes();
    let a = parse_with(&enc(&[]), CrcCheck::Never, NetworkParse::Always);
    let b = parse_with(&enc(&t), CrcCheck::Never, NetworkParse::Always);
    va!(a.is_ok());
    same_result(&a, &b);
    cov!();
    core::mem::forget((a, b));
});

// at another place of a larger buffer, with arbitrary bytes around it
entry!(c10_place, {
    let u = vp::first(12);
    let d = varied(u % 6);
    let off = (u / 6 * 4 + vp::choose(4)) as usize + 1;
    let data = d.file();
    let mut e = vec![0u8; off];
    vp::sym(&mut e);
    e.extend_from_slice(&data);
    let t: [u8; 8] = vp::bytes();
    e.extend_from_slice(&t);
    let a = parse_with(&data, CrcCheck::Never, NetworkParse::Always);
    let b = parse_with(&e[off..off + data.len()], CrcCheck::Never, NetworkParse::Always);
    same_result(&a, &b);
    cov!();
    core::mem::forget((a, b));
});

// texts of every class of characters at sixteen addresses, in header, body and network data
entry!(c10_text_place, {
    let off = vp::first(16) as usize + 1;
    let wide = vp::choose(2) == 1;
    let n = [1usize, 2, 3, 5, 8, 9, 17, 33][vp::choose(8) as usize];
    let i = [0, n - 1][vp::choose(if n > 1 { 2 } else { 1 }) as usize];
    let mut w = W::new();
    if wide {
        let mut v = vec![0x41u16; n];
        v[i] = vp::u16_();
        if n > 2 {
            v[n / 2] = 0x4100;
        }
        w.i32(-(n as i32 + 1));
        for u in &v {
            w.raw(&u.to_le_bytes());
        }
        w.raw(&[0, 0]);
    } else {
        let mut v = vec![b'a'; n];
        v[i] = vp::u8_();
        if n > 2 {
            v[n / 2] = 0xe9;
        }
        w.text(&v);
    }
    let t = w.b;
    let place = vp::choose(6);
    let plain = || {
        let mut w = W::new();
        w.str("p");
        w.b
    };
    let at = |k: u64| if k == place { t.clone() } else { plain() };
    let mut h = W::new();
    h.i32(868).i32(32).i32(10).raw(&at(0)).int("NumFrames", 1).int("MaxChannels", 8);
    h.prop("s", "StrProperty", 0, 0).raw(&at(1)).prop("n", "NameProperty", 0, 0).raw(&at(2)).str("None");
    let e = Env::new(MODERN, "Engine.PlayerReplicationInfo:PlayerName");
    let mut b = e.begin();
    b.bytes(&at(3));
    let net = e.end(&mut b);
    let mut d = W::new();
    d.i32(1).raw(&at(4)).i32(0).i32(net.len() as i32).raw(&net);
    d.i32(0).i32(0).i32(0);
    d.i32(3).str(OBJ).str(e.attr).str(MARK);
    d.i32(1).raw(&at(5)).i32(0);
    d.i32(1).i32(0).i32(0).i32(0).i32(3).i32(1).i32(0).i32(2).i32(1).i32(2).i32(2);
    let data = file(&h.b, &d.b);
    let mut c = vec![0u8; off];
    c.extend_from_slice(&data);
    let x = parse_with(&data, CrcCheck::Never, NetworkParse::Always);
    let y = parse_with(&c[off..], CrcCheck::Never, NetworkParse::Always);
    va!(x.is_ok());
    same_result(&x, &y);
    cov!();
    core::mem::forget((x, y));
});

// property sizes, the words after them, and text terminators have no influence
entry!(c10_ignored, {
    let u = vp::first(10);
    let quirks = vp::choose(2) == 1;
    let ver = if quirks { Ver { major: 0, minor: 0, stored: None } } else { MODERN };
    let p = match u {
        0 => P::Bool(vp::bytes()),
        1 => P::Byte(ascii(2), ascii(3)),
        2 => {
            if quirks {
                P::Int(vp::i32_())
            } else {
                P::ByteNone(vp::u8_())
            }
        }
        3 => P::Int(vp::i32_()),
        4 => P::QWord(vp::u64_()),
        5 => P::Float(vp::u32_()),
        6 => P::Name(ascii(3)),
        7 => P::Str(ascii(3)),
        8 => P::Struct(ascii(2), vec![fs(b"A", P::Int(vp::i32_()))]),
        _ => P::Array(vec![vec![fs(b"A", P::Int(vp::i32_()))], vec![]]),
    };
    // the same tree with other ignored words
    fn again(l: &[tree::F]) -> Vec<tree::F> {
        l.iter()
            .map(|x| {
                let p = match &x.p {
                    P::Struct(n, l) => P::Struct(n.clone(), again(l)),
                    P::Array(a) => P::Array(a.iter().map(|l| again(l)).collect()),
                    P::ByteNone(_) => P::ByteNone(vp::u8_()),
                    P::Bool(b) => P::Bool([b[0], vp::u8_(), vp::u8_(), vp::u8_()]),
                    p => p.clone(),
                };
                fs(&x.key, p)
            })
            .collect()
    }
    let l = vec![fs(b"K", p), fs(b"NumFrames", P::Int(0))];
    let m = again(&l);
    let build = |l: &[tree::F]| {
        let mut w = W::new();
        header_start(&mut w, ver);
        tree::enc(&mut w, l, quirks);
        file(&w.b, &net_body(&[], &[], &[]))
    };
    let (x, y) = (build(&l), build(&m));
    let (a, b) = (parse(&x), parse(&y));
    va!(a.is_ok());
    match (&a, &b) {
        (Ok(p), Ok(q)) => {
            same_val(&crate::val::to_val(&p.properties, crate::val::TREE), &crate::val::to_val(&q.properties, crate::val::TREE));
            same_frames(&p.network_frames, &q.network_frames);
            cov!();
        }
        _ => va!(false),
    }
    core::mem::forget((a, b));
});
use crate::val::same_val;

// text terminators
entry!(c10_terminator, {
    let k = vp::first(2);
    let u = [vp::u16_(), vp::u16_()];
    let t1 = vp::u16_();
    let s = ascii(3);
    let t2 = vp::u8_();
    let enc = |t1: u16, t2: u8| {
        let mut w = W::new();
        header_start(&mut w, MODERN);
        w.prop("K", "StrProperty", 0, 0);
        if k == 0 {
            w.i32(-3);
            for x in u {
                w.raw(&x.to_le_bytes());
            }
            w.raw(&t1.to_le_bytes());
        } else {
            w.i32(4).raw(&s).u8(t2);
        }
        w.str("None");
        file(&w.b, &net_body(&[], &[], &[]))
    };
    if k == 0 {
        // plain characters, so that the text is as long as it looks
        for x in u {
            vp::assume((x < 0x80) & (x > 0));
        }
    }
    let (a, b) = (parse(&enc(t1, t2)), parse(&enc(0, 0)));
    va!(a.is_ok());
    match (&a, &b) {
        (Ok(p), Ok(q)) => {
            match (&p.properties[0].1, &q.properties[0].1) {
                (HeaderProp::Str(x), HeaderProp::Str(y)) => vbytes!(x.as_bytes(), y.as_bytes()),
                _ => va!(false),
            }
            cov!();
        }
        _ => va!(false),
    }
    core::mem::forget((a, b));
});

/// parse network data of the document with `n` declared frames
fn decode(ver: Ver, n: i32, net: &[u8]) -> Res {
    let mut h = W::new();
    header_start(&mut h, ver);
    h.int("NumFrames", n).str("None");
    parse(&file(&h.b, &net_body(net, NET_OBJS, NET_CACHE)))
}
const VS: [Ver; 3] = [MODERN, Ver::new(700, 7, 0), Ver { major: 0, minor: 0, stored: None }];

// bits behind the end marker, behind the declared number of frames, and in the padding
entry!(c10_after, {
    let u = vp::first(9);
    let ver = VS[(u % 3) as usize];
    let k = u / 3;
    let mut ends = [0u32; 4];
    let net = frames(ver, |b, i| ends[i as usize] = b.total);
    // where the bits stop to matter
    let (n, stop) = match k {
        0 => (10, ends[3]),
        1 => (1, ends[1]),
        _ => (2, ends[2]),
    };
    let s = stop as usize;
    let mut e = net[..(s + 7) / 8].to_vec();
    if s % 8 != 0 {
        let keep = (1u8 << (s % 8)) - 1;
        let i = s / 8;
        e[i] = (e[i] & keep) | (vp::u8_() & !keep);
    }
    let m = [0, 1, 3, 4, 9, 40][vp::choose(6) as usize];
    let mut t = vec![0u8; m];
    vp::sym(&mut t);
    e.extend_from_slice(&t);
    let (a, b) = (decode(ver, n, &e), decode(ver, n, &net));
    match (&a, &b) {
        (Ok(p), Ok(q)) => {
            same_frames(&p.network_frames, &q.network_frames);
            va!(matches!(&p.network_frames, Some(f) if f.frames.len() == if k == 1 { 1 } else { 2 }));
            cov!();
        }
        _ => va!(false),
    }
    core::mem::forget((a, b));
});

// the unused bit of a spawned actor
entry!(c10_unused_bit, {
    let u = vp::first(3);
    let ver = VS[u as usize];
    let (x, y) = (vp::bits(1), vp::i32_());
    let enc = |bit: u64| {
        let mut b = Bits::new();
        b.f32(1.0).f32(0.5);
        b.bit(true).bounded(1, 1023).bit(true).bit(true);
        if ver.ge(868, 14, 0) {
            b.i32(y);
        }
        b.put(bit, 1).i32(0).bit(false);
        b.done()
    };
    let (a, b) = (decode(ver, 1, &enc(x)), decode(ver, 1, &enc(0)));
    va!(a.is_ok());
    match (&a, &b) {
        (Ok(p), Ok(q)) => {
            same_frames(&p.network_frames, &q.network_frames);
            cov!();
        }
        _ => va!(false),
    }
    core::mem::forget((a, b));
});

// parts of a replay that the frames do not depend on
entry!(c10_independent, {
    let u = vp::first(8);
    let enc = |x: u64, y: u64| {
        let mut h = W::new();
        header_start(&mut h, MODERN);
        h.int("NumFrames", 2).int("A", x as i32).str("None");
        let mut w = W::new();
        let net = network(MODERN);
        let v = |k: u64| if k == u { x as i32 } else { 7 };
        w.i32(1).text(&[(v(0) & 0x7f) as u8]);
        w.i32(1).i32(v(1)).i32(v(1)).i32(v(1));
        w.i32(net.len() as i32).raw(&net);
        w.i32(1).i32(v(2)).str("u").str("t");
        w.i32(1).str("Team").i32(v(3));
        w.i32(1).text(&[(v(4) & 0x7f) as u8]);
        w.i32(NET_OBJS.len() as i32);
        for o in NET_OBJS {
            w.str(o);
        }
        w.i32(1).text(&[(v(5) & 0x7f) as u8]);
        w.i32(1).str("C").i32(v(6));
        w.i32(NET_CACHE.len() as i32);
        for (obj, props) in NET_CACHE.iter() {
            w.i32(*obj).i32(v(7)).i32(if u == 7 { y as i32 } else { 0 }).i32(props.len() as i32);
            for (o, s) in props.iter() {
                w.i32(*o).i32(*s);
            }
        }
        file(&h.b, &w.b)
    };
    let (a, b) = (parse(&enc(vp::u64_(), vp::u64_())), parse(&enc(vp::u64_(), vp::u64_())));
    match (&a, &b) {
        (Ok(p), Ok(q)) => {
            same_frames(&p.network_frames, &q.network_frames);
            va!(p.network_frames.is_some());
            cov!();
        }
        _ => va!(false),
    }
    core::mem::forget((a, b));
});

// the same parts at other lengths and with other texts: none, one or several elements
entry!(c10_lists, {
    let u = vp::first(8);
    let ver = [MODERN, Ver::new(868, 17, 0), Ver::new(700, 7, 0)][if u == 7 { 0 } else { vp::choose(3) } as usize];
    let n = [0usize, 1, 3, 9][vp::choose(4) as usize];
    // one spawned actor with an arbitrary name and an update of it
    let name = vp::i32_();
    let mut b = Bits::new();
    b.f32(1.0).f32(0.5).bit(true).bounded(5, 1023).bit(true).bit(true);
    if ver.ge(868, 14, 0) {
        b.i32(name);
    }
    b.bit(false).i32(0);
    b.bit(true).bounded(5, 1023).bit(true).bit(false).bit(true).bounded(1, 2).i32(vp::i32_()).bit(false).bit(false);
    let net = b.done();
    let s: Vec<u8> = (0..3 + if u == 7 { 0 } else { vp::choose(3) }).map(|_| vp::u8_() & 0x7f).collect();
    let x = vp::u32_() as i32;
    let enc = |change: bool| {
        let mut h = W::new();
        header_start(&mut h, ver);
        h.int("NumFrames", 1).str("None");
        let mut w = W::new();
        let len = |k: u64| if change && k == u { n } else { 0 };
        let text = |w: &mut W, k: u64| {
            w.i32(len(k) as i32);
            for i in 0..len(k) {
                if i == 0 {
                    w.text(&s);
                } else {
                    w.str(["None", "Core", "", "Engine", "A", "B", "C", "D"][i - 1]);
                }
            }
        };
        text(&mut w, 0);
        w.i32(len(1) as i32);
        for _ in 0..len(1) {
            w.i32(x).i32(x).i32(x);
        }
        w.i32(net.len() as i32).raw(&net);
        w.i32(len(2) as i32);
        for _ in 0..len(2) {
            w.i32(x).text(&s).str("");
        }
        w.i32(len(3) as i32);
        for _ in 0..len(3) {
            w.text(&s).i32(x);
        }
        text(&mut w, 4);
        w.i32(2).str(OBJ).str("Engine.Pawn:HealthMax");
        text(&mut w, 5);
        w.i32(len(6) as i32);
        for i in 0..len(6) {
            w.text(if i == 0 { &s[..] } else { OBJ.as_bytes() }).i32(x);
        }
        // cache entries without properties for objects that are not in the list
        w.i32(1 + len(7) as i32);
        for _ in 0..len(7) {
            w.i32(2 + (x & 0xffff)).i32(x).i32(x).i32(0);
        }
        w.i32(0).i32(x).i32(x).i32(1).i32(1).i32(1);
        file(&h.b, &w.b)
    };
    let (a, b) = (parse(&enc(true)), parse(&enc(false)));
    match (&a, &b) {
        (Ok(p), Ok(q)) => {
            same_frames(&p.network_frames, &q.network_frames);
            va!(matches!(&p.network_frames, Some(f) if f.frames.len() == 1 && f.frames[0].new_actors.len() == 1 && f.frames[0].updated_actors.len() == 1));
            cov!();
        }
        _ => va!(false),
    }
    core::mem::forget((a, b));
});
