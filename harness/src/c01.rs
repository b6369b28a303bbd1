//! C01: no input can crash the parser. Panics, overflow, out-of-bounds access and the exhaustion of
//! the step budget are violations in themselves; the entries only have to reach the code.
use crate::attr::*;
use crate::c09::{CRC, KINDS, NET, VERS};
use crate::docs::*;
use crate::enc::*;
use crate::*;
use boxcars::*;
const M: u32 = 1;

/// every combination of options, when `k` runs over 0..9
fn run(data: &[u8], k: usize) -> Res {
    let r = parse_with(data, CRC[k % 3], NET[k / 3 % 3]);
    cov!();
    r
}
/// the error can be shown; symbolic numbers are not formatted
fn shown(r: Res) {
    if let Err(e) = &r {
        // floats with symbolic digits have no place in a message
        if !matches!(e, ParseError::NetworkError(n) if matches!(**n, NetworkError::FrameError(..))) {
            let s = e.to_string();
            va!(!s.is_empty());
            core::mem::forget(s);
            cov!();
        }
    }
    core::mem::forget(r);
}
/// a step budget far above what any of these inputs needs
fn budget() {
    vp::step_limit(60_000_000);
}

// buffers of arbitrary bytes
entry!(c01_raw, {
    let n = vp::first(if vp::thorough() { 40 } else { 24 }) as usize;
    budget();
    let mut d = vec![0u8; n];
    vp::sym(&mut d);
    let k = vp::choose(9) as usize;
    core::mem::forget(run(&d, k));
});

// a header of arbitrary bytes in a well-formed frame of sections
entry!(c01_header, {
    let u = vp::first(if vp::thorough() { 16 } else { 14 }) as usize;
    budget();
    let n = if vp::thorough() { u + 2 } else { u };
    let mut d = vec![0u8; n];
    vp::sym(&mut d);
    let mut f = file(&d, &[0; 44]);
    // the stored checksum is arbitrary too: inverting it is not the point
    vp::sym(&mut f[4..8]);
    let k = vp::choose(2) as usize * 4;
    core::mem::forget(run(&f, k));
});

// properties with arbitrary payloads
entry!(c01_property, {
    let u = vp::first(20);
    let kind = ["BoolProperty", "ByteProperty", "IntProperty", "QWordProperty", "FloatProperty", "NameProperty", "StrProperty", "StructProperty", "ArrayProperty", "Unknown"][u as usize / 2];
    let ver = if u % 2 == 0 { MODERN } else { Ver { major: 0, minor: 0, stored: None } };
    budget();
    let heavy = matches!(u / 2, 1 | 5 | 6 | 7 | 8);
    let n = vp::choose(if vp::thorough() { 12 } else { 11 } - if heavy { 5 } else { 0 }) as usize;
    let mut w = W::new();
    header_start(&mut w, ver);
    w.prop("K", kind, vp::u32_(), vp::u32_());
    let mut p = vec![0u8; n];
    vp::sym(&mut p);
    w.raw(&p).str("None");
    core::mem::forget(run(&file(&w.b, &[0; 44]), 0));
});

// properties the decoder looks for, of every kind and value
entry!(c01_settings, {
    let u = vp::first(15);
    budget();
    let name = ["NumFrames", "MaxChannels", "MatchType", "BuildVersion", "GameVersion"][u as usize / 3];
    let mut w = W::new();
    header_start(&mut w, MODERN);
    if name != "NumFrames" {
        w.int("NumFrames", 1);
    }
    match u % 3 {
        0 => match vp::choose(4) {
            0 => w.int(name, vp::i32_()),
            1 => w.prop(name, "QWordProperty", 8, 0).u64(vp::u64_()),
            2 => w.prop(name, "FloatProperty", 4, 0).u32(vp::u32_()),
            _ => w.prop(name, "BoolProperty", 0, 0).u8(vp::u8_()),
        },
        1 => {
            w.prop(name, if vp::choose(2) == 0 { "StrProperty" } else { "NameProperty" }, 0, 0);
            let n = vp::choose(if vp::thorough() { 5 } else { 3 }) as usize;
            let mut s = vec![0u8; n];
            vp::sym(&mut s);
            w.text(&s)
        }
        _ => w.prop(name, "ArrayProperty", 0, 0).i32(1).int("X", vp::i32_()).str("None").int(name, vp::i32_()),
    };
    w.str("None");
    let mut net = Bits::new();
    net.f32(1.0).f32(1.0).bit(true);
    for _ in 0..if vp::thorough() { 5 } else { 3 } {
        net.u8(vp::u8_());
    }
    vp::split(true);
    core::mem::forget(run(&file(&w.b, &net_body(&net.done(), &["TAGame.PRI_TA", "Engine.Pawn:RemoteViewPitch"], &[(0, &[(1, 0)])])), 0));
});

// one byte of a complete document is arbitrary, at every position and under all options
entry!(c01_byte, {
    let u = vp::first(24);
    budget();
    let d = pick(u % 3);
    let z = if vp::thorough() { vp::choose(2) == 0 } else { (u / 3) % 2 == 0 };
    let mut data = if z { d.file() } else { sized0(&d) };
    let i = vp::choose(data.len() as u64 / 8 + 1) as usize * 8 + u as usize / 3;
    vp::assume(i < data.len());
    // the quick tier takes a third of the positions
    vp::assume(vp::thorough() | (i / 8 % 3 == (u as usize + 1) % 3));
    let x = vp::u8_();
    // (other texts are in c01_text)
    vp::assume(vp::thorough() | !data[i].is_ascii_graphic() | (x < 0x80));
    data[i] = x;
    vp::split(true);
    let r = run(&data, if vp::thorough() { vp::choose(9) as usize } else { [0, 1, 3, 4][i % 4] });
    shown(r);
});
/// sections without a declared size: parsing goes on past them
fn sized0(d: &Doc) -> Vec<u8> {
    let mut w = W::new();
    w.i32(0).u32(0).raw(&d.h).i32(0).u32(0).raw(&d.b);
    w.b
}

// a byte is arbitrary and the file ends a little later
entry!(c01_byte_cut, {
    let u = vp::first(24);
    budget();
    let d = pick(u % 3);
    let mut data = sized0(&d);
    let i = vp::choose(data.len() as u64 / 8 + 1) as usize * 8 + u as usize / 3;
    vp::assume(i < data.len());
    data[i] = vp::u8_();
    let more = if vp::thorough() { vp::choose(12) as usize } else { [0, 3, 9][vp::choose(3) as usize] };
    data.truncate(i + 1 + more);
    vp::split(true);
    shown(run(&data, i % 9));
});

// aligned words of the document are arbitrary: counts, lengths, sizes, ids
entry!(c01_word, {
    let u = vp::first(24);
    budget();
    let d = pick(u % 3);
    let mut data = sized0(&d);
    // the body's words and the end of the header; the network data has its own entries
    let (from, to) = (d.h.len(), data.len());
    let i = from + vp::choose((to - from) as u64 / 8 + 1) as usize * 8 + u as usize / 3;
    let skip = 16 + d.h.len();
    vp::assume((i + 4 <= to) & !((i > skip + d.net.0 - 4) & (i < skip + d.net.1)));
    let old = u32::from_le_bytes([data[i], data[i + 1], data[i + 2], data[i + 3]]);
    // only places that hold words: short counts, lengths or ids
    vp::assume((old < 0x1000) | (old > 0xffff_f000));
    vp::assume(vp::thorough() | (i / 8 % 2 == (u as usize / 3) % 2));
    let m = vp::choose(3) as usize;
    data[i + m] = vp::u8_();
    data[i + 3] = [0, 0xff][vp::choose(2) as usize];
    vp::split(true);
    core::mem::forget(run(&data, if vp::thorough() { vp::choose(3) as usize * 3 } else { 0 }));
});

// arbitrary bits in place of an attribute of each kind, with arbitrary versions
entry!(c01_attr, {
    let u = vp::first(KINDS.len() as u64);
    budget();
    vp::split(true);
    let (name, pre, size, v) = KINDS[u as usize];
    let ver = if vp::thorough() { VERS[vp::choose(4) as usize] } else { VERS[(v + 1) % 3] };
    let mut e = Env::new(ver, name);
    e.shift = 3;
    let mut b = e.begin();
    for x in pre {
        b.u8(*x);
    }
    // kinds that begin with a text
    let text = matches!(u, 34 | 43 | 58 | 59);
    if text {
        let l: &[i32] = if vp::thorough() { &[0, 1, 2, 5, 1024, 1025, -1, -2, -512, -513, i32::MIN, i32::MAX] } else { &[0, 2, -1, i32::MIN] };
        b.i32(l[vp::choose(l.len() as u64) as usize]);
    }
    for _ in 0..if text { 2 } else { size } / if vp::thorough() { 1 } else { 2 + vp::choose(2) as usize } {
        b.u8(vp::u8_());
    }
    // then whole words of zeros and ones, so that decoding can go on behind it
    let z = vp::choose(3);
    for _ in 0..if z == 2 { 0 } else { 48 } {
        b.u8(if z == 0 { 0 } else { 0xff });
    }
    core::mem::forget(run(&e.file(&b.done()), 0));
});

/// kinds that hold vectors, rotations or quaternions
const GEOMETRY: [u64; 11] = [1, 7, 8, 9, 11, 12, 16, 31, 40, 41, 61];
// the end of data within an attribute of each kind, at every byte and several alignments (all of
// them for the kinds whose reader looks ahead over several fields)
entry!(c01_attr_end, {
    let u = vp::first(KINDS.len() as u64);
    budget();
    vp::split(true);
    let (name, pre, size, v) = KINDS[u as usize];
    let geo = GEOMETRY.contains(&u);
    // the newest layout and an older one
    let ver = if vp::thorough() { VERS[vp::choose(4) as usize] } else { [MODERN, VERS[1 + v % 3]][vp::choose(2) as usize] };
    let mut e = Env::new(ver, name);
    let n = vp::choose((size + if geo { 14 } else { 3 }) as u64) as usize;
    e.shift = if geo || vp::thorough() { vp::choose(8) as u32 } else { (n as u32 * 3 + u as u32) % 8 };
    let mut b = e.begin();
    for x in pre {
        b.u8(*x);
    }
    // the first byte decides the layout, what follows is the same throughout
    let fill = if u % 2 == 0 { 0x00 } else { 0xff };
    for i in 0..n {
        b.u8(if i == 0 { vp::u8_() } else { fill });
    }
    core::mem::forget(run(&e.file(&b.done()), 0));
});

// network data of arbitrary bits behind the frame's times
entry!(c01_frame, {
    let u = vp::first(12);
    budget();
    vp::split(true);
    let ver = VERS[(u % 4) as usize];
    let ch = [2, 4, 1023][(u / 4) as usize];
    let mut h = W::new();
    header_start(&mut h, ver);
    h.int("NumFrames", 2).int("MaxChannels", ch).str("None");
    let mut b = Bits::new();
    b.f32(1.0).f32(0.1);
    for _ in 0..vp::choose(if vp::thorough() { 12 } else { 9 } - u / 8 * 3) {
        b.u8(vp::u8_());
    }
    let objs = ["TAGame.PRI_TA", "Engine.Pawn:RemoteViewPitch", "TAGame.Ball_TA", "TAGame.CrowdActor_TA"];
    core::mem::forget(run(&file(&h.b, &net_body(&b.done(), &objs, &[(0, &[(1, 0)]), (2, &[(1, 2)])])), 0));
});

// frame times of every value
entry!(c01_times, {
    let k = vp::first(2);
    budget();
    let mut b = Bits::new();
    b.u32(vp::u32_()).u32(vp::u32_()).bit(false);
    if k == 1 {
        b.u32(vp::u32_()).u32(vp::u32_()).bit(false);
    }
    let mut h = W::new();
    header_start(&mut h, MODERN);
    h.int("NumFrames", 2).str("None");
    core::mem::forget(run(&file(&h.b, &net_body(&b.done(), &[], &[])), 0));
});

/// names of objects whose shape is unusual
const NAMES: [&str; 20] = [
    "", ".", ":", "a", "a.", "a.b", "a:b", "a.b:", "a.b:c", "a.b:c:d", "TheWorld:PersistentLevel", "x.TheWorld:PersistentLevel.",
    "x.TheWorld:PersistentLevel.CrowdActor_TA_", "x.TheWorld:PersistentLevel.CrowdActor_TA_12", "GameInfo_Soccar.GameInfo.GameInfo_Soccar:", "Archetypes.Ball",
    "TAGame.Default__PRI_TA", "Core.Object", "TAGame.Ball_TA", "Engine.Pawn:RemoteViewPitch",
];
// object names with an arbitrary byte
entry!(c01_object, {
    let u = vp::first(20);
    budget();
    let mut s = NAMES[u as usize].as_bytes().to_vec();
    let n = s.len();
    if n > 0 && vp::choose(2) == 0 {
        let i = vp::choose(n as u64) as usize;
        s[i] = vp::u8_() & if vp::thorough() { 0xff } else { 0x7f };
    } else {
        s.push(vp::u8_() & if vp::thorough() { 0xff } else { 0x7f });
    }
    let mut w = W::new();
    let net = Env::new(MODERN, "x").begin().done();
    w.i32(0).i32(0).i32(net.len() as i32).raw(&net).i32(0).i32(0).i32(0);
    w.i32(3).text(&s).str(NAMES[(u as usize + 7) % 20]).text(&s).i32(0).i32(0);
    w.i32(2).i32(0).i32(0).i32(0).i32(2).i32(1).i32(0).i32(2).i32(5).i32(1).i32(0).i32(0).i32(1).i32(0).i32(1);
    let mut h = W::new();
    header_start(&mut h, MODERN);
    h.int("NumFrames", 1).int("MaxChannels", 8).str("None");
    core::mem::forget(run(&file(&h.b, &w.b), 0));
});

// names behind the prefixes of map objects, ending in arbitrary bytes
entry!(c01_map_object, {
    let u = vp::first(24) as usize;
    budget();
    const CLASSES: [&str; 8] = ["CrowdActor_TA", "CrowdManager_TA", "VehiclePickup_Boost_TA", "InMapScoreboard_TA", "BreakOutActor_Platform_TA", "PlayerStart_Platform_TA", "SomethingWithoutAnyClassOfItsOwn_TA", "X"];
    let mut s = [&b"x."[..], b"", b"stadium_foggy_p."][u / 8].to_vec();
    s.extend_from_slice(b"TheWorld:PersistentLevel.");
    s.extend_from_slice(CLASSES[u % 8].as_bytes());
    let extra = vp::choose(4) as usize;
    match extra {
        0 => {
            // a character of the class replaced
            let n = s.len();
            let i = n - 1 - vp::choose(core::cmp::min(8, CLASSES[u % 8].len() as u64)) as usize;
            s[i] = vp::u8_();
        }
        1 => s.push(vp::u8_()),
        2 => {
            s.push(vp::u8_());
            s.push([b'_', b'0'][vp::choose(2) as usize]);
        }
        _ => {
            s.push(b'_');
            s.push(vp::u8_());
            s.push(b'7');
        }
    }
    let mut w = W::new();
    w.i32(0).i32(0).i32(0).i32(0).i32(0).i32(0).i32(2).text(&s).str("TAGame.CrowdActor_TA").i32(0).i32(0);
    w.i32(1).i32(0).i32(0).i32(0).i32(1).i32(1).i32(1);
    let mut h = W::new();
    header_start(&mut h, MODERN);
    h.int("NumFrames", 0).str("None");
    core::mem::forget(run(&file(&h.b, &w.b), 0));
});

// the network cache: object and stream numbers of every value, one at a time
entry!(c01_cache, {
    let u = vp::first(10);
    budget();
    let ids = [-1, 0, 1, 2, 63, 64, i32::MAX - 1, i32::MAX, i32::MIN, 1 << 30];
    let (a, b) = (ids[vp::choose(10) as usize], ids[u as usize]);
    let x = vp::i32_();
    let objs = ["TAGame.PRI_TA", "Engine.Pawn:RemoteViewPitch", "TAGame.Ball_TA"];
    let c1 = [(1, b)];
    let c2 = [(1, a), (x, 2)];
    let mut h = W::new();
    header_start(&mut h, MODERN);
    h.int("NumFrames", 1).int("MaxChannels", 8).str("None");
    let mut n = Bits::new();
    n.f32(1.0).f32(1.0).bit(true).bounded(1, 8).bit(true).bit(true).i32(7).bit(false).i32(if a < 0 { 2 } else { 0 }).bit(false);
    n.bit(true).bounded(1, 8).bit(true).bit(false).bit(true);
    let y = vp::u64_();
    n.u64(y).u64(0);
    vp::split(true);
    core::mem::forget(run(&file(&h.b, &net_body(&n.done(), &objs, &[(0, &c1), (2, &c2), (a, &c1)])), 0));
});

// texts of every kind with arbitrary contents, in sections and in network data
entry!(c01_text, {
    let u = vp::first(10);
    budget();
    let n = if vp::thorough() { 6 } else { 3 };
    let mut t = vec![0u8; n * 2];
    let (len, bytes) = if u % 2 == 0 { (n as i32, n) } else { (-(n as i32), 2 * n) };
    vp::sym(&mut t[..bytes]);
    t.truncate(bytes);
    match u / 2 {
        // header text
        0 => {
            let mut w = W::new();
            header_start(&mut w, MODERN);
            w.prop("K", "StrProperty", 0, 0).i32(len).raw(&t).str("None");
            core::mem::forget(run(&file(&w.b, &[0; 44]), 0));
        }
        // body text
        1 => {
            let mut w = W::new();
            w.i32(1).i32(len).raw(&t).raw(&[0; 40]);
            let mut h = W::new();
            header_start(&mut h, MODERN);
            h.str("None");
            core::mem::forget(run(&file(&h.b, &w.b), 0));
        }
        // property name
        2 => {
            let mut w = W::new();
            header_start(&mut w, MODERN);
            w.i32(len).raw(&t).str("IntProperty").u64(0).i32(0).str("None");
            core::mem::forget(run(&file(&w.b, &[0; 44]), 0));
        }
        // network text
        3 => {
            let e = Env::new(MODERN, "Engine.PlayerReplicationInfo:PlayerName");
            let mut b = e.begin();
            b.i32(len).bytes(&t);
            let v = e.end(&mut b);
            core::mem::forget(run(&e.file(&v), 0));
        }
        // fixed-size platform name
        _ => {
            let e = Env::new(MODERN, "Engine.PlayerReplicationInfo:UniqueId");
            let mut b = e.begin();
            b.u8(2).bytes(&t).bytes(&[0; 16][..16 - bytes]).bytes(&[0; 25]);
            let v = e.end(&mut b);
            core::mem::forget(run(&e.file(&v), 0));
        }
    }
});

// lengths of network text: every value, with more or less data behind it
entry!(c01_text_len, {
    let u = vp::first(4);
    budget();
    let e = Env::new(MODERN, ["Engine.PlayerReplicationInfo:PlayerName", "TAGame.PRI_TA:RepStatTitles", "Engine.PlayerReplicationInfo:UniqueId", "TAGame.GameEvent_SoccarPrivate_TA:MatchSettings"][u as usize]);
    let mut b = e.begin();
    match u {
        1 => {
            b.bit(true);
        }
        2 => {
            b.u8(11);
        }
        _ => {}
    }
    b.i32(vp::i32_());
    for _ in 0..[40, 7, 1, 0][vp::choose(if vp::thorough() { 4 } else { 2 }) as usize] {
        b.u8(0x41);
    }
    vp::split(true);
    core::mem::forget(run(&e.file(&b.done()), 0));
});
