//! Template replays: concrete documents that exercise every section.
use crate::enc::*;
use crate::tree::{self, f, P};
use crate::val::*;
use crate::*;
use boxcars::*;
const M: u32 = 94;

pub const NET_OBJS: &[&str] = &[
    "TAGame.PRI_TA",                                  // 0
    "Engine.PlayerReplicationInfo:Score",             // 1 int
    "Engine.PlayerReplicationInfo:PlayerName",        // 2 string
    "Engine.PlayerReplicationInfo:UniqueId",          // 3 unique id
    "TAGame.Ball_TA",                                 // 4
    "TAGame.RBActor_TA:ReplicatedRBState",            // 5 rigid body
    "Engine.Actor:bHidden",                           // 6 boolean
    "TAGame.PRI_TA:ClientLoadout",                    // 7 loadout
    "TAGame.PRI_TA:ClientLoadoutOnline",              // 8 products
    "TAGame.ProductAttribute_Painted_TA",             // 9
    "TAGame.RBActor_TA",                              // 10
];
pub const NET_CACHE: Cache = &[(0, &[(1, 0), (2, 1), (3, 2), (7, 3), (8, 4)]), (4, &[(5, 0), (6, 1)])];

#[derive(Clone)]
pub struct Doc {
    pub h: Vec<u8>,
    pub b: Vec<u8>,
    /// where the network data lies in the body
    pub net: (usize, usize),
}

pub struct Opt {
    pub ver: Ver,
    pub quirks: bool,
    pub frames: i32,
}

/// two frames with spawns, updates of several kinds, and a deletion
pub fn network(ver: Ver) -> Vec<u8> {
    frames(ver, |_, _| {})
}
/// the same, and where each frame ends; the hook is called with the frame's number at its end
pub fn frames(ver: Ver, mut at: impl FnMut(&mut Bits, u32)) -> Vec<u8> {
    let mut b = Bits::new();
    let net = ver.net();
    b.f32(1.0).f32(0.25);
    let new = |b: &mut Bits, a: u64, obj: i32| {
        b.bit(true).bounded(a, 1023).bit(true).bit(true);
        if ver.ge(868, 14, 0) {
            b.i32(7);
        }
        b.bit(false).i32(obj);
    };
    new(&mut b, 1, 0);
    new(&mut b, 5, 4);
    // ball: location and rotation
    b.bounded(5, if net >= 7 { 22 } else { 20 }).put(3, 7).put(70, 7).put(9, 7);
    b.bit(true).u8(4).bit(false).bit(true).u8(200);
    // rigid body
    b.bit(true).bounded(5, 1023).bit(true).bit(false);
    b.bit(true).bounded(0, 2).bit(false);
    b.bounded(9, if net >= 7 { 22 } else { 20 }).put(300, 11).put(1700, 11).put(1024, 11);
    if net >= 7 {
        b.put(1, 2).put(1000, 18).put(200_000, 18).put(131_000, 18);
    } else {
        b.put(1000, 16).put(60_000, 16).put(32_768, 16);
    }
    b.bounded(2, if net >= 7 { 22 } else { 20 }).put(3, 4).put(15, 4).put(9, 4);
    b.bounded(3, if net >= 7 { 22 } else { 20 }).put(3, 5).put(31, 5).put(17, 5);
    b.bit(false);
    // player
    b.bit(true).bounded(1, 1023).bit(true).bit(false);
    b.bit(true).bounded(0, 5).i32(-77);
    b.bit(true).bounded(1, 5).text(b"Nick");
    b.bit(true).bounded(2, 5).u8(1).u64(0x0110_0001_0203_0405).u8(2);
    b.bit(false);
    b.bit(false);
    at(&mut b, 1);
    b.f32(1.25).f32(0.25);
    b.bit(true).bounded(1, 1023).bit(true).bit(false);
    b.bit(true).bounded(3, 5).u8(1);
    for i in 0..7 {
        b.u32(100 + i);
    }
    b.bit(true).bounded(4, 5).u8(1).u8(1).bit(false).u32(9);
    if ver.ge(868, 18, 0) {
        b.put(12, 31);
    } else {
        b.bounded(5, 14);
    }
    b.bit(false);
    b.bit(true).bounded(5, 1023).bit(false);
    b.bit(false);
    at(&mut b, 2);
    b.u32(0).u32(0);
    at(&mut b, 3);
    b.done()
}

pub fn doc(o: Opt) -> Doc {
    let mut h = W::new();
    header_start(&mut h, o.ver);
    let by = |s: &str| s.as_bytes().to_vec();
    let l = vec![
        f(b"NumFrames", P::Int(o.frames)),
        f(b"TeamSize", P::Int(3)),
        f(b"bWin", P::Bool([1, 0, 0, 0])),
        f(b"PlayerID", P::QWord(76561198101748375)),
        f(b"RecordFPS", P::Float(30f32.to_bits())),
        f(b"MatchType", P::Name(by("Online"))),
        f(b"ReplayName", P::Str(by("my replay"))),
        f(b"Platform", P::Byte(by("OnlinePlatform"), by("OnlinePlatform_Steam"))),
        f(b"Skipped", if o.quirks { P::Int(1) } else { P::ByteNone(7) }),
        f(
            b"Goals",
            P::Array(vec![vec![f(b"frame", P::Int(441)), f(b"PlayerName", P::Str(by("Cakeboss")))], vec![f(b"bBot", P::Bool([0, 1, 1, 1]))]]),
        ),
        f(b"Id", P::Struct(by("UniqueNetId"), vec![f(b"Uid", P::QWord(5)), f(b"Epic", P::Str(vec![]))])),
    ];
    tree::enc(&mut h, &l, o.quirks);
    let net = network(o.ver);
    let mut w = W::new();
    w.i32(2).str("stadium_p").utf16(&[0x4e2d, 0x41]);
    w.i32(1).u32(1f32.to_bits()).i32(1).i32(0);
    w.i32(net.len() as i32);
    let at = w.b.len();
    w.raw(&net);
    w.i32(1).i32(3).str("user").text(b"text\xe9");
    w.i32(1).str("Team0Goal").i32(2);
    w.i32(1).str("pkg");
    w.i32(NET_OBJS.len() as i32);
    for o in NET_OBJS {
        w.str(o);
    }
    w.i32(2).str("").str("PRI_TA_0");
    w.i32(2).str("TAGame.PRI_TA").i32(0).str("TAGame.Ball_TA").i32(4);
    w.i32(NET_CACHE.len() as i32);
    for (i, (obj, props)) in NET_CACHE.iter().enumerate() {
        w.i32(*obj).i32(i as i32 - 1).i32(i as i32).i32(props.len() as i32);
        for (o, s) in props.iter() {
            w.i32(*o).i32(*s);
        }
    }
    Doc { h: h.b, b: w.b, net: (at, at + net.len()) }
}

pub fn modern() -> Doc {
    doc(Opt { ver: MODERN, quirks: false, frames: 10 })
}
pub fn legacy() -> Doc {
    doc(Opt { ver: Ver::new(700, 7, 0), quirks: false, frames: 2 })
}
pub fn ancient() -> Doc {
    doc(Opt { ver: Ver { major: 0, minor: 0, stored: None }, quirks: true, frames: 2 })
}
pub fn pick(i: u64) -> Doc {
    match i {
        0 => modern(),
        1 => legacy(),
        _ => ancient(),
    }
}

impl Doc {
    pub fn file(&self) -> Vec<u8> {
        file(&self.h, &self.b)
    }
    /// sections with the given checksum words
    pub fn with_crc(&self, c1: u32, c2: u32) -> Vec<u8> {
        let mut w = W::new();
        section(&mut w, &self.h, c1);
        section(&mut w, &self.b, c2);
        w.b
    }
}

/// everything but the frames is the same
pub fn same_but_frames(a: &Replay, b: &Replay) {
    let strip = |r: &Replay| {
        let mut v = to_val(r, TREE);
        if let Val::Map(l) = &mut v {
            for (k, x) in l.iter_mut() {
                if matches!(k, Val::Str(s) if &s[..] == b"network_frames") {
                    core::mem::forget(core::mem::replace(x, Val::Unit));
                }
            }
        }
        v
    };
    let (x, y) = (strip(a), strip(b));
    same_val(&x, &y);
    core::mem::forget((x, y));
}
pub fn same_replay(a: &Replay, b: &Replay) {
    let (x, y) = (to_val(a, TREE), to_val(b, TREE));
    same_val(&x, &y);
    core::mem::forget((x, y));
}
pub fn same_frames(a: &Option<NetworkFrames>, b: &Option<NetworkFrames>) {
    va!(a.is_some() == b.is_some());
    let (x, y) = (to_val(a, TREE), to_val(b, TREE));
    same_val(&x, &y);
    core::mem::forget((x, y));
}

pub type Res = Result<Replay, ParseError>;
/// same replay or same error
pub fn same_result(a: &Res, b: &Res) {
    match (a, b) {
        (Ok(x), Ok(y)) => same_replay(x, y),
        (Err(x), Err(y)) => va!(x == y),
        _ => va!(false),
    }
}
