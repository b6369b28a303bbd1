//! C02: declared counts, lengths and nesting reserve no more than a fixed limit plus a small multiple
//! of the input.
use crate::attr::*;
use crate::docs::*;
use crate::enc::*;
use crate::*;
use boxcars::*;
const M: u32 = 2;

const KB: u64 = 1024;
/// what a list of 25,000 elements may reserve, and the storage of everything else
const LIST: u64 = 4096 * KB;
const SMALL: u64 = 128 * KB;

/// parse with a limit on what is live at once, and on single requests
fn limited(data: &[u8], fixed: u64) -> Result<Replay, ParseError> {
    vp::mem_limit(fixed + 512 * data.len() as u64, fixed + 1024 * data.len() as u64);
    parse(data)
}
fn free() {
    vp::mem_limit(1 << 30, 1 << 30);
}

/// the innermost error
fn cause(e: &ParseError) -> &ParseError {
    match e {
        ParseError::ParseError(_, _, b) => cause(b),
        ParseError::CorruptReplay(_, b) => cause(b),
        e => e,
    }
}

/// header with no properties
fn plain_header() -> Vec<u8> {
    let mut h = W::new();
    header_start(&mut h, MODERN);
    h.str("None");
    h.b
}

/// the lists of the body, in order; each is empty but one
const LISTS: [&str; 9] = ["levels", "keyframes", "debug info", "tick marks", "packages", "objects", "names", "class indices", "net cache"];

fn body_with(k: usize, put: impl Fn(&mut W)) -> Vec<u8> {
    let mut w = W { b: Vec::with_capacity(512) };
    for i in 0..LISTS.len() {
        if i == 2 {
            w.i32(0);
        }
        if i == k {
            put(&mut w);
        } else {
            w.i32(0);
        }
    }
    w.b
}

/// one element of the list
fn element(k: usize, w: &mut W) {
    match k {
        0 | 4 | 5 | 6 => {
            w.str("a");
        }
        1 => {
            w.f_(1.0).i32(1).i32(2);
        }
        2 => {
            w.i32(1).str("u").str("t");
        }
        3 => {
            w.str("d").i32(1);
        }
        7 => {
            w.str("c").i32(0);
        }
        8 => {
            w.i32(0).i32(0).i32(0).i32(0);
        }
        _ => {
            w.i32(0).i32(0);
        }
    }
}
impl W {
    fn f_(&mut self, v: f32) -> &mut W {
        self.u32(v.to_bits())
    }
}

fn too_large(r: &Result<Replay, ParseError>) -> bool {
    matches!(r.as_ref().map_err(cause), Err(ParseError::ListTooLarge(_)))
}
/// the limit is reported exactly when the number lies outside it
fn judge_list(r: &Result<Replay, ParseError>, n: i32) {
    let over = (n < 0) | (n > 25_000);
    match r.as_ref().map_err(cause) {
        Err(ParseError::ListTooLarge(x)) => {
            va!(over & (*x == n as usize));
            cov!();
        }
        _ => {
            va!(!over);
            cov!();
        }
    }
}

// every number of elements for each list of the body, followed by a few or no elements
entry!(c02_list, {
    let u = vp::first(18);
    let k = u as usize / 2;
    let n = vp::i32_();
    let real = if vp::thorough() { vp::choose(4) } else { (u % 2) * 2 };
    let tail = [0usize, 3, 40][vp::choose(3) as usize];
    let b = body_with(k, |w| {
        w.i32(n);
        for _ in 0..real {
            element(k, w);
        }
        w.raw(&[0; 64][..tail]);
    });
    // (with fewer elements than these, the rest is something else)
    vp::assume((n < 0) | (n >= real as i32));
    let data = file(&plain_header(), &b);
    let r = limited(&data, LIST);
    free();
    judge_list(&r, n);
    core::mem::forget(r);
});

// the properties of a cached class, and elements of array properties
entry!(c02_inner_list, {
    let u = vp::first(8);
    let n = vp::i32_();
    let tail = [0usize, 3, 9, 40][vp::choose(4) as usize];
    let data = if u < 4 {
        // in the first or second class
        let mut w = W::new();
        w.i32(0).i32(0).i32(0).i32(0).i32(0).i32(0).i32(1).str("a").i32(0).i32(0).i32(1 + (u as i32 & 1));
        if u & 1 == 1 {
            w.i32(0).i32(0).i32(0).i32(1).i32(0).i32(0);
        }
        w.i32(0).i32(0).i32(0).i32(n);
        if u >= 2 {
            w.i32(0).i32(5);
        }
        w.raw(&[0; 40][..tail]);
        file(&plain_header(), &w.b)
    } else {
        let mut w = W::new();
        header_start(&mut w, if u & 1 == 0 { MODERN } else { Ver { major: 0, minor: 0, stored: None } });
        w.prop("A", "ArrayProperty", vp::u32_(), vp::u32_()).i32(n);
        if u >= 6 {
            w.int("x", 1).str("None");
        }
        w.raw(&[0; 40][..tail]);
        file(&w.b, &[0; 44])
    };
    let r = limited(&data, LIST);
    free();
    judge_list(&r, n);
    core::mem::forget(r);
});

// arrays within arrays, each with any number of elements
entry!(c02_nested_lists, {
    let u = vp::first(6);
    let depth = [2, 3, 4][u as usize / 2];
    let mut w = W::new();
    header_start(&mut w, if u & 1 == 0 { MODERN } else { Ver { major: 0, minor: 0, stored: None } });
    let mut bad = false;
    for _ in 0..depth {
        let n = vp::i32_();
        // an array without elements ends here
        bad |= (n < 0) | (n > 25_000);
        w.prop("A", "ArrayProperty", vp::u32_(), 0).i32(n);
    }
    let data = file(&w.b, &[0; 44]);
    let r = limited(&data, depth * LIST);
    free();
    match r.as_ref().map_err(cause) {
        Err(ParseError::ListTooLarge(_)) => {
            va!(bad);
            cov!();
        }
        Err(_) => cov!(),
        Ok(_) => va!(false),
    }
    core::mem::forget(r);
});

// the largest permitted lists and texts are accepted, one more is not
entry!(c02_limits, {
    let u = vp::first(8);
    let over = vp::choose(2) == 1;
    match u {
        // keyframes, debug info, names
        0..=2 => {
            let n = 25_000 + over as i32;
            let k = [1, 6, 9][u as usize];
            let b = if k == 9 {
                let mut w = W { b: Vec::with_capacity(250_000) };
                w.i32(0).i32(0).i32(0).i32(0).i32(0).i32(0).i32(1).str("a").i32(0).i32(0).i32(1).i32(0).i32(0).i32(0).i32(n);
                for i in 0..n {
                    w.i32(0).i32(i & 31);
                }
                w.b
            } else {
                body_with(k, |w| {
                    w.i32(n);
                    for _ in 0..n {
                        element(k, w);
                    }
                })
            };
            let data = file(&plain_header(), &b);
            let r = parse_with(&data, CrcCheck::Never, NetworkParse::Never);
            va!(r.is_ok() != over);
            va!(too_large(&r) == over);
            core::mem::forget(r);
        }
        // array elements
        3 => {
            let n = 25_000 + over as i32;
            let mut w = W { b: Vec::with_capacity(400_000) };
            header_start(&mut w, MODERN);
            w.prop("A", "ArrayProperty", 0, 0).i32(n);
            for _ in 0..n {
                w.str("None");
            }
            w.str("None");
            let data = file(&w.b, &[0; 44]);
            let r = parse_with(&data, CrcCheck::Never, NetworkParse::Never);
            va!(r.is_ok() != over);
            va!(too_large(&r) == over);
            core::mem::forget(r);
        }
        // texts of both kinds in the header and the body
        _ => {
            let n = 10_000 + over as usize;
            let wide = u % 2 == 1;
            let mut t = W { b: Vec::with_capacity(21_000) };
            t.i32(if wide { -(n as i32) } else { n as i32 });
            for i in 0..n {
                let c = if i + 1 == n { 0 } else { b'a' + (i % 20) as u8 };
                t.u8(c);
                if wide {
                    t.u8(0);
                }
            }
            let mut h = W { b: Vec::with_capacity(21_000) };
            header_start(&mut h, MODERN);
            if u < 6 {
                h.prop("K", "StrProperty", 0, 0).raw(&t.b);
            }
            h.str("None");
            let b = body_with(if u < 6 { 99 } else { 0 }, |w| {
                w.i32(1).raw(&t.b);
            });
            let data = file(&h.b, &b);
            let r = parse_with(&data, CrcCheck::Never, NetworkParse::Never);
            va!(r.is_ok() != over);
            va!(matches!(r.as_ref().map_err(cause), Err(ParseError::TextTooLarge(x)) if *x == if wide { -(n as i32) } else { n as i32 }) == over);
            if let Ok(x) = &r {
                let got = if u < 6 { x.properties[0].1.as_string().map(|s| s.len()) } else { Some(x.levels[0].len()) };
                va!(got == Some(n - 1));
            }
            core::mem::forget(r);
        }
    }
    cov!();
});

/// is the length outside the limit of texts
fn text_over(n: i32) -> bool {
    (n < -10_000) | (n > 10_000)
}
fn judge_text(r: &Result<Replay, ParseError>, n: i32) {
    match r.as_ref().map_err(cause) {
        Err(ParseError::TextTooLarge(x)) => {
            va!(text_over(n) & (*x == n));
            cov!();
        }
        _ => {
            va!(!text_over(n));
            cov!();
        }
    }
}

// every length of a text, wherever the sections have one
entry!(c02_text, {
    let u = vp::first(14);
    let n = vp::i32_();
    let tail = [0usize, 5, 24][vp::choose(3) as usize];
    let mut h = W::new();
    header_start(&mut h, MODERN);
    let t = |w: &mut W| {
        w.i32(n).raw(&[0; 24][..tail]);
    };
    let mut b = W::new();
    match u {
        0 | 1 => {
            h.prop("K", ["StrProperty", "NameProperty"][u as usize], vp::u32_(), 0);
            t(&mut h);
        }
        2 => {
            h.prop("K", "ArrayProperty", 0, 0).i32(1).prop("L", "StrProperty", 0, 0);
            t(&mut h);
        }
        // a second list element behind a proper one
        3 => {
            h.str("None");
            b.i32(2).str("x");
            t(&mut b);
        }
        _ => {
            h.str("None");
            let k = [0, 2, 2, 3, 4, 5, 6, 0, 2, 3][u as usize - 4];
            b.b = body_with(k, |w| {
                w.i32(1);
                if k == 2 {
                    w.i32(1);
                    if u == 6 || u == 12 {
                        w.str("u");
                    }
                }
                t(w)
            });
        }
    }
    let data = if u < 3 { file(&h.b, &[0; 44]) } else { file(&h.b, &b.b) };
    let r = limited(&data, SMALL);
    free();
    judge_text(&r, n);
    core::mem::forget(r);
});

// texts read as plain byte strings reserve nothing: names, kinds, the game type
entry!(c02_str, {
    let u = vp::first(6);
    let n = vp::i32_();
    let tail = [0usize, 5, 24][vp::choose(3) as usize];
    let mut h = W::new();
    match u {
        0 => {
            h.i32(868).i32(32).i32(10);
        }
        1 => header_start(&mut h, MODERN),
        2 => {
            header_start(&mut h, MODERN);
            h.str("K");
        }
        3 => {
            header_start(&mut h, MODERN);
            h.prop("K", "ByteProperty", 0, 0);
        }
        5 => header_start(&mut h, MODERN),
        _ => {
            header_start(&mut h, MODERN);
            h.prop("K", "ByteProperty", 0, 0).str("OnlinePlatform");
        }
    }
    let mut b = W::new();
    if u == 5 {
        h.str("None");
        b.b = body_with(7, |w| {
            w.i32(1).i32(n).raw(&b"abcdefghijklmnopqrstuvwx"[..tail]);
        });
        b.b.truncate(9 * 4 + 8 + tail);
    } else {
        h.i32(n).raw(&b"abcdefghijklmnopqrstuvwx"[..tail]);
    }
    let data = file(&h.b, &b.b);
    let r = limited(&data, SMALL);
    free();
    va!(r.is_err() | (u == 5));
    cov!();
    core::mem::forget(r);
});

// sizes of sections, of the network data and of properties
entry!(c02_size, {
    let u = vp::first(4);
    let n = vp::i32_();
    let tail = [0usize, 5, 60][vp::choose(3) as usize];
    let mut w = W::new();
    let h = plain_header();
    match u {
        0 => {
            w.i32(n).u32(vp::u32_()).raw(&h).i32(44).u32(0).raw(&[0; 44]);
        }
        1 => {
            w.i32(h.len() as i32).u32(0).raw(&h).i32(n).u32(vp::u32_()).raw(&[0; 60][..tail]);
        }
        2 => {
            w.b = file(&h, &{
                let mut b = W::new();
                b.i32(0).i32(0).i32(n).raw(&[0; 60][..tail]);
                b.b
            });
        }
        _ => {
            let mut x = W::new();
            header_start(&mut x, MODERN);
            x.prop("K", "UnheardProperty", n as u32, vp::u32_()).raw(&[0; 60][..tail]);
            w.b = file(&x.b, &[0; 44]);
        }
    }
    let r = limited(&w.b, SMALL);
    free();
    cov!();
    core::mem::forget(r);
});

// every number of frames, with more or less network data
entry!(c02_frames, {
    let u = vp::first(9);
    let n = vp::i32_();
    let len = [0usize, 1, 2, 7, 8, 9, 17, 40, 300][u as usize];
    let mut h = W::new();
    header_start(&mut h, MODERN);
    h.int("NumFrames", n).str("None");
    // the frames in the data are valid: times, and no actors
    let mut net = vec![0u8; len];
    if u < 7 {
        vp::sym(&mut net[..if len > 8 { 0 } else { len }]);
    }
    let data = file(&h.b, &net_body(&net, &["TAGame.PRI_TA"], &[]));
    vp::split(true);
    let r = limited(&data, SMALL);
    free();
    let over = (n < 0) | (n as i64 > len as i64);
    match r.as_ref().map_err(cause) {
        Err(ParseError::NetworkError(e)) => match &**e {
            NetworkError::TooManyFrames(x) => {
                va!(over & (*x == n));
                cov!();
            }
            _ => va!(!over),
        },
        Err(_) => va!(false),
        Ok(x) => {
            va!(!over);
            let k = x.network_frames.as_ref().map(|f| f.frames.len());
            va!(matches!(k, Some(k) if k as i64 <= n as i64));
            cov!();
        }
    }
    core::mem::forget(r);
});

// every channel count, actor id, object number and stream id, none of which says how much there is
entry!(c02_numbers, {
    let u = vp::first(7);
    let x = vp::i32_();
    let pick = |k: u64, y: i32| if k == u { x } else { y };
    let mut h = W::new();
    header_start(&mut h, MODERN);
    h.int("NumFrames", vp::choose(3) as i32).int("MaxChannels", pick(0, 1023)).int("TeamSize", pick(1, 3)).str("None");
    let mut b = Bits::new();
    b.f32(1.0).f32(0.5);
    if u == 2 {
        // an actor with any id under the largest count
        b.bit(true).u32(x as u32).bit(true).bit(true);
    } else {
        b.bit(true).bounded(5, 1023).bit(true).bit(true);
    }
    b.i32(pick(3, 7)).bit(false).i32(pick(4, 0)).bit(false);
    b.u64(0);
    if u == 2 {
        h = W::new();
        header_start(&mut h, MODERN);
        h.int("NumFrames", 1).int("MaxChannels", -1).str("None");
    }
    vp::split(true);
    let c1 = [(1, pick(5, 0))];
    let c2 = [(pick(6, 1), 3)];
    let data = file(&h.b, &net_body(&b.done(), &["TAGame.PRI_TA", "Engine.Pawn:HealthMax"], &[(0, &c1), (0, &c2)]));
    let r = limited(&data, SMALL);
    free();
    cov!();
    core::mem::forget(r);
});

// every length of a text in the network data
entry!(c02_net_text, {
    let u = vp::first(6);
    let names = ["Engine.PlayerReplicationInfo:PlayerName", "TAGame.PRI_TA:RepStatTitles", "Engine.PlayerReplicationInfo:UniqueId", "TAGame.GameEvent_SoccarPrivate_TA:MatchSettings", "ProjectX.GRI_X:Reservations", "TAGame.PRI_TA:ClientLoadoutOnline"];
    let e = Env::new(MODERN, names[u as usize]);
    let mut b = e.begin();
    match u {
        1 => {
            b.bit(true);
        }
        2 => {
            b.u8(11);
        }
        4 => {
            b.put(1, 3).u8(1).u64(5).u8(0);
        }
        _ => {}
    }
    let n = vp::i32_();
    b.i32(n);
    for _ in 0..[30, 6][vp::choose(2) as usize] {
        b.u8(0x41);
    }
    vp::split(true);
    let data = e.file(&b.done());
    let r = limited(&data, SMALL);
    free();
    if u < 4 {
        let over = (n > 1024) | (n < -512);
        let mut seen = false;
        if let Err(ParseError::NetworkError(x)) = r.as_ref().map_err(cause) {
            if let NetworkError::FrameError(FrameError::AttributeError { error: AttributeError::TooBigString(size), .. }, _) = &**x {
                seen = *size == n;
            }
        }
        // (a text without its data is reported the same way)
        va!(seen | !over);
        va!(!seen | over | (n > 6) | (n < -3));
    }
    cov!();
    core::mem::forget(r);
});

// numbers of products and lists of products
entry!(c02_products, {
    let u = vp::first(3);
    let e = Env::new(MODERN, ["TAGame.PRI_TA:ClientLoadoutOnline", "TAGame.PRI_TA:ClientLoadoutsOnline", "TAGame.PRI_TA:ClientLoadouts"][u as usize]);
    let mut b = e.begin();
    for _ in 0..if vp::thorough() { 3 } else { 2 } {
        b.u8(vp::u8_());
    }
    for _ in 0..vp::choose(3) * 3 {
        b.u8(0);
    }
    vp::split(true);
    let data = e.file(&b.done());
    let r = limited(&data, SMALL);
    free();
    cov!();
    core::mem::forget(r);
});

// documents with one count replaced by any number
entry!(c02_document, {
    let u = vp::first(3);
    let d = pick(u);
    let mut w = W::new();
    w.i32(0).u32(0).raw(&d.h).i32(0).u32(0).raw(&d.b);
    let skip = 16 + d.h.len();
    // behind the network data: debug info, tick marks, packages, objects, names, classes, cache
    let from = skip + d.net.1;
    let i = from + vp::choose((w.b.len() - 4 - from) as u64) as usize;
    let old = u32::from_le_bytes([w.b[i], w.b[i + 1], w.b[i + 2], w.b[i + 3]]);
    vp::assume((old < 40) & ((i > from + 3) | (i == from)));
    vp::assume(vp::thorough() | (i % 3 == u as usize));
    w.b[i + 1 + vp::choose(3) as usize] = vp::u8_();
    vp::split(true);
    let r = limited(&w.b, LIST);
    free();
    cov!();
    core::mem::forget(r);
});

/// header with properties nested to a depth; kind of each level by the bits of `mix`
fn nest(depth: u32, mix: u32, ver: Ver, size: u32) -> Vec<u8> {
    let mut w = W { b: Vec::with_capacity(depth as usize * 60 + 100) };
    header_start(&mut w, ver);
    for i in 0..depth {
        if mix >> (i % 7) & 1 == 0 {
            w.prop("A", "ArrayProperty", size, 0).i32(1);
        } else {
            w.prop("S", "StructProperty", size, 0).str("T");
        }
    }
    w.int("x", 7);
    for i in 0..depth {
        w.str("None");
        let _ = i;
    }
    w.str("None");
    w.b
}

// ordinary nesting is accepted and kept
entry!(c02_nesting, {
    let u = vp::first(16);
    let ver = if u % 2 == 0 { MODERN } else { Ver { major: 0, minor: 0, stored: None } };
    let mix = [0, 127, 0x55, 0x2a, 0x0f, 0x63, 0x19, 0x7e][u as usize / 2];
    let depth = [0, 1, 2, 3, 8, 20][vp::choose(6) as usize];
    let size = vp::u32_();
    let data = file(&nest(depth, mix, ver, size), &[0; 44]);
    let r = limited(&data, SMALL);
    free();
    match &r {
        Ok(x) => {
            let mut p = &x.properties;
            let mut left = depth;
            loop {
                va!(p.len() == 1);
                match &p[0].1 {
                    HeaderProp::Array(v) => {
                        va!(v.len() == 1);
                        p = &v[0];
                    }
                    HeaderProp::Struct { fields, .. } => p = fields,
                    x => {
                        va!(matches!(x, HeaderProp::Int(7)));
                        break;
                    }
                }
                left -= 1;
            }
            va!(left == 0);
            cov!();
        }
        Err(_) => va!(false),
    }
    core::mem::forget(r);
});

// nesting without end is an error, whatever sizes are declared
entry!(c02_deep, {
    let u = vp::first(16);
    let ver = if u % 2 == 0 { MODERN } else { Ver { major: 0, minor: 0, stored: None } };
    let mix = [0, 127, 0x55, 0x2a, 0x0f, 0x63, 0x19, 0x7e][u as usize / 2];
    let depth = if vp::thorough() { 60_000 } else { 6_000 };
    let size = vp::u32_();
    let data = file(&nest(depth, mix, ver, size), &[0; 44]);
    let r = limited(&data, LIST);
    free();
    va!(r.is_err());
    cov!();
    core::mem::forget(r);
});

// objects whose ancestor has many properties in the cache: each keeps its own copy
entry!(c02_inherited, {
    let _ = vp::first(1);
    let (objs, props) = (150, 400);
    let mut w = W { b: Vec::with_capacity(32768) };
    w.i32(0).i32(0).i32(0).i32(0).i32(0).i32(0);
    w.i32(objs + 1).str("TAGame.CrowdActor_TA");
    for i in 0..objs {
        let mut s = *b"x.TheWorld:PersistentLevel.CrowdActor_TA_000";
        let n = s.len();
        s[n - 1] += (i % 10) as u8;
        s[n - 2] += (i / 10 % 10) as u8;
        s[n - 3] += (i / 100) as u8;
        w.text(&s);
    }
    w.i32(0).i32(0).i32(1).i32(0).i32(0).i32(0).i32(props);
    for i in 0..props {
        w.i32(0).i32(i);
    }
    let data = file(&plain_header(), &w.b);
    vp::mem_limit(1 << 30, 256 * KB + 64 * data.len() as u64);
    let r = parse(&data);
    free();
    va!(r.is_ok());
    cov!();
    core::mem::forget(r);
});
