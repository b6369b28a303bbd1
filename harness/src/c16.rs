//! C16: frame sequences, end of data, counts, channel widths, spawn records.
use crate::enc::*;
use crate::parts::*;
use crate::*;
use boxcars::*;
const M: u32 = 16;

pub const OBJS: &[&str] = &[
    "TAGame.PRI_TA",                        // 0: no trajectory
    "Engine.PlayerReplicationInfo:Score",   // 1: int
    "Engine.Pawn:RemoteViewPitch",          // 2: byte
    "TAGame.Ball_TA",                       // 3: location and rotation
    "TAGame.RBActor_TA:bFrozen",            // 4: boolean
    "TAGame.CarComponent_Boost_TA",         // 5: no trajectory
    "Engine.Pawn:HealthMax",                // 6: int
];
pub const CACHE: Cache = &[(0, &[(1, 0), (2, 1)]), (3, &[(4, 0), (1, 1), (6, 2)]), (5, &[(6, 3)])];

pub enum Ev {
    New { actor: u32, name: i32, obj: i32 },
    Del { actor: u32 },
    /// values of stream 0 (an integer on object 0)
    Upd { actor: u32, vals: Vec<i32> },
}
pub struct Fr {
    pub time: u32,
    pub delta: u32,
    pub evs: Vec<Ev>,
}

pub fn enc_frame(b: &mut Bits, f: &Fr, max: u64) {
    b.u32(f.time).u32(f.delta);
    for e in &f.evs {
        b.bit(true);
        match e {
            Ev::New { actor, name, obj } => {
                b.bounded(*actor as u64, max).bit(true).bit(true).i32(*name).bit(false).i32(*obj);
            }
            Ev::Del { actor } => {
                b.bounded(*actor as u64, max).bit(false);
            }
            Ev::Upd { actor, vals } => {
                b.bounded(*actor as u64, max).bit(true).bit(false);
                for v in vals {
                    b.bit(true).bounded(0, 2).i32(*v);
                }
                b.bit(false);
            }
        }
    }
    b.bit(false);
}

pub fn check_frame(g: &Frame, f: &Fr) {
    ve!(g.time.to_bits(), f.time);
    ve!(g.delta.to_bits(), f.delta);
    let (mut n, mut d, mut u) = (0, 0, 0);
    for e in &f.evs {
        match e {
            Ev::New { actor, name, obj } => {
                if n >= g.new_actors.len() {
                    va!(false);
                    return;
                }
                let x = &g.new_actors[n];
                n += 1;
                ve!(x.actor_id, *actor);
                va!(x.name_id == Some(*name));
                ve!(x.object_id, *obj);
                va!(x.initial_trajectory.location.is_none() & x.initial_trajectory.rotation.is_none());
            }
            Ev::Del { actor } => {
                if d >= g.deleted_actors.len() {
                    va!(false);
                    return;
                }
                ve!(g.deleted_actors[d], *actor);
                d += 1;
            }
            Ev::Upd { actor, vals } => {
                for v in vals {
                    if u >= g.updated_actors.len() {
                        va!(false);
                        return;
                    }
                    let x = &g.updated_actors[u];
                    u += 1;
                    ve!(x.actor_id, *actor);
                    ve!(x.stream_id, 0);
                    ve!(x.object_id, 1);
                    match x.attribute {
                        Attribute::Int(y) => ve!(y, *v),
                        _ => va!(false),
                    }
                }
            }
        }
    }
    va!(n == g.new_actors.len());
    va!(d == g.deleted_actors.len());
    va!(u == g.updated_actors.len());
}

pub fn header(ver: Ver, frames: Option<i32>, channels: Option<i32>) -> Vec<u8> {
    let mut w = W::new();
    header_start(&mut w, ver);
    if let Some(n) = frames {
        w.int("NumFrames", n);
    }
    if let Some(n) = channels {
        w.int("MaxChannels", n);
    }
    w.str("None");
    w.b
}

fn bad(t: u32) -> bool {
    let f = f32::from_bits(t);
    (f < 0.0) | ((f > 0.0) & (f < 1e-10))
}

/// one of the events, on actor 1 or 2
fn event(k: u64) -> Ev {
    match k {
        0 => Ev::New { actor: 2, name: vp::i32_(), obj: 0 },
        1 => Ev::Del { actor: 7 },
        2 => Ev::Upd { actor: 1, vals: vec![vp::i32_()] },
        3 => Ev::Upd { actor: 1, vals: vec![] },
        _ => Ev::Upd { actor: 3, vals: vec![vp::i32_(), vp::i32_()] },
    }
}

/// what the decoder must make of the frames: how many decode, then an error or not
enum Want {
    Frames(usize),
    Time(u32),
    Delta(u32),
}
fn expect(fr: &[Fr], declared: usize) -> Want {
    for (i, f) in fr.iter().enumerate() {
        if i >= declared {
            return Want::Frames(i);
        }
        if bad(f.time) {
            return Want::Time(f.time);
        }
        if bad(f.delta) {
            return Want::Delta(f.delta);
        }
        if (f32::from_bits(f.time) == 0.0) & (f32::from_bits(f.delta) == 0.0) {
            return Want::Frames(i);
        }
    }
    Want::Frames(fr.len())
}

fn judge(r: &Result<Replay, ParseError>, fr: &[Fr], declared: usize) {
    match expect(fr, declared) {
        Want::Frames(n) => match r {
            Ok(r) => {
                let got = &r.network_frames.as_ref().unwrap().frames;
                va!(got.len() == n);
                if got.len() == n {
                    for i in 0..n {
                        check_frame(&got[i], &fr[i]);
                    }
                }
                cov!();
            }
            Err(_) => va!(false),
        },
        Want::Time(t) => match r {
            Err(ParseError::NetworkError(e)) => match &**e {
                NetworkError::FrameError(FrameError::TimeOutOfRange { time }, _) => {
                    ve!(time.to_bits(), t);
                    cov!();
                }
                _ => va!(false),
            },
            _ => va!(false),
        },
        Want::Delta(t) => match r {
            Err(ParseError::NetworkError(e)) => match &**e {
                NetworkError::FrameError(FrameError::DeltaOutOfRange { delta }, _) => {
                    ve!(delta.to_bits(), t);
                    cov!();
                }
                _ => va!(false),
            },
            _ => va!(false),
        },
    }
}

fn start() -> Fr {
    Fr {
        time: 0x3f80_0000,
        delta: 0x3d00_0000,
        evs: vec![Ev::New { actor: 1, name: 5, obj: 0 }, Ev::New { actor: 3, name: 6, obj: 0 }],
    }
}

// event sequences over three frames with symbolic contents
entry!(c16_events, {
    let a = vp::first(31);
    let mut fr = vec![start()];
    let ev = |k: u64| -> Vec<Ev> {
        match k {
            0 => vec![],
            k if k < 6 => vec![event(k - 1)],
            k => vec![event((k - 6) / 5), event((k - 6) % 5)],
        }
    };
    fr.push(Fr { time: 0x4000_0000, delta: 0x3e00_0000, evs: ev(a) });
    fr.push(Fr { time: 0x4040_0000, delta: 0x3e00_0001, evs: ev(vp::choose(31)) });
    if vp::thorough() {
        fr.push(Fr { time: 0x4040_0002, delta: 0x3e00_0003, evs: ev(vp::choose(31)) });
    }
    let max = 8;
    let mut b = Bits::new();
    for f in &fr {
        enc_frame(&mut b, f, max);
    }
    b.u32(0).u32(0);
    let declared = fr.len();
    let r = parse(&file(&header(MODERN, Some(declared as i32), Some(max as i32)), &net_body(&b.done(), OBJS, CACHE)));
    judge(&r, &fr, declared);
    core::mem::forget(r);
});

// symbolic times and deltas, declared counts around the number of encoded frames, what follows them
entry!(c16_times, {
    let n = vp::first(4) as usize;
    let declared = vp::choose(5) as usize;
    let mut fr = vec![];
    for i in 0..n {
        let (t, d) = (vp::u32_(), vp::u32_());
        // a zero frame ends the data; the events behind it are then never looked at
        let mut f = Fr { time: t, delta: d, evs: vec![] };
        if i == 0 {
            f.evs = start().evs;
        } else if i == 1 {
            f.evs.push(Ev::Upd { actor: 1, vals: vec![vp::i32_()] });
        } else {
            f.evs.push(Ev::Del { actor: 5 });
        }
        fr.push(f);
    }
    let mut b = Bits::new();
    for f in &fr {
        enc_frame(&mut b, f, 1023);
    }
    if declared > n {
        // fewer frames than declared end with an explicit end, positive or negative zeros
        b.u32((vp::u8_() as u32 & 1) << 31).u32((vp::u8_() as u32 & 1) << 31);
    }
    let mut v = b.done();
    // anything may follow
    for _ in 0..6 {
        v.push(vp::u8_());
    }
    let r = parse(&file(&header(MODERN, Some(declared as i32), None), &net_body(&v, OBJS, CACHE)));
    judge(&r, &fr, declared);
    core::mem::forget(r);
});

// every declared count against the size of the network data
entry!(c16_count, {
    let len = vp::first(14) as usize;
    let n = vp::i32_();
    let has = vp::choose(3);
    let data = [0u8; 13];
    let mut w = W::new();
    header_start(&mut w, MODERN);
    match has {
        0 => {
            w.int("NumFrames", n);
        }
        1 => {
            // not an integer: the count is not declared
            w.strp("NumFrames", "12");
        }
        _ => {}
    }
    w.str("None");
    let r = parse(&file(&w.b, &net_body(&data[..len], OBJS, CACHE)));
    if (has == 0) & ((n < 0) | (n as i64 > len as i64)) {
        match &r {
            Err(ParseError::NetworkError(e)) => match &**e {
                NetworkError::TooManyFrames(x) => {
                    ve!(*x, n);
                    cov!();
                }
                _ => va!(false),
            },
            _ => va!(false),
        }
    } else if (has == 0) & (n > 0) & (len < 8) {
        // a frame was declared but its time and delta are not there
        va!(r.is_err());
        cov!();
    } else {
        match &r {
            Ok(r) => {
                va!(r.network_frames.as_ref().unwrap().frames.is_empty());
                cov!();
            }
            Err(_) => va!(false),
        }
    }
    core::mem::forget(r);
});

// actor ids use the width of the declared number of channels, for every declared value
entry!(c16_channels, {
    let w = vp::first(34) as u32;
    let shift = if vp::thorough() { vp::choose(8) as u32 } else { [0, 5][vp::choose(2) as usize] };
    // width class of the declared number; the last case leaves it undeclared
    let declared = if w == 33 { None } else { Some(vp::u32_()) };
    let max = declared.unwrap_or(1023) as u64;
    let bits = if w == 33 { 9 } else { w.saturating_sub(1) };
    match w {
        33 => {}
        0 => vp::assume(max == 0),
        w => vp::assume((max >= 1 << (w - 1)) & (max < 1 << w)),
    }
    let (x, y) = (vp::u32_(), vp::u32_());
    vp::assume(((x as u64) < max) | (x == 0));
    vp::assume(((y as u64) < max) | (y == 0));
    let mut b = Bits::new();
    let put = |b: &mut Bits, v: u32| {
        let low = v as u64 & ((1u64 << bits) - 1);
        b.put(low, bits);
        if low + (1u64 << bits) < max {
            b.put(v as u64 >> bits, 1);
        }
    };
    b.f32(1.5).f32(0.25);
    for _ in 0..shift {
        b.bit(true);
        b.put(0, bits);
        // the extra bit of a zero id exists whenever a larger id could
        if (1u64 << bits) < max {
            b.put(0, 1);
        }
        b.bit(false);
    }
    b.bit(true);
    put(&mut b, x);
    b.bit(false);
    b.bit(true);
    put(&mut b, y);
    b.bit(false);
    b.bit(false);
    let mut v = b.done();
    if vp::choose(2) == 1 {
        v.extend_from_slice(&[0xff; 16]);
    }
    let r = parse(&file(&header(MODERN, Some(1), declared.map(|x| x as i32)), &net_body(&v, OBJS, CACHE)));
    match &r {
        Ok(r) => {
            let f = &r.network_frames.as_ref().unwrap().frames;
            va!(f.len() == 1);
            let d = &f[0].deleted_actors;
            va!(d.len() == shift as usize + 2);
            if d.len() == shift as usize + 2 {
                for i in 0..shift as usize {
                    ve!(d[i], 0);
                }
                ve!(d[shift as usize].0 as u32, x);
                ve!(d[shift as usize + 1].0 as u32, y);
            }
            cov!();
        }
        Err(_) => va!(false),
    }
    core::mem::forget(r);
});

// spawn records: name id by version and match type, object, location and rotation
entry!(c16_spawn, {
    let kind = vp::first(3);
    let ver = Ver::any();
    // "Lan" only counts as the exact string, of either string kind, on its first occurrence
    let lan = vp::choose(6);
    let size = match vp::choose(3) {
        0 => 0,
        1 => 13,
        _ => vp::conc(Vec3::max_size(ver.net()) as u64 - 1) as u32,
    };
    let loc = Vec3::sym(size);
    let rot = Rot3::sym(vp::choose(8));
    let (name, actor) = (vp::i32_(), 4u32);
    let is_lan = matches!(lan, 1 | 2 | 4);
    let mut w = W::new();
    header_start(&mut w, ver);
    w.int("NumFrames", 1);
    match lan {
        1 => {
            w.name("MatchType", "Lan");
        }
        2 => {
            w.strp("MatchType", "Lan");
        }
        3 => {
            w.name("MatchType", "Lans");
        }
        4 => {
            w.name("MatchType", "Lan").name("MatchType", "Online");
        }
        5 => {
            w.name("MatchType", "Online").name("MatchType", "Lan");
        }
        _ => {}
    }
    w.str("None");
    let named = ver.ge(868, 20, 0) | (ver.ge(868, 14, 0) & !is_lan);
    let obj = if kind == 2 { 1 } else { 0 };
    let mut b = Bits::new();
    b.f32(1.0).f32(1.0);
    let pad = vp::choose(8) as u32;
    for _ in 0..pad {
        b.bit(true).bounded(2, 1023).bit(false);
    }
    b.bit(true).bounded(actor as u64, 1023).bit(true).bit(true);
    if named {
        b.i32(name);
    }
    b.bit(flag()).i32(obj);
    if kind >= 1 {
        loc.enc(&mut b, ver.net());
    }
    if kind >= 2 {
        rot.enc(&mut b);
    }
    // the next record follows immediately
    b.bit(true).bounded(900, 1023).bit(false);
    b.bit(false);
    let mut v = b.done();
    if vp::choose(2) == 1 {
        v.extend_from_slice(&[0x5a; 20]);
    }
    // the initial location comes from Engine.Actor, location and rotation from the rigid body class
    let objects: &[&str] = match kind {
        0 => &["TAGame.PRI_TA"],
        1 => &["TAGame.PRI_TA", "Engine.Actor"],
        _ => &["Engine.Actor", "TAGame.Ball_TA", "TAGame.RBActor_TA"],
    };
    let r = parse(&file(&w.b, &net_body(&v, objects, &[])));
    match &r {
        Ok(r) => {
            let f = &r.network_frames.as_ref().unwrap().frames;
            va!((f.len() == 1) && (f[0].new_actors.len() == 1));
            let x = &f[0].new_actors[0];
            ve!(x.actor_id, actor);
            ve!(x.object_id, obj);
            match x.name_id {
                Some(n) => {
                    va!(named);
                    ve!(n, name);
                }
                None => va!(!named),
            }
            match &x.initial_trajectory.location {
                Some(l) => {
                    va!(kind >= 1);
                    loc.check_i(l);
                }
                None => va!(kind == 0),
            }
            match &x.initial_trajectory.rotation {
                Some(l) => {
                    va!(kind == 2);
                    rot.check(l);
                }
                None => va!(kind != 2),
            }
            let d = &f[0].deleted_actors;
            va!(d.len() == pad as usize + 1);
            if d.len() == pad as usize + 1 {
                ve!(d[pad as usize], 900);
            }
            cov!();
        }
        Err(_) => va!(false),
    }
    core::mem::forget(r);
});

// frames with many records of one sort or of all sorts
entry!(c16_many, {
    let n = [7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 200, 256, 257, 600][vp::first(16) as usize];
    let k = vp::choose(5);
    let at = |i: usize| i == 0 || i == n / 2 || i + 1 == n;
    let num = |i: usize| if at(i) { vp::i32_() } else { ((i / 2) as i32).wrapping_mul(0x0101_0101) };
    let spawn: Vec<Ev> = (0..4).map(|i| Ev::New { actor: 190 + 5 * i, name: 3, obj: 0 }).collect();
    let evs: Vec<Ev> = match k {
        // one actor, many values
        0 => vec![Ev::Upd { actor: 195, vals: (0..n).map(num).collect() }, Ev::Upd { actor: 200, vals: vec![vp::i32_()] }],
        // many updates of one value each, actors in turn
        1 => (0..n).map(|i| Ev::Upd { actor: 190 + 5 * (i as u32 / 3 % 4), vals: vec![num(i)] }).collect(),
        // spawns, most of them more than once
        2 => (0..n).map(|i| Ev::New { actor: i as u32 * 3 % 211, name: num(i), obj: [0, 0, 5][i % 3] }).collect(),
        // deletions, some of them twice
        3 => (0..n).map(|i| Ev::Del { actor: (i as u32 / 2) * 5 % 1001 }).collect(),
        _ => (0..n)
            .map(|i| match i % 5 {
                0 | 1 => Ev::New { actor: 500 + i as u32 / 7, name: num(i), obj: 0 },
                2 => Ev::Upd { actor: 200, vals: vec![num(i), num(i)] },
                3 => Ev::Del { actor: 500 + i as u32 / 7 },
                _ => Ev::Upd { actor: 190, vals: vec![num(i)] },
            })
            .collect(),
    };
    let fr = [
        Fr { time: 0x3f80_0000, delta: 0x3d00_0000, evs: spawn },
        Fr { time: 0x4000_0000, delta: 0x3e00_0000, evs },
        Fr { time: 0x4040_0000, delta: 0x3e00_0001, evs: vec![Ev::Upd { actor: 190, vals: vec![vp::i32_()] }] },
    ];
    let mut b = Bits::new();
    for f in &fr {
        enc_frame(&mut b, f, 1023);
    }
    let r = parse(&file(&header(MODERN, Some(3), None), &net_body(&b.done(), OBJS, CACHE)));
    judge(&r, &fr, 3);
    core::mem::forget(r);
});

// many frames: each of them is there, at its place
entry!(c16_long, {
    let n = [5, 9, 17, 33, 65, 129, 257, 300, 1000, 3000][vp::first(10) as usize];
    let extra = vp::choose(3) as usize;
    let at = |i: usize| i == 1 || i == n / 2 || i + 1 == n;
    let fr: Vec<Fr> = (0..n)
        .map(|i| {
            let t = if at(i) { vp::u32_() } else { (1.0 + (i / 2) as f32).to_bits() };
            let d = if at(i) { vp::u32_() } else { 0 };
            if at(i) {
                // an ordinary time; the others are the subject of c16_times
                let ok = (t >= 0x3000_0000) & (t < 0x7f80_0000) | (t == 0);
                vp::assume(ok & (d >= 0x3000_0000) & (d < 0x7f80_0000));
            }
            let evs = if i == 0 {
                start().evs
            } else {
                match i % 4 {
                    0 => vec![],
                    1 => vec![Ev::Upd { actor: 1, vals: vec![if at(i) { vp::i32_() } else { i as i32 }] }],
                    2 => vec![Ev::New { actor: 2, name: i as i32, obj: 0 }],
                    _ => vec![Ev::Del { actor: 2 }],
                }
            };
            Fr { time: t, delta: d, evs }
        })
        .collect();
    let mut b = Bits::new();
    for f in &fr {
        enc_frame(&mut b, f, 1023);
    }
    // as many declared as there are, more, or fewer
    let declared = [n, n + 3, n - 1][extra];
    b.u32(0).u32(0);
    let r = parse(&file(&header(MODERN, Some(declared as i32), None), &net_body(&b.done(), OBJS, CACHE)));
    judge(&r, &fr, declared);
    core::mem::forget(r);
});

// ids of records are reported as they are stored, equal ones included
entry!(c16_ids, {
    let k = vp::first(8);
    let n = if k >= 4 { 2 + (k & 1) as usize * 2 } else { 2 };
    let mut ids = Vec::new();
    let mut b = Bits::new();
    b.f32(1.0).f32(1.0);
    for i in 0..n {
        let id = vp::u32_() & 1023;
        ids.push(id);
        b.bit(true).put(id as u64, 10);
        // spawns and deletions mixed
        if k >> 1 & 1 == (i as u64 & 1) || k >= 4 {
            b.bit(false);
        } else {
            b.bit(true).bit(true).i32(i as i32).bit(false).i32(0);
        }
    }
    b.bit(false);
    let r = parse(&file(&header(MODERN, Some(1), Some(1024)), &net_body(&b.done(), OBJS, CACHE)));
    match &r {
        Ok(r) => {
            let f = &r.network_frames.as_ref().unwrap().frames[0];
            let (mut x, mut y) = (0, 0);
            for i in 0..n {
                if k >> 1 & 1 == (i as u64 & 1) || k >= 4 {
                    va!(x < f.deleted_actors.len());
                    ve!(f.deleted_actors[x].0 as u32, ids[i]);
                    x += 1;
                } else {
                    va!(y < f.new_actors.len());
                    ve!(f.new_actors[y].actor_id.0 as u32, ids[i]);
                    ve!(f.new_actors[y].name_id.unwrap_or(-1), i as i32);
                    y += 1;
                }
            }
            va!((x == f.deleted_actors.len()) & (y == f.new_actors.len()));
            cov!();
        }
        Err(_) => va!(false),
    }
    core::mem::forget(r);
});

// the declared frames, channels and match type are those of the property of exactly that name and of
// the right kind at the top of the header: one character of the name or of the match type arbitrary, names
// in another case, longer or shorter, nested ones, other kinds of value
entry!(c16_keys, {
    let u = vp::first(36);
    let (which, mode) = ((u / 12) as usize, u % 12);
    let names = ["NumFrames", "MaxChannels", "MatchType"];
    let mut key = names[which].as_bytes().to_vec();
    let mut found = vp::choose(2) == 1;
    let mut text = b"Lan".to_vec();
    let (mut wide, mut before, mut after) = (false, Vec::new(), Vec::new());
    match mode {
        0 => {
            let i = vp::choose(key.len() as u64) as usize;
            let c = vp::u8_() & 0x7f;
            vp::assume((c == key[i]) == found);
            key[i] = c;
        }
        1 => {
            vp::assume(!found);
            key.push(vp::u8_() & 0x7f);
        }
        2 => {
            vp::assume(!found);
            key.pop();
        }
        3 => {
            vp::assume(!found);
            if vp::choose(2) == 1 {
                key.make_ascii_lowercase();
            } else {
                key.make_ascii_uppercase();
            }
        }
        // inside a structure, in front of it or behind it
        4 | 5 => {
            let mut w = W::new();
            if mode == 4 {
                w.prop("x", "StructProperty", 0, 0).str("S");
            } else {
                w.prop("x", "ArrayProperty", 0, 0).i32(1);
            }
            match which {
                2 => w.name(names[which], "Online").name(names[which], "Lan"),
                _ => w.int(names[which], 3),
            };
            w.str("None");
            if vp::choose(2) == 1 {
                before = w.b;
            } else {
                after = w.b;
            }
            if !found {
                key = b"other".to_vec();
            }
        }
        // other kinds of value
        6 | 7 => {
            if mode == 7 && which == 2 {
                wide = true;
            }
        }
        // arbitrary characters of the match type
        8 | 9 => {
            if which == 2 {
                let i = vp::choose(3) as usize;
                let c = vp::u8_() & 0x7f;
                vp::assume((c == text[i]) == found);
                text[i] = c;
                wide = mode == 9;
            } else {
                vp::assume(found);
            }
        }
        10 => {
            vp::assume(!found | (which < 2));
            if which == 2 {
                text = [&b"lan"[..], b"LAN", b"La", b"", b"xLan", b"L", b"LLan", b"Lan Party", b"lAN"][vp::choose(9) as usize].to_vec();
            } else if !found {
                key.clear();
            }
        }
        _ => {
            if which == 2 {
                vp::assume(!found);
                let n = vp::choose(3) as usize + 1;
                for _ in 0..n {
                    text.push(vp::u8_() & 0x7f);
                }
            } else if !found {
                key.insert(0, vp::u8_() & 0x7f);
            }
        }
    }
    let mut w = W::new();
    header_start(&mut w, Ver::new(868, 18, 0));
    if which != 0 {
        w.int("NumFrames", 1);
    }
    w.raw(&before).text(&key);
    let kind = if mode == 6 || (mode == 7 && which < 2) { vp::choose(5) } else { 0 };
    match (kind, which) {
        (0, 2) => {
            w.str(if mode & 1 == 0 { "NameProperty" } else { "StrProperty" }).i32(0).i32(0);
            if wide {
                w.utf16(&text.iter().map(|c| *c as u16).collect::<Vec<_>>());
            } else {
                w.text(&text);
            }
        }
        (0, _) => {
            w.str("IntProperty").i32(4).i32(0).i32(if which == 0 { 1 } else { 8 });
        }
        (1, _) => {
            w.str("QWordProperty").i32(8).i32(0).i32(1).i32(0);
        }
        (2, _) => {
            w.str("FloatProperty").i32(4).i32(0).raw(&1f32.to_le_bytes());
        }
        (3, _) => {
            w.str("BoolProperty").i32(0).i32(0).u8(1);
        }
        (_, 2) => {
            w.str("ByteProperty").i32(0).i32(0).str("Lan").str("Lan");
        }
        _ => {
            w.str("StrProperty").i32(2).i32(0).str("1");
        }
    }
    if kind > 0 || (mode == 6 && kind == 0) || (mode == 7 && kind == 0 && which < 2) {
        found = kind == 0;
    }
    if mode == 7 && which == 2 {
        found = true;
    }
    w.raw(&after).str("None");
    let max = if which == 1 && found { 8 } else { 1023 };
    let mut b = Bits::new();
    let name = vp::i32_();
    b.f32(1.0).f32(1.0).bit(true).bounded(2, max).bit(true).bit(true);
    if !(which == 2 && found) {
        b.i32(name);
    }
    b.bit(false).i32(0).bit(true).bounded(5, max).bit(false).bit(false);
    let r = parse(&file(&w.b, &net_body(&b.done(), &["TAGame.PRI_TA"], &[(0, &[])])));
    va!(r.is_ok());
    if let Ok(r) = &r {
        match &r.network_frames {
            Some(f) => {
                let f = &f.frames;
                if which == 0 && !found {
                    va!(f.is_empty());
                } else {
                    va!(f.len() == 1);
                    va!((f[0].new_actors.len() == 1) & (f[0].deleted_actors.len() == 1));
                    ve!(f[0].deleted_actors[0], 5u32);
                    ve!(f[0].new_actors[0].actor_id, 2u32);
                    match f[0].new_actors[0].name_id {
                        Some(n) => {
                            va!(!(which == 2 && found));
                            ve!(n, name);
                        }
                        None => va!(which == 2 && found),
                    }
                }
                cov!();
            }
            None => va!(false),
        }
    }
    core::mem::forget(r);
});
