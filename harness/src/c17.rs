//! C17: resolution of updates against the actor's current object, and the errors reported.
use crate::c16::*;
use crate::enc::*;
use crate::*;
use boxcars::*;
use std::fmt::Write;
const M: u32 = 17;

// object 0 carries stream 0 (int), 1 (byte); object 3 carries 0 (boolean), 1 (int), 2 (int);
// object 5 carries only stream 3 (int)
const KINDS: &[(i32, &[(i32, u8, i32)])] = &[
    (0, &[(0, b'i', 1), (1, b'b', 2)]),
    (3, &[(0, b'f', 4), (1, b'i', 1), (2, b'i', 6)]),
    (5, &[(3, b'i', 6)]),
];
fn max_stream(obj: i32) -> u64 {
    match obj {
        0 => 2,
        3 => 3,
        _ => 4,
    }
}
fn stream(obj: i32, s: i32) -> Option<(u8, i32)> {
    for (o, l) in KINDS {
        if *o == obj {
            for (n, k, a) in *l {
                if *n == s {
                    return Some((*k, *a));
                }
            }
        }
    }
    None
}

enum Want {
    Ok,
    Missing(u32),
    NoAttr(u32, i32, i32),
}

// spawns, deletions and updates of a few ids in any order
entry!(c17_reuse, {
    let first = vp::first(16);
    const IDS: [u32; 2] = [199, 200];
    let ids = if vp::choose(2) == 0 { IDS } else { [3, 1022] };
    let steps = if vp::thorough() { 5 } else { 4 };
    // what the id's latest spawn was
    let mut cur: [Option<i32>; 2] = [None, None];
    let mut b = Bits::new();
    b.f32(1.0).f32(0.5);
    let mut want = Want::Ok;
    let mut ups: Vec<(u32, i32, u8, i32, i32)> = Vec::new();
    let (mut news, mut dels) = (Vec::new(), Vec::new());
    for i in 0..steps {
        let k = if i == 0 { first } else { vp::choose(16) };
        let j = (k & 1) as usize;
        let id = ids[j];
        b.bit(true).bounded(id as u64, 1023);
        match k >> 1 {
            0..=2 => {
                let obj = [0, 3, 5][(k >> 1) as usize];
                b.bit(true).bit(true).i32(9).bit(false).i32(obj);
                cur[j] = Some(obj);
                news.push((id, obj));
            }
            3 => {
                b.bit(false);
                dels.push(id);
                if id >= 200 {
                    cur[j] = None;
                }
            }
            s => {
                // update with stream 0..=3
                let s = s as i32 - 4;
                b.bit(true).bit(false);
                match cur[j] {
                    None => {
                        b.bit(true).put(0, 40);
                        want = Want::Missing(id);
                        break;
                    }
                    Some(o) => {
                        let m = max_stream(o);
                        if s as u64 >= m {
                            b.bit(false);
                            continue;
                        }
                        b.bit(true).bounded(s as u64, m);
                        match stream(o, s) {
                            None => {
                                b.put(0, 40);
                                want = Want::NoAttr(id, o, s);
                                break;
                            }
                            Some((kind, a)) => {
                                let v = match kind {
                                    b'i' => vp::i32_(),
                                    b'b' => vp::u8_() as i32,
                                    _ => (vp::u8_() & 1) as i32,
                                };
                                match kind {
                                    b'i' => b.i32(v),
                                    b'b' => b.u8(v as u8),
                                    _ => b.bit(v == 1),
                                };
                                b.bit(false);
                                ups.push((id, s, kind, a, v));
                            }
                        }
                    }
                }
            }
        }
    }
    b.bit(false);
    b.u32(0).u32(0);
    let r = parse(&file(&header(MODERN, Some(1), None), &net_body(&b.done(), OBJS, CACHE)));
    match want {
        Want::Ok => match &r {
            Ok(r) => {
                let f = &r.network_frames.as_ref().unwrap().frames;
                va!(f.len() == 1);
                let f = &f[0];
                va!((f.updated_actors.len() == ups.len()) & (f.new_actors.len() == news.len()) & (f.deleted_actors.len() == dels.len()));
                for (x, y) in f.updated_actors.iter().zip(ups.iter()) {
                    ve!(x.actor_id, y.0);
                    ve!(x.stream_id, y.1);
                    ve!(x.object_id, y.3);
                    match x.attribute {
                        Attribute::Int(v) => ve!(v, y.4),
                        Attribute::Byte(v) => ve!(v, y.4 as u8),
                        Attribute::Boolean(v) => ve!(v, y.4 as u8),
                        _ => va!(false),
                    }
                    let k = match x.attribute {
                        Attribute::Int(_) => b'i',
                        Attribute::Byte(_) => b'b',
                        _ => b'f',
                    };
                    va!(k == y.2);
                }
                for (x, y) in f.new_actors.iter().zip(news.iter()) {
                    ve!(x.actor_id, y.0);
                    ve!(x.object_id, y.1);
                }
                for (x, y) in f.deleted_actors.iter().zip(dels.iter()) {
                    ve!(x, *y);
                }
                cov!();
            }
            Err(_) => va!(false),
        },
        Want::Missing(id) => match frame_error(&r) {
            Some(FrameError::MissingActor { actor }) => {
                ve!(*actor, id);
                cov!();
            }
            _ => va!(false),
        },
        Want::NoAttr(id, o, s) => match frame_error(&r) {
            Some(FrameError::MissingAttribute { actor, actor_object, attribute_stream }) => {
                ve!(*actor, id);
                ve!(*actor_object, o);
                ve!(*attribute_stream, s);
                cov!();
            }
            _ => va!(false),
        },
    }
    core::mem::forget(r);
});

impl V for &ActorId {
    fn v(&self) -> u64 {
        self.0 as u64
    }
}

fn frame_error(r: &Result<Replay, ParseError>) -> Option<&FrameError> {
    match r {
        Err(ParseError::NetworkError(e)) => match &**e {
            NetworkError::FrameError(f, _) => Some(f),
            _ => None,
        },
        _ => None,
    }
}

// every object id outside the object list is reported as such, those inside spawn
entry!(c17_object_range, {
    let n = vp::first(4) as usize;
    let id = vp::i32_();
    let mut b = Bits::new();
    b.f32(1.0).f32(0.5);
    b.bit(true).bounded(4, 1023).bit(true).bit(true).i32(9).bit(false).i32(id);
    b.bit(false).u32(0).u32(0);
    let objects = ["TAGame.PRI_TA", "TAGame.CarComponent_Boost_TA", "TAGame.PRI_TA", "Some.Thing"];
    let r = parse(&file(&header(MODERN, Some(1), None), &net_body(&b.done(), &objects[..n + 1], &[])));
    if (id < 0) | (id > n as i32) {
        match frame_error(&r) {
            Some(FrameError::ObjectIdOutOfRange { obj }) => {
                ve!(*obj, id);
                cov!();
            }
            _ => va!(false),
        }
    } else if (id == 2) | (id == 3) {
        // not a class with known attributes (or a duplicate whose first occurrence counts)
        match frame_error(&r) {
            Some(FrameError::MissingCache { actor, actor_object }) => {
                ve!(*actor, 4);
                ve!(*actor_object, id);
                cov!();
            }
            _ => va!(false),
        }
    } else {
        match &r {
            Ok(r) => {
                let f = &r.network_frames.as_ref().unwrap().frames[0];
                va!(f.new_actors.len() == 1);
                ve!(f.new_actors[0].object_id, id);
                cov!();
            }
            Err(_) => va!(false),
        }
    }
    core::mem::forget(r);
});

// network cache entries that reference an object outside the list
entry!(c17_cache_range, {
    let n = vp::first(3) as usize;
    let (o, s) = (vp::i32_(), vp::i32_());
    vp::assume((o < 0) | (o > n as i32));
    let objects = ["TAGame.PRI_TA", "Engine.Pawn:HealthMax", "TAGame.Ball_TA"];
    let mut w = W::new();
    w.i32(0).i32(0).i32(0).i32(0).i32(0).i32(0);
    w.i32(n as i32 + 1);
    for x in &objects[..n + 1] {
        w.str(x);
    }
    w.i32(0).i32(0).i32(1).i32(0).i32(0).i32(0).i32(1).i32(o).i32(s);
    let r = parse(&file(&header(MODERN, Some(0), None), &w.b));
    match &r {
        Err(ParseError::NetworkError(e)) => match &**e {
            NetworkError::StreamTooLargeIndex(a, b) => {
                ve!(*a, s);
                ve!(*b, o);
                cov!();
            }
            _ => va!(false),
        },
        _ => va!(false),
    }
    core::mem::forget(r);
});

/// text of an error
pub fn text(e: &ParseError) -> String {
    let mut s = String::with_capacity(4096);
    let _ = write!(s, "{}", e);
    s
}
fn has(s: &str, line: &str) -> bool {
    s.contains(line)
}

// the state of decoding that accompanies an error
entry!(c17_context, {
    let what = vp::first(7);
    // every id moves along
    let at = [0u64, 194, 300, 980][vp::choose(4) as usize];
    let done = vp::choose(3) as usize; // complete frames before the error
    let before = vp::choose(3); // decoded in the failing frame: nothing, a spawn, an update
    let objects = ["TAGame.PRI_TA", "Engine.Pawn:HealthMax", "TAGame.CarComponent_Boost_TA", "TAGame.PRI_TA:Invented", "TAGame.PRI_TA:PartyLeader", "Other.Thing"];
    let cache: Cache = &[(0, &[(1, 0), (3, 1), (4, 2)]), (2, &[(1, 4)])];
    let mut b = Bits::new();
    let up = |b: &mut Bits, id: u64, s: u64| {
        b.bit(true).bounded(id + at, 1023).bit(true).bit(false).bit(true).bounded(s, 3);
    };
    let new = |b: &mut Bits, id: u64, o: i32| {
        b.bit(true).bounded(id + at, 1023).bit(true).bit(true).i32(44).bit(false).i32(o);
    };
    for i in 0..done {
        b.f32(1.5 + i as f32).f32(0.25);
        if i == 0 {
            new(&mut b, 6, 0);
        }
        b.bit(false);
    }
    b.f32(8.0).f32(0.5);
    if done == 0 {
        new(&mut b, 6, 0);
    }
    match before {
        1 => new(&mut b, 17, 2),
        2 => {
            up(&mut b, 6, 0);
            b.i32(77).bit(false);
        }
        _ => {}
    }
    match what {
        0 => {
            // unknown actor
            b.bit(true).bounded(300 - 280 + at, 1023).bit(true).bit(false);
        }
        1 => {
            // an attribute without a decoder
            up(&mut b, 6, 1);
            b.put(0, 60);
        }
        2 => {
            // an attribute the object does not have
            new(&mut b, 21, 2);
            b.bit(true).bounded(21 + at, 1023).bit(true).bit(false).bit(true).bounded(2, 5);
            b.put(0, 60);
        }
        3 => {
            // an unknown remote id kind
            up(&mut b, 6, 2);
            b.u8(99).put(0, 60);
        }
        4 => new(&mut b, 33, 60),
        5 => new(&mut b, 33, 5),
        _ => {
            // data ends in the middle of a value
            up(&mut b, 6, 0);
            b.u8(1);
        }
    }
    if what != 6 {
        b.put(0, 60);
    }
    let r = parse(&file(&header(MODERN, Some(done as i32 + 1), None), &net_body(&b.done(), &objects, cache)));
    let Some(e) = frame_error(&r) else {
        va!(false);
        return;
    };
    match (what, e) {
        (0, FrameError::MissingActor { actor }) => ve!(*actor, at as u32 + 20),
        (1, FrameError::MissingAttribute { actor, actor_object, attribute_stream }) => {
            ve!(*actor, at as u32 + 6);
            ve!(*actor_object, 0);
            ve!(*attribute_stream, 1);
        }
        (2, FrameError::MissingAttribute { actor, actor_object, attribute_stream }) => {
            ve!(*actor, at as u32 + 21);
            ve!(*actor_object, 2);
            ve!(*attribute_stream, 2);
        }
        (3, FrameError::AttributeError { actor, actor_object, attribute_stream, error }) => {
            ve!(*actor, at as u32 + 6);
            ve!(*actor_object, 0);
            ve!(*attribute_stream, 2);
            va!(*error == AttributeError::UnrecognizedRemoteId(99));
        }
        (4, FrameError::ObjectIdOutOfRange { obj }) => ve!(*obj, 60),
        (5, FrameError::MissingCache { actor, actor_object }) => {
            ve!(*actor, at as u32 + 33);
            ve!(*actor_object, 5);
        }
        (6, FrameError::AttributeError { actor, actor_object, attribute_stream, error }) => {
            ve!(*actor, at as u32 + 6);
            ve!(*actor_object, 0);
            ve!(*attribute_stream, 0);
            va!(matches!(error, AttributeError::NotEnoughDataFor(_)));
        }
        _ => va!(false),
    }
    // the rendered context: frame number, last actor and attribute with their names
    let s = text(r.as_ref().err().unwrap());
    let said = |a: &str, n: u64, b: &str| {
        let mut f = String::new();
        let _ = write!(f, "{}{}{}", a, n + at, b);
        f
    };
    let mut f = String::new();
    let _ = write!(f, "Current frame: {} (time: {} delta: {})", done, if done == 0 { 0.0 } else { 0.5 + done as f32 }, if done == 0 { 0.0 } else { 0.25 });
    va!(has(&s, &f));
    if before == 2 {
        va!(has(&s, "Last actor update:"));
        va!(has(&s, &said("actor id: ", 6, "\n")));
        va!(has(&s, "object id: 0\n"));
        va!(has(&s, "object name: TAGame.PRI_TA\n"));
        va!(has(&s, "attribute stream id: 0\n"));
        va!(has(&s, "attribute object id: 1\n"));
        va!(has(&s, "attribute object name: Engine.Pawn:HealthMax\n"));
        va!(has(&s, "Int(77)"));
    } else if (what == 2) | (before == 1) | (done == 0) {
        // the last spawn of the failing frame
        let (id, o, name) = if what == 2 {
            (21, 2, objects[2])
        } else if before == 1 {
            (17, 2, objects[2])
        } else {
            (6, 0, objects[0])
        };
        va!(has(&s, "Last new actor:"));
        f.clear();
        let _ = write!(f, "actor id: {}\nname id: 44\nobject id: {}\nobject name: {}\n", id + at, o, name);
        va!(has(&s, &f));
    } else {
        // nothing in this frame: the most recent frame with data
        va!(has(&s, "No actor information decoded"));
        va!(has(&s, "Retrace frame: 0 (time: 1.5, delta: 0.25)"));
        va!(has(&s, &said("actor id: ", 6, "\nname id: 44\nobject id: 0\nobject name: TAGame.PRI_TA\n")));
    }
    match what {
        0 => va!(has(&s, &said("", 20, ""))),
        1 => {
            va!(has(&s, &said("actor id: ", 6, "\nactor object id: 0\nattribute stream id: 1\n")));
            va!(has(&s, "TAGame.PRI_TA:Invented"));
        }
        2 => {
            va!(has(&s, &said("actor id: ", 21, "\nactor object id: 2\nattribute stream id: 2\n")));
            va!(has(&s, "did not find attribute id (2) on TAGame.CarComponent_Boost_TA"));
            va!(has(&s, "all attributes with that stream id: [(TAGame.PRI_TA:PartyLeader)]"));
        }
        3 => {
            va!(has(&s, "Unrecognized remote id of 99"));
            va!(has(&s, &said("", 6, " / 0 / 2")));
            va!(has(&s, "found attribute (PartyLeader) on TAGame.PRI_TA"));
        }
        4 => va!(has(&s, "60")),
        5 => {
            va!(has(&s, &said("", 33, " / 5")));
            va!(has(&s, "(Other.Thing)"));
        }
        _ => va!(has(&s, &said("", 6, " / 0 / 0"))),
    }
    vp::trace(s.as_bytes());
    cov!();
    core::mem::forget(r);
});

// any id that was never spawned, next to spawned ones
entry!(c17_missing, {
    let k = vp::first(3);
    let x = vp::u32_();
    vp::assume(x < 1023);
    match k {
        0 => vp::assume(x < 200),
        1 => vp::assume((x >= 200) & (x < 512)),
        _ => vp::assume(x >= 512),
    }
    let mut b = Bits::new();
    b.f32(1.0).f32(0.5);
    let spawned = [3u64, 150, 300, 700];
    let n = vp::choose(3) as usize * 2;
    for id in &spawned[..n] {
        b.bit(true).bounded(*id, 1023).bit(true).bit(true).i32(9).bit(false).i32(0);
    }
    for id in &spawned[..n] {
        vp::assume(x as u64 != *id);
    }
    b.bit(true).put(x as u64 & 511, 9);
    if (x as u64 & 511) + 512 < 1023 {
        b.put(x as u64 >> 9, 1);
    }
    b.bit(true).bit(false).bit(true).put(0, 40);
    b.u32(0).u32(0);
    let r = parse(&file(&header(MODERN, Some(1), None), &net_body(&b.done(), OBJS, CACHE)));
    match frame_error(&r) {
        Some(FrameError::MissingActor { actor }) => {
            ve!(actor.0 as u32, x);
            cov!();
        }
        _ => va!(false),
    }
    core::mem::forget(r);
});

// every stream id of a class with gaps
entry!(c17_stream, {
    let k = vp::first(2);
    let x = vp::u32_();
    let (max, known): (u64, [u32; 4]) = if k == 0 { (21, [0, 2, 5, 20]) } else { (71, [0, 40, 66, 70]) };
    vp::assume((x as u64) < max);
    let x = vp::conc(x as u64) as u32;
    let v = vp::i32_();
    let mut b = Bits::new();
    b.f32(1.0).f32(0.5);
    b.bit(true).bounded(1, 1023).bit(true).bit(true).i32(9).bit(false).i32(2);
    b.bit(true).bounded(1, 1023).bit(true).bit(false).bit(true).bounded(x as u64, max);
    b.i32(v).bit(false).bit(false);
    b.u32(0).u32(0);
    let small: Cache = &[(2, &[(1, 20), (0, 2), (1, 0), (0, 5)])];
    let large: Cache = &[(2, &[(1, 70), (0, 40), (1, 0), (0, 66)])];
    let objects = ["Engine.Pawn:HealthMax", "Engine.PlayerReplicationInfo:Score", "TAGame.PRI_TA"];
    let r = parse(&file(&header(MODERN, Some(1), None), &net_body(&b.done(), &objects, if k == 0 { small } else { large })));
    if known.contains(&x) {
        match &r {
            Ok(r) => {
                let u = &r.network_frames.as_ref().unwrap().frames[0].updated_actors;
                va!(u.len() == 1);
                ve!(u[0].stream_id.0 as u32, x);
                ve!(u[0].object_id, if (x == 0) | (x as u64 == max - 1) { 1 } else { 0 });
                match u[0].attribute {
                    Attribute::Int(y) => ve!(y, v),
                    _ => va!(false),
                }
                cov!();
            }
            Err(_) => va!(false),
        }
    } else {
        match frame_error(&r) {
            Some(FrameError::MissingAttribute { actor, actor_object, attribute_stream }) => {
                ve!(*actor, 1);
                ve!(*actor_object, 2);
                ve!(attribute_stream.0 as u32, x);
                cov!();
            }
            _ => va!(false),
        }
    }
    core::mem::forget(r);
});
