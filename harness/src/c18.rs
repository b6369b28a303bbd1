//! C18: attribute tables, stream id widths, initial trajectories, map instance names.
use crate::c16::header;
use crate::enc::*;
use crate::golden::{PARENTS, SPAWNS};
use crate::parts::*;
use crate::*;
use boxcars::*;
const M: u32 = 18;

/// attributes with an integer or byte decoder, one per level of a hierarchy
const LEVELS: [&str; 12] = [
    "Engine.Pawn:HealthMax",
    "Engine.Pawn:RemoteViewPitch",
    "Engine.PlayerReplicationInfo:Score",
    "Engine.PlayerReplicationInfo:Ping",
    "Engine.PlayerReplicationInfo:PlayerID",
    "TAGame.PRI_TA:MatchScore",
    "TAGame.PRI_TA:MatchGoals",
    "TAGame.PRI_TA:MatchAssists",
    "TAGame.PRI_TA:MatchSaves",
    "TAGame.PRI_TA:MatchShots",
    "Engine.Actor:Role",
    "Engine.Actor:bHidden",
];
const WIDTH: [(u8, u32); 12] = [(b'i', 32), (b'b', 8), (b'i', 32), (b'b', 8), (b'i', 32), (b'i', 32), (b'i', 32), (b'i', 32), (b'i', 32), (b'i', 32), (b'e', 11), (b'f', 1)];

fn parent(name: &str) -> Option<&'static str> {
    PARENTS.iter().find(|(c, _)| *c == name).map(|(_, p)| *p)
}
/// the class a map instance stands for
fn spawn_of(name: &str) -> Option<u8> {
    SPAWNS.iter().find(|(c, _)| *c == name).map(|(_, s)| *s)
}

fn value(a: &Attribute) -> (u8, u64) {
    match a {
        Attribute::Int(x) => (b'i', *x as u32 as u64),
        Attribute::Byte(x) => (b'b', *x as u64),
        Attribute::Enum(x) => (b'e', *x as u64),
        Attribute::Boolean(x) => (b'f', *x as u64),
        _ => (b'?', 0),
    }
}

/// one actor of object `obj`, its trajectory, one update per entry of `ups` (stream, level)
struct Sc<'a> {
    objects: Vec<&'a str>,
    cache: Vec<(i32, Vec<(i32, i32)>)>,
    obj: i32,
    spawn: u8,
    max: u64,
    ups: Vec<(i32, usize)>,
    /// object index of each level's attribute
    level_obj: Vec<i32>,
}

impl<'a> Sc<'a> {
    fn body(&self, net: &[u8]) -> Vec<u8> {
        let c: Vec<(i32, &[(i32, i32)])> = self.cache.iter().map(|(o, l)| (*o, &l[..])).collect();
        net_body(net, &self.objects, &c)
    }
    fn run(&self) {
        let loc = Vec3::sym(7);
        let rot = Rot3::sym(5);
        let mut b = Bits::new();
        b.f32(1.0).f32(0.5);
        b.bit(true).bounded(1, 1023).bit(true).bit(true).i32(9).bit(false).i32(self.obj);
        if self.spawn >= 1 {
            loc.enc(&mut b, 10);
        }
        if self.spawn >= 2 {
            rot.enc(&mut b);
        }
        b.bit(true).bounded(1, 1023).bit(true).bit(false);
        let mut vals = Vec::new();
        for (s, l) in &self.ups {
            let v = vp::bits(WIDTH[*l].1);
            b.bit(true).bounded(*s as u64, self.max).put(v, WIDTH[*l].1);
            vals.push(v);
        }
        b.bit(false);
        b.bit(false);
        b.u32(0).u32(0);
        let r = parse(&file(&header(MODERN, Some(1), None), &self.body(&b.done())));
        match &r {
            Ok(r) => {
                let f = &r.network_frames.as_ref().unwrap().frames;
                va!(f.len() == 1);
                let t = &f[0].new_actors[0].initial_trajectory;
                va!(t.location.is_some() == (self.spawn >= 1));
                va!(t.rotation.is_some() == (self.spawn >= 2));
                if let Some(l) = &t.location {
                    loc.check_i(l);
                }
                if let Some(l) = &t.rotation {
                    rot.check(l);
                }
                let u = &f[0].updated_actors;
                va!(u.len() == self.ups.len());
                for (i, x) in u.iter().enumerate() {
                    let (s, l) = self.ups[i];
                    ve!(x.stream_id, s);
                    ve!(x.object_id, self.level_obj[l]);
                    let (k, v) = value(&x.attribute);
                    va!(k == WIDTH[l].0);
                    ve!(v, vals[i]);
                }
                cov!();
            }
            Err(_) => va!(false),
        }
        core::mem::forget(r);
    }
}

/// the class chain of a name, itself first, as far as it is documented
fn chain(name: &'static str) -> Vec<&'static str> {
    let mut v = vec![name];
    let mut n = name;
    while let Some(p) = parent(n) {
        v.push(p);
        n = p;
    }
    v
}

/// all attributes along the chain, with every class of `present` in the object list
fn scenario(c: &[&'static str], present: u64, reverse: bool) -> Sc<'static> {
    let mut objects: Vec<&'static str> = Vec::new();
    for (i, n) in c.iter().enumerate() {
        if present >> i & 1 == 1 {
            objects.push(n);
        }
    }
    if reverse {
        objects.reverse();
    }
    let base = objects.len() as i32;
    objects.extend_from_slice(&LEVELS);
    let find = |n: &str| objects.iter().position(|x| *x == n).map(|x| x as i32);
    let mut cache = Vec::new();
    let mut ups = Vec::new();
    let mut spawn = None;
    let mut max = 3;
    for (i, n) in c.iter().enumerate() {
        // a class takes part when it has a parent of its own and is in the list
        let Some(o) = find(n) else { continue };
        if parent(n).is_none() {
            // the root of the hierarchy is not itself in the table
            continue;
        }
        let l = i % 12;
        cache.push((o, vec![(base + l as i32, i as i32)]));
        ups.push((i as i32, l));
        max = i as u64 + 1;
        if spawn.is_none() {
            spawn = spawn_of(n);
        }
    }
    if reverse {
        ups.reverse();
    }
    let obj = find(c[0]).unwrap();
    Sc { objects, cache, obj, spawn: spawn.unwrap_or(0), max, ups, level_obj: (0..12).map(|l| base + l).collect() }
}

// every class of the documented hierarchy with all its ancestors
entry!(c18_chain, {
    let g = vp::first(16) as usize;
    let per = (PARENTS.len() + 15) / 16;
    let k = g * per + vp::choose(per as u64) as usize;
    if k >= PARENTS.len() {
        return;
    }
    let c = chain(PARENTS[k].0);
    scenario(&c, !0, vp::choose(2) == 1).run();
});

// classes missing from the object list are skipped
entry!(c18_partial, {
    const NAMES: [&str; 4] = ["Archetypes.Car.Car_Default", "Archetypes.Ball.Ball_Default", "TAGame.Default__PRI_TA", "Archetypes.GameEvent.GameEvent_Basketball"];
    let c = chain(NAMES[vp::first(4) as usize]);
    let n = c.len() as u64 - 1;
    let present = 1 | vp::choose(1 << n) << 1;
    scenario(&c, present, vp::choose(2) == 1).run();
});

// names of map instances resolve to the class
entry!(c18_instance, {
    const CLASSES: [(&str, &str); 6] = [
        ("CrowdActor_TA", "TAGame.CrowdActor_TA"),
        ("CrowdManager_TA", "TAGame.CrowdManager_TA"),
        ("VehiclePickup_Boost_TA", "TAGame.VehiclePickup_Boost_TA"),
        ("InMapScoreboard_TA", "TAGame.InMapScoreboard_TA"),
        ("BreakOutActor_Platform_TA", "TAGame.BreakOutActor_Platform_TA"),
        ("PlayerStart_Platform_TA", "TAGame.PlayerStart_Platform_TA"),
    ];
    const PREFIX: [&str; 4] = ["", "stadium_foggy_p.", "x.", "Wasteland_P."];
    const SUFFIX: [&str; 4] = ["", "_0", "_30", "_1234567"];
    let (short, class) = CLASSES[vp::first(6) as usize];
    let (pre, suf) = (PREFIX[vp::choose(4) as usize], SUFFIX[vp::choose(4) as usize]);
    let mut name = String::from(pre);
    name.push_str("TheWorld:PersistentLevel.");
    name.push_str(short);
    name.push_str(suf);
    let mut objects: Vec<&str> = vec![&name, class, "Engine.Actor"];
    objects.extend_from_slice(&LEVELS[..3]);
    // the class's attributes apply to the instance; its own spawn rule does too
    let sc = Sc {
        objects,
        cache: vec![(0, vec![(3, 4)]), (1, vec![(4, 1)]), (2, vec![(5, 0)])],
        obj: 0,
        spawn: spawn_of(class).unwrap_or(1),
        max: 5,
        ups: vec![(4, 0), (1, 1), (0, 2)],
        level_obj: vec![3, 4, 5],
    };
    sc.run();
});

// the nearer class wins; widths follow the largest id of the object, inherited ones included
entry!(c18_override, {
    const MAXES: [i32; 16] = [0, 1, 2, 3, 4, 6, 7, 8, 15, 16, 31, 63, 64, 65, 100, 500];
    let m = MAXES[vp::first(16) as usize];
    let shape = vp::choose(8);
    let objects = vec!["TAGame.Ball_TA", "Archetypes.Ball.Ball_Default", "TAGame.RBActor_TA", LEVELS[0], LEVELS[1], LEVELS[2], LEVELS[3]];
    // level 0 int, 1 byte, 2 int, 3 byte
    let (near, far, own) = (1, 0, 2);
    let base = 3;
    let mut cache = vec![(near, vec![]), (far, vec![]), (own, vec![])];
    let mut ups = vec![];
    match shape {
        // the same id at all three levels
        0 => {
            cache[0].1.push((base + 1, m));
            cache[1].1.push((base, m));
            cache[2].1.push((base + 2, m));
            ups.push((m, 1));
        }
        1 => {
            cache[1].1.push((base, m));
            cache[2].1.push((base + 1, m));
            ups.push((m, 0));
        }
        2 => {
            cache[2].1.push((base + 1, m));
            ups.push((m, 1));
        }
        // the largest id comes from the class itself, its parent, or its grandparent
        3 | 4 | 5 => {
            let s = shape as usize - 3;
            for i in 0..3 {
                cache[i].1.push((base + i as i32, if i == s { m } else { core::cmp::min(i as i32, m) }));
            }
            ups.push((m, s.min(if m == 0 { 0 } else if (m == 1) & (s == 2) { 1 } else { s })));
            if (m == 0) | (m == 1) {
                // colliding ids: the nearest class decides
                ups.clear();
                let ids = [cache[0].1[0].1, cache[1].1[0].1, cache[2].1[0].1];
                let l = if ids[0] == m { 0 } else if ids[1] == m { 1 } else { 2 };
                ups.push((m, l));
            } else if m == 2 {
                ups.clear();
                let ids = [cache[0].1[0].1, cache[1].1[0].1, cache[2].1[0].1];
                let l = if ids[0] == m { 0 } else if ids[1] == m { 1 } else { 2 };
                ups.push((m, l));
            }
        }
        // the properties of a class split over two cache entries
        6 => {
            cache.push((far, vec![(base + 1, m + 1)]));
            cache[1].1.push((base, m));
            ups.push((m, 0));
            ups.push((m + 1, 1));
        }
        _ => {
            // an entry of an unrelated object has no influence
            cache.push((base, vec![(base + 1, 1000)]));
            cache[0].1.push((base + 3, m));
            ups.push((m, 3));
        }
    }
    let max = ups.iter().map(|x| x.0).max().unwrap() as u64 + 1;
    let sc = Sc { objects, cache, obj: near, spawn: 2, max, ups, level_obj: (0..12).map(|l| base + l).collect() };
    sc.run();
});

// duplicates in the object list: the first occurrence is the class
entry!(c18_duplicate, {
    let at = vp::first(3) as usize;
    let mut objects = vec!["TAGame.PRI_TA", "Engine.Actor", LEVELS[0], LEVELS[1]];
    objects.insert(at + 2, if at == 1 { "Engine.Actor" } else { "TAGame.PRI_TA" });
    let l0 = objects.iter().position(|x| *x == LEVELS[0]).unwrap() as i32;
    let l1 = objects.iter().position(|x| *x == LEVELS[1]).unwrap() as i32;
    let sc = Sc { objects, cache: vec![(0, vec![(l0, 0)]), (1, vec![(l1, 1)])], obj: 0, spawn: 1, max: 2, ups: vec![(1, 1), (0, 0)], level_obj: vec![l0, l1] };
    sc.run();
});

// a class without any attribute: ids below the default bound, none of them known
entry!(c18_none, {
    let s = vp::first(3);
    let mut b = Bits::new();
    b.f32(1.0).f32(0.5);
    b.bit(true).bounded(1, 1023).bit(true).bit(true).i32(9).bit(false).i32(0);
    b.bit(true).bounded(1, 1023).bit(true).bit(false).bit(true).bounded(s, 3).u64(vp::u64_());
    let r = parse(&file(&header(MODERN, Some(1), None), &net_body(&b.done(), &["TAGame.PRI_TA"], &[])));
    match &r {
        Err(ParseError::NetworkError(e)) => match &**e {
            NetworkError::FrameError(FrameError::MissingAttribute { attribute_stream, .. }, _) => {
                ve!(*attribute_stream, s as i32);
                cov!();
            }
            _ => va!(false),
        },
        _ => va!(false),
    }
    core::mem::forget(r);
});
