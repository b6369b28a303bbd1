//! C19: serialization.
use crate::tree::ascii;
use crate::val::*;
use crate::*;
use boxcars::*;
const M: u32 = 19;

/// any float that is a number
fn fl() -> f32 {
    let v = f32::from_bits(vp::u32_());
    vp::assume(v == v);
    v
}
fn v3() -> Vector3f {
    Vector3f { x: fl(), y: fl(), z: fl() }
}
fn opt<T>(f: impl FnOnce() -> T) -> Option<T> {
    if vp::choose(2) == 1 {
        Some(f())
    } else {
        None
    }
}
fn fb() -> bool {
    vp::u8_() & 1 == 1
}
fn id() -> ActorId {
    ActorId(vp::i32_())
}
fn act() -> ActiveActor {
    ActiveActor { active: fb(), actor: id() }
}
fn rot() -> Rotation {
    let m = vp::choose(8);
    let o = |b: u64| if m & b != 0 { Some(vp::u8_() as i8) } else { None };
    Rotation { yaw: o(1), pitch: o(2), roll: o(4) }
}
fn st(n: usize) -> String {
    let b = ascii(n);
    unsafe { String::from_utf8_unchecked(b) }
}
fn list<T>(n: usize, f: impl Fn() -> T) -> Vec<T> {
    (0..n).map(|_| f()).collect()
}
/// 64-bit values: the edges, and all of a small range
fn wide() -> u64 {
    const EDGES: [u64; 14] = [
        0,
        9,
        10,
        (1 << 31) - 1,
        1 << 31,
        (1 << 32) - 1,
        1 << 32,
        (1 << 53) - 1,
        1 << 53,
        (1 << 53) + 1,
        (1 << 63) - 1,
        1 << 63,
        10_000_000_000_000_000_000,
        u64::MAX,
    ];
    let k = vp::choose(15) as usize;
    if k < 14 {
        EDGES[k]
    } else {
        (vp::u8_() & 127) as u64
    }
}

fn loadout(k: u64) -> Loadout {
    let o = |b: u64| if k & b != 0 { Some(vp::u32_()) } else { None };
    Loadout {
        version: vp::u8_(),
        body: vp::u32_(),
        decal: vp::u32_(),
        wheels: vp::u32_(),
        rocket_trail: vp::u32_(),
        antenna: vp::u32_(),
        topper: vp::u32_(),
        unknown1: vp::u32_(),
        unknown2: o(1),
        engine_audio: o(2),
        trail: o(4),
        goal_explosion: o(8),
        banner: o(16),
        product_id: o(32),
    }
}
fn remote(k: u64) -> RemoteId {
    match k {
        0 => RemoteId::PlayStation(Ps4Id { online_id: wide(), name: st(2), unknown1: list(3, vp::u8_) }),
        1 => RemoteId::PsyNet(PsyNetId { online_id: wide(), unknown1: list(2, vp::u8_) }),
        2 => RemoteId::SplitScreen(vp::u32_()),
        3 => RemoteId::Steam(wide()),
        4 => RemoteId::Switch(SwitchId { online_id: wide(), unknown1: vec![] }),
        5 => RemoteId::Xbox(wide()),
        6 => RemoteId::QQ(wide()),
        _ => RemoteId::Epic(st(3)),
    }
}
fn uid(k: u64) -> UniqueId {
    UniqueId { system_id: vp::u8_(), remote_id: remote(k), local_id: vp::u8_() }
}
fn prod(k: u64) -> Product {
    let v = match k {
        0 => ProductValue::NoColor,
        1 => ProductValue::Absent,
        2 => ProductValue::OldColor(vp::u32_()),
        3 => ProductValue::NewColor(vp::u32_()),
        4 => ProductValue::OldPaint(vp::u32_()),
        5 => ProductValue::NewPaint(vp::u32_()),
        6 => ProductValue::Title(st(2)),
        7 => ProductValue::SpecialEdition(vp::u32_()),
        8 => ProductValue::OldTeamEdition(vp::u32_()),
        _ => ProductValue::NewTeamEdition(vp::u32_()),
    };
    Product { unknown: fb(), object_ind: ObjectId(vp::i32_()), value: v }
}
fn rows() -> Vec<Vec<Product>> {
    vec![vec![prod(1), prod(3)], vec![], vec![prod(vp::choose(10))]]
}

const KINDS: u64 = 57;
fn attr(k: u64) -> Attribute {
    match k {
        0 => Attribute::Boolean(fb()),
        1 => Attribute::Byte(vp::u8_()),
        2 => Attribute::AppliedDamage(AppliedDamage { id: vp::u8_(), position: v3(), damage_index: vp::i32_(), total_damage: vp::i32_() }),
        3 => Attribute::DamageState(DamageState {
            tile_state: vp::u8_(),
            damaged: fb(),
            offender: id(),
            ball_position: v3(),
            direct_hit: fb(),
            unknown1: fb(),
        }),
        4 => Attribute::CamSettings(Box::new(CamSettings {
            fov: fl(),
            height: fl(),
            angle: fl(),
            distance: fl(),
            stiffness: fl(),
            swivel: fl(),
            transition: opt(fl),
        })),
        5 => Attribute::ClubColors(ClubColors { blue_flag: fb(), blue_color: vp::u8_(), orange_flag: fb(), orange_color: vp::u8_() }),
        6 => Attribute::Demolish(Box::new(Demolish {
            attacker_flag: fb(),
            attacker: id(),
            victim_flag: fb(),
            victim: id(),
            attack_velocity: v3(),
            victim_velocity: v3(),
        })),
        7 => Attribute::DemolishExtended(Box::new(DemolishExtended {
            attacker_pri: act(),
            self_demo: act(),
            self_demolish: fb(),
            goal_explosion_owner: act(),
            attacker: act(),
            victim: act(),
            attacker_velocity: v3(),
            victim_velocity: v3(),
        })),
        8 => Attribute::DemolishFx(Box::new(DemolishFx {
            custom_demo_flag: fb(),
            custom_demo_id: vp::i32_(),
            attacker_flag: fb(),
            attacker: id(),
            victim_flag: fb(),
            victim: id(),
            attack_velocity: v3(),
            victim_velocity: v3(),
        })),
        9 => Attribute::Enum(vp::u16_()),
        10 => Attribute::Explosion(Explosion { flag: fb(), actor: id(), location: v3() }),
        11 => Attribute::ExtendedExplosion(ExtendedExplosion {
            explosion: Explosion { flag: fb(), actor: id(), location: v3() },
            unknown1: fb(),
            secondary_actor: id(),
        }),
        12 => Attribute::FlaggedByte(fb(), vp::u8_()),
        13 => Attribute::ActiveActor(act()),
        14 => Attribute::Float(fl()),
        15 => Attribute::GameMode(vp::u8_(), vp::u8_()),
        16 => Attribute::Int(vp::i32_()),
        17 => Attribute::Int64(wide() as i64),
        18 => Attribute::Loadout(Box::new(loadout([0, 1, 2, 4, 8, 16, 32, 63][vp::choose(8) as usize]))),
        19 => Attribute::TeamLoadout(Box::new(TeamLoadout { blue: loadout(21), orange: loadout(42) })),
        20 => Attribute::Location(v3()),
        21 => Attribute::MusicStinger(MusicStinger { flag: fb(), cue: vp::u32_(), trigger: vp::u8_() }),
        22 => Attribute::PlayerHistoryKey(vp::u16_()),
        23 => Attribute::Pickup(Pickup { instigator: opt(id), picked_up: fb() }),
        24 => Attribute::PickupNew(PickupNew { instigator: opt(id), picked_up: vp::u8_() }),
        25 => Attribute::QWord(wide()),
        26 => Attribute::Welded(Welded { active: fb(), actor: id(), offset: v3(), mass: fl(), rotation: rot() }),
        27 => Attribute::Title(fb(), fb(), vp::u32_(), vp::u32_(), vp::u32_(), vp::u32_(), vp::u32_(), fb()),
        28 => Attribute::TeamPaint(TeamPaint {
            team: vp::u8_(),
            primary_color: vp::u8_(),
            accent_color: vp::u8_(),
            primary_finish: vp::u32_(),
            accent_finish: vp::u32_(),
        }),
        29 => Attribute::RigidBody(RigidBody {
            sleeping: fb(),
            location: v3(),
            rotation: Quaternion { x: fl(), y: fl(), z: fl(), w: fl() },
            linear_velocity: opt(v3),
            angular_velocity: opt(v3),
        }),
        30 => Attribute::String(match vp::choose(4) {
            0 => String::new(),
            1 => st(1),
            2 => st(9),
            _ => String::from("\u{e9}\u{20ac}\u{1f697}\0x"),
        }),
        31..=38 => Attribute::UniqueId(Box::new(uid(k - 31))),
        39 => Attribute::Reservation(Box::new(Reservation {
            number: vp::u32_(),
            unique_id: uid(7),
            name: opt(|| st(2)),
            unknown1: fb(),
            unknown2: fb(),
            unknown3: opt(vp::u8_),
        })),
        40 => Attribute::PartyLeader(opt(|| Box::new(uid(2)))),
        41 => Attribute::PrivateMatch(Box::new(PrivateMatchSettings {
            mutators: st(2),
            joinable_by: vp::u32_(),
            max_players: vp::u32_(),
            game_name: st(1),
            password: st(3),
            flag: fb(),
        })),
        42 => Attribute::LoadoutOnline(rows()),
        43 => Attribute::LoadoutOnline(vec![]),
        44 => Attribute::LoadoutsOnline(LoadoutsOnline { blue: rows(), orange: vec![], unknown1: fb(), unknown2: fb() }),
        45 => Attribute::StatEvent(StatEvent { unknown1: fb(), object_id: vp::i32_() }),
        46 => Attribute::Rotation(rot()),
        47 => Attribute::RepStatTitle(RepStatTitle { unknown: fb(), name: st(3), unknown2: fb(), index: vp::u32_(), value: vp::u32_() }),
        48 => Attribute::PickupInfo(PickupInfo { available_pickups: [act(), act(), act()], items_are_preview: fb() }),
        49 => Attribute::Impulse(Impulse { compressed_rotation: vp::i32_(), speed: fl() }),
        50 => Attribute::ReplicatedBoost(ReplicatedBoost { grant_count: vp::u8_(), boost_amount: vp::u8_(), unused1: vp::u8_(), unused2: vp::u8_() }),
        51 => Attribute::LogoData(LogoData { logo_id: vp::u32_(), swap_colors: fb() }),
        52 => Attribute::LoadoutsOnline(LoadoutsOnline { blue: vec![vec![]], orange: rows(), unknown1: fb(), unknown2: fb() }),
        53 => Attribute::Int64(-(wide() as i64 & i64::MAX)),
        54 => Attribute::PartyLeader(Some(Box::new(uid(vp::choose(8))))),
        55 => Attribute::LoadoutOnline(vec![vec![prod(0), prod(6)], vec![prod(8), prod(4)]]),
        _ => Attribute::Loadout(Box::new(loadout(vp::choose(64)))),
    }
}

fn frame(a: Attribute) -> Frame {
    Frame {
        time: fl(),
        delta: fl(),
        new_actors: vec![],
        deleted_actors: vec![],
        updated_actors: vec![UpdatedAttribute { actor_id: id(), stream_id: StreamId(vp::i32_()), object_id: ObjectId(vp::i32_()), attribute: a }],
    }
}

/// through the format and back
fn round(f: &Frame, st: Style) {
    let v = to_val(f, st);
    let g: Option<Frame> = from_val(&v, st);
    match &g {
        Some(g) => {
            va!(g == f);
            same_val(&to_val(g, TREE), &to_val(f, TREE));
            cov!();
        }
        None => va!(false),
    }
    core::mem::forget((v, g));
}

// every attribute kind through every style of format
entry!(c19_attr, {
    let k = vp::first(KINDS);
    let st = STYLES[vp::choose(4) as usize];
    let f = frame(attr(k));
    round(&f, st);
    core::mem::forget(f);
});

// frames with any mix of actors
entry!(c19_frame, {
    let k = vp::first(8);
    let st = STYLES[vp::choose(4) as usize];
    let n = |i: u32| (k >> i & 1) as usize * 2;
    let traj = || {
        let l = vp::choose(2);
        Trajectory {
            location: if l == 1 { Some(Vector3i { x: vp::i32_(), y: vp::i32_(), z: vp::i32_() }) } else { None },
            rotation: if l == 0 { Some(rot()) } else { None },
        }
    };
    let f = Frame {
        time: fl(),
        delta: fl(),
        new_actors: list(n(0) / 2, || NewActor { actor_id: id(), name_id: opt(vp::i32_), object_id: ObjectId(vp::i32_()), initial_trajectory: traj() }),
        deleted_actors: list(n(1), id),
        updated_actors: list(n(2), || UpdatedAttribute {
            actor_id: id(),
            stream_id: StreamId(vp::i32_()),
            object_id: ObjectId(vp::i32_()),
            attribute: Attribute::Int(vp::i32_()),
        }),
    };
    round(&f, st);
    core::mem::forget(f);
});

/// reference decimal form
fn dec(mut v: u64, neg: bool) -> Vec<u8> {
    let mut d = Vec::new();
    loop {
        d.push(b'0' + (v % 10) as u8);
        v /= 10;
        if v == 0 {
            break;
        }
    }
    if neg {
        d.push(b'-');
    }
    d.reverse();
    d
}
fn get<'a>(v: &'a Val, path: &[&str]) -> Option<&'a Val> {
    let mut v = v;
    for p in path {
        match v {
            Val::Map(l) => match l.iter().find(|(k, _)| matches!(k, Val::Str(s) if &s[..] == p.as_bytes())) {
                Some((_, x)) => v = x,
                None => return None,
            },
            _ => return None,
        }
    }
    Some(v)
}
fn is_dec(v: Option<&Val>, x: u64, neg: bool) {
    match v {
        Some(Val::Str(s)) => {
            vbytes!(s, &dec(x, neg));
            cov!();
        }
        _ => va!(false),
    }
}

// 64-bit integers are decimal strings, in readable and binary formats alike
entry!(c19_wide, {
    let k = vp::first(9);
    let st = [JSON, BINARY][vp::choose(2) as usize];
    let x = wide();
    let rid = |r: RemoteId| to_val(&UniqueId { system_id: 1, remote_id: r, local_id: 0 }, st);
    match k {
        0 => is_dec(get(&to_val(&Attribute::QWord(x), st), &["QWord"]), x, false),
        1 => {
            let y = x as i64;
            is_dec(get(&to_val(&Attribute::Int64(y), st), &["Int64"]), if y < 0 { (!x).wrapping_add(1) } else { x }, y < 0)
        }
        2 => is_dec(get(&rid(RemoteId::Steam(x)), &["remote_id", "Steam"]), x, false),
        3 => is_dec(get(&rid(RemoteId::Xbox(x)), &["remote_id", "Xbox"]), x, false),
        4 => is_dec(get(&rid(RemoteId::QQ(x)), &["remote_id", "QQ"]), x, false),
        5 => is_dec(
            get(&rid(RemoteId::PlayStation(Ps4Id { online_id: x, name: st_("n"), unknown1: vec![] })), &["remote_id", "PlayStation", "online_id"]),
            x,
            false,
        ),
        6 => is_dec(get(&rid(RemoteId::PsyNet(PsyNetId { online_id: x, unknown1: vec![] })), &["remote_id", "PsyNet", "online_id"]), x, false),
        7 => is_dec(get(&rid(RemoteId::Switch(SwitchId { online_id: x, unknown1: vec![] })), &["remote_id", "Switch", "online_id"]), x, false),
        _ => is_dec(Some(&to_val(&HeaderProp::QWord(x), st)), x, false),
    }
});
fn st_(s: &str) -> String {
    String::from(s)
}

/// expected form of integers in a style
fn int(v: i32, st: Style) -> Val {
    if st.unsigned {
        Val::U(v as u64)
    } else {
        Val::I(v as i64)
    }
}
fn fv(v: f32, st: Style) -> Val {
    if st.wide {
        Val::F64((v as f64).to_bits())
    } else {
        Val::F32(v.to_bits())
    }
}
fn map(l: Vec<(&str, Val)>) -> Val {
    Val::Map(l.into_iter().map(|(k, v)| (s(k), v)).collect())
}

type Props = Vec<(String, HeaderProp)>;
fn pval(p: &HeaderProp, st: Style) -> Val {
    match p {
        HeaderProp::Array(a) => Val::Seq(a.iter().map(|l| props(l, st)).collect()),
        HeaderProp::Bool(b) => Val::Bool(*b),
        HeaderProp::Byte { kind, value } => map(vec![
            ("kind", s(kind)),
            (
                "value",
                match value {
                    Some(v) => s(v),
                    None => Val::Unit,
                },
            ),
        ]),
        HeaderProp::Float(v) => fv(*v, st),
        HeaderProp::Int(v) => int(*v, st),
        HeaderProp::QWord(v) => Val::Str(dec(*v, false)),
        HeaderProp::Name(v) | HeaderProp::Str(v) => s(v),
        HeaderProp::Struct { name, fields } => map(vec![("name", s(name)), ("fields", props(fields, st))]),
    }
}
fn props(l: &Props, st: Style) -> Val {
    Val::Map(l.iter().map(|(k, v)| (s(k), pval(v, st))).collect())
}
fn leaf(k: u64) -> HeaderProp {
    match k {
        0 => HeaderProp::Bool(fb()),
        1 => HeaderProp::Byte { kind: st(2), value: Some(st(1)) },
        2 => HeaderProp::Byte { kind: st(1), value: None },
        3 => HeaderProp::Float(fl()),
        4 => HeaderProp::Int(vp::i32_()),
        5 => HeaderProp::Name(st(3)),
        6 => HeaderProp::Str(st(0)),
        7 => HeaderProp::QWord(wide()),
        8 => HeaderProp::Array(vec![]),
        9 => HeaderProp::Struct { name: st(2), fields: vec![] },
        10 => HeaderProp::Array(vec![vec![(st(1), HeaderProp::Int(vp::i32_())), (st(1), leaf(vp::choose(7)))], vec![], vec![(st(2), leaf(9))]]),
        _ => HeaderProp::Struct { name: st(2), fields: vec![(st(1), leaf(10)), (st(1), leaf(vp::choose(7)))] },
    }
}

// header properties are maps in order with every entry, duplicates included, and plain values
entry!(c19_props, {
    let k = vp::first(12);
    let st = STYLES[vp::choose(3) as usize];
    let key = self::st(2);
    let l: Props = vec![(key.clone(), leaf(4)), (self::st(1), leaf(k)), (key, leaf(3))];
    let mut r = replay();
    r.properties = l;
    let v = to_val(&r, st);
    match get(&v, &["properties"]) {
        Some(v) => {
            same_val(v, &props(&r.properties, st));
            cov!();
        }
        None => va!(false),
    }
    core::mem::forget((v, r));
});
// nested duplicates
entry!(c19_dup, {
    let k = vp::first(3);
    let key = self::st(1);
    let dup: Props = vec![(key.clone(), leaf(4)), (key.clone(), leaf(5)), (self::st(1), leaf(4))];
    let p = match k {
        0 => HeaderProp::Struct { name: self::st(1), fields: dup },
        1 => HeaderProp::Array(vec![dup]),
        _ => HeaderProp::Struct { name: self::st(1), fields: vec![(key, HeaderProp::Array(vec![vec![], dup]))] },
    };
    let st = STYLES[vp::choose(3) as usize];
    same_val(&to_val(&p, st), &pval(&p, st));
    cov!();
});

fn replay() -> Replay {
    Replay {
        header_size: vp::i32_(),
        header_crc: vp::u32_(),
        major_version: vp::i32_(),
        minor_version: vp::i32_(),
        net_version: None,
        game_type: String::new(),
        properties: vec![],
        content_size: vp::i32_(),
        content_crc: vp::u32_(),
        network_frames: None,
        levels: vec![],
        keyframes: vec![],
        debug_info: vec![],
        tick_marks: vec![],
        packages: vec![],
        objects: vec![],
        names: vec![],
        class_indices: vec![],
        net_cache: vec![],
    }
}
fn strs(l: &[String]) -> Val {
    Val::Seq(l.iter().map(|x| s(x)).collect())
}

// a replay with every field: names, order and values
entry!(c19_replay, {
    let k = vp::first(8);
    let st = STYLES[vp::choose(3) as usize];
    let mut r = replay();
    let n = if k & 1 == 1 { 2 } else { 1 };
    let i = |v: i32| int(v, st);
    r.game_type = self::st(2);
    r.levels = list(n, || self::st(1));
    r.packages = list(3 - n, || self::st(1));
    r.objects = list(n, || self::st(2));
    r.names = list(3 - n, || self::st(2));
    r.keyframes = list(n, || KeyFrame { time: fl(), frame: vp::i32_(), position: vp::i32_() });
    r.debug_info = list(1, || DebugInfo { frame: vp::i32_(), user: self::st(1), text: self::st(2) });
    r.tick_marks = list(1, || TickMark { description: self::st(1), frame: vp::i32_() });
    r.class_indices = list(1, || ClassIndex { class: self::st(1), index: vp::i32_() });
    r.net_cache = list(1, || ClassNetCache {
        object_ind: vp::i32_(),
        parent_id: vp::i32_(),
        cache_id: vp::i32_(),
        properties: list(n, || CacheProp { object_ind: vp::i32_(), stream_id: vp::i32_() }),
    });
    if k & 2 == 2 {
        r.net_version = Some(vp::i32_());
    }
    if k & 4 == 4 {
        r.network_frames = Some(NetworkFrames {
            frames: vec![Frame {
                time: fl(),
                delta: fl(),
                new_actors: vec![NewActor {
                    actor_id: id(),
                    name_id: Some(vp::i32_()),
                    object_id: ObjectId(vp::i32_()),
                    initial_trajectory: Trajectory { location: Some(Vector3i { x: vp::i32_(), y: vp::i32_(), z: vp::i32_() }), rotation: Some(Rotation { yaw: Some(vp::u8_() as i8), pitch: None, roll: None }) },
                }],
                deleted_actors: vec![id()],
                updated_actors: vec![UpdatedAttribute { actor_id: id(), stream_id: StreamId(vp::i32_()), object_id: ObjectId(vp::i32_()), attribute: Attribute::Byte(vp::u8_()) }],
            }],
        });
    }
    let frames = match &r.network_frames {
        None => Val::Unit,
        Some(n) => map(vec![(
            "frames",
            Val::Seq(
                n.frames
                    .iter()
                    .map(|f| {
                        map(vec![
                            ("time", fv(f.time, st)),
                            ("delta", fv(f.delta, st)),
                            (
                                "new_actors",
                                Val::Seq(
                                    f.new_actors
                                        .iter()
                                        .map(|a| {
                                            let l = a.initial_trajectory.location.unwrap();
                                            let ro = a.initial_trajectory.rotation.unwrap();
                                            map(vec![
                                                ("actor_id", i(a.actor_id.0)),
                                                ("name_id", i(a.name_id.unwrap())),
                                                ("object_id", i(a.object_id.0)),
                                                (
                                                    "initial_trajectory",
                                                    map(vec![
                                                        ("location", map(vec![("x", i(l.x)), ("y", i(l.y)), ("z", i(l.z))])),
                                                        ("rotation", map(vec![("yaw", i(ro.yaw.unwrap() as i32)), ("pitch", Val::Unit), ("roll", Val::Unit)])),
                                                    ]),
                                                ),
                                            ])
                                        })
                                        .collect(),
                                ),
                            ),
                            ("deleted_actors", Val::Seq(f.deleted_actors.iter().map(|a| i(a.0)).collect())),
                            (
                                "updated_actors",
                                Val::Seq(
                                    f.updated_actors
                                        .iter()
                                        .map(|a| {
                                            let b = match a.attribute {
                                                Attribute::Byte(b) => b,
                                                _ => 0,
                                            };
                                            map(vec![
                                                ("actor_id", i(a.actor_id.0)),
                                                ("stream_id", i(a.stream_id.0)),
                                                ("object_id", i(a.object_id.0)),
                                                ("attribute", map(vec![("Byte", Val::U(b as u64))])),
                                            ])
                                        })
                                        .collect(),
                                ),
                            ),
                        ])
                    })
                    .collect(),
            ),
        )]),
    };
    let want = map(vec![
        ("header_size", i(r.header_size)),
        ("header_crc", Val::U(r.header_crc as u64)),
        ("major_version", i(r.major_version)),
        ("minor_version", i(r.minor_version)),
        (
            "net_version",
            match r.net_version {
                None => Val::Unit,
                Some(v) => i(v),
            },
        ),
        ("game_type", s(&r.game_type)),
        ("properties", Val::Map(vec![])),
        ("content_size", i(r.content_size)),
        ("content_crc", Val::U(r.content_crc as u64)),
        ("network_frames", frames),
        ("levels", strs(&r.levels)),
        (
            "keyframes",
            Val::Seq(r.keyframes.iter().map(|k| map(vec![("time", fv(k.time, st)), ("frame", i(k.frame)), ("position", i(k.position))])).collect()),
        ),
        ("debug_info", Val::Seq(r.debug_info.iter().map(|k| map(vec![("frame", i(k.frame)), ("user", s(&k.user)), ("text", s(&k.text))])).collect())),
        ("tick_marks", Val::Seq(r.tick_marks.iter().map(|k| map(vec![("description", s(&k.description)), ("frame", i(k.frame))])).collect())),
        ("packages", strs(&r.packages)),
        ("objects", strs(&r.objects)),
        ("names", strs(&r.names)),
        ("class_indices", Val::Seq(r.class_indices.iter().map(|k| map(vec![("class", s(&k.class)), ("index", i(k.index))])).collect())),
        (
            "net_cache",
            Val::Seq(
                r.net_cache
                    .iter()
                    .map(|k| {
                        map(vec![
                            ("object_ind", i(k.object_ind)),
                            ("parent_id", i(k.parent_id)),
                            ("cache_id", i(k.cache_id)),
                            ("properties", Val::Seq(k.properties.iter().map(|p| map(vec![("object_ind", i(p.object_ind)), ("stream_id", i(p.stream_id))])).collect())),
                        ])
                    })
                    .collect(),
            ),
        ),
    ]);
    same_val(&to_val(&r, st), &want);
    cov!();
    core::mem::forget((r, want));
});

// floats that are not numbers keep their bits in formats that can hold them
entry!(c19_nan, {
    let k = vp::first(4);
    let st = [TREE, BINARY, PACKED][vp::choose(3) as usize];
    let bits = vp::u32_();
    let x = f32::from_bits(bits);
    let is = |v: Option<&Val>| match v {
        Some(Val::F32(y)) => {
            ve!(*y, bits);
            cov!();
        }
        _ => va!(false),
    };
    match k {
        0 => is(Some(&to_val(&HeaderProp::Float(x), st))),
        1 => {
            let v = to_val(&Attribute::Float(x), st);
            let g: Option<Attribute> = from_val(&v, st);
            match &g {
                Some(Attribute::Float(y)) => {
                    ve!(y.to_bits(), bits);
                    cov!();
                }
                _ => va!(false),
            }
        }
        2 => {
            let mut f = frame(Attribute::Byte(vp::u8_()));
            f.time = x;
            let v = to_val(&f, st);
            let g: Option<Frame> = from_val(&v, st);
            match &g {
                Some(y) => {
                    ve!(y.time.to_bits(), bits);
                    ve!(y.delta.to_bits(), f.delta.to_bits());
                    cov!();
                }
                _ => va!(false),
            }
            core::mem::forget((f, v, g));
        }
        _ => {
            let mut r = replay();
            let p = list(3, || vp::u32_());
            r.properties = vec![(self::st(1), HeaderProp::Struct { name: self::st(1), fields: vec![(self::st(1), HeaderProp::Float(f32::from_bits(p[0])))] }), (self::st(1), HeaderProp::Float(x))];
            r.keyframes = vec![KeyFrame { time: f32::from_bits(p[1]), frame: 1, position: 2 }];
            let st = [TREE, BINARY][vp::choose(2) as usize];
            let v = to_val(&r, st);
            match get(&v, &["properties"]) {
                Some(v) => same_val(v, &props(&r.properties, st)),
                None => va!(false),
            }
            match get(&v, &["keyframes"]) {
                Some(Val::Seq(l)) => match get(&l[0], &["time"]) {
                    Some(Val::F32(y)) => {
                        ve!(*y, p[1]);
                        cov!();
                    }
                    _ => va!(false),
                },
                _ => va!(false),
            }
            core::mem::forget((r, v));
        }
    }
});

// long lists: frames of many records, loadouts of many products, headers of many properties
entry!(c19_many, {
    let k = vp::first(8);
    let n = [9usize, 17, 33, 65, 129, 257, 300, 1_025][vp::choose(8) as usize];
    let st = STYLES[vp::choose(if k < 5 { 4 } else { 3 }) as usize];
    let at = |i: usize| i == 0 || i == n / 2 || i + 1 == n;
    let num = |i: usize| if at(i) { vp::i32_() } else { (i / 2) as i32 * 7 };
    let up = |i: usize, a: Attribute| UpdatedAttribute { actor_id: ActorId(num(i)), stream_id: StreamId(i as i32), object_id: ObjectId(3), attribute: a };
    let none = || frame(Attribute::Byte(1));
    let item = |i: usize| Product {
        unknown: i & 1 == 1,
        object_ind: ObjectId(i as i32),
        value: match i % 4 {
            0 => ProductValue::Absent,
            1 => ProductValue::NewColor(num(i) as u32),
            2 => ProductValue::Title(self::st(1)),
            _ => ProductValue::NoColor,
        },
    };
    match k {
        0 => {
            let mut f = none();
            f.deleted_actors = (0..n).map(|i| ActorId(num(i))).collect();
            round(&f, st);
            core::mem::forget(f);
        }
        1 => {
            let mut f = none();
            f.new_actors = (0..n)
                .map(|i| NewActor {
                    actor_id: ActorId(num(i)),
                    name_id: if i % 3 == 0 { None } else { Some(num(i)) },
                    object_id: ObjectId(i as i32),
                    initial_trajectory: Trajectory {
                        location: if i & 1 == 0 { Some(Vector3i { x: num(i), y: i as i32, z: 0 }) } else { None },
                        rotation: if i & 2 == 0 { Some(Rotation { yaw: Some(i as i8), pitch: None, roll: None }) } else { None },
                    },
                })
                .collect();
            round(&f, st);
            core::mem::forget(f);
        }
        2 => {
            let mut f = none();
            f.updated_actors = (0..n).map(|i| up(i, if i % 2 == 0 { Attribute::Int(num(i)) } else { Attribute::Boolean(true) })).collect();
            round(&f, st);
            core::mem::forget(f);
        }
        3 => {
            let mut f = none();
            f.updated_actors = vec![up(0, Attribute::LoadoutOnline(vec![(0..n).map(item).collect(), vec![]])), up(1, Attribute::LoadoutOnline((0..n).map(|i| if i & 1 == 1 { vec![item(i)] } else { vec![] }).collect()))];
            round(&f, st);
            core::mem::forget(f);
        }
        4 => {
            let mut f = none();
            let t = self::st(n);
            f.updated_actors = vec![up(0, Attribute::String(t)), up(1, Attribute::UniqueId(Box::new(UniqueId { system_id: 7, remote_id: RemoteId::PsyNet(PsyNetId { online_id: 5, unknown1: list(n, vp::u8_) }), local_id: 1 })))];
            round(&f, st);
            core::mem::forget(f);
        }
        5 | 6 => {
            let l: Props = (0..n).map(|i| (if at(i) { self::st(1) } else { String::from("k") }, if i % 3 == 0 { HeaderProp::Int(num(i)) } else { HeaderProp::Bool(i & 1 == 1) })).collect();
            let p = if k == 5 { HeaderProp::Struct { name: self::st(1), fields: l.clone() } } else { HeaderProp::Array((0..n).map(|i| if i % 3 == 1 { vec![] } else { vec![l[i].clone()] }).collect()) };
            let v = to_val(&p, st);
            same_val(&v, &pval(&p, st));
            cov!();
            core::mem::forget((v, p, l));
        }
        _ => {
            let mut r = replay();
            r.properties = (0..n).map(|i| (if at(i) { self::st(1) } else { String::from("k") }, HeaderProp::Int(num(i)))).collect();
            r.levels = (0..n).map(|i| if at(i) { self::st(2) } else { String::from("x") }).collect();
            let v = to_val(&r, st);
            match get(&v, &["properties"]) {
                Some(v) => same_val(v, &props(&r.properties, st)),
                None => va!(false),
            }
            match get(&v, &["levels"]) {
                Some(v) => same_val(v, &strs(&r.levels)),
                None => va!(false),
            }
            cov!();
            core::mem::forget((v, r));
        }
    }
});
