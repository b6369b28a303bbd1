//! C12: scalar and fixed-layout attributes.
use crate::attr::*;
use crate::enc::*;
use crate::golden::{ATTRS, K};
use crate::parts::*;
use crate::*;
use boxcars::*;
const M: u32 = 12;

attr!(c12_boolean, "Engine.Actor:bHidden", |v| [f = flag()], |b| b.bit(f), Attribute::Boolean(x) => { ve!(*x, f) });
attr!(c12_byte, "Engine.Pawn:RemoteViewPitch", |v| [f = vp::u8_()], |b| b.u8(f), Attribute::Byte(x) => { ve!(*x, f) });
attr!(c12_enum, "Engine.Actor:Role", |v| [f = vp::bits(11)], |b| b.put(f, 11), Attribute::Enum(x) => { ve!(*x, f) });
attr!(c12_int, "Engine.PlayerReplicationInfo:Score", |v| [f = vp::i32_()], |b| b.i32(f), Attribute::Int(x) => { ve!(*x, f) });
attr!(c12_int64, "TAGame.PRI_TA:ClubID", |v| [f = vp::u64_()], |b| b.u64(f), Attribute::Int64(x) => { ve!(*x, f) });
attr!(c12_float, "Engine.Actor:DrawScale", |v| [f = vp::u32_()], |b| b.u32(f), Attribute::Float(x) => { ve!(x.to_bits(), f) });
attr!(c12_flagged_byte, "TAGame.PRI_TA:SkillTier", |v| [f = flag(), g = vp::u8_()], |b| b.bit(f).u8(g), Attribute::FlaggedByte(x, y) => { ve!(*x, f); ve!(*y, g) });
attr!(c12_active_actor, "Engine.Pawn:PlayerReplicationInfo", |v| [a = Act::sym()], |b| a.enc(b), Attribute::ActiveActor(x) => { a.check(x) });
attr!(c12_cam_settings, "TAGame.PRI_TA:CameraSettings", |v| [f = [vp::u32_(), vp::u32_(), vp::u32_(), vp::u32_(), vp::u32_(), vp::u32_(), vp::u32_()]],
    |b| { for i in 0..6 { b.u32(f[i]); } if v.ge(868, 20, 0) { b.u32(f[6]); } },
    Attribute::CamSettings(x) => {
        ve!(x.fov.to_bits(), f[0]);
        ve!(x.height.to_bits(), f[1]);
        ve!(x.angle.to_bits(), f[2]);
        ve!(x.distance.to_bits(), f[3]);
        ve!(x.stiffness.to_bits(), f[4]);
        ve!(x.swivel.to_bits(), f[5]);
        match x.transition {
            Some(t) => { va!(v.ge(868, 20, 0)); ve!(t.to_bits(), f[6]) }
            None => va!(!v.ge(868, 20, 0)),
        }
    });
attr!(c12_club_colors, "TAGame.Car_TA:ClubColors", |v| [p = flag(), q = vp::u8_(), r = flag(), s = vp::u8_()], |b| b.bit(p).u8(q).bit(r).u8(s),
    Attribute::ClubColors(x) => { ve!(x.blue_flag, p); ve!(x.blue_color, q); ve!(x.orange_flag, r); ve!(x.orange_color, s) });
attr!(c12_damage_state, "TAGame.BreakOutActor_Platform_TA:DamageState", |v|
    [t = vp::u8_(), d = flag(), o = vp::i32_(), p = Vec3::some(v.net()), h = flag(), u = flag()],
    |b| { b.u8(t).bit(d).i32(o); p.enc(b, v.net()); b.bit(h).bit(u) },
    Attribute::DamageState(x) => { ve!(x.tile_state, t); ve!(x.damaged, d); ve!(x.offender, o); p.check(&x.ball_position); ve!(x.direct_hit, h); ve!(x.unknown1, u) });
attr!(c12_game_mode, "TAGame.GameEvent_TA:GameMode", |v| [m = vp::u8_()],
    |b| b.put(m as u64, if v.ge(868, 12, 0) { 8 } else { 2 }),
    Attribute::GameMode(n, x) => { ve!(*n, if v.ge(868, 12, 0) { 8u8 } else { 2 }); ve!(*x, if v.ge(868, 12, 0) { m } else { m & 3 }) });
attr!(c12_music_stinger, "TAGame.GameEvent_Soccar_TA:ReplicatedMusicStinger", |v| [f = flag(), c = vp::u32_(), t = vp::u8_()], |b| b.bit(f).u32(c).u8(t),
    Attribute::MusicStinger(x) => { ve!(x.flag, f); ve!(x.cue, c); ve!(x.trigger, t) });
attr!(c12_pickup, "TAGame.VehiclePickup_TA:ReplicatedPickupData", |v| [h = vp::choose(2) == 1, i = vp::i32_(), p = flag()],
    |b| { b.bit(h); if h { b.i32(i); } b.bit(p) },
    Attribute::Pickup(x) => { va!(x.instigator.is_some() == h); if let Some(a) = x.instigator { ve!(a, i) } ve!(x.picked_up, p) });
attr!(c12_pickup_new, "TAGame.VehiclePickup_TA:NewReplicatedPickupData", |v| [h = vp::choose(2) == 1, i = vp::i32_(), p = vp::u8_()],
    |b| { b.bit(h); if h { b.i32(i); } b.u8(p) },
    Attribute::PickupNew(x) => { va!(x.instigator.is_some() == h); if let Some(a) = x.instigator { ve!(a, i) } ve!(x.picked_up, p) });
attr!(c12_player_history_key, "TAGame.PRI_TA:PlayerHistoryKey", |v| [k = vp::bits(14)], |b| b.put(k, 14), Attribute::PlayerHistoryKey(x) => { ve!(*x, k) });
attr!(c12_team_paint, "TAGame.Car_TA:TeamPaint", |v| [t = vp::u8_(), p = vp::u8_(), a = vp::u8_(), pf = vp::u32_(), af = vp::u32_()],
    |b| b.u8(t).u8(p).u8(a).u32(pf).u32(af),
    Attribute::TeamPaint(x) => { ve!(x.team, t); ve!(x.primary_color, p); ve!(x.accent_color, a); ve!(x.primary_finish, pf); ve!(x.accent_finish, af) });
attr!(c12_welded, "TAGame.RBActor_TA:WeldedInfo", |v| [a = flag(), i = vp::i32_(), p = Vec3::some(v.net()), m = vp::u32_(), r = Rot3::sym(vp::choose(4) * 7 / 3)],
    |b| { b.bit(a).i32(i); p.enc(b, v.net()); b.u32(m); r.enc(b) },
    Attribute::Welded(x) => { ve!(x.active, a); ve!(x.actor, i); p.check(&x.offset); ve!(x.mass.to_bits(), m); r.check(&x.rotation) });
attr!(c12_title, "TAGame.PRI_TA:PrimaryTitle", |v| [p = flag(), q = flag(), u = [vp::u32_(), vp::u32_(), vp::u32_(), vp::u32_(), vp::u32_()], r = flag()],
    |b| { b.bit(p).bit(q); for x in u { b.u32(x); } b.bit(r) },
    Attribute::Title(a, c, d, e, f, g, h, i) => { ve!(*a, p); ve!(*c, q); ve!(*d, u[0]); ve!(*e, u[1]); ve!(*f, u[2]); ve!(*g, u[3]); ve!(*h, u[4]); ve!(*i, r) });
attr!(c12_rep_stat_title, "TAGame.PRI_TA:RepStatTitles", |v| [p = flag(), s = vp::bytes::<3>(), q = flag(), i = vp::u32_(), w = vp::u32_()],
    |b| { let t = [s[0] & 0x7f, s[1] & 0x7f, s[2] & 0x7f]; b.bit(p).text(&t).bit(q).u32(i).u32(w) },
    Attribute::RepStatTitle(x) => { ve!(x.unknown, p); let t = [s[0] & 0x7f, s[1] & 0x7f, s[2] & 0x7f]; vbytes!(x.name.as_bytes(), &t); ve!(x.unknown2, q); ve!(x.index, i); ve!(x.value, w) });
attr!(c12_impulse, "TAGame.Car_KnockOut_TA:ReplicatedImpulse", |v| [c = vp::i32_(), s = vp::u32_()], |b| b.i32(c).u32(s),
    Attribute::Impulse(x) => { ve!(x.compressed_rotation, c); ve!(x.speed.to_bits(), s) });
attr!(c12_stat_event, "TAGame.GameEvent_Soccar_TA:ReplicatedStatEvent", |v| [f = flag(), i = vp::i32_()], |b| b.bit(f).i32(i),
    Attribute::StatEvent(x) => { ve!(x.unknown1, f); ve!(x.object_id, i) });
attr!(c12_pickup_info, "TAGame.RumblePickups_TA:PickupInfo", |v| [a = [Act::sym(), Act::sym(), Act::sym()], f = flag()],
    |b| { for x in a { x.enc(b); } b.bit(f) },
    Attribute::PickupInfo(x) => { for i in 0..3 { a[i].check(&x.available_pickups[i]); } ve!(x.items_are_preview, f) });
attr!(c12_replicated_boost, "TAGame.CarComponent_Boost_TA:ReplicatedBoost", |v| [f = vp::bytes::<4>()], |b| b.bytes(&f),
    Attribute::ReplicatedBoost(x) => { ve!(x.grant_count, f[0]); ve!(x.boost_amount, f[1]); ve!(x.unused1, f[2]); ve!(x.unused2, f[3]) });
attr!(c12_logo_data, "TAGame.Team_TA:LogoData", |v| [i = vp::u32_(), f = flag()], |b| b.u32(i).bit(f),
    Attribute::LogoData(x) => { ve!(x.logo_id, i); ve!(x.swap_colors, f) });
attr!(c12_location, "TAGame.Ball_TA:AirResistance", |v| [p = Vec3::some(v.net())], |b| p.enc(b, v.net()), Attribute::Location(x) => { p.check(x) });
attr!(c12_rotation, "Engine.Actor:Rotation", |v| [r = Rot3::sym(vp::choose(8))], |b| r.enc(b), Attribute::Rotation(x) => { r.check(x) });

fn kind(a: &Attribute) -> K {
    match a {
        Attribute::Boolean(_) => K::Boolean,
        Attribute::Byte(_) => K::Byte,
        Attribute::AppliedDamage(_) => K::AppliedDamage,
        Attribute::DamageState(_) => K::DamageState,
        Attribute::CamSettings(_) => K::CamSettings,
        Attribute::ClubColors(_) => K::ClubColors,
        Attribute::Demolish(_) => K::Demolish,
        Attribute::DemolishExtended(_) => K::DemolishExtended,
        Attribute::DemolishFx(_) => K::DemolishFx,
        Attribute::Enum(_) => K::Enum,
        Attribute::Explosion(_) => K::Explosion,
        Attribute::ExtendedExplosion(_) => K::ExtendedExplosion,
        Attribute::FlaggedByte(..) => K::FlaggedByte,
        Attribute::ActiveActor(_) => K::ActiveActor,
        Attribute::Float(_) => K::Float,
        Attribute::GameMode(..) => K::GameMode,
        Attribute::Int(_) => K::Int,
        Attribute::Int64(_) => K::Int64,
        Attribute::Loadout(_) => K::Loadout,
        Attribute::TeamLoadout(_) => K::TeamLoadout,
        Attribute::Location(_) => K::Location,
        Attribute::MusicStinger(_) => K::MusicStinger,
        Attribute::Pickup(_) => K::Pickup,
        Attribute::PickupNew(_) => K::PickupNew,
        Attribute::PlayerHistoryKey(_) => K::PlayerHistoryKey,
        Attribute::String(_) => K::String,
        Attribute::Welded(_) => K::Welded,
        Attribute::RigidBody(_) => K::RigidBody,
        Attribute::Title(..) => K::Title,
        Attribute::TeamPaint(_) => K::TeamPaint,
        Attribute::UniqueId(_) => K::UniqueId,
        Attribute::Reservation(_) => K::Reservation,
        Attribute::PartyLeader(_) => K::PartyLeader,
        Attribute::PrivateMatch(_) => K::PrivateMatchSettings,
        Attribute::LoadoutOnline(_) => K::LoadoutOnline,
        Attribute::LoadoutsOnline(_) => K::LoadoutsOnline,
        Attribute::StatEvent(_) => K::StatEvent,
        Attribute::Rotation(_) => K::RotationTag,
        Attribute::RepStatTitle(_) => K::RepStatTitle,
        Attribute::PickupInfo(_) => K::PickupInfo,
        Attribute::Impulse(_) => K::Impulse,
        Attribute::ReplicatedBoost(_) => K::ReplicatedBoost,
        Attribute::LogoData(_) => K::LogoData,
        Attribute::QWord(_) => K::QWordString,
    }
}

// every documented attribute name decodes as its documented kind, for every version
entry!(c12_kinds, {
    let g = vp::first(16) as usize;
    let n = ATTRS.len();
    let per = (n + 15) / 16;
    let k = g * per + vp::choose(per as u64) as usize;
    if k >= n {
        return;
    }
    let (name, want) = ATTRS[k];
    let ver = Ver::any();
    let e = Env::new(ver, name);
    let mut b = e.begin();
    // every field zero
    b.put(0, 64).put(0, 64);
    let mut v = b.done();
    for _ in 0..160 {
        v.push(0);
    }
    let r = parse(&e.file(&v));
    va!(r.is_ok());
    if let Ok(r) = &r {
        let f = &r.network_frames.as_ref().unwrap().frames[0];
        va!(f.updated_actors.len() == 1);
        let a = &f.updated_actors[0];
        vp::trace_u64(kind(&a.attribute) as u64);
        va!(kind(&a.attribute) == want);
        ve!(a.object_id, 1);
        cov!();
    }
    core::mem::forget(r);
});
