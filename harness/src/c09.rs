//! C09: a truncated replay is never accepted as a complete one.
use crate::attr::*;
use crate::docs::*;
use crate::enc::*;
use crate::*;
use boxcars::*;
const M: u32 = 9;

pub const CRC: [CrcCheck; 3] = [CrcCheck::Never, CrcCheck::OnError, CrcCheck::Always];
pub const NET: [NetworkParse; 3] = [NetworkParse::Always, NetworkParse::IgnoreOnError, NetworkParse::Never];

/// If the first `cut` bytes parse, nothing behind them was needed: with the rest, and with any
/// other continuation, they parse to the same replay.
fn prefix(data: &[u8], cut: usize, crc: CrcCheck, net: NetworkParse) {
    let a = parse_with(&data[..cut], crc, net);
    if let Ok(x) = &a {
        let b = parse_with(data, crc, net);
        match &b {
            Ok(y) => same_replay(x, y),
            Err(_) => va!(false),
        }
        cov!();
        core::mem::forget(b);
    } else {
        cov!();
    }
    core::mem::forget(a);
}

/// sections whose declared sizes are exact, none, or half of their contents
fn sized(d: &Doc, mode: u64) -> Vec<u8> {
    let k = |n: usize| -> i32 {
        match mode {
            0 => n as i32,
            1 => 0,
            _ => n as i32 / 2,
        }
    };
    let mut w = W::new();
    w.i32(k(d.h.len())).u32(0).raw(&d.h);
    w.i32(k(d.b.len())).u32(0).raw(&d.b);
    w.b
}

// complete documents cut at every byte
entry!(c09_file, {
    let u = vp::first(12);
    let d = pick(u % 3);
    let (mode, part) = (vp::choose(3), u as usize / 3);
    let data = sized(&d, mode);
    let n = data.len();
    let cut = vp::choose(n as u64 / 4 + 1) as usize * 4 + part;
    vp::assume(cut < n);
    let k = if vp::thorough() { vp::choose(9) as usize } else { (cut / 4 + mode as usize) % 9 };
    let r = parse_with(&data[..cut], CRC[k % 3], NET[k / 3]);
    va!(r.is_err());
    cov!();
    core::mem::forget(r);
});

// the same with arbitrary bytes before the cut
entry!(c09_window, {
    let u = vp::first(24);
    let d = pick(u % 3);
    let part = u as usize / 3;
    let mode = if vp::thorough() { vp::choose(3) } else { 1 };
    let mut data = sized(&d, mode);
    let n = data.len();
    let cut = vp::choose(n as u64 / 8 + 1) as usize * 8 + part;
    vp::assume((cut < n) & (cut > 0));
    data[cut - 1] = vp::u8_();
    prefix(&data, cut, CrcCheck::Never, NET[cut % 2]);
});

// a tail of the file is arbitrary
entry!(c09_tail, {
    let k = [1, 4, 8, 12, 16, 20, 21, 24, 28, 36][vp::first(10) as usize];
    let d = modern();
    let mut data = sized(&d, 1);
    let n = data.len();
    vp::sym(&mut data[n - k..]);
    let cut = vp::choose(k as u64) as usize;
    prefix(&data, n - k + cut, CrcCheck::Never, NetworkParse::Never);
});

// bodies of arbitrary bytes
entry!(c09_body, {
    let u = vp::first(22) as usize;
    let k = [0, if vp::thorough() { 5 } else { 4 }][u / 11];
    let at = u % 11;
    let mut h = W::new();
    header_start(&mut h, MODERN);
    h.str("None");
    let mut b = vec![0u8; 44];
    // one count is any, then arbitrary bytes
    vp::sym(&mut b[at * 4..at * 4 + 4]);
    let mut t = vec![0u8; k];
    vp::sym(&mut t);
    b.truncate(44);
    let mut body = b[..at * 4 + 4].to_vec();
    body.extend_from_slice(&t);
    body.extend_from_slice(&b[at * 4 + 4..]);
    let mut w = W::new();
    w.i32(0).u32(0).raw(&h.b).i32(0).u32(0).raw(&body);
    let cut = if vp::thorough() { vp::choose(body.len() as u64 - 3) as usize + 1 } else { [1, 4, 7, 12][vp::choose(4) as usize] };
    let n = w.b.len();
    prefix(&w.b, n - cut, CrcCheck::Never, NetworkParse::Never);
});

/// documents whose network data is replaced
fn with_net(d: &Doc, net: &[u8]) -> Vec<u8> {
    let mut w = W::new();
    w.raw(&d.b[..d.net.0 - 4]).i32(net.len() as i32).raw(net).raw(&d.b[d.net.1..]);
    file(&d.h, &w.b)
}

/// outcome of cut network data: frames, or the network error
fn cut_frames(data: &[u8], want: Option<usize>) {
    let must = parse_with(data, CrcCheck::Never, NetworkParse::Always);
    let ign = parse_with(data, CrcCheck::Never, NetworkParse::IgnoreOnError);
    match want {
        Some(n) => {
            match (&must, &ign) {
                (Ok(a), Ok(b)) => {
                    va!(matches!(&a.network_frames, Some(x) if x.frames.len() == n));
                    same_frames(&a.network_frames, &b.network_frames);
                }
                _ => va!(false),
            }
            cov!();
        }
        None => {
            va!(matches!(&must, Err(ParseError::NetworkError(_))));
            va!(matches!(&ign, Ok(x) if x.network_frames.is_none()));
            cov!();
        }
    }
    core::mem::forget((must, ign));
}

// network data of the documents, cut at every byte; the declared size follows the cut
entry!(c09_network, {
    let u = vp::first(12);
    let d = pick(u % 3);
    let ver = [MODERN, Ver::new(700, 7, 0), Ver { major: 0, minor: 0, stored: None }][(u % 3) as usize];
    let mut ends = [0u32; 4];
    let net = frames(ver, |b, i| ends[i as usize] = b.total);
    let n = d.net.1 - d.net.0;
    let k = vp::choose(n as u64 / 4 + 1) as usize * 4 + u as usize / 3;
    vp::assume(k <= n);
    let bits = 8 * k as u32;
    // nothing left, or the end marker has been read
    let want = if k < if u % 3 == 0 { 10 } else { 2 } {
        // fewer bytes than declared frames
        None
    } else if bits >= ends[2] && (ends[2] == bits || u % 3 != 0) {
        Some(2)
    } else if bits >= ends[3] {
        Some(2)
    } else if bits == ends[1] {
        Some(1)
    } else {
        None
    };
    cut_frames(&with_net(&d, &net[..k]), want);
});

// one byte before the cut is arbitrary
entry!(c09_network_any, {
    let u = vp::first(24);
    let d = pick(u % 3);
    let mut net = d.b[d.net.0..d.net.1].to_vec();
    let k = vp::choose(net.len() as u64 / 8 + 1) as usize * 8 + u as usize / 3;
    vp::assume((k <= net.len()) & (k > 0));
    net[k - 1] = vp::u8_();
    whole(u % 3, &net, k);
});
/// when `k` bytes decode to n frames, reading n frames from all of the data gives the same
fn whole(u: u64, net: &[u8], k: usize) {
    let a = parse(&with_net(&pick(u), &net[..k]));
    if let Ok(x) = &a {
        let Some(f) = &x.network_frames else { return va!(false) };
        let d = doc(Opt { ver: [MODERN, Ver::new(700, 7, 0), Ver { major: 0, minor: 0, stored: None }][u as usize], quirks: u == 2, frames: f.frames.len() as i32 });
        let b = parse(&with_net(&d, net));
        match &b {
            Ok(y) => same_frames(&x.network_frames, &y.network_frames),
            _ => va!(false),
        }
        cov!();
        core::mem::forget(b);
    } else {
        cov!();
    }
    core::mem::forget(a);
}

/// attribute names covering every kind; leading bytes of the payload, how many arbitrary ones
/// follow, and the version
pub const KINDS: [(&str, &[u8], usize, usize); 62] = [
    ("Engine.GameReplicationInfo:GameClass", &[], 5, 0),
    ("TAGame.Ball_Breakout_TA:AppliedDamage", &[], 12, 1),
    ("Engine.Actor:bBlockActors", &[], 1, 2),
    ("Engine.Pawn:RemoteViewPitch", &[], 1, 0),
    ("TAGame.CameraSettingsActor_TA:ProfileSettings", &[], 24, 1),
    ("TAGame.Car_TA:ClubColors", &[], 5, 2),
    ("TAGame.BreakOutActor_Platform_TA:DamageState", &[], 12, 0),
    ("TAGame.Car_TA:ReplicatedDemolish", &[], 12, 1),
    ("TAGame.Car_TA:ReplicatedDemolishExtended", &[], 24, 2),
    ("TAGame.Car_TA:ReplicatedDemolishGoalExplosion", &[], 17, 0),
    ("Engine.Actor:RemoteRole", &[], 2, 1),
    ("TAGame.Ball_TA:ReplicatedExplosionData", &[], 7, 2),
    ("TAGame.Ball_TA:ReplicatedExplosionDataExtended", &[], 11, 0),
    ("TAGame.PRI_TA:SkillTier", &[], 2, 1),
    ("Engine.Actor:DrawScale", &[], 4, 2),
    ("TAGame.GameEvent_TA:GameMode", &[], 1, 0),
    ("TAGame.Car_KnockOut_TA:ReplicatedImpulse", &[], 12, 1),
    ("Engine.Pawn:HealthMax", &[], 4, 2),
    ("TAGame.GameEvent_TA:MatchStartEpoch", &[], 8, 0),
    ("TAGame.PRI_TA:ClientLoadout", &[0x00], 28, 1),
    ("TAGame.PRI_TA:ClientLoadout", &[0x0b], 32, 2),
    ("TAGame.PRI_TA:ClientLoadout", &[0x12], 48, 0),
    ("TAGame.PRI_TA:ClientLoadout", &[0xff], 64, 1),
    ("TAGame.PRI_TA:ClientLoadoutOnline", &[], 6, 2),
    ("TAGame.PRI_TA:ClientLoadoutsOnline", &[], 4, 0),
    ("TAGame.Ball_TA:AirResistance", &[], 4, 1),
    ("TAGame.Team_TA:LogoData", &[], 5, 2),
    ("TAGame.GameEvent_Soccar_TA:ReplicatedMusicStinger", &[], 6, 0),
    ("TAGame.PRI_TA:PartyLeader", &[0x00], 4, 1),
    ("TAGame.PRI_TA:PartyLeader", &[0x01], 9, 2),
    ("TAGame.VehiclePickup_TA:ReplicatedPickupData", &[], 5, 0),
    ("TAGame.RumblePickups_TA:PickupInfo", &[], 18, 1),
    ("TAGame.VehiclePickup_TA:NewReplicatedPickupData", &[], 6, 2),
    ("TAGame.PRI_TA:PlayerHistoryKey", &[], 2, 0),
    ("TAGame.GameEvent_SoccarPrivate_TA:MatchSettings", &[0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00], 5, 1),
    ("ProjectX.GRI_X:GameServerID", &[], 8, 2),
    ("TAGame.PRI_TA:RepStatTitles", &[0, 0, 0, 0], 9, 0),
    ("TAGame.CarComponent_Boost_TA:ReplicatedBoost", &[], 4, 1),
    ("ProjectX.GRI_X:Reservations", &[0x08, 0x00], 14, 2),
    ("ProjectX.GRI_X:Reservations", &[0x00, 0x00], 7, 0),
    ("TAGame.RBActor_TA:ReplicatedRBState", &[], 10, 1),
    ("Engine.Actor:Rotation", &[], 4, 2),
    ("TAGame.GameEvent_Soccar_TA:ReplicatedStatEvent", &[], 5, 0),
    ("Engine.GameReplicationInfo:ServerName", &[], 4, 1),
    ("Engine.GameReplicationInfo:ServerName", &[0x03, 0x00, 0x00, 0x00], 3, 2),
    ("Engine.GameReplicationInfo:ServerName", &[0xfe, 0xff, 0xff, 0xff], 4, 0),
    ("TAGame.PRI_TA:ClientLoadouts", &[0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00], 30, 1),
    ("TAGame.PRI_TA:ClientLoadouts", &[0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x0b], 32, 2),
    ("TAGame.Car_TA:TeamPaint", &[], 11, 0),
    ("TAGame.PRI_TA:PrimaryTitle", &[], 23, 1),
    ("Engine.PlayerReplicationInfo:UniqueId", &[0x00], 4, 2),
    ("Engine.PlayerReplicationInfo:UniqueId", &[0x01], 9, 0),
    ("Engine.PlayerReplicationInfo:UniqueId", &[0x02, 0x4e, 0x61, 0x6d, 0x65, 0x00], 36, 0),
    ("Engine.PlayerReplicationInfo:UniqueId", &[0x02, 0x4e, 0x61, 0x6d, 0x65, 0x00], 28, 1),
    ("Engine.PlayerReplicationInfo:UniqueId", &[0x04], 9, 2),
    ("Engine.PlayerReplicationInfo:UniqueId", &[0x05], 9, 0),
    ("Engine.PlayerReplicationInfo:UniqueId", &[0x06], 33, 1),
    ("Engine.PlayerReplicationInfo:UniqueId", &[0x07], 9, 0),
    ("Engine.PlayerReplicationInfo:UniqueId", &[0x07], 33, 2),
    ("Engine.PlayerReplicationInfo:UniqueId", &[0x0b], 5, 0),
    ("Engine.PlayerReplicationInfo:UniqueId", &[0x0b, 0x03, 0x00, 0x00, 0x00], 4, 1),
    ("TAGame.RBActor_TA:WeldedInfo", &[], 12, 2),
];

/// versions on both sides of most thresholds
pub const VERS: [Ver; 4] = [MODERN, Ver::new(868, 12, 0), Ver::new(868, 24, 8), Ver { major: 0, minor: 0, stored: None }];

// an attribute of every kind made of arbitrary bits: if the frame is complete within n bytes,
// the bytes that follow do not change it
entry!(c09_attr, {
    let u = vp::first(KINDS.len() as u64);
    vp::split(true);
    let (name, pre, size, v) = KINDS[u as usize];
    let ver = VERS[if vp::thorough() { vp::choose(4) as usize } else { v }];
    let mut e = Env::new(ver, name);
    e.shift = if vp::thorough() { vp::choose(2) as u32 * 3 } else { 0 };
    let mut b = e.begin();
    let lens: &[usize] = if vp::thorough() { &[0, 1, 2, 4, 7] } else { &[0, 1] };
    let back = lens[vp::choose(lens.len() as u64) as usize];
    let n = (size + 1).saturating_sub(back);
    for x in pre {
        b.u8(*x);
    }
    for _ in 0..n {
        b.u8(vp::u8_());
    }
    let mut net = b.done();
    let k = net.len();
    let a = parse(&e.file(&net));
    if let Ok(x) = &a {
        let ext: [u8; 9] = vp::bytes();
        net.extend_from_slice(&ext);
        let c = parse(&e.file(&net));
        match &c {
            Ok(y) => same_frames(&x.network_frames, &y.network_frames),
            Err(_) => va!(false),
        }
        cov!();
        core::mem::forget(c);
    } else {
        cov!();
    }
    let _ = k;
    core::mem::forget(a);
});
