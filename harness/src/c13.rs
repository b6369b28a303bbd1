//! C13: unique ids, party leaders, reservations, strings.
use crate::attr::*;
use crate::enc::*;
use crate::parts::*;
use crate::*;
use boxcars::*;
const M: u32 = 13;

/// 1..=127
fn ascii() -> u8 {
    (vp::u8_() & 0x7e) + 1
}

/// a text attribute value: bytes of a single-byte string, or UTF-16 units
#[derive(Clone)]
pub enum Txt {
    /// a zero length word
    Nothing,
    Narrow(Vec<u8>),
    /// Windows-1252 with a fixed upper-half character
    Upper(u8),
    Wide(Vec<u16>),
}
impl Txt {
    pub const KINDS: u64 = 6;
    pub fn sym(k: u64) -> Txt {
        match k {
            0 => Txt::Nothing,
            1 => Txt::Narrow(vec![]),
            2 => Txt::Narrow(vec![ascii(), ascii(), ascii()]),
            3 => Txt::Upper(ascii()),
            4 => Txt::Wide(vec![ascii() as u16, ascii() as u16]),
            _ => Txt::Narrow((0..23).map(|_| ascii()).collect()),
        }
    }
    pub fn some() -> Txt {
        Txt::sym(vp::choose(Self::KINDS))
    }
    pub fn enc(&self, b: &mut Bits) {
        match self {
            Txt::Nothing => {
                b.i32(0);
            }
            Txt::Narrow(v) => {
                b.text(v);
            }
            Txt::Upper(x) => {
                b.text(&[*x, 0x80, 0xff]);
            }
            Txt::Wide(v) => {
                b.utf16(v);
            }
        }
    }
    pub fn check(&self, s: &str) {
        match self {
            Txt::Nothing => va!(s.is_empty()),
            Txt::Narrow(v) => vbytes!(s.as_bytes(), &v[..]),
            Txt::Upper(x) => vbytes!(s.as_bytes(), &[*x, 0xe2, 0x82, 0xac, 0xc3, 0xbf][..]),
            Txt::Wide(v) => {
                let e: Vec<u8> = v.iter().map(|x| *x as u8).collect();
                vbytes!(s.as_bytes(), &e[..]);
            }
        }
    }
}

#[derive(Clone)]
pub struct Uid {
    pub sys: u8,
    pub num: u64,
    pub blob: [u8; 24],
    pub name: [u8; 16],
    pub nlen: usize,
    pub txt: Txt,
    pub local: u8,
}

pub const SYSTEMS: [u8; 8] = [0, 1, 2, 4, 5, 6, 7, 11];

impl Uid {
    pub fn sym(sys: u8) -> Uid {
        let nlen = if sys == 2 { [0, 1, 7, 16][vp::choose(4) as usize] } else { 0 };
        let mut name: [u8; 16] = vp::bytes();
        for (i, c) in name.iter_mut().enumerate() {
            if i < nlen {
                *c = (*c & 0x7e) + 1;
            } else if i == nlen {
                *c = 0;
            }
        }
        Uid { sys, num: vp::u64_(), blob: vp::bytes(), name, nlen, txt: if sys == 11 { Txt::some() } else { Txt::Nothing }, local: vp::u8_() }
    }
    /// everything but the platform byte
    pub fn enc_rest(&self, b: &mut Bits, net: i32) {
        match self.sys {
            0 => {
                b.put(self.num & 0xff_ffff, 24);
            }
            1 | 4 | 5 => {
                b.u64(self.num);
            }
            2 => {
                b.bytes(&self.name);
                if net >= 1 {
                    b.bytes(&self.blob[..16]);
                } else {
                    b.bytes(&self.blob[..8]);
                }
                b.u64(self.num);
            }
            6 => {
                b.u64(self.num).bytes(&self.blob);
            }
            7 => {
                b.u64(self.num);
                if net < 10 {
                    b.bytes(&self.blob);
                }
            }
            11 => self.txt.enc(b),
            _ => {}
        }
        b.u8(self.local);
    }
    pub fn enc(&self, b: &mut Bits, net: i32) {
        b.u8(self.sys);
        self.enc_rest(b, net);
    }
    pub fn check(&self, x: &UniqueId, net: i32) {
        ve!(x.system_id, self.sys);
        ve!(x.local_id, self.local);
        match (self.sys, &x.remote_id) {
            (0, RemoteId::SplitScreen(n)) => ve!(*n, (self.num & 0xff_ffff) as u32),
            (1, RemoteId::Steam(n)) => ve!(*n, self.num),
            (4, RemoteId::Xbox(n)) => ve!(*n, self.num),
            (5, RemoteId::QQ(n)) => ve!(*n, self.num),
            (2, RemoteId::PlayStation(p)) => {
                ve!(p.online_id, self.num);
                vbytes!(p.name.as_bytes(), &self.name[..self.nlen]);
                let n = if net >= 1 { 16 } else { 8 };
                vbytes!(&p.unknown1[..], &self.blob[..n]);
            }
            (6, RemoteId::Switch(p)) => {
                ve!(p.online_id, self.num);
                vbytes!(&p.unknown1[..], &self.blob[..]);
            }
            (7, RemoteId::PsyNet(p)) => {
                ve!(p.online_id, self.num);
                if net < 10 {
                    vbytes!(&p.unknown1[..], &self.blob[..]);
                } else {
                    va!(p.unknown1.is_empty());
                }
            }
            (11, RemoteId::Epic(s)) => self.txt.check(s),
            _ => va!(false),
        }
    }
}

const UNIQUE: &str = "Engine.PlayerReplicationInfo:UniqueId";

entry!(c13_unique_id, {
    let sys = SYSTEMS[vp::first(8) as usize];
    let v = Ver::any();
    let u = Uid::sym(sys);
    Env::new(v, UNIQUE).anywhere().run(
        |b| u.enc(b, v.net()),
        |x| match x {
            Attribute::UniqueId(x) => {
                u.check(x, v.net());
                cov!();
            }
            _ => va!(false),
        },
    );
});

/// a platform that does not exist is an error that carries it
fn unknown(attr: &str) {
    let v = Ver::any();
    let sys = vp::u8_();
    let mut k = sys == 3;
    k |= (sys > 7) & (sys != 11);
    vp::assume(k);
    let e = Env::new(v, attr).anywhere();
    let mut b = e.begin();
    b.u8(sys);
    for _ in 0..4 {
        b.u64(vp::u64_());
    }
    let net = e.end(&mut b);
    let r = parse(&e.file(&net));
    match &r {
        Err(ParseError::NetworkError(n)) => match &**n {
            NetworkError::FrameError(FrameError::AttributeError { actor, actor_object, attribute_stream, error }, _) => {
                ve!(*actor, 1);
                ve!(*actor_object, 0);
                ve!(*attribute_stream, 0);
                match error {
                    AttributeError::UnrecognizedRemoteId(x) => {
                        ve!(*x, sys);
                        cov!();
                    }
                    _ => va!(false),
                }
            }
            _ => va!(false),
        },
        _ => va!(false),
    }
    core::mem::forget(r);
}
entry!(c13_unknown_system, {
    if vp::first(2) == 0 {
        unknown(UNIQUE);
    } else {
        unknown("TAGame.PRI_TA:PartyLeader");
    }
});

entry!(c13_party_leader, {
    let sys = SYSTEMS[vp::first(8) as usize];
    let v = Ver::any();
    let u = Uid::sym(sys);
    Env::new(v, "TAGame.PRI_TA:PartyLeader").anywhere().run(
        |b| {
            b.u8(sys);
            if sys != 0 {
                u.enc_rest(b, v.net());
            }
        },
        |x| match x {
            Attribute::PartyLeader(None) => {
                va!(sys == 0);
                cov!();
            }
            Attribute::PartyLeader(Some(x)) => {
                va!(sys != 0);
                u.check(x, v.net());
                cov!();
            }
            _ => va!(false),
        },
    );
});

entry!(c13_reservation, {
    let sys = SYSTEMS[vp::first(8) as usize];
    let v = Ver::any();
    let num = vp::bits(3);
    let u = Uid::sym(sys);
    // a split-screen id of zero has no name; any other has a NUL terminated one
    let zero = sys == 0 && vp::choose(2) == 0;
    if sys == 0 {
        vp::assume((u.num & 0xff_ffff == 0) == zero);
    }
    let name = if sys == 0 { Txt::sym([1, 2, 5][vp::choose(3) as usize]) } else { Txt::sym([0, 2, 3, 4][vp::choose(4) as usize]) };
    let (f, g, t) = (flag(), flag(), vp::bits(6));
    Env::new(v, "ProjectX.GRI_X:Reservations").anywhere().run(
        |b| {
            b.put(num, 3);
            u.enc(b, v.net());
            if sys != 0 {
                name.enc(b);
            } else if !zero {
                if let Txt::Narrow(n) = &name {
                    b.bytes(n).u8(0);
                }
            }
            b.bit(f).bit(g);
            if v.ge(868, 12, 0) {
                b.put(t, 6);
            }
        },
        |x| match x {
            Attribute::Reservation(x) => {
                ve!(x.number, num as u32);
                u.check(&x.unique_id, v.net());
                va!(x.name.is_some() == !zero);
                if let Some(n) = &x.name {
                    name.check(n);
                    cov!();
                }
                ve!(x.unknown1, f);
                ve!(x.unknown2, g);
                match x.unknown3 {
                    Some(y) => {
                        va!(v.ge(868, 12, 0));
                        ve!(y, t as u8);
                    }
                    None => va!(!v.ge(868, 12, 0)),
                }
                cov!();
            }
            _ => va!(false),
        },
    );
});

// the NUL terminated name of a split-screen reservation: Latin-1 up to 255 bytes of text
entry!(c13_reservation_long, {
    let n = [253usize, 254, 255, 256][vp::first(4) as usize];
    let c = ascii();
    let upper = vp::choose(2) == 1;
    let e = Env::new(MODERN, "ProjectX.GRI_X:Reservations").anywhere();
    let t = vp::bits(6);
    e.run(
        |b| {
            b.put(5, 3).u8(0).put(77, 24).u8(3);
            // the text ends with its terminator, or as soon as it has 255 bytes
            let mut len = 0;
            for i in 0..n {
                if len < 255 {
                    let x = if i == 0 { c } else if upper && i == 1 { 0xe9 } else { b'a' };
                    b.u8(x);
                    len += if x >= 0x80 { 2 } else { 1 };
                }
            }
            if len < 255 {
                b.u8(0);
            }
            b.bit(true).bit(false).put(t, 6);
        },
        |x| match x {
            Attribute::Reservation(x) => {
                ve!(x.number, 5u32);
                ve!(x.unique_id.local_id, 3u8);
                match &x.name {
                    Some(s) => {
                        let s = s.as_bytes();
                        let want = core::cmp::min(if upper { n + 1 } else { n }, 255);
                        va!(s.len() == want);
                        ve!(s[0], c);
                        va!(if upper { s[1] == 0xc3 && s[2] == 0xa9 } else { s[1] == b'a' });
                        va!(s[s.len() - 1] == b'a');
                        cov!();
                    }
                    None => va!(false),
                }
                ve!(x.unknown1, true);
                ve!(x.unknown2, false);
                match x.unknown3 {
                    Some(y) => ve!(y, t as u8),
                    None => va!(false),
                }
            }
            _ => va!(false),
        },
    );
});

attr!(c13_string, "Engine.PlayerReplicationInfo:PlayerName", |v| [t = Txt::some()], |b| t.enc(b), Attribute::String(x) => { t.check(x) });
attr!(c13_private_match, "TAGame.GameEvent_SoccarPrivate_TA:MatchSettings",
    |v| [m = Txt::sym(vp::choose(3)), j = vp::u32_(), p = vp::u32_(), g = Txt::sym(2 + vp::choose(3)), w = Txt::sym(vp::choose(2) * 2), f = flag()],
    |b| { m.enc(b); b.u32(j).u32(p); g.enc(b); w.enc(b); b.bit(f) },
    Attribute::PrivateMatch(x) => { m.check(&x.mutators); ve!(x.joinable_by, j); ve!(x.max_players, p); g.check(&x.game_name); w.check(&x.password); ve!(x.flag, f) });

// long names and ids, one character of them arbitrary
entry!(c13_long, {
    let k = vp::first(10);
    let n = [8usize, 15, 16, 17, 24, 31, 32, 33, 64, 65, 127, 128, 200, 255, 256, 300][vp::choose(16) as usize];
    let i = [0, n / 2, n - 1][vp::choose(3) as usize];
    let sort = vp::choose(3);
    let t = if sort == 0 {
        let mut v: Vec<u8> = (0..n).map(|i| b'0' + (i % 10) as u8).collect();
        v[i] = ascii();
        Txt::Narrow(v)
    } else {
        let mut v: Vec<u16> = (0..n).map(|i| b'0' as u16 + (i % 10) as u16).collect();
        v[i] = ascii() as u16;
        Txt::Wide(v)
    };
    if sort == 2 {
        // old: the same names under versions that lay out less
        vp::assume(k < 3);
    }
    let v = if sort == 2 { Ver::new(868, 11, 0) } else { MODERN };
    let local = vp::u8_();
    let uid = || Uid { sys: 11, num: 0, blob: [0; 24], name: [0; 16], nlen: 0, txt: t.clone(), local };
    let mut e = Env::new(
        v,
        match k {
            0 => UNIQUE,
            1 => "TAGame.PRI_TA:PartyLeader",
            2 | 3 | 4 => "ProjectX.GRI_X:Reservations",
            5 | 6 | 7 => "TAGame.GameEvent_SoccarPrivate_TA:MatchSettings",
            8 => "Engine.PlayerReplicationInfo:PlayerName",
            _ => "ProjectX.GRI_X:GameServerID",
        },
    );
    if k == 9 {
        e.build = Some("230101.1.1");
    }
    e.shift = vp::choose(2) as u32 * 5;
    e.marker = vp::i32_();
    let num = vp::u64_();
    let other = Txt::Narrow(vec![b'p'; 3]);
    e.run(
        |b| match k {
            0 | 1 => uid().enc(b, v.net()),
            2 | 3 | 4 => {
                b.put(5, 3);
                if k == 2 {
                    uid().enc(b, v.net());
                    other.enc(b);
                } else {
                    b.u8(1).u64(num).u8(local);
                    t.enc(b);
                }
                b.bit(true).bit(false);
                if v.ge(868, 12, 0) {
                    b.put(33, 6);
                }
            }
            5 | 6 | 7 => {
                for j in 0..5 {
                    let x = if j == [0, 3, 4][k as usize - 5] { &t } else { &other };
                    match j {
                        1 | 2 => {
                            b.u32(num as u32);
                        }
                        _ => x.enc(b),
                    }
                }
                b.bit(true);
            }
            _ => t.enc(b),
        },
        |x| {
            match x {
                Attribute::UniqueId(x) if k == 0 => uid().check(x, v.net()),
                Attribute::PartyLeader(Some(x)) if k == 1 => uid().check(x, v.net()),
                Attribute::Reservation(x) if k >= 2 && k < 5 => {
                    va!(x.number == 5 && x.unknown1 && !x.unknown2);
                    if k == 2 {
                        uid().check(&x.unique_id, v.net());
                    } else {
                        match x.unique_id.remote_id {
                            RemoteId::Steam(y) => ve!(y, num),
                            _ => va!(false),
                        }
                    }
                    match &x.name {
                        Some(s) => (if k == 2 { &other } else { &t }).check(s),
                        None => va!(false),
                    }
                    va!(x.unknown3 == if v.ge(868, 12, 0) { Some(33) } else { None });
                }
                Attribute::PrivateMatch(x) if k >= 5 && k < 8 => {
                    (if k == 5 { &t } else { &other }).check(&x.mutators);
                    (if k == 6 { &t } else { &other }).check(&x.game_name);
                    (if k == 7 { &t } else { &other }).check(&x.password);
                    ve!(x.joinable_by, num as u32);
                    ve!(x.max_players, num as u32);
                    va!(x.flag);
                }
                Attribute::String(x) if k >= 8 => t.check(x),
                _ => va!(false),
            }
            cov!();
        },
    );
});

// the server id is a 64-bit number before build 221120.42953.406184 and a text from then on
entry!(c13_qword_string, {
    let builds = [None, Some("221120.42953.406184"), Some("221120.42953.406183"), Some("221120.42953.406185"), Some("221121.1"), Some("200101.50000.1"), Some(""), Some("221120.42953.4061840")];
    let k = vp::first(8) as usize;
    let text = matches!(k, 1 | 3 | 4 | 7);
    let v = Ver::any();
    let t = if text { Txt::some() } else { Txt::Nothing };
    let q = vp::u64_();
    let mut e = Env::new(v, "ProjectX.GRI_X:GameServerID").anywhere();
    e.build = builds[k];
    e.run(
        |b| {
            if text {
                t.enc(b);
            } else {
                b.u64(q);
            }
        },
        |x| match x {
            Attribute::String(s) => {
                va!(text);
                t.check(s);
                cov!();
            }
            Attribute::QWord(x) => {
                va!(!text);
                ve!(*x, q);
                cov!();
            }
            _ => va!(false),
        },
    );
});

// one arbitrary character at each position of the build version, which is cut there or goes on
entry!(c13_build, {
    const B: &[u8; 19] = b"221120.42953.406184";
    let u = vp::first(20) as usize;
    let text = vp::choose(2) == 1;
    let cut = vp::choose(3);
    let c = vp::u8_() & 0x7f;
    let mut b = B.to_vec();
    if u == 19 {
        // one more character
        vp::assume(text);
        b.push(c);
    } else {
        b[u] = c;
        if cut == 1 {
            b.truncate(u + 1);
        } else if cut == 2 {
            b.truncate(u + 1);
            b.extend_from_slice(b"999999.9");
        }
        let same = match cut {
            0 => true,
            1 => u == 18,
            // what follows the position is compared then
            _ => b"999999.9"[..] >= B[u + 1..],
        };
        vp::assume(text == ((c > B[u]) | ((c == B[u]) & same)));
    }
    let e = {
        let mut e = Env::new(MODERN, "ProjectX.GRI_X:GameServerID");
        e.shift = vp::choose(2) as u32 * 3;
        e.tail = 24;
        e.build = Some(Box::leak(unsafe { String::from_utf8_unchecked(b) }.into_boxed_str()));
        e
    };
    let q = vp::u64_();
    e.run(
        |b| {
            if text {
                Txt::Narrow(vec![b'p', vp::u8_() & 0x7f]).enc(b);
            } else {
                b.u64(q);
            }
        },
        |x| match x {
            Attribute::String(s) => {
                va!(text);
                va!(s.len() == 2);
                cov!();
            }
            Attribute::QWord(x) => {
                va!(!text);
                ve!(*x, q);
                cov!();
            }
            _ => va!(false),
        },
    );
});
