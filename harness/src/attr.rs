//! Shared scaffolding for attribute properties: a replay with one actor whose object carries the
//! attribute under test (stream id 0) and an integer marker (stream id 1) that follows it, at a
//! chosen bit alignment, with or without data behind the frame.
use crate::enc::*;
use crate::*;
use boxcars::{Attribute, ParseError, Replay};

pub const OBJ: &str = "TAGame.PRI_TA";
pub const MARK: &str = "Engine.Pawn:HealthMax";

/// one attribute kind: symbolic fields, their encoding, and the expected decoded value
#[macro_export]
macro_rules! attr {
    ($name:ident, $obj:expr, |$ver:ident| [$($v:ident = $init:expr),*], |$b:ident| $enc:expr, $pat:pat => $chk:block) => {
        $crate::entry!($name, {
            let _ = $crate::vp::first(1);
            let $ver = $crate::enc::Ver::any();
            $(let $v = $init;)*
            $crate::attr::Env::new($ver, $obj).anywhere().run(|$b| { $enc; }, |x| match x {
                $pat => { $chk; cov!(); }
                _ => va!(false),
            });
        });
    };
}

pub struct Env<'a> {
    pub ver: Ver,
    pub attr: &'a str,
    pub extra: Vec<&'a str>,
    pub lan: bool,
    pub build: Option<&'a str>,
    /// number of leading five-bit records
    pub shift: u32,
    /// bytes following the frame
    pub tail: usize,
    pub marker: i32,
}

impl<'a> Env<'a> {
    pub fn new(ver: Ver, attr: &'a str) -> Env<'a> {
        Env { ver, attr, extra: Vec::new(), lan: false, build: None, shift: 0, tail: 0, marker: 0 }
    }
    /// every bit alignment, with the end of data right behind the frame or far away
    pub fn anywhere(mut self) -> Self {
        let k = vp::choose(16);
        self.shift = (k & 7) as u32;
        self.tail = if k >= 8 { 24 } else { 0 };
        self.marker = vp::i32_();
        self
    }
    pub fn header(&self, frames: i32) -> Vec<u8> {
        let mut w = W::new();
        header_start(&mut w, self.ver);
        w.int("NumFrames", frames);
        w.int("MaxChannels", 8);
        if self.lan {
            w.name("MatchType", "Lan");
        }
        if let Some(b) = self.build {
            w.strp("BuildVersion", b);
        }
        w.str("None");
        w.b
    }
    /// the frame up to and including the stream id of the attribute under test
    pub fn begin(&self) -> Bits {
        let mut b = Bits::new();
        b.f32(1.0).f32(0.5);
        for _ in 0..self.shift {
            // a deletion: present, actor 2, not alive
            b.bit(true).bounded(2, 8).bit(false);
        }
        // spawn actor 1 with object 0
        b.bit(true).bounded(1, 8).bit(true).bit(true);
        if self.ver.ge(868, 20, 0) | (self.ver.ge(868, 14, 0) & !self.lan) {
            b.i32(7);
        }
        b.bit(false).i32(0);
        // update it
        b.bit(true).bounded(1, 8).bit(true).bit(false);
        b.bit(true).bounded(0, 3);
        b
    }
    /// marker, end of properties, end of actors
    pub fn end(&self, b: &mut Bits) -> Vec<u8> {
        b.bit(true).bounded(1, 3).i32(self.marker);
        b.bit(false).bit(false);
        let mut v = b.done();
        for i in 0..self.tail {
            v.push(0xA5 ^ i as u8);
        }
        v
    }
    pub fn file(&self, net: &[u8]) -> Vec<u8> {
        let mut objects = vec![OBJ, self.attr, MARK];
        objects.extend_from_slice(&self.extra);
        let body = net_body(net, &objects, &[(0, &[(1, 0), (2, 1), (2, 2)])]);
        file(&self.header(1), &body)
    }
    /// encode, parse, and hand the decoded attribute to the check
    pub fn run<E: FnOnce(&mut Bits), C: FnOnce(&Attribute)>(&self, enc: E, check: C) {
        const M: u32 = 90;
        let mut b = self.begin();
        enc(&mut b);
        let net = self.end(&mut b);
        let data = self.file(&net);
        let r = parse(&data);
        va!(r.is_ok());
        if let Ok(r) = &r {
            self.judge(r, check);
        }
        core::mem::forget(r);
    }
    pub fn judge<C: FnOnce(&Attribute)>(&self, r: &Replay, check: C) {
        const M: u32 = 90;
        let Some(n) = &r.network_frames else {
            va!(false);
            return;
        };
        va!(n.frames.len() == 1);
        let f = &n.frames[0];
        va!(f.updated_actors.len() == 2);
        if f.updated_actors.len() != 2 {
            return;
        }
        va!(f.new_actors.len() == 1);
        va!(f.deleted_actors.len() == self.shift as usize);
        let (a, m) = (&f.updated_actors[0], &f.updated_actors[1]);
        ve!(a.actor_id, 1);
        ve!(a.stream_id, 0);
        ve!(a.object_id, 1);
        check(&a.attribute);
        // the marker behind it decodes: exactly the attribute's bits were consumed
        ve!(m.stream_id, 1);
        ve!(m.object_id, 2);
        match m.attribute {
            Attribute::Int(x) => ve!(x, self.marker),
            _ => va!(false),
        }
    }
    /// the frame cut after `n` bytes
    pub fn run_cut<E: FnOnce(&mut Bits)>(&self, enc: E, keep: impl FnOnce(usize) -> usize) -> Option<Result<Replay, ParseError>> {
        let mut b = self.begin();
        enc(&mut b);
        let net = self.end(&mut b);
        let k = keep(net.len());
        Some(parse(&self.file(&net[..k])))
    }
}
