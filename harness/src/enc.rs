//! Independent reference encoder of the replay format: bytes, bits, header, body, frames.
//! Nothing here uses the crate under test except its result types.
use crate::vp;
use boxcars::{NetworkParse, CrcCheck, ParseError, ParserBuilder, Replay};

/// byte writer
#[derive(Clone, Default)]
pub struct W {
    pub b: Vec<u8>,
}

impl W {
    pub fn new() -> W {
        W { b: Vec::with_capacity(512) }
    }
    pub fn u8(&mut self, v: u8) -> &mut W {
        self.b.push(v);
        self
    }
    pub fn i32(&mut self, v: i32) -> &mut W {
        self.b.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u32(&mut self, v: u32) -> &mut W {
        self.b.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u64(&mut self, v: u64) -> &mut W {
        self.b.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn raw(&mut self, v: &[u8]) -> &mut W {
        self.b.extend_from_slice(v);
        self
    }
    /// single-byte text with its terminator; the length counts the terminator
    pub fn text(&mut self, s: &[u8]) -> &mut W {
        self.i32(s.len() as i32 + 1);
        self.raw(s);
        self.u8(0)
    }
    pub fn str(&mut self, s: &str) -> &mut W {
        self.text(s.as_bytes())
    }
    /// UTF-16LE text with its terminator; the length is negative
    pub fn utf16(&mut self, s: &[u16]) -> &mut W {
        self.i32(-(s.len() as i32 + 1));
        for c in s {
            self.raw(&c.to_le_bytes());
        }
        self.u8(0).u8(0)
    }
    pub fn prop(&mut self, key: &str, kind: &str, size: u32, ignored: u32) -> &mut W {
        self.str(key).str(kind).u32(size).u32(ignored)
    }
    pub fn int(&mut self, key: &str, v: i32) -> &mut W {
        self.prop(key, "IntProperty", 4, 0).i32(v)
    }
    pub fn name(&mut self, key: &str, v: &str) -> &mut W {
        self.prop(key, "NameProperty", v.len() as u32 + 5, 0).str(v)
    }
    pub fn strp(&mut self, key: &str, v: &str) -> &mut W {
        self.prop(key, "StrProperty", v.len() as u32 + 5, 0).str(v)
    }
}

/// bit writer, least significant bit first
#[derive(Clone, Default)]
pub struct Bits {
    pub b: Vec<u8>,
    acc: u64,
    n: u32,
    pub total: u32,
}

impl Bits {
    pub fn new() -> Bits {
        Bits { b: Vec::with_capacity(512), acc: 0, n: 0, total: 0 }
    }
    pub fn put(&mut self, v: u64, w: u32) -> &mut Bits {
        let (mut v, mut w) = (v, w);
        self.total += w;
        while w > 0 {
            let k = core::cmp::min(8 - self.n, w);
            self.acc |= (v & (0xffu64 >> (8 - k))) << self.n;
            self.n += k;
            w -= k;
            v >>= k;
            if self.n == 8 {
                self.b.push(self.acc as u8);
                self.acc = 0;
                self.n = 0;
            }
        }
        self
    }
    pub fn bit(&mut self, v: bool) -> &mut Bits {
        self.put(v as u64, 1)
    }
    pub fn u8(&mut self, v: u8) -> &mut Bits {
        self.put(v as u64, 8)
    }
    pub fn u32(&mut self, v: u32) -> &mut Bits {
        self.put(v as u64, 32)
    }
    pub fn i32(&mut self, v: i32) -> &mut Bits {
        self.put(v as u32 as u64, 32)
    }
    pub fn u64(&mut self, v: u64) -> &mut Bits {
        self.put(v, 64)
    }
    pub fn bytes(&mut self, v: &[u8]) -> &mut Bits {
        for x in v {
            self.u8(*x);
        }
        self
    }
    pub fn f32(&mut self, v: f32) -> &mut Bits {
        self.u32(v.to_bits())
    }
    /// value below `max`: the low bits first, one more bit only when the value could still exceed them
    pub fn bounded(&mut self, v: u64, max: u64) -> &mut Bits {
        let bits = width(max).saturating_sub(1);
        let low = v & ((1u64 << bits) - 1);
        self.put(low, bits);
        if low + (1 << bits) < max {
            self.put(v >> bits, 1);
        }
        self
    }
    /// text with an explicit length word
    pub fn text(&mut self, s: &[u8]) -> &mut Bits {
        self.i32(s.len() as i32 + 1).bytes(s).u8(0)
    }
    pub fn utf16(&mut self, s: &[u16]) -> &mut Bits {
        self.i32(-(s.len() as i32 + 1));
        for c in s {
            self.put(*c as u64, 16);
        }
        self.put(0, 16)
    }
    /// complete the last byte with zero bits
    pub fn done(&self) -> Vec<u8> {
        let mut b = self.b.clone();
        if self.n > 0 {
            b.push(self.acc as u8);
        }
        b
    }
    pub fn used(&self) -> u32 {
        self.n
    }
}

pub fn width(v: u64) -> u32 {
    64 - v.leading_zeros()
}

/// version numbers of a replay; `net` is what the decoder must assume when none is stored
#[derive(Clone, Copy)]
pub struct Ver {
    pub major: i32,
    pub minor: i32,
    pub stored: Option<i32>,
}

impl Ver {
    pub const fn new(major: i32, minor: i32, net: i32) -> Ver {
        Ver { major, minor, stored: if major > 865 && minor > 17 { Some(net) } else { None } }
    }
    /// every version: three symbolic words, on the two sides of the rule that decides whether the
    /// network version is stored
    pub fn any() -> Ver {
        let (major, minor) = (vp::i32_(), vp::i32_());
        let has = (major > 865) & (minor > 17);
        if vp::choose(2) == 1 {
            vp::assume(has);
            Ver { major, minor, stored: Some(vp::i32_()) }
        } else {
            vp::assume(!has & !((major == 0) & (minor == 0)));
            Ver { major, minor, stored: None }
        }
    }
    pub fn net(&self) -> i32 {
        self.stored.unwrap_or(0)
    }
    /// lexicographic comparison with a threshold
    pub fn ge(&self, a: i32, b: i32, c: i32) -> bool {
        let n = self.net();
        (self.major > a) | ((self.major == a) & ((self.minor > b) | ((self.minor == b) & (n >= c))))
    }
}

pub const MODERN: Ver = Ver::new(868, 32, 10);

pub fn header_start(w: &mut W, v: Ver) {
    w.i32(v.major).i32(v.minor);
    if let Some(n) = v.stored {
        w.i32(n);
    }
    w.str("TAGame.Replay_Soccar_TA");
}

/// prefix a section with its size and checksum word
pub fn section(out: &mut W, data: &[u8], crc: u32) {
    out.i32(data.len() as i32).u32(crc).raw(data);
}

pub fn file(header: &[u8], body: &[u8]) -> Vec<u8> {
    let mut w = W { b: Vec::with_capacity(header.len() + body.len() + 64) };
    section(&mut w, header, 0);
    section(&mut w, body, 0);
    w.b
}

/// one class of the network cache: object index and (attribute object index, stream id) pairs
pub type Cache<'a> = &'a [(i32, &'a [(i32, i32)])];

/// a body whose lists are empty except objects and network cache
pub fn net_body(net: &[u8], objects: &[&str], cache: Cache) -> Vec<u8> {
    let mut w = W { b: Vec::with_capacity(1024 + net.len()) };
    w.i32(0).i32(0);
    w.i32(net.len() as i32).raw(net);
    w.i32(0).i32(0).i32(0);
    w.i32(objects.len() as i32);
    for o in objects {
        w.str(o);
    }
    w.i32(0).i32(0);
    w.i32(cache.len() as i32);
    for (i, (obj, props)) in cache.iter().enumerate() {
        w.i32(*obj).i32(0).i32(i as i32).i32(props.len() as i32);
        for (o, s) in props.iter() {
            w.i32(*o).i32(*s);
        }
    }
    w.b
}

#[inline(never)]
pub fn parse(data: &[u8]) -> Result<Replay, ParseError> {
    ParserBuilder::new(data).never_check_crc().must_parse_network_data().parse()
}

#[inline(never)]
pub fn parse_with(data: &[u8], crc: CrcCheck, net: NetworkParse) -> Result<Replay, ParseError> {
    ParserBuilder::new(data).with_crc_check(crc).with_network_parse(net).parse()
}

/// values reduced to comparable words
pub trait V {
    fn v(&self) -> u64;
}
macro_rules! vimpl {
    ($($t:ty),*) => { $(impl V for $t { #[inline(always)] fn v(&self) -> u64 { *self as u64 } })* };
}
vimpl!(u8, u16, u32, u64, i32, i64, i8, usize, bool);
impl V for f32 {
    #[inline(always)]
    fn v(&self) -> u64 {
        self.to_bits() as u64
    }
}
impl V for boxcars::ActorId {
    #[inline(always)]
    fn v(&self) -> u64 {
        self.0 as u64
    }
}
impl V for boxcars::ObjectId {
    #[inline(always)]
    fn v(&self) -> u64 {
        self.0 as u64
    }
}
impl V for boxcars::StreamId {
    #[inline(always)]
    fn v(&self) -> u64 {
        self.0 as u64
    }
}
impl<T: V> V for Option<T> {
    /// absent and present values never collide for types of at most 32 bits
    #[inline(always)]
    fn v(&self) -> u64 {
        match self {
            None => 1 << 63,
            Some(x) => x.v() & 0xffff_ffff,
        }
    }
}

/// compare a decoded value with the encoded one and record it for the native cross-check
#[macro_export]
macro_rules! ve {
    ($a:expr, $b:expr) => {{
        use $crate::enc::V;
        let (a, b) = ($a.v(), $b.v());
        $crate::vp::trace_u64(a);
        $crate::va!(a == b);
    }};
}

/// compare decoded bytes (a string) with expected ones
#[macro_export]
macro_rules! vbytes {
    ($a:expr, $b:expr) => {{
        let (a, b): (&[u8], &[u8]) = ($a, $b);
        $crate::va!(a.len() == b.len());
        $crate::vp::trace(a);
        $crate::va!($crate::enc::same(a, b));
    }};
}

/// branch-free comparison
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
