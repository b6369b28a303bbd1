//! C20: typed accessors and id conversions.
use crate::tree::ascii;
use crate::*;
use boxcars::*;
const M: u32 = 20;

fn st(n: usize) -> String {
    unsafe { String::from_utf8_unchecked(ascii(n)) }
}
/// a property of kind k with any content
fn prop(k: u64) -> HeaderProp {
    match k {
        0 => HeaderProp::Array(vec![]),
        1 => HeaderProp::Array(vec![vec![(st(1), HeaderProp::Int(vp::i32_()))], vec![], vec![(st(2), HeaderProp::Bool(true)), (st(2), HeaderProp::Str(st(1)))]]),
        2 => HeaderProp::Bool(vp::u8_() & 1 == 1),
        3 => HeaderProp::Byte { kind: st(2), value: Some(st(3)) },
        4 => HeaderProp::Byte { kind: st(3), value: None },
        5 => HeaderProp::Float(f32::from_bits(vp::u32_())),
        6 => HeaderProp::Int(vp::i32_()),
        7 => HeaderProp::Name(st(vp::choose(4) as usize)),
        8 => HeaderProp::QWord(vp::u64_()),
        9 => HeaderProp::Str(st(vp::choose(4) as usize)),
        10 => HeaderProp::Struct { name: st(2), fields: vec![] },
        _ => HeaderProp::Struct { name: st(2), fields: vec![(st(1), HeaderProp::Int(vp::i32_())), (st(1), HeaderProp::Array(vec![]))] },
    }
}

// every accessor on every kind
entry!(c20_accessors, {
    let k = vp::first(12);
    let p = prop(k);
    let a = p.as_array();
    va!(a.is_some() == (k < 2));
    if let (Some(a), HeaderProp::Array(b)) = (a, &p) {
        va!(a.len() == b.len());
        va!(core::ptr::eq(a, b));
    }
    let b = p.as_bool();
    va!(b.is_some() == (k == 2));
    if let (Some(a), HeaderProp::Bool(b)) = (b, &p) {
        ve!(a, *b);
    }
    va!(p.is_byte() == ((k == 3) | (k == 4)));
    let f = p.as_float();
    va!(f.is_some() == (k == 5));
    if let (Some(a), HeaderProp::Float(b)) = (f, &p) {
        ve!(a.to_bits(), b.to_bits());
    }
    let i = p.as_i32();
    va!(i.is_some() == (k == 6));
    if let (Some(a), HeaderProp::Int(b)) = (i, &p) {
        ve!(a, *b);
    }
    let q = p.as_u64();
    va!(q.is_some() == (k == 8));
    if let (Some(a), HeaderProp::QWord(b)) = (q, &p) {
        ve!(a, *b);
    }
    let s = p.as_string();
    va!(s.is_some() == ((k == 7) | (k == 9)));
    if let (Some(a), HeaderProp::Name(b) | HeaderProp::Str(b)) = (s, &p) {
        vbytes!(a.as_bytes(), b.as_bytes());
    }
    cov!();
    core::mem::forget(p);
});

// comparing and cloning properties
entry!(c20_equality, {
    let k = vp::first(12);
    let p = prop(k);
    if k != 5 {
        let q = p.clone();
        va!(p == q);
        core::mem::forget(q);
    }
    let q = prop([6, 2, 8, 5, 7, 9, 4][vp::choose(7) as usize]);
    match (&p, &q) {
        (HeaderProp::Int(a), HeaderProp::Int(b)) => va!((p == q) == (a == b)),
        (HeaderProp::Bool(a), HeaderProp::Bool(b)) => va!((p == q) == (a == b)),
        (HeaderProp::QWord(a), HeaderProp::QWord(b)) => va!((p == q) == (a == b)),
        (HeaderProp::Float(a), HeaderProp::Float(b)) => va!((p == q) == (a == b)),
        (HeaderProp::Name(a), HeaderProp::Name(b)) | (HeaderProp::Str(a), HeaderProp::Str(b)) => {
            va!((p == q) == same_str(a, b))
        }
        (HeaderProp::Byte { .. }, HeaderProp::Byte { .. }) => {}
        _ => va!(p != q),
    }
    cov!();
    core::mem::forget((p, q));
});
fn same_str(a: &str, b: &str) -> bool {
    crate::enc::same(a.as_bytes(), b.as_bytes())
}

// ids keep their number in conversions and comparisons
entry!(c20_ids, {
    let _ = vp::first(1);
    let (a, b) = (vp::i32_(), vp::i32_());
    macro_rules! one {
        ($t:ident) => {
            let (x, y) = ($t(a), $t(b));
            let i: i32 = x.into();
            ve!(i, a);
            let u: usize = x.into();
            // a non-negative id is the same number as an index; a negative one is never a small index
            va!((a < 0) | (u == a as usize));
            va!((a >= 0) | (u > i32::MAX as usize));
            va!((x == y) == (a == b));
            va!((x < y) == (a < b));
            va!((x <= y) == (a <= b));
            va!((x > y) == (a > b));
            va!(x.cmp(&y) == a.cmp(&b));
            va!(x.partial_cmp(&y) == Some(a.cmp(&b)));
            let z = x;
            ve!(z.0, a);
        };
    }
    one!(ActorId);
    one!(ObjectId);
    one!(StreamId);
    va!(ObjectId::default().0 == 0);
    cov!();
});

// the displayed form is the decimal number
entry!(c20_display, {
    let k = vp::first(3);
    const EDGES: [i32; 9] = [0, -1, 1023, 65536, 16777217, i32::MAX, i32::MIN, -1000000, 99999];
    let j = vp::choose(10) as usize;
    let v = if j < 9 {
        EDGES[j]
    } else {
        let n = (vp::u8_() & 127) as i32;
        if vp::choose(2) == 1 {
            -n
        } else {
            n
        }
    };
    let s = match k {
        0 => ActorId(v).to_string(),
        1 => ObjectId(v).to_string(),
        _ => StreamId(v).to_string(),
    };
    let mut d = Vec::new();
    let mut m = v.unsigned_abs();
    loop {
        d.push(b'0' + (m % 10) as u8);
        m /= 10;
        if m == 0 {
            break;
        }
    }
    if v < 0 {
        d.push(b'-');
    }
    d.reverse();
    vbytes!(s.as_bytes(), &d);
    cov!();
});

struct Acc(Vec<u8>);
impl std::hash::Hasher for Acc {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
// equal ids hash alike
entry!(c20_hash, {
    use std::hash::Hash;
    let _ = vp::first(1);
    let (a, b) = (vp::i32_(), vp::i32_());
    macro_rules! one {
        ($t:ident) => {
            let (mut p, mut q) = (Acc(Vec::new()), Acc(Vec::new()));
            $t(a).hash(&mut p);
            $t(b).hash(&mut q);
            va!(crate::enc::same(&p.0, &q.0) | (a != b));
        };
    }
    one!(ActorId);
    one!(ObjectId);
    one!(StreamId);
    cov!();
});
