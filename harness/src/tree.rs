//! Header property trees: reference encoding and comparison.
use crate::enc::*;
use crate::*;
use boxcars::*;
const M: u32 = 92;

#[derive(Clone)]
pub enum P {
    /// one byte (standard) or four (all-zero version)
    Bool([u8; 4]),
    Byte(Vec<u8>, Vec<u8>),
    /// byte property of type "None": consumed and omitted
    ByteNone(u8),
    Int(i32),
    QWord(u64),
    Float(u32),
    Name(Vec<u8>),
    Str(Vec<u8>),
    Struct(Vec<u8>, Vec<F>),
    Array(Vec<Vec<F>>),
}

/// a property: key, value, declared size and the four bytes after it
#[derive(Clone)]
pub struct F {
    pub key: Vec<u8>,
    pub p: P,
    pub size: u32,
    pub ign: u32,
}

pub fn f(key: &[u8], p: P) -> F {
    F { key: key.to_vec(), p, size: 4, ign: 0 }
}
/// declared size and ignored bytes symbolic
pub fn fs(key: &[u8], p: P) -> F {
    F { key: key.to_vec(), p, size: vp::u32_(), ign: vp::u32_() }
}

pub fn kind(p: &P) -> &'static str {
    match p {
        P::Bool(_) => "BoolProperty",
        P::Byte(..) | P::ByteNone(_) => "ByteProperty",
        P::Int(_) => "IntProperty",
        P::QWord(_) => "QWordProperty",
        P::Float(_) => "FloatProperty",
        P::Name(_) => "NameProperty",
        P::Str(_) => "StrProperty",
        P::Struct(..) => "StructProperty",
        P::Array(_) => "ArrayProperty",
    }
}

pub fn enc(w: &mut W, l: &[F], quirks: bool) {
    for x in l {
        w.text(&x.key).str(kind(&x.p)).u32(x.size).u32(x.ign);
        match &x.p {
            P::Bool(b) => {
                w.raw(&b[..if quirks { 4 } else { 1 }]);
            }
            P::Byte(k, v) => {
                w.text(k);
                if !quirks {
                    w.text(v);
                }
            }
            P::ByteNone(b) => {
                w.str("None").u8(*b);
            }
            P::Int(v) => {
                w.i32(*v);
            }
            P::QWord(v) => {
                w.u64(*v);
            }
            P::Float(v) => {
                w.u32(*v);
            }
            P::Name(s) | P::Str(s) => {
                w.text(s);
            }
            P::Struct(n, l) => {
                w.text(n);
                enc(w, l, quirks);
            }
            P::Array(a) => {
                w.i32(a.len() as i32);
                for l in a {
                    enc(w, l, quirks);
                }
            }
        }
    }
    w.str("None");
}

pub fn check(l: &[F], got: &[(String, HeaderProp)], quirks: bool) {
    let mut i = 0;
    for x in l {
        if let P::ByteNone(_) = x.p {
            if !quirks {
                continue;
            }
        }
        va!(i < got.len());
        vbytes!(got[i].0.as_bytes(), &x.key);
        one(&x.p, &got[i].1, quirks);
        i += 1;
    }
    va!(i == got.len());
}

fn one(p: &P, g: &HeaderProp, quirks: bool) {
    match (p, g) {
        (P::Bool(b), HeaderProp::Bool(v)) => ve!(*v, b[0] == 1),
        (P::Byte(k, v), HeaderProp::Byte { kind, value }) => {
            vbytes!(kind.as_bytes(), k);
            va!(value.is_some() != quirks);
            if let Some(x) = value {
                vbytes!(x.as_bytes(), v);
            }
        }
        (P::Int(a), HeaderProp::Int(b)) => ve!(*b, *a),
        (P::QWord(a), HeaderProp::QWord(b)) => ve!(*b, *a),
        (P::Float(a), HeaderProp::Float(b)) => ve!(b.to_bits(), *a),
        (P::Name(a), HeaderProp::Name(b)) => vbytes!(b.as_bytes(), a),
        (P::Str(a), HeaderProp::Str(b)) => vbytes!(b.as_bytes(), a),
        (P::Struct(n, l), HeaderProp::Struct { name, fields }) => {
            vbytes!(name.as_bytes(), n);
            check(l, fields, quirks);
        }
        (P::Array(a), HeaderProp::Array(b)) => {
            va!(a.len() == b.len());
            for i in 0..a.len() {
                check(&a[i], &b[i], quirks);
            }
        }
        _ => va!(false),
    }
}

/// n symbolic ASCII bytes
pub fn ascii(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    for x in v.iter_mut() {
        *x = vp::u8_() & 0x7f;
    }
    v
}
