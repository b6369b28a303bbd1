//! A self-describing data format held in memory: a serde serializer into a tree and a
//! deserializer from it, in several styles that real formats have.
use crate::*;
use serde::de::{self, DeserializeOwned, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use serde::{Deserializer, Serializer};
const M: u32 = 93;

#[derive(Clone, Debug)]
pub enum Val {
    Unit,
    Bool(bool),
    U(u64),
    I(i64),
    F32(u32),
    F64(u64),
    Str(Vec<u8>),
    Seq(Vec<Val>),
    Map(Vec<(Val, Val)>),
}

/// how the format represents things
#[derive(Clone, Copy)]
pub struct Style {
    pub human: bool,
    /// structs as sequences and variants as numbers
    pub compact: bool,
    /// 32-bit floats widened
    pub wide: bool,
    /// integers are non-negative and lose their signedness
    pub unsigned: bool,
    /// 0 transient, 1 owned, 2 borrowed strings
    pub strings: u8,
}
pub const JSON: Style = Style { human: true, compact: false, wide: true, unsigned: true, strings: 0 };
pub const TREE: Style = Style { human: true, compact: false, wide: false, unsigned: false, strings: 1 };
pub const BINARY: Style = Style { human: false, compact: false, wide: false, unsigned: true, strings: 2 };
pub const PACKED: Style = Style { human: false, compact: true, wide: false, unsigned: false, strings: 1 };
pub const STYLES: [Style; 4] = [JSON, TREE, BINARY, PACKED];

#[derive(Debug)]
pub struct E;
impl std::fmt::Display for E {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> E {
        E
    }
}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> E {
        E
    }
}

pub fn s(x: &str) -> Val {
    Val::Str(x.as_bytes().to_vec())
}

/// leaf by leaf comparison
pub fn same_val(a: &Val, b: &Val) {
    match (a, b) {
        (Val::Unit, Val::Unit) => {}
        (Val::Bool(x), Val::Bool(y)) => ve!(*x, *y),
        (Val::U(x), Val::U(y)) => ve!(*x, *y),
        (Val::I(x), Val::I(y)) => ve!(*x, *y),
        (Val::F32(x), Val::F32(y)) => ve!(*x, *y),
        (Val::F64(x), Val::F64(y)) => ve!(*x, *y),
        (Val::Str(x), Val::Str(y)) => vbytes!(x, y),
        (Val::Seq(x), Val::Seq(y)) => {
            va!(x.len() == y.len());
            if x.len() == y.len() {
                for i in 0..x.len() {
                    same_val(&x[i], &y[i]);
                }
            }
        }
        (Val::Map(x), Val::Map(y)) => {
            va!(x.len() == y.len());
            if x.len() == y.len() {
                for i in 0..x.len() {
                    same_val(&x[i].0, &y[i].0);
                    same_val(&x[i].1, &y[i].1);
                }
            }
        }
        _ => va!(false),
    }
}

pub fn to_val<T: Serialize + ?Sized>(x: &T, st: Style) -> Val {
    match x.serialize(Ser(st)) {
        Ok(v) => v,
        Err(_) => {
            va!(false);
            Val::Unit
        }
    }
}
pub fn from_val<T: DeserializeOwned>(v: &Val, st: Style) -> Option<T> {
    T::deserialize(De(v, st)).ok()
}

#[derive(Clone, Copy)]
struct Ser(Style);

pub struct Comp {
    st: Style,
    want: Option<usize>,
    variant: Option<Val>,
    seq: Vec<Val>,
    map: Vec<(Val, Val)>,
    is_map: bool,
}

impl Comp {
    fn new(st: Style, want: Option<usize>, variant: Option<Val>, is_map: bool) -> Result<Comp, E> {
        Ok(Comp { st, want, variant, seq: Vec::new(), map: Vec::new(), is_map })
    }
    fn fin(self) -> Result<Val, E> {
        let n = if self.is_map { self.map.len() } else { self.seq.len() };
        // formats that write the length first depend on the announced one
        if let Some(w) = self.want {
            va!(w == n);
        }
        let v = if self.is_map { Val::Map(self.map) } else { Val::Seq(self.seq) };
        Ok(match self.variant {
            Some(t) => Val::Map(vec![(t, v)]),
            None => v,
        })
    }
    fn field<T: Serialize + ?Sized>(&mut self, key: &'static str, v: &T) -> Result<(), E> {
        let v = v.serialize(Ser(self.st))?;
        if self.is_map {
            self.map.push((s(key), v));
        } else {
            self.seq.push(v);
        }
        Ok(())
    }
    fn elem<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.seq.push(v.serialize(Ser(self.st))?);
        Ok(())
    }
}

impl Ser {
    fn int(self, v: i64) -> Result<Val, E> {
        if self.0.unsigned {
            // the other sign is covered by the styles that keep signedness
            vp::assume(v >= 0);
            return Ok(Val::U(v as u64));
        }
        Ok(Val::I(v))
    }
    fn tag(self, i: u32, name: &'static str) -> Val {
        if self.0.compact {
            Val::U(i as u64)
        } else {
            s(name)
        }
    }
}

impl Serializer for Ser {
    type Ok = Val;
    type Error = E;
    type SerializeSeq = Comp;
    type SerializeTuple = Comp;
    type SerializeTupleStruct = Comp;
    type SerializeTupleVariant = Comp;
    type SerializeMap = Comp;
    type SerializeStruct = Comp;
    type SerializeStructVariant = Comp;

    fn is_human_readable(&self) -> bool {
        self.0.human
    }
    fn serialize_bool(self, v: bool) -> Result<Val, E> {
        Ok(Val::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<Val, E> {
        self.int(v as i64)
    }
    fn serialize_i16(self, v: i16) -> Result<Val, E> {
        self.int(v as i64)
    }
    fn serialize_i32(self, v: i32) -> Result<Val, E> {
        self.int(v as i64)
    }
    fn serialize_i64(self, v: i64) -> Result<Val, E> {
        self.int(v)
    }
    fn serialize_u8(self, v: u8) -> Result<Val, E> {
        Ok(Val::U(v as u64))
    }
    fn serialize_u16(self, v: u16) -> Result<Val, E> {
        Ok(Val::U(v as u64))
    }
    fn serialize_u32(self, v: u32) -> Result<Val, E> {
        Ok(Val::U(v as u64))
    }
    fn serialize_u64(self, v: u64) -> Result<Val, E> {
        Ok(Val::U(v))
    }
    fn serialize_f32(self, v: f32) -> Result<Val, E> {
        Ok(if self.0.wide { Val::F64((v as f64).to_bits()) } else { Val::F32(v.to_bits()) })
    }
    fn serialize_f64(self, v: f64) -> Result<Val, E> {
        Ok(Val::F64(v.to_bits()))
    }
    fn serialize_char(self, _: char) -> Result<Val, E> {
        Err(E)
    }
    fn serialize_str(self, v: &str) -> Result<Val, E> {
        Ok(s(v))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Val, E> {
        Ok(Val::Seq(v.iter().map(|b| Val::U(*b as u64)).collect()))
    }
    fn serialize_none(self) -> Result<Val, E> {
        Ok(Val::Unit)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Val, E> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<Val, E> {
        Ok(Val::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Val, E> {
        Ok(Val::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, v: &'static str) -> Result<Val, E> {
        Ok(self.tag(i, v))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Val, E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, n: &'static str, v: &T) -> Result<Val, E> {
        let x = v.serialize(self)?;
        Ok(Val::Map(vec![(self.tag(i, n), x)]))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Comp, E> {
        Comp::new(self.0, n, None, false)
    }
    fn serialize_tuple(self, n: usize) -> Result<Comp, E> {
        Comp::new(self.0, Some(n), None, false)
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Comp, E> {
        Comp::new(self.0, Some(n), None, false)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, v: &'static str, n: usize) -> Result<Comp, E> {
        Comp::new(self.0, Some(n), Some(self.tag(i, v)), false)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Comp, E> {
        Comp::new(self.0, n, None, true)
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Comp, E> {
        Comp::new(self.0, Some(n), None, !self.0.compact)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, v: &'static str, n: usize) -> Result<Comp, E> {
        Comp::new(self.0, Some(n), Some(self.tag(i, v)), !self.0.compact)
    }
}

impl ser::SerializeSeq for Comp {
    type Ok = Val;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.elem(v)
    }
    fn end(self) -> Result<Val, E> {
        self.fin()
    }
}
impl ser::SerializeTuple for Comp {
    type Ok = Val;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.elem(v)
    }
    fn end(self) -> Result<Val, E> {
        self.fin()
    }
}
impl ser::SerializeTupleStruct for Comp {
    type Ok = Val;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.elem(v)
    }
    fn end(self) -> Result<Val, E> {
        self.fin()
    }
}
impl ser::SerializeTupleVariant for Comp {
    type Ok = Val;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.elem(v)
    }
    fn end(self) -> Result<Val, E> {
        self.fin()
    }
}
impl ser::SerializeMap for Comp {
    type Ok = Val;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), E> {
        let k = k.serialize(Ser(self.st))?;
        self.map.push((k, Val::Unit));
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        let v = v.serialize(Ser(self.st))?;
        match self.map.last_mut() {
            Some(x) => x.1 = v,
            None => return Err(E),
        }
        Ok(())
    }
    fn end(self) -> Result<Val, E> {
        self.fin()
    }
}
impl ser::SerializeStruct for Comp {
    type Ok = Val;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        self.field(k, v)
    }
    fn end(self) -> Result<Val, E> {
        self.fin()
    }
}
impl ser::SerializeStructVariant for Comp {
    type Ok = Val;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        self.field(k, v)
    }
    fn end(self) -> Result<Val, E> {
        self.fin()
    }
}

#[derive(Clone, Copy)]
struct De<'a>(&'a Val, Style);

struct SeqDe<'a>(std::slice::Iter<'a, Val>, Style);
impl<'de> SeqAccess<'de> for SeqDe<'de> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        match self.0.next() {
            None => Ok(None),
            Some(v) => seed.deserialize(De(v, self.1)).map(Some),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.0.len())
    }
}
struct MapDe<'a>(std::slice::Iter<'a, (Val, Val)>, Option<&'a Val>, Style);
impl<'de> MapAccess<'de> for MapDe<'de> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        match self.0.next() {
            None => Ok(None),
            Some((k, v)) => {
                self.1 = Some(v);
                seed.deserialize(De(k, self.2)).map(Some)
            }
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, E> {
        match self.1.take() {
            Some(v) => seed.deserialize(De(v, self.2)),
            None => Err(E),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.0.len())
    }
}
struct EnumDe<'a>(&'a Val, Option<&'a Val>, Style);
impl<'de> EnumAccess<'de> for EnumDe<'de> {
    type Error = E;
    type Variant = EnumDe<'de>;
    fn variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<(T::Value, EnumDe<'de>), E> {
        let v = match self.0 {
            Val::U(i) => seed.deserialize((*i as u32).into_deserializer())?,
            t => seed.deserialize(De(t, self.2))?,
        };
        Ok((v, self))
    }
}
impl<'de> VariantAccess<'de> for EnumDe<'de> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        match self.1 {
            None => Ok(()),
            Some(_) => Err(E),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, E> {
        match self.1 {
            Some(v) => seed.deserialize(De(v, self.2)),
            None => Err(E),
        }
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, vis: V) -> Result<V::Value, E> {
        match self.1 {
            Some(v) => De(v, self.2).deserialize_any(vis),
            None => Err(E),
        }
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], vis: V) -> Result<V::Value, E> {
        match self.1 {
            Some(v) => De(v, self.2).deserialize_any(vis),
            None => Err(E),
        }
    }
}

impl<'de> Deserializer<'de> for De<'de> {
    type Error = E;
    fn is_human_readable(&self) -> bool {
        self.1.human
    }
    fn deserialize_any<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, E> {
        match self.0 {
            Val::Unit => vis.visit_unit(),
            Val::Bool(b) => vis.visit_bool(*b),
            Val::U(v) => vis.visit_u64(*v),
            Val::I(v) => vis.visit_i64(*v),
            Val::F32(v) => vis.visit_f32(f32::from_bits(*v)),
            Val::F64(v) => vis.visit_f64(f64::from_bits(*v)),
            Val::Str(b) => {
                let x: &'de str = unsafe { std::str::from_utf8_unchecked(b) };
                match self.1.strings {
                    0 => vis.visit_str(&String::from(x)),
                    1 => vis.visit_string(String::from(x)),
                    _ => vis.visit_borrowed_str(x),
                }
            }
            Val::Seq(l) => {
                let mut d = SeqDe(l.iter(), self.1);
                let r = vis.visit_seq(&mut d)?;
                if d.0.len() == 0 {
                    Ok(r)
                } else {
                    Err(E)
                }
            }
            Val::Map(l) => {
                let mut d = MapDe(l.iter(), None, self.1);
                let r = vis.visit_map(&mut d)?;
                if d.0.len() == 0 {
                    Ok(r)
                } else {
                    Err(E)
                }
            }
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, E> {
        match self.0 {
            Val::Unit => vis.visit_none(),
            _ => vis.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, vis: V) -> Result<V::Value, E> {
        vis.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], vis: V) -> Result<V::Value, E> {
        match self.0 {
            Val::Str(_) | Val::U(_) => vis.visit_enum(EnumDe(self.0, None, self.1)),
            Val::Map(l) if l.len() == 1 => vis.visit_enum(EnumDe(&l[0].0, Some(&l[0].1), self.1)),
            _ => Err(E),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
        unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
    }
}
