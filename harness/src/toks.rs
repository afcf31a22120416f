//! A serde format that is a list of tokens: strict about lengths when writing, free to give or withhold
//! size hints and to fail half way when reading.  (JSON never gives a hint and ignores lengths.)
use serde::de::{self, DeserializeSeed, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Impossible, Serialize};
use std::fmt;

#[derive(Clone, PartialEq, Debug)]
pub enum Tok { Num(u64), Seq(Option<usize>), Map(Option<usize>), End, Fail }

#[derive(Debug)]
pub struct Er(pub String);
impl fmt::Display for Er { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Er {}
impl ser::Error for Er { fn custom<T: fmt::Display>(m: T) -> Self { Er(m.to_string()) } }
impl de::Error for Er { fn custom<T: fmt::Display>(m: T) -> Self { Er(m.to_string()) } }

pub fn write<T: Serialize>(x: &T) -> Result<Vec<Tok>, String> {
    let mut w = W(vec![]);
    x.serialize(&mut w).map_err(|e| e.0)?;
    Ok(w.0)
}

pub struct W(Vec<Tok>);
pub struct Part<'a> { w: &'a mut W, said: Option<usize>, n: usize, key: bool }
impl Part<'_> {
    fn close(self) -> Result<(), Er> {
        if self.key { return Err(Er("a key without a value".into())); }
        if let Some(s) = self.said { if s != self.n { return Err(Er(format!("the announced length is {s}, but {} elements were written", self.n))); } }
        self.w.0.push(Tok::End);
        Ok(())
    }
}
impl ser::SerializeSeq for Part<'_> {
    type Ok = ();
    type Error = Er;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> { self.n += 1; v.serialize(&mut *self.w) }
    fn end(self) -> Result<(), Er> { self.close() }
}
impl ser::SerializeMap for Part<'_> {
    type Ok = ();
    type Error = Er;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Er> {
        if self.key { return Err(Er("a key without a value".into())); }
        self.key = true;
        k.serialize(&mut *self.w)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> {
        if !self.key { return Err(Er("a value without a key".into())); }
        self.key = false;
        self.n += 1;
        v.serialize(&mut *self.w)
    }
    fn end(self) -> Result<(), Er> { self.close() }
}

macro_rules! no { ($($f:ident $t:ty),*) => { $(fn $f(self, _: $t) -> Result<(), Er> { Err(Er(concat!(stringify!($f), " is unexpected").into())) })* } }
macro_rules! num { ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<(), Er> { self.0.push(Tok::Num(v as u64)); Ok(()) })* } }
impl<'a> ser::Serializer for &'a mut W {
    type Ok = ();
    type Error = Er;
    type SerializeSeq = Part<'a>;
    type SerializeTuple = Impossible<(), Er>;
    type SerializeTupleStruct = Impossible<(), Er>;
    type SerializeTupleVariant = Impossible<(), Er>;
    type SerializeMap = Part<'a>;
    type SerializeStruct = Impossible<(), Er>;
    type SerializeStructVariant = Impossible<(), Er>;
    num!(serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);
    no!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8], serialize_unit_struct &'static str);
    fn serialize_none(self) -> Result<(), Er> { Err(Er("none is unexpected".into())) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Er> { Err(Er("some is unexpected".into())) }
    fn serialize_unit(self) -> Result<(), Er> { Err(Er("unit is unexpected".into())) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), Er> { Err(Er("a variant is unexpected".into())) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Er> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Er> { Err(Er("a variant is unexpected".into())) }
    fn serialize_seq(self, len: Option<usize>) -> Result<Part<'a>, Er> { self.0.push(Tok::Seq(len)); Ok(Part { w: self, said: len, n: 0, key: false }) }
    fn serialize_map(self, len: Option<usize>) -> Result<Part<'a>, Er> { self.0.push(Tok::Map(len)); Ok(Part { w: self, said: len, n: 0, key: false }) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Er> { Err(Er("a tuple is unexpected".into())) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Er> { Err(Er("a struct is unexpected".into())) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Er> { Err(Er("a variant is unexpected".into())) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Er> { Err(Er("a struct is unexpected".into())) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Er> { Err(Er("a variant is unexpected".into())) }
}

/// Reads a value; `hint` says how the sizes are announced.
pub fn read<T: de::DeserializeOwned>(toks: &[Tok], hint: u32) -> Result<T, String> {
    let mut r = Rd { t: toks, hint };
    let x = T::deserialize(&mut r).map_err(|e| e.0)?;
    if r.t.is_empty() { Ok(x) } else { Err(format!("{} tokens left over", r.t.len())) }
}

/// Reads a value into an existing one.
pub fn read_into<T: de::DeserializeOwned>(toks: &[Tok], hint: u32, x: &mut T) -> Result<(), String> {
    let mut r = Rd { t: toks, hint };
    T::deserialize_in_place(&mut r, x).map_err(|e| e.0)?;
    if r.t.is_empty() { Ok(()) } else { Err(format!("{} tokens left over", r.t.len())) }
}

pub struct Rd<'a> { t: &'a [Tok], hint: u32 }
struct Acc<'b, 'a> { r: &'b mut Rd<'a>, left: usize }
impl Rd<'_> {
    fn count(&self) -> usize { self.t.iter().take_while(|x| **x != Tok::End).count() }
}
impl Acc<'_, '_> {
    fn hint(&self) -> Option<usize> { match self.r.hint % 6 { 0 => None, 1 => Some(self.left), 2 => Some(self.left / 2), 3 => Some(0), 4 => Some(self.left + 2), _ => Some(usize::MAX) } }
    fn more(&mut self) -> Result<bool, Er> {
        match self.r.t.first() {
            None => Err(Er("end of input".into())),
            Some(Tok::End) => Ok(false),
            Some(Tok::Fail) => { self.r.t = &self.r.t[1..]; Err(Er("planned failure".into())) }
            _ => Ok(true),
        }
    }
}
impl<'de> SeqAccess<'de> for Acc<'_, '_> {
    type Error = Er;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Er> {
        if !self.more()? { return Ok(None); }
        self.left = self.left.saturating_sub(1);
        s.deserialize(&mut *self.r).map(Some)
    }
    fn size_hint(&self) -> Option<usize> { self.hint() }
}
impl<'de> MapAccess<'de> for Acc<'_, '_> {
    type Error = Er;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Er> {
        if !self.more()? { return Ok(None); }
        self.left = self.left.saturating_sub(1);
        s.deserialize(&mut *self.r).map(Some)
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, Er> {
        if !self.more()? { return Err(Er("a key without a value".into())); }
        s.deserialize(&mut *self.r)
    }
    fn size_hint(&self) -> Option<usize> { self.hint() }
}
impl<'de> de::Deserializer<'de> for &mut Rd<'_> {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        let Some(t) = self.t.first().cloned() else { return Err(Er("end of input".into())) };
        self.t = &self.t[1..];
        let n = self.count();
        match t {
            Tok::Num(x) => v.visit_u64(x),
            Tok::Seq(_) | Tok::Map(_) => {
                let left = if matches!(t, Tok::Map(_)) { n / 2 } else { n };
                let mut a = Acc { r: self, left };
                let x = if matches!(t, Tok::Map(_)) { v.visit_map(&mut a)? } else { v.visit_seq(&mut a)? };
                match a.r.t.first() {
                    Some(Tok::End) => { a.r.t = &a.r.t[1..]; Ok(x) }
                    _ => Err(Er("not read to the end".into())),
                }
            }
            Tok::End => Err(Er("unexpected end".into())),
            Tok::Fail => Err(Er("planned failure".into())),
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
