//! A minimal self-describing binary serde format (integers arrive as the width the data has, structs
//! as sequences or as maps in either field order), as CBOR or MessagePack present them.
use serde::de::{self, DeserializeSeed, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Clone, Debug)]
pub enum Tok {
    I(i64),
    U(u64),
    F(f64),
    Bool(bool),
    Unit,
    Str(&'static str),
    Seq(Vec<Tok>),
    Map(Vec<(String, Tok)>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Layout {
    Seq,
    Map,
    MapReversed,
}

#[derive(Debug)]
pub struct E(#[allow(dead_code)] String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl de::Error for E {
    fn custom<T: fmt::Display>(t: T) -> E {
        E(t.to_string())
    }
}
impl ser::Error for E {
    fn custom<T: fmt::Display>(t: T) -> E {
        E(t.to_string())
    }
}

struct Ser {
    lay: Layout,
    unsigned: bool,
}

struct StructSer {
    lay: Layout,
    unsigned: bool,
    f: Vec<(String, Tok)>,
}

macro_rules! no {
    ($($f:ident($($t:ty),*);)*) => { $(fn $f(self $(, _: $t)*) -> Result<Tok, E> { Err(E(stringify!($f).into())) })* };
}

impl ser::Serializer for Ser {
    type Ok = Tok;
    type Error = E;
    type SerializeSeq = ser::Impossible<Tok, E>;
    type SerializeTuple = ser::Impossible<Tok, E>;
    type SerializeTupleStruct = ser::Impossible<Tok, E>;
    type SerializeTupleVariant = ser::Impossible<Tok, E>;
    type SerializeMap = ser::Impossible<Tok, E>;
    type SerializeStruct = StructSer;
    type SerializeStructVariant = ser::Impossible<Tok, E>;
    fn is_human_readable(&self) -> bool {
        false
    }
    fn serialize_i32(self, v: i32) -> Result<Tok, E> {
        self.serialize_i64(v as i64)
    }
    fn serialize_i64(self, v: i64) -> Result<Tok, E> {
        Ok(if self.unsigned && v >= 0 { Tok::U(v as u64) } else { Tok::I(v) })
    }
    no! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64);
        serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none(); serialize_unit();
        serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str);
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Tok, E> {
        Err(E("some".into()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Tok, E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Tok, E> {
        Err(E("variant".into()))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> {
        Err(E("seq".into()))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> {
        Err(E("tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
        Err(E("tuple".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> {
        Err(E("variant".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> {
        Err(E("map".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<StructSer, E> {
        Ok(StructSer { lay: self.lay, unsigned: self.unsigned, f: vec![] })
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> {
        Err(E("variant".into()))
    }
}

impl ser::SerializeStruct for StructSer {
    type Ok = Tok;
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        let t = v.serialize(Ser { lay: self.lay, unsigned: self.unsigned })?;
        self.f.push((k.to_string(), t));
        Ok(())
    }
    fn end(mut self) -> Result<Tok, E> {
        Ok(match self.lay {
            Layout::Seq => Tok::Seq(self.f.into_iter().map(|x| x.1).collect()),
            Layout::Map => Tok::Map(self.f),
            Layout::MapReversed => {
                self.f.reverse();
                Tok::Map(self.f)
            }
        })
    }
}

struct De(Tok);

struct SeqDe(std::vec::IntoIter<Tok>);
impl<'de> SeqAccess<'de> for SeqDe {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        self.0.next().map(|t| seed.deserialize(De(t))).transpose()
    }
}
struct MapDe(std::vec::IntoIter<(String, Tok)>, Option<Tok>);
impl<'de> MapAccess<'de> for MapDe {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, E> {
        match self.0.next() {
            None => Ok(None),
            Some((k, v)) => {
                self.1 = Some(v);
                seed.deserialize(k.into_deserializer()).map(Some)
            }
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, E> {
        seed.deserialize(De(self.1.take().ok_or_else(|| E("value before key".into()))?))
    }
}

impl<'de> de::Deserializer<'de> for De {
    type Error = E;
    fn is_human_readable(&self) -> bool {
        false
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            Tok::I(x) => v.visit_i64(x),
            Tok::U(x) => v.visit_u64(x),
            Tok::F(x) => v.visit_f64(x),
            Tok::Bool(x) => v.visit_bool(x),
            Tok::Unit => v.visit_unit(),
            Tok::Str(x) => v.visit_borrowed_str(x),
            Tok::Seq(x) => v.visit_seq(SeqDe(x.into_iter())),
            Tok::Map(x) => v.visit_map(MapDe(x.into_iter(), None)),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

pub fn to_tok<T: Serialize>(v: &T, lay: Layout, unsigned: bool) -> Result<Tok, E> {
    v.serialize(Ser { lay, unsigned })
}
pub fn from_tok<T: de::DeserializeOwned>(t: Tok) -> Result<T, E> {
    T::deserialize(De(t))
}
pub fn from_map<T: de::DeserializeOwned>(keys: &[&str], vals: &[i64], wrong: Option<usize>) -> Result<T, E> {
    from_tok(Tok::Map(
        keys.iter()
            .zip(vals)
            .enumerate()
            .map(|(i, (k, v))| (k.to_string(), if wrong == Some(i) { Tok::Str("x") } else { Tok::I(*v) }))
            .collect(),
    ))
}
pub fn from_seq<T: de::DeserializeOwned>(vals: &[i64]) -> Result<T, E> {
    from_tok(Tok::Seq(vals.iter().map(|v| Tok::I(*v)).collect()))
}
