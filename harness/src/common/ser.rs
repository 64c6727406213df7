//! Serialization helpers: declared length, duplicate-preserving JSON reading.
use serde::de::{Deserialize, Deserializer, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::ser::{Impossible, Serialize, SerializeMap, SerializeSeq, Serializer};
use std::fmt;

#[derive(Debug)]
pub struct Probed(Option<usize>);
impl fmt::Display for Probed {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self.0) }
}
impl std::error::Error for Probed {}
impl serde::ser::Error for Probed {
    fn custom<T: fmt::Display>(_: T) -> Self { Probed(None) }
}
pub struct Probe;
pub struct Never;
impl SerializeMap for Never {
    type Ok = ();
    type Error = Probed;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), Probed> { Ok(()) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), Probed> { Ok(()) }
    fn end(self) -> Result<(), Probed> { Ok(()) }
}
impl SerializeSeq for Never {
    type Ok = ();
    type Error = Probed;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), Probed> { Ok(()) }
    fn end(self) -> Result<(), Probed> { Ok(()) }
}
macro_rules! no {
    ($($f:ident($($t:ty),*)),*) => { $(fn $f(self $(, _: $t)*) -> Result<(), Probed> { Err(Probed(None)) })* };
}
impl Serializer for Probe {
    type Ok = ();
    type Error = Probed;
    type SerializeSeq = Never;
    type SerializeMap = Never;
    type SerializeTuple = Impossible<(), Probed>;
    type SerializeTupleStruct = Impossible<(), Probed>;
    type SerializeTupleVariant = Impossible<(), Probed>;
    type SerializeStruct = Impossible<(), Probed>;
    type SerializeStructVariant = Impossible<(), Probed>;
    no!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64),
        serialize_u8(u8), serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32), serialize_f64(f64),
        serialize_char(char), serialize_str(&str), serialize_bytes(&[u8]), serialize_none(), serialize_unit(),
        serialize_unit_struct(&'static str), serialize_unit_variant(&'static str, u32, &'static str));
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Probed> { Err(Probed(None)) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<(), Probed> { Err(Probed(None)) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Probed> { Err(Probed(None)) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Never, Probed> { Err(Probed(n)) }
    fn serialize_map(self, n: Option<usize>) -> Result<Never, Probed> { Err(Probed(n)) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Probed> { Err(Probed(None)) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTuple, Probed> { Err(Probed(None)) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTuple, Probed> { Err(Probed(None)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTuple, Probed> { Err(Probed(None)) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTuple, Probed> { Err(Probed(None)) }
}
/// The length a value announces to a serializer.
pub fn declared_len<T: Serialize>(x: &T) -> Option<usize> {
    match x.serialize(Probe) {
        Err(Probed(n)) => n,
        Ok(()) => None,
    }
}

/// A collection written in one of the formats: text, or binary ones that do (CBOR) or do not
/// (bincode) describe themselves.
pub enum Enc {
    Json(String),
    Bin(Vec<u8>),
    Cbor(Vec<u8>),
}
impl Enc {
    pub fn of<T: Serialize>(fmt: &str, x: &T) -> Result<Self, String> {
        Ok(match fmt {
            "json" => Enc::Json(serde_json::to_string(x).map_err(|e| e.to_string())?),
            "bin" => Enc::Bin(bincode::serialize(x).map_err(|e| e.to_string())?),
            "cbor" => {
                let mut v = Vec::new();
                ciborium::into_writer(x, &mut v).map_err(|e| e.to_string())?;
                Enc::Cbor(v)
            }
            _ => panic!("harness: format {fmt}"),
        })
    }
    pub fn read<T: serde::de::DeserializeOwned>(&self) -> Result<T, String> {
        match self {
            Enc::Json(t) => serde_json::from_str(t).map_err(|e| e.to_string()),
            Enc::Bin(b) => bincode::deserialize(b).map_err(|e| e.to_string()),
            Enc::Cbor(b) => ciborium::from_reader(&b[..]).map_err(|e| e.to_string()),
        }
    }
    /// without its last n bytes; -1: claiming to be as long as can be
    pub fn damaged(self, n: i64) -> Self {
        let cut = |mut b: Vec<u8>| {
            if n < 0 {
                b[..8].fill(0xff);
            } else {
                b.truncate(b.len().saturating_sub(n as usize));
            }
            b
        };
        match self {
            Enc::Json(_) => panic!("harness: text is not cut"),
            Enc::Bin(b) => Enc::Bin(cut(b)),
            Enc::Cbor(b) => Enc::Cbor(cut(b)),
        }
    }
}
/// Pairs written as a map is.
pub struct Pairs<K>(pub Vec<(K, i64)>);
impl<K: Serialize> Serialize for Pairs<K> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Some(self.0.len()))?;
        for (k, v) in &self.0 {
            m.serialize_entry(k, v)?;
        }
        m.end()
    }
}

/// JSON map or sequence with every entry, duplicates included.
#[derive(Debug)]
pub enum Doc {
    Map(Vec<(String, i64)>),
    Seq(Vec<String>),
}
struct V;
impl<'de> Visitor<'de> for V {
    type Value = Doc;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("map or sequence") }
    fn visit_map<M: MapAccess<'de>>(self, mut m: M) -> Result<Doc, M::Error> {
        let mut v = Vec::new();
        while let Some(k) = m.next_key::<String>()? {
            v.push((k, m.next_value::<i64>()?));
        }
        Ok(Doc::Map(v))
    }
    fn visit_seq<S: SeqAccess<'de>>(self, mut s: S) -> Result<Doc, S::Error> {
        let mut v = Vec::new();
        while let Some(x) = s.next_element::<serde_json::Value>()? {
            v.push(match x {
                serde_json::Value::String(s) => s,
                o => o.to_string(),
            });
        }
        Ok(Doc::Seq(v))
    }
}
impl<'de> Deserialize<'de> for Doc {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { d.deserialize_any(V) }
}

/// A map/sequence access that announces a length of its own choosing.
pub struct Claim<I> {
    pub it: I,
    pub n: Option<usize>,
}
type E = serde::de::value::Error;
impl<'de, I: Iterator<Item = (serde_json::Value, serde_json::Value)>> Deserializer<'de> for Claim<std::iter::Peekable<I>> {
    type Error = E;
    fn deserialize_any<W: Visitor<'de>>(self, v: W) -> Result<W::Value, E> { v.visit_map(self) }
    fn deserialize_seq<W: Visitor<'de>>(self, v: W) -> Result<W::Value, E> { v.visit_seq(self) }
    serde::forward_to_deserialize_any! {bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct tuple tuple_struct map struct enum identifier ignored_any}
}
fn err(e: impl fmt::Display) -> E { <E as serde::de::Error>::custom(e) }
impl<'de, I: Iterator<Item = (serde_json::Value, serde_json::Value)>> MapAccess<'de> for Claim<std::iter::Peekable<I>> {
    type Error = E;
    fn next_key_seed<S: serde::de::DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, E> {
        match self.it.peek() {
            None => Ok(None),
            Some((k, _)) => s.deserialize(k.clone()).map(Some).map_err(err),
        }
    }
    fn next_value_seed<S: serde::de::DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, E> {
        let (_, v) = self.it.next().unwrap();
        s.deserialize(v).map_err(err)
    }
    fn size_hint(&self) -> Option<usize> { self.n }
}
impl<'de, I: Iterator<Item = (serde_json::Value, serde_json::Value)>> SeqAccess<'de> for Claim<std::iter::Peekable<I>> {
    type Error = E;
    fn next_element_seed<S: serde::de::DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, E> {
        match self.it.next() {
            None => Ok(None),
            Some((k, _)) => s.deserialize(k).map(Some).map_err(err),
        }
    }
    fn size_hint(&self) -> Option<usize> { self.n }
}
#[allow(unused)]
fn _unused(_: IgnoredAny) {}
