//! Stand-in for serde_yaml: flat `KEY: value` documents (all the repository's config files are flat).
use serde::de::{self, DeserializeOwned, IntoDeserializer, Visitor};
use std::{fmt, io::Read};
#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
impl de::Error for Error { fn custom<T: fmt::Display>(m: T) -> Self { Error(m.to_string()) } }
pub fn from_reader<R: Read, T: DeserializeOwned>(mut r: R) -> Result<T, Error> {
    let mut s = String::new();
    r.read_to_string(&mut s).map_err(|e| Error(e.to_string()))?;
    from_str(&s)
}
pub fn from_str<T: DeserializeOwned>(s: &str) -> Result<T, Error> {
    let mut v = vec![];
    for l in s.lines() {
        let l = l.split(" #").next().unwrap().trim();
        if l.is_empty() || l.starts_with('#') { continue }
        let (k, x) = l.split_once(':').ok_or_else(|| Error(format!("bad line {l}")))?;
        v.push((k.trim().to_string(), Scalar(x.trim().to_string())));
    }
    T::deserialize(Doc(v))
}
struct Doc(Vec<(String, Scalar)>);
impl<'de> de::Deserializer<'de> for Doc {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { v.visit_map(de::value::MapDeserializer::new(self.0.into_iter())) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
#[derive(Clone)]
struct Scalar(String);
impl<'de> IntoDeserializer<'de, Error> for Scalar { type Deserializer = Scalar; fn into_deserializer(self) -> Scalar { self } }
impl<'de> de::Deserializer<'de> for Scalar {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let s = self.0;
        if let Some(q) = s.strip_prefix('\'').and_then(|x| x.strip_suffix('\'')).or_else(|| s.strip_prefix('"').and_then(|x| x.strip_suffix('"'))) { return v.visit_str(q) }
        if let Ok(n) = s.parse::<u64>() { return v.visit_u64(n) }
        if s == "true" || s == "false" { return v.visit_bool(s == "true") }
        v.visit_str(&s)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { v.visit_some(self) }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _n: &'static str, v: V) -> Result<V::Value, Error> { v.visit_newtype_struct(self) }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { let s = self.0; v.visit_str(s.trim_matches(|c| c == '\'' || c == '"')) }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.deserialize_str(v) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char bytes byte_buf unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
