//! Type-check stand-in for the little of serde_yaml_ng that the tree's debugging aids use.
use std::io;
#[derive(Debug)] pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl std::error::Error for Error {}
impl serde::ser::Error for Error { fn custom<T: std::fmt::Display>(_m: T) -> Self { Error } }
impl serde::de::Error for Error { fn custom<T: std::fmt::Display>(_m: T) -> Self { Error } }
pub struct Serializer<W>(#[allow(dead_code)] W);
impl<W: io::Write> Serializer<W> { pub fn new(w: W) -> Self { Serializer(w) } pub fn into_inner(self) -> Result<W, Error> { Ok(self.0) } }
pub fn to_string<T: ?Sized + serde::Serialize>(_t: &T) -> Result<String, Error> { loop {} }
pub fn from_str<'a, T: serde::Deserialize<'a>>(_s: &'a str) -> Result<T, Error> { loop {} }
type I = serde::ser::Impossible<(), Error>;
macro_rules! sers { ($($f:ident($t:ty)),*) => { $(fn $f(self, _v: $t) -> Result<(), Error> { loop {} })* } }
impl<W: io::Write> serde::Serializer for &mut Serializer<W> {
    type Ok = (); type Error = Error;
    type SerializeSeq = I; type SerializeTuple = I; type SerializeTupleStruct = I; type SerializeTupleVariant = I;
    type SerializeMap = I; type SerializeStruct = I; type SerializeStructVariant = I;
    sers!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64), serialize_u8(u8), serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32), serialize_f64(f64), serialize_char(char), serialize_str(&str), serialize_bytes(&[u8]), serialize_unit_struct(&'static str));
    fn serialize_none(self) -> Result<(), Error> { loop {} }
    fn serialize_unit(self) -> Result<(), Error> { loop {} }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, _v: &T) -> Result<(), Error> { loop {} }
    fn serialize_unit_variant(self, _n: &'static str, _i: u32, _v: &'static str) -> Result<(), Error> { loop {} }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _n: &'static str, _v: &T) -> Result<(), Error> { loop {} }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _n: &'static str, _i: u32, _w: &'static str, _v: &T) -> Result<(), Error> { loop {} }
    fn serialize_seq(self, _l: Option<usize>) -> Result<I, Error> { loop {} }
    fn serialize_tuple(self, _l: usize) -> Result<I, Error> { loop {} }
    fn serialize_tuple_struct(self, _n: &'static str, _l: usize) -> Result<I, Error> { loop {} }
    fn serialize_tuple_variant(self, _n: &'static str, _i: u32, _v: &'static str, _l: usize) -> Result<I, Error> { loop {} }
    fn serialize_map(self, _l: Option<usize>) -> Result<I, Error> { loop {} }
    fn serialize_struct(self, _n: &'static str, _l: usize) -> Result<I, Error> { loop {} }
    fn serialize_struct_variant(self, _n: &'static str, _i: u32, _v: &'static str, _l: usize) -> Result<I, Error> { loop {} }
}
pub mod with { pub mod singleton_map {
    pub struct SingletonMap;
    impl SingletonMap { #[allow(clippy::new_ret_no_self)] pub fn new<D>(d: D) -> D { d } }
    pub fn serialize<T: serde::Serialize, S: serde::Serializer>(_t: &T, _s: S) -> Result<S::Ok, S::Error> { loop {} }
    pub fn deserialize<'de, T: serde::Deserialize<'de>, D: serde::Deserializer<'de>>(_d: D) -> Result<T, D::Error> { loop {} }
}}
