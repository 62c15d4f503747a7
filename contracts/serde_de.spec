@@prelude
// ---------------------------------------------------------------- contracts of serde's deserialization traits (assumed of clients, proved of implementations)
// `got(ev, r)`: the visitor was handed exactly the event `ev` and produced `r` (None on error).
// `pre`/`post`: what a deserializer or an access object may assume/owes when it is handed to client code.
#[verifier::ext_equal]
pub enum Ev { Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), U8(u8), U16(u16), U32(u32), U64(u64), F32(f32), F64(f64), Char(char),
  Str(Seq<u8>), BStr(Seq<u8>), Bytes(Seq<u8>), BBytes(Seq<u8>), None, Some, Unit, Newtype, Seq, Map, Enum }
pub trait DeHandle: Sized {
  type HErr;
  spec fn pre(self) -> bool;
  #[verifier::prophetic] spec fn post(self, ok: bool) -> bool;
  /// what a client owes that ignores whatever it reads: it succeeds exactly when there is something to read, and takes all of it
  #[verifier::prophetic] spec fn skip_post(self, ok: bool) -> bool;
}
pub trait MapHandle: Sized {
  type HErr;
  spec fn m_pre(self) -> bool;
  #[verifier::prophetic] spec fn m_post(self, ok: bool) -> bool;
  #[verifier::prophetic] spec fn m_skip_post(self, ok: bool) -> bool;
}
pub trait Visitor<'de>: Sized {
  type Value;
  spec fn got(self, ev: Ev, r: Option<Self::Value>) -> bool;
  /// a client that ignores what it is given (serde's IgnoredAny)
  spec fn ignores(self) -> bool;
  fn visit_bool<E>(self, v: bool) -> (r: core::result::Result<Self::Value, E>) ensures self.got(Ev::Bool(v), okv(r)), self.ignores() ==> r is Ok;
  fn visit_i8<E>(self, v: i8) -> (r: core::result::Result<Self::Value, E>) ensures self.got(Ev::I8(v), okv(r)), self.ignores() ==> r is Ok;
  fn visit_i16<E>(self, v: i16) -> (r: core::result::Result<Self::Value, E>) ensures self.got(Ev::I16(v), okv(r)), self.ignores() ==> r is Ok;
  fn visit_i32<E>(self, v: i32) -> (r: core::result::Result<Self::Value, E>) ensures self.got(Ev::I32(v), okv(r)), self.ignores() ==> r is Ok;
  fn visit_i64<E>(self, v: i64) -> (r: core::result::Result<Self::Value, E>) ensures self.got(Ev::I64(v), okv(r)), self.ignores() ==> r is Ok;
  fn visit_u8<E>(self, v: u8) -> (r: core::result::Result<Self::Value, E>) ensures self.got(Ev::U8(v), okv(r)), self.ignores() ==> r is Ok;
  fn visit_u16<E>(self, v: u16) -> (r: core::result::Result<Self::Value, E>) ensures self.got(Ev::U16(v), okv(r)), self.ignores() ==> r is Ok;
  fn visit_u32<E>(self, v: u32) -> (r: core::result::Result<Self::Value, E>) ensures self.got(Ev::U32(v), okv(r)), self.ignores() ==> r is Ok;
  fn visit_u64<E>(self, v: u64) -> (r: core::result::Result<Self::Value, E>) ensures self.got(Ev::U64(v), okv(r)), self.ignores() ==> r is Ok;
  fn visit_f32<E>(self, v: f32) -> (r: core::result::Result<Self::Value, E>) ensures self.got(Ev::F32(v), okv(r)), self.ignores() ==> r is Ok;
  fn visit_f64<E>(self, v: f64) -> (r: core::result::Result<Self::Value, E>) ensures self.got(Ev::F64(v), okv(r)), self.ignores() ==> r is Ok;
  fn visit_char<E>(self, v: char) -> (r: core::result::Result<Self::Value, E>) ensures self.got(Ev::Char(v), okv(r)), self.ignores() ==> r is Ok;
  fn visit_str<E>(self, v: &str) -> (r: core::result::Result<Self::Value, E>) ensures self.got(Ev::Str(v.spec_bytes()), okv(r)), self.ignores() ==> r is Ok;
  fn visit_borrowed_str<E>(self, v: &'de str) -> (r: core::result::Result<Self::Value, E>) ensures self.got(Ev::BStr(v.spec_bytes()), okv(r)), self.ignores() ==> r is Ok;
  fn visit_bytes<E>(self, v: &[u8]) -> (r: core::result::Result<Self::Value, E>) ensures self.got(Ev::Bytes(v@), okv(r)), self.ignores() ==> r is Ok;
  fn visit_borrowed_bytes<E>(self, v: &'de [u8]) -> (r: core::result::Result<Self::Value, E>) ensures self.got(Ev::BBytes(v@), okv(r)), self.ignores() ==> r is Ok;
  fn visit_none<E>(self) -> (r: core::result::Result<Self::Value, E>) ensures self.got(Ev::None, okv(r)), self.ignores() ==> r is Ok;
  fn visit_unit<E>(self) -> (r: core::result::Result<Self::Value, E>) ensures self.got(Ev::Unit, okv(r)), self.ignores() ==> r is Ok;
  fn visit_some<D: DeHandle>(self, d: D) -> (r: core::result::Result<Self::Value, D::HErr>) requires d.pre() ensures d.post(r is Ok), self.ignores() ==> d.skip_post(r is Ok), self.got(Ev::Some, okv(r));
  fn visit_newtype_struct<D: DeHandle>(self, d: D) -> (r: core::result::Result<Self::Value, D::HErr>) requires d.pre() ensures d.post(r is Ok), self.ignores() ==> d.skip_post(r is Ok), self.got(Ev::Newtype, okv(r));
  fn visit_seq<D: DeHandle>(self, d: D) -> (r: core::result::Result<Self::Value, D::HErr>) requires d.pre() ensures d.post(r is Ok), self.ignores() ==> d.skip_post(r is Ok), self.got(Ev::Seq, okv(r));
  fn visit_map<D: MapHandle>(self, d: D) -> (r: core::result::Result<Self::Value, D::HErr>) requires d.m_pre() ensures d.m_post(r is Ok), self.ignores() ==> d.m_skip_post(r is Ok), self.got(Ev::Map, okv(r));
  fn visit_enum<D: DeHandle>(self, d: D) -> (r: core::result::Result<Self::Value, D::HErr>) requires d.pre() ensures d.post(r is Ok), self.ignores() ==> d.skip_post(r is Ok), self.got(Ev::Enum, okv(r));
}
pub trait DeserializeSeed<'de>: Sized {
  type Value;
  spec fn gots(self, r: Option<Self::Value>) -> bool;
  spec fn seed_ignores(self) -> bool;
  fn deserialize<D: DeHandle>(self, d: D) -> (r: core::result::Result<Self::Value, D::HErr>) requires d.pre() ensures d.post(r is Ok), self.gots(okv(r)), self.seed_ignores() ==> d.skip_post(r is Ok);
}
pub trait Deserialize<'de>: Sized {
  fn deserialize<D: DeHandle>(d: D) -> (r: core::result::Result<Self, D::HErr>) requires d.pre() ensures d.post(r is Ok);
}
pub trait SeqAccess<'de>: Sized {
  type Error;
  spec fn s_pre(self) -> bool;
  fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> (r: core::result::Result<Option<T::Value>, Self::Error>) requires old(self).s_pre();
  fn size_hint(&self) -> (r: Option<usize>);
}
pub trait MapAccess<'de>: Sized {
  type Error;
  spec fn s_map_pre(self) -> bool;
  fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> (r: core::result::Result<Option<K::Value>, Self::Error>) requires old(self).s_map_pre();
  fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> (r: core::result::Result<V::Value, Self::Error>) requires old(self).s_map_pre();
  fn map_size_hint(&self) -> (r: Option<usize>);
}
pub trait EnumAccess<'de>: Sized {
  type Error; type Variant;
  spec fn s_pre(self) -> bool;
  fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> (r: core::result::Result<(V::Value, Self::Variant), Self::Error>) requires self.s_pre();
}
pub trait SerdeVariantAccess<'de>: Sized {
  type Error;
  spec fn s_var_pre(self) -> bool;
  fn unit_variant(self) -> (r: core::result::Result<(), Self::Error>) requires self.s_var_pre();
  fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> (r: core::result::Result<T::Value, Self::Error>) requires self.s_var_pre();
  fn tuple_variant<V: Visitor<'de>>(self, len: usize, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.s_var_pre();
  fn struct_variant<V: Visitor<'de>>(self, fields: &'static [&'static str], visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.s_var_pre();
}
pub trait SerdeDeserializer<'de>: DeHandle {
  type Error;
  fn is_human_readable(&self) -> bool;
  fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_bool<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_i8<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_i16<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_i32<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_i64<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_u8<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_u16<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_u32<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_u64<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_f32<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_f64<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_char<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_str<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_string<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_bytes<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_byte_buf<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_unit<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_seq<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_identifier<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_ignored_any<V: Visitor<'de>>(self, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok), visitor.ignores() ==> self.skip_post(r is Ok);
  fn deserialize_unit_struct<V: Visitor<'de>>(self, name: &'static str, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_newtype_struct<V: Visitor<'de>>(self, name: &'static str, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_tuple<V: Visitor<'de>>(self, len: usize, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_tuple_struct<V: Visitor<'de>>(self, name: &'static str, len: usize, visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_struct<V: Visitor<'de>>(self, name: &'static str, fields: &'static [&'static str], visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
  fn deserialize_enum<V: Visitor<'de>>(self, name: &'static str, variants: &'static [&'static str], visitor: V) -> (r: core::result::Result<V::Value, Self::Error>) requires self.pre() ensures self.post(r is Ok);
}
