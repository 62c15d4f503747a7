@@prelude
pub use vp_ser::*;
pub mod vp_ser {
use super::vp_base::*;
use vstd::prelude::*; use vstd::string::*;
// ---------------------------------------------------------------- the writer (ser_write::SerWrite) as its users see it
// `view`: the bytes accepted so far; `alive`: no write has failed yet. `alive` is a ghost protocol state: every writer can be
// wrapped with it, and requiring it before each write is the statement that nothing is written after a failure.
/// `n` is `o` followed by something
#[verifier::opaque] pub open spec fn ext(o: Seq<u8>, n: Seq<u8>) -> bool { o.len() <= n.len() && o == n.take(o.len() as int) }
/// what follows
#[verifier::opaque] pub open spec fn added(o: Seq<u8>, n: Seq<u8>) -> Seq<u8> { if o.len() <= n.len() { n.skip(o.len() as int) } else { Seq::empty() } }
pub trait SerWrite: Sized {
  type Error;
  spec fn view(&self) -> Seq<u8>;
  spec fn alive(&self) -> bool;
  fn write(&mut self, buf: &[u8]) -> (r: core::result::Result<(), Self::Error>)
    requires old(self).alive() // nothing is written after a failure #C09
    ensures wrote(old(self).view(), final(self).view(), buf@, r is Ok), final(self).alive() == r is Ok;
  fn write_byte(&mut self, byte: u8) -> (r: core::result::Result<(), Self::Error>)
    requires old(self).alive() // nothing is written after a failure #C09
    ensures wrote(old(self).view(), final(self).view(), seq![byte], r is Ok), final(self).alive() == r is Ok;
  fn write_str(&mut self, s: &str) -> (r: core::result::Result<(), Self::Error>)
    requires old(self).alive() // nothing is written after a failure #C09
    ensures wrote(old(self).view(), final(self).view(), s.spec_bytes(), r is Ok), final(self).alive() == r is Ok;
}
pub open spec fn wrote(o: Seq<u8>, n: Seq<u8>, b: Seq<u8>, ok: bool) -> bool {
  ext(o, n) && (ok ==> added(o, n) == b && n == o + b)
}
pub broadcast proof fn lemma_ext_refl(o: Seq<u8>) ensures #[trigger] ext(o, o), added(o, o) == Seq::<u8>::empty()
{ reveal(ext); reveal(added); assert(o =~= o.take(o.len() as int)); assert(o.skip(o.len() as int) =~= Seq::<u8>::empty()); }
pub broadcast proof fn lemma_added_len(o: Seq<u8>, n: Seq<u8>) requires #[trigger] ext(o, n) ensures n.len() == o.len() + added(o, n).len(), n == o + added(o, n)
{ reveal(ext); reveal(added); assert(n =~= o + n.skip(o.len() as int)); }
/// two consecutive additions
pub broadcast proof fn lemma_ext2(o: Seq<u8>, m: Seq<u8>, n: Seq<u8>) requires #[trigger] ext(o, m), #[trigger] ext(m, n)
  ensures ext(o, n), added(o, n) == added(o, m) + added(m, n),
    added(o, n).len() == added(o, m).len() + added(m, n).len(),
    added(o, n).take(added(o, m).len() as int) == added(o, m), added(o, n).skip(added(o, m).len() as int) == added(m, n),
{
  reveal(ext); reveal(added); let (a, b) = (added(o, m), added(m, n));
  assert(o.take(o.len() as int) =~= o);
  assert(m == o + a) by { assert(m =~= o + m.skip(o.len() as int)); }
  assert(n == m + b) by { assert(n =~= m + n.skip(m.len() as int)); }
  assert(n =~= o + (a + b));
  assert(o =~= n.take(o.len() as int));
  assert(added(o, n) =~= a + b);
  assert((a + b).take(a.len() as int) =~= a); assert((a + b).skip(a.len() as int) =~= b);
}
/// three consecutive additions
pub broadcast proof fn lemma_ext3(o: Seq<u8>, m1: Seq<u8>, m2: Seq<u8>, n: Seq<u8>) requires #[trigger] ext(o, m1), #[trigger] ext(m1, m2), #[trigger] ext(m2, n)
  ensures ext(o, n), added(o, n) == added(o, m1) + added(m1, m2) + added(m2, n),
    added(o, n).len() == added(o, m1).len() + added(m1, m2).len() + added(m2, n).len(),
    added(o, n).take(added(o, m1).len() as int) == added(o, m1),
    added(o, n).subrange(added(o, m1).len() as int, (added(o, m1).len() + added(m1, m2).len()) as int) == added(m1, m2),
    added(o, n).skip((added(o, m1).len() + added(m1, m2).len()) as int) == added(m2, n),
{
  lemma_ext2(o, m1, m2); lemma_ext2(o, m2, n);
  let (a, b, c) = (added(o, m1), added(m1, m2), added(m2, n));
  assert((a + b + c).take(a.len() as int) =~= a);
  assert((a + b + c).subrange(a.len() as int, (a.len() + b.len()) as int) =~= b);
  assert((a + b + c).skip((a.len() + b.len()) as int) =~= c);
}
pub broadcast group group_ext { lemma_ext_refl, lemma_added_len, lemma_ext2 }
// ---------------------------------------------------------------- formatting (core::fmt)
pub struct FmtError;
pub type FmtResult = core::result::Result<(), FmtError>;
/// a sink of formatted text: `f_reach(n, b, ok)`: handing it the text `b` leads from here to `n`
pub trait FmtWrite: Sized {
  spec fn f_pre(&self) -> bool;
  #[verifier::prophetic] spec fn f_reach(&self, n: Self, b: Seq<u8>, ok: bool) -> bool;
  proof fn f_refl(&self) requires self.f_pre() ensures self.f_reach(*self, Seq::empty(), true);
  proof fn f_trans(&self, m: Self, n: Self, a: Seq<u8>, b: Seq<u8>, ok: bool) requires self.f_pre(), self.f_reach(m, a, true), m.f_pre(), m.f_reach(n, b, ok), vstd::utf8::valid_utf8(a), vstd::utf8::valid_utf8(b) ensures self.f_reach(n, a + b, ok);
  fn write_str(&mut self, s: &str) -> (r: FmtResult)
    requires old(self).f_pre() ensures old(self).f_reach(*final(self), s.spec_bytes(), r is Ok), r is Ok ==> final(self).f_pre();
}
/// a value that can be displayed; `shows(b)`: b is one of its possible texts
pub trait FmtDisplay { spec fn shows(&self, b: Seq<u8>) -> bool; }
/// core::fmt::write with the format "{}": hands the text of the value to the sink piece by piece and stops at the first failure
#[verifier::external_body] pub fn vp_fmt_write<W: FmtWrite, T: FmtDisplay + ?Sized>(w: &mut W, v: &T) -> (r: FmtResult)
  requires old(w).f_pre()
  ensures r is Ok ==> final(w).f_pre() && exists|b: Seq<u8>| #[trigger] v.shows(b) && vstd::utf8::valid_utf8(b) && old(w).f_reach(*final(w), b, true),
    r is Err ==> exists|b: Seq<u8>, ok: bool| vstd::utf8::valid_utf8(b) && #[trigger] old(w).f_reach(*final(w), b, ok),
{ unimplemented!() }
/// ToString::to_string (panics if the Display implementation returns an error of its own, as documented)
#[verifier::external_body] pub fn vp_to_string<T: FmtDisplay + ?Sized>(v: &T) -> (r: String)
  ensures v.shows(vstd::utf8::encode_utf8(r@)) { unimplemented!() }
/// Rust: no object is larger than isize::MAX bytes; a str is UTF-8
pub broadcast axiom fn axiom_str_size(s: &str) ensures #[trigger] s.spec_bytes().len() <= isize::MAX, vstd::utf8::valid_utf8(s.spec_bytes()), s.spec_bytes() == vstd::utf8::encode_utf8(s@);
pub broadcast axiom fn axiom_slice_size(s: &[u8]) ensures #[trigger] s@.len() <= isize::MAX;
// ---------------------------------------------------------------- serde's serialization traits
// `pre`/`post`: what a serializer may assume / owes when it is handed to client code
pub trait SerHandle: Sized {
  type HOk; type HErr;
  spec fn h_pre(self) -> bool;
  #[verifier::prophetic] spec fn h_post(self, ok: bool) -> bool;
  /// the byte strings a client may hand to it
  spec fn h_bytes(self, v: Seq<u8>) -> bool;
  /// what is known when the value given to it was exactly one string / one small integer
  #[verifier::prophetic] spec fn h_said(self, ev: SEv) -> bool;
  /// which of the formats it writes, and the text it has written when it is released
  spec fn h_fl() -> int;
  #[verifier::prophetic] spec fn h_text(self) -> Seq<u8>;
}
/// b is a text of v in format fl
pub uninterp spec fn ser_text<T: ?Sized>(v: &T, fl: int, b: Seq<u8>) -> bool;
/// the single serializer call a client value consists of, where its type fixes it
pub enum SEv { Any, Str(Seq<u8>), U8(u8) }
/// a client value: arbitrary code that uses the serializer it is given according to the protocol
pub trait Serialize {
  spec fn ev(&self) -> SEv;
  fn serialize<S: SerHandle>(&self, s: S) -> (r: core::result::Result<S::HOk, S::HErr>) requires s.h_pre() ensures s.h_post(r is Ok), r is Ok ==> s.h_said(self.ev()) && ser_text(self, S::h_fl(), s.h_text());
}
/// serde's implementations for str and u8: one call of serialize_str / serialize_u8
impl Serialize for str { open spec fn ev(&self) -> SEv { SEv::Str(self.spec_bytes()) }
  #[verifier::external_body] fn serialize<S: SerHandle>(&self, s: S) -> (r: core::result::Result<S::HOk, S::HErr>) { unimplemented!() } }
impl Serialize for u8 { open spec fn ev(&self) -> SEv { SEv::U8(*self) }
  #[verifier::external_body] fn serialize<S: SerHandle>(&self, s: S) -> (r: core::result::Result<S::HOk, S::HErr>) { unimplemented!() } }
/// one serializer method: `S::serialize_*(self, ..)`
pub trait SerdeSerializer: SerHandle {
  type Ok; type Error; type SerializeSeq; type SerializeTuple; type SerializeTupleStruct; type SerializeTupleVariant; type SerializeMap; type SerializeStruct; type SerializeStructVariant;
  /// serde's default
  fn is_human_readable(&self) -> bool { true }
  fn serialize_bool(self, v: bool) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre() ensures self.h_post(r is Ok);
  fn serialize_i8(self, v: i8) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre() ensures self.h_post(r is Ok);
  fn serialize_i16(self, v: i16) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre() ensures self.h_post(r is Ok);
  fn serialize_i32(self, v: i32) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre() ensures self.h_post(r is Ok);
  fn serialize_i64(self, v: i64) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre() ensures self.h_post(r is Ok);
  fn serialize_u8(self, v: u8) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre() ensures self.h_post(r is Ok), r is Ok ==> self.h_said(SEv::U8(v));
  fn serialize_u16(self, v: u16) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre() ensures self.h_post(r is Ok);
  fn serialize_u32(self, v: u32) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre() ensures self.h_post(r is Ok);
  fn serialize_u64(self, v: u64) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre() ensures self.h_post(r is Ok);
  fn serialize_f32(self, v: f32) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre() ensures self.h_post(r is Ok);
  fn serialize_f64(self, v: f64) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre() ensures self.h_post(r is Ok);
  fn serialize_char(self, v: char) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre() ensures self.h_post(r is Ok);
  fn serialize_str(self, v: &str) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre() ensures self.h_post(r is Ok), r is Ok ==> self.h_said(SEv::Str(v.spec_bytes()));
  fn serialize_bytes(self, v: &[u8]) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre(), self.h_bytes(v@) ensures self.h_post(r is Ok);
  fn serialize_none(self) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre() ensures self.h_post(r is Ok);
  fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre() ensures self.h_post(r is Ok);
  fn serialize_unit(self) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre() ensures self.h_post(r is Ok);
  fn serialize_unit_struct(self, name: &'static str) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre() ensures self.h_post(r is Ok);
  fn serialize_unit_variant(self, name: &'static str, variant_index: u32, variant: &'static str) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre() ensures self.h_post(r is Ok);
  fn serialize_newtype_struct<T: ?Sized + Serialize>(self, name: &'static str, value: &T) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre() ensures self.h_post(r is Ok);
  fn serialize_newtype_variant<T: ?Sized + Serialize>(self, name: &'static str, variant_index: u32, variant: &'static str, value: &T) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre() ensures self.h_post(r is Ok);
  fn serialize_seq(self, len: Option<usize>) -> (r: core::result::Result<Self::SerializeSeq, Self::Error>) requires self.h_pre();
  fn serialize_tuple(self, len: usize) -> (r: core::result::Result<Self::SerializeTuple, Self::Error>) requires self.h_pre();
  fn serialize_tuple_struct(self, name: &'static str, len: usize) -> (r: core::result::Result<Self::SerializeTupleStruct, Self::Error>) requires self.h_pre();
  fn serialize_tuple_variant(self, name: &'static str, variant_index: u32, variant: &'static str, len: usize) -> (r: core::result::Result<Self::SerializeTupleVariant, Self::Error>) requires self.h_pre();
  fn serialize_map(self, len: Option<usize>) -> (r: core::result::Result<Self::SerializeMap, Self::Error>) requires self.h_pre();
  fn serialize_struct(self, name: &'static str, len: usize) -> (r: core::result::Result<Self::SerializeStruct, Self::Error>) requires self.h_pre();
  fn serialize_struct_variant(self, name: &'static str, variant_index: u32, variant: &'static str, len: usize) -> (r: core::result::Result<Self::SerializeStructVariant, Self::Error>) requires self.h_pre();
  fn collect_str<T: FmtDisplay + ?Sized>(self, value: &T) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.h_pre() ensures self.h_post(r is Ok);
}
// the compound serializers: `c_pre` what a method may assume
pub trait SerializeSeq { type Ok; type Error; spec fn c_pre(&self) -> bool;
  fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> (r: core::result::Result<(), Self::Error>) requires old(self).c_pre();
  fn end_seq(self) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.c_pre(); }
pub trait SerializeTuple { type Ok; type Error; spec fn ct_pre(&self) -> bool;
  fn serialize_tuple_element<T: ?Sized + Serialize>(&mut self, value: &T) -> (r: core::result::Result<(), Self::Error>) requires old(self).ct_pre();
  fn end_tuple(self) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.ct_pre(); }
pub trait SerializeTupleStruct { type Ok; type Error; spec fn cts_pre(&self) -> bool;
  fn serialize_ts_field<T: ?Sized + Serialize>(&mut self, value: &T) -> (r: core::result::Result<(), Self::Error>) requires old(self).cts_pre();
  fn end_ts(self) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.cts_pre(); }
pub trait SerializeTupleVariant { type Ok; type Error; spec fn ctv_pre(&self) -> bool;
  fn serialize_tv_field<T: ?Sized + Serialize>(&mut self, value: &T) -> (r: core::result::Result<(), Self::Error>) requires old(self).ctv_pre();
  fn end_tv(self) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.ctv_pre(); }
pub trait SerializeMap { type Ok; type Error; spec fn cm_pre(&self) -> bool;
  fn serialize_key<T: ?Sized + Serialize>(&mut self, key: &T) -> (r: core::result::Result<(), Self::Error>) requires old(self).cm_pre();
  fn serialize_value<T: ?Sized + Serialize>(&mut self, value: &T) -> (r: core::result::Result<(), Self::Error>) requires old(self).cm_pre();
  fn end_map(self) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.cm_pre(); }
pub trait SerializeStruct: Sized { type Ok; type Error; spec fn cs_pre(&self) -> bool;
  fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, value: &T) -> (r: core::result::Result<(), Self::Error>) requires old(self).cs_pre();
  /// serde's default: nothing happens
  fn skip_field(&mut self, key: &'static str) -> (r: core::result::Result<(), Self::Error>) requires old(self).cs_pre() default_ensures r is Ok, *final(self) == *old(self) { Ok(()) }
  fn end_struct(self) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.cs_pre(); }
pub trait SerializeStructVariant: Sized { type Ok; type Error; spec fn csv_pre(&self) -> bool;
  fn serialize_sv_field<T: ?Sized + Serialize>(&mut self, key: &'static str, value: &T) -> (r: core::result::Result<(), Self::Error>) requires old(self).csv_pre();
  fn skip_sv_field(&mut self, key: &'static str) -> (r: core::result::Result<(), Self::Error>) requires old(self).csv_pre() default_ensures r is Ok, *final(self) == *old(self) { Ok(()) }
  fn end_sv(self) -> (r: core::result::Result<Self::Ok, Self::Error>) requires self.csv_pre(); }
} // vp_ser
@@subst-fn to_string=>vp_to_string
