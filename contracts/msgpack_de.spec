@@include common.spec
@@include msgpack_fmt.spec
@@include serde_de.spec
@@module magick
@@module de
@@drop FIXINT_I16
@@drop FIXINT_I32
@@drop FIXINT_I64
@@drop StdError for Error
@@drop Error for Error
@@drop Display for Error

@@prelude
broadcast use {group_suffix, group_bits};
impl<'de> Deserializer<'de> {
  pub open spec fn wf(&self) -> bool { self.index <= self.input@.len() && self.input@.len() <= isize::MAX }
  pub open spec fn rest(&self) -> Seq<u8> { if self.index <= self.input@.len() { self.input@.skip(self.index as int) } else { Seq::empty() } }
}
/// the cursor stays inside the input and only moves forward; success means exactly one item was consumed
pub open spec fn one_msg(o: Deserializer, n: Deserializer, ok: bool) -> bool {
  n.wf() && is_suffix(n.rest(), o.rest()) && (ok ==> skip1(o.rest()) == Sk::Rest(n.rest()))
}
impl<'r, 'de> DeHandle for &'r mut Deserializer<'de> {
  type HErr = Error;
  open spec fn pre(self) -> bool { self.wf() }
  #[verifier::prophetic] open spec fn post(self, ok: bool) -> bool { one_msg(*self, *final(self), ok) }
  #[verifier::prophetic] open spec fn skip_post(self, ok: bool) -> bool { ok <==> skip1(self.rest()) is Rest }
}
pub open spec fn cnt(c: Option<NonZeroUsize>) -> nat { match c { Some(x) => x@ as nat, None => 0 } }
/// what a client that uses the access correctly may do: every element taken off the count is one item (an entry is two)
#[verifier::prophetic]
pub open spec fn ca_reach(o: CountingAccess, n: CountingAccess, ok: bool, per: nat) -> bool {
  n.de.wf() && is_suffix(n.de.rest(), o.de.rest()) && cnt(n.count) <= cnt(o.count) && *final(n.de) == *final(o.de)
  && (ok ==> skipn(o.de.rest(), per * ((cnt(o.count) - cnt(n.count)) as nat)) == Sk::Rest(n.de.rest()))
}
impl<'x, 'a, 'de> DeHandle for &'x mut CountingAccess<'a, 'de> {
  type HErr = Error;
  open spec fn pre(self) -> bool { self.de.wf() }
  #[verifier::prophetic] open spec fn post(self, ok: bool) -> bool { ca_reach(*self, *final(self), ok, 1) }
  #[verifier::prophetic] open spec fn skip_post(self, ok: bool) -> bool { true }
}
impl<'x, 'a, 'de> MapHandle for &'x mut CountingAccess<'a, 'de> {
  type HErr = Error;
  open spec fn m_pre(self) -> bool { self.de.wf() }
  #[verifier::prophetic] open spec fn m_post(self, ok: bool) -> bool { ca_reach(*self, *final(self), ok, 2) }
  #[verifier::prophetic] open spec fn m_skip_post(self, ok: bool) -> bool { true }
}
#[verifier::prophetic]
pub open spec fn de_msgs(o: &mut Deserializer, ok: bool, n: nat) -> bool {
  final(o).wf() && is_suffix(final(o).rest(), o.rest()) && (ok ==> skipn(o.rest(), n) == Sk::Rest(final(o).rest()))
}
impl<'a, 'de> DeHandle for UnitVariantAccess<'a, 'de> {
  type HErr = Error;
  open spec fn pre(self) -> bool { self.de.wf() }
  #[verifier::prophetic] open spec fn post(self, ok: bool) -> bool { de_msgs(self.de, ok, 1) }
  #[verifier::prophetic] open spec fn skip_post(self, ok: bool) -> bool { true }
}
impl<'a, 'de> DeHandle for VariantAccess<'a, 'de> {
  type HErr = Error;
  open spec fn pre(self) -> bool { self.de.wf() }
  #[verifier::prophetic] open spec fn post(self, ok: bool) -> bool { de_msgs(self.de, ok, 2) }
  #[verifier::prophetic] open spec fn skip_post(self, ok: bool) -> bool { true }
}
impl vstd::std_specs::convert::FromSpecImpl<TryFromIntError> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: TryFromIntError) -> Self { Error::InvalidInteger } }
impl vstd::std_specs::convert::FromSpecImpl<Utf8Error> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: Utf8Error) -> Self { Error::InvalidUnicodeCodePoint } }
impl vstd::std_specs::convert::FromSpecImpl<Infallible> for Error { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(e: Infallible) -> Self { Error::InvalidInteger } }

@@stub From<Infallible> for Error::from

@@fn Deserializer::from_slice [C21,C25]
  requires input@.len() <= isize::MAX,
  ensures r.wf(), r.rest() == input@, // #C21 #C25 #C28
@@at begin :: Deserializer::from_slice
proof { assert(input@.skip(0) =~= input@); }
@@fn Deserializer::end [C25,C21]
  ensures
    self.index <= self.input@.len() ==> r == Ok::<usize, Error>(self.rest().len() as usize), // #C25 #C28
    self.index > self.input@.len() ==> r is Err, // #C21
@@fn Deserializer::remaining_len [C21]
  ensures r == self.rest().len(), // #C21
@@fn Deserializer::peek [C21]
  ensures
    self.rest().len() > 0 ==> r == Ok::<u8, Error>(self.rest()[0]), // #C21
    self.rest().len() == 0 ==> r == Err::<u8, Error>(Error::UnexpectedEof), // #C21
@@fn Deserializer::eat_some [C21]
  requires old(self).index + len <= usize::MAX,
  ensures final(self).input == old(self).input, final(self).index == old(self).index + len, // #C21
@@fn Deserializer::input_ref [C21]
  ensures
    self.index <= self.input@.len() ==> r is Ok && r->Ok_0@ == self.rest(), // #C21
    self.index > self.input@.len() ==> r == Err::<&[u8], Error>(Error::UnexpectedEof), // #C21
@@fn Deserializer::split_input [C21,C23]
  requires old(self).input@.len() <= isize::MAX,
  ensures
    r is Ok <==> old(self).index <= old(self).input@.len() && len <= old(self).rest().len(), // #C23 #C21
    r is Ok <== old(self).index <= old(self).input@.len() && len <= old(self).rest().len(), // #C28
    r is Ok ==> final(self).wf() && r->Ok_0@ == old(self).rest().take(len as int) && final(self).rest() == old(self).rest().skip(len as int), // #C23 #C21 #C28
    r is Err ==> *final(self) == *old(self) && r == Err::<&'de [u8], Error>(Error::UnexpectedEof), // #C21
@@at end :: Deserializer::split_input
proof { assert(self.input@.skip(0) =~= self.input@); assert(old(self).input@.skip(old(self).index as int).skip(len as int) =~= self.input@); }
@@def FETCHN
  requires old(self).wf(),
  ensures
    final(self).wf(), final(self).input == old(self).input, // #C21
    r is Err ==> *final(self) == *old(self) && r->Err_0 == Error::UnexpectedEof, // #C21
@@fn Deserializer::fetch [C21]
%FETCHN%
    r is Ok <==> old(self).rest().len() >= 1, // #C21
    r is Ok ==> r->Ok_0 == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1) && final(self).index == old(self).index + 1, // #C21 #C24
@@fn Deserializer::fetch_array [C21,C22]
  requires old(self).wf(), N <= 64,
  ensures
    final(self).wf(), final(self).input == old(self).input, // #C21
    r is Ok <==> old(self).rest().len() >= N, // #C21
    r is Err ==> *final(self) == *old(self) && r->Err_0 == Error::UnexpectedEof, // #C21
    r is Ok ==> r->Ok_0@ == old(self).rest().take(N as int) && final(self).rest() == old(self).rest().skip(N as int) && final(self).index == old(self).index + N, // #C22 #C21 #C28
@@at begin :: Deserializer::fetch_array
proof { if old(self).index + N <= old(self).input@.len() { assert(old(self).input@.subrange(old(self).index as int, old(self).index + N) =~= old(self).rest().take(N as int)); } }
@@fn Deserializer::fetch_u8 [C22,C21]
%FETCHN%
    r is Ok <==> old(self).rest().len() >= 1, // #C21
    r is Ok ==> r->Ok_0 == be(old(self).rest().take(1)) && final(self).rest() == old(self).rest().skip(1) && final(self).index == old(self).index + 1, // #C22 #C21
@@fn Deserializer::fetch_u16 [C22,C21]
%FETCHN%
    r is Ok <==> old(self).rest().len() >= 2, // #C21
    r is Ok ==> r->Ok_0 == be(old(self).rest().take(2)) && final(self).rest() == old(self).rest().skip(2) && final(self).index == old(self).index + 2, // #C22 #C21
@@fn Deserializer::fetch_u32 [C22,C21]
%FETCHN%
    r is Ok <==> old(self).rest().len() >= 4, // #C21
    r is Ok ==> r->Ok_0 == be(old(self).rest().take(4)) && final(self).rest() == old(self).rest().skip(4) && final(self).index == old(self).index + 4, // #C22 #C21
@@fn Deserializer::fetch_u64 [C22,C21]
%FETCHN%
    r is Ok <==> old(self).rest().len() >= 8, // #C21
    r is Ok ==> r->Ok_0 == be(old(self).rest().take(8)) && final(self).rest() == old(self).rest().skip(8) && final(self).index == old(self).index + 8, // #C22 #C21
@@fn Deserializer::fetch_i8 [C22,C21]
%FETCHN%
    r is Ok <==> old(self).rest().len() >= 1, // #C21
    r is Ok ==> r->Ok_0 == sx(be(old(self).rest().take(1)), 8) && final(self).rest() == old(self).rest().skip(1) && final(self).index == old(self).index + 1, // #C22 #C21
@@fn Deserializer::fetch_i16 [C22,C21]
%FETCHN%
    r is Ok <==> old(self).rest().len() >= 2, // #C21
    r is Ok ==> r->Ok_0 == sx(be(old(self).rest().take(2)), 16) && final(self).rest() == old(self).rest().skip(2) && final(self).index == old(self).index + 2, // #C22 #C21
@@fn Deserializer::fetch_i32 [C22,C21]
%FETCHN%
    r is Ok <==> old(self).rest().len() >= 4, // #C21
    r is Ok ==> r->Ok_0 == sx(be(old(self).rest().take(4)), 32) && final(self).rest() == old(self).rest().skip(4) && final(self).index == old(self).index + 4, // #C22 #C21
@@fn Deserializer::fetch_i64 [C22,C21]
%FETCHN%
    r is Ok <==> old(self).rest().len() >= 8, // #C21
    r is Ok ==> r->Ok_0 == sx(be(old(self).rest().take(8)), 64) && final(self).rest() == old(self).rest().skip(8) && final(self).index == old(self).index + 8, // #C22 #C21
@@fn Deserializer::fetch_f32 [C22,C21]
%FETCHN%
    r is Ok <==> old(self).rest().len() >= 4, // #C21
    r is Ok ==> r->Ok_0 == f32_of_bits(be(old(self).rest().take(4))) && final(self).rest() == old(self).rest().skip(4) && final(self).index == old(self).index + 4, // #C22 #C21
@@fn Deserializer::fetch_f64 [C22,C21]
%FETCHN%
    r is Ok <==> old(self).rest().len() >= 8, // #C21
    r is Ok ==> r->Ok_0 == f64_of_bits(be(old(self).rest().take(8))) && final(self).rest() == old(self).rest().skip(8) && final(self).index == old(self).index + 8, // #C22 #C21
@@fn Deserializer::eat_message [C24,C21]
  requires old(self).wf(),
  ensures
    final(self).wf(), final(self).input == old(self).input, is_suffix(final(self).rest(), old(self).rest()), // #C24 #C21
    r is Ok <==> skip1(old(self).rest()) is Rest, // #C24
    r is Ok ==> skip1(old(self).rest()) == Sk::Rest(final(self).rest()), // #C24
    skip1(old(self).rest()) is Eof ==> r == Err::<(), Error>(Error::UnexpectedEof), // #C24
    skip1(old(self).rest()) is Reserved ==> r == Err::<(), Error>(Error::ReservedCode), // #C24
  decreases old(self).rest().len(), 0nat
@@fn Deserializer::eat_seq_items [C24,C21]
  requires old(self).wf(),
  ensures
    final(self).wf(), final(self).input == old(self).input, is_suffix(final(self).rest(), old(self).rest()), // #C24 #C21
    r is Ok <==> skipn(old(self).rest(), len as nat) is Rest, // #C24
    r is Ok ==> skipn(old(self).rest(), len as nat) == Sk::Rest(final(self).rest()), // #C24
    skipn(old(self).rest(), len as nat) is Eof ==> r == Err::<(), Error>(Error::UnexpectedEof), // #C24
    skipn(old(self).rest(), len as nat) is Reserved ==> r == Err::<(), Error>(Error::ReservedCode), // #C24
  decreases old(self).rest().len(), 1nat
@@loop Deserializer::eat_seq_items 0
 invariant self.wf(), self.input == old(self).input, is_suffix(self.rest(), old(self).rest()),
   skipn(old(self).rest(), len as nat) == skipn(self.rest(), (len - vp_i0) as nat), vp_i0 <= len,
 decreases len - vp_i0
@@at loopbegin 0 :: Deserializer::eat_seq_items
proof { lemma_skip1_shrinks(self.rest()); lemma_skipn_step(self.rest(), (len - vp_i0 + 1) as nat); }
@@at loopbegin 0 :: Deserializer::eat_map_items
proof { lemma_skipn_two(self.rest(), (len - vp_i0 + 1) as nat); lemma_skipn_add(self.rest(), 2, (2 * (len - vp_i0)) as nat); }
@@at end :: Deserializer::eat_map_items | Deserializer::eat_seq_items
proof { assert(skipn(self.rest(), 0) == Sk::Rest(self.rest())); }
@@fn Deserializer::eat_map_items [C24,C21]
  requires old(self).wf(),
  ensures
    final(self).wf(), final(self).input == old(self).input, is_suffix(final(self).rest(), old(self).rest()), // #C24 #C21
    r is Ok <==> skipn(old(self).rest(), 2 * (len as nat)) is Rest, // #C24
    r is Ok ==> skipn(old(self).rest(), 2 * (len as nat)) == Sk::Rest(final(self).rest()), // #C24
    skipn(old(self).rest(), 2 * (len as nat)) is Eof ==> r == Err::<(), Error>(Error::UnexpectedEof), // #C24
    skipn(old(self).rest(), 2 * (len as nat)) is Reserved ==> r == Err::<(), Error>(Error::ReservedCode), // #C24
  decreases old(self).rest().len(), 2nat
@@loop Deserializer::eat_map_items 0
 invariant self.wf(), self.input == old(self).input, is_suffix(self.rest(), old(self).rest()),
   skipn(old(self).rest(), 2 * (len as nat)) == skipn(self.rest(), 2 * ((len - vp_i0) as nat)), vp_i0 <= len,
 decreases len - vp_i0
@@fn Deserializer::parse_str [C23,C21,C28]
%FETCHV%
    match str_at(old(self).rest()) { Some((p, t)) => r is Ok && r->Ok_0.spec_bytes() == p && final(self).rest() == t, None => r is Err }, // #C23
@@fn Deserializer::parse_bytes [C23,C21,C28]
%FETCHV%
    match bin_at(old(self).rest()) { Some((p, t)) => r is Ok && r->Ok_0@ == p && final(self).rest() == t, None => r is Err }, // #C23
@@def FETCHV
  requires old(self).wf(),
  ensures
    final(self).wf(), is_suffix(final(self).rest(), old(self).rest()), // #C21
@@fn Deserializer::parse_integer [C22,C21,C28]
  requires old(self).wf(),
  ensures
    final(self).wf(), is_suffix(final(self).rest(), old(self).rest()), // #C21
    match int_at(old(self).rest()) {
      Some((n, k)) => (r is Ok <==> N::lo() <= n <= N::hi()) && (r is Ok ==> r->Ok_0.ival() == n && final(self).rest() == old(self).rest().skip(k as int)),
      None => r is Err }, // #C22
    match int_at(old(self).rest()) {
      Some((n, k)) => (r is Ok <== N::lo() <= n <= N::hi()) && (r is Ok ==> r->Ok_0.ival() == n && final(self).rest() == old(self).rest().skip(k as int)),
      None => true }, // #C28
@@bound Deserializer::parse_integer :: N: VpInt
@@fn Deserializer for &mut Deserializer::deserialize_i8 [C22,C21,C25]
  ensures match int_at(old(self).rest()) {
    Some((n, k)) => if i8::MIN <= n <= i8::MAX { visitor.got(Ev::I8(n as i8), okv(r)) && final(self).rest() == old(self).rest().skip(k as int) } else { r is Err },
    None => r is Err }, // #C22
    match int_at(old(self).rest()) {
    Some((n, k)) => if i8::MIN <= n <= i8::MAX { visitor.got(Ev::I8(n as i8), okv(r)) && final(self).rest() == old(self).rest().skip(k as int) } else { true },
    None => true }, // #C28
@@at begin :: Deserializer for &mut Deserializer::deserialize_i8
proof { lemma_int_is_item(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_i16 [C22,C21,C25]
  ensures match int_at(old(self).rest()) {
    Some((n, k)) => if i16::MIN <= n <= i16::MAX { visitor.got(Ev::I16(n as i16), okv(r)) && final(self).rest() == old(self).rest().skip(k as int) } else { r is Err },
    None => r is Err }, // #C22
    match int_at(old(self).rest()) {
    Some((n, k)) => if i16::MIN <= n <= i16::MAX { visitor.got(Ev::I16(n as i16), okv(r)) && final(self).rest() == old(self).rest().skip(k as int) } else { true },
    None => true }, // #C28
@@at begin :: Deserializer for &mut Deserializer::deserialize_i16
proof { lemma_int_is_item(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_i32 [C22,C21,C25]
  ensures match int_at(old(self).rest()) {
    Some((n, k)) => if i32::MIN <= n <= i32::MAX { visitor.got(Ev::I32(n as i32), okv(r)) && final(self).rest() == old(self).rest().skip(k as int) } else { r is Err },
    None => r is Err }, // #C22
    match int_at(old(self).rest()) {
    Some((n, k)) => if i32::MIN <= n <= i32::MAX { visitor.got(Ev::I32(n as i32), okv(r)) && final(self).rest() == old(self).rest().skip(k as int) } else { true },
    None => true }, // #C28
@@at begin :: Deserializer for &mut Deserializer::deserialize_i32
proof { lemma_int_is_item(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_i64 [C22,C21,C25]
  ensures match int_at(old(self).rest()) {
    Some((n, k)) => if i64::MIN <= n <= i64::MAX { visitor.got(Ev::I64(n as i64), okv(r)) && final(self).rest() == old(self).rest().skip(k as int) } else { r is Err },
    None => r is Err }, // #C22
    match int_at(old(self).rest()) {
    Some((n, k)) => if i64::MIN <= n <= i64::MAX { visitor.got(Ev::I64(n as i64), okv(r)) && final(self).rest() == old(self).rest().skip(k as int) } else { true },
    None => true }, // #C28
@@at begin :: Deserializer for &mut Deserializer::deserialize_i64
proof { lemma_int_is_item(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_u8 [C22,C21,C25]
  ensures match int_at(old(self).rest()) {
    Some((n, k)) => if u8::MIN <= n <= u8::MAX { visitor.got(Ev::U8(n as u8), okv(r)) && final(self).rest() == old(self).rest().skip(k as int) } else { r is Err },
    None => r is Err }, // #C22
    match int_at(old(self).rest()) {
    Some((n, k)) => if u8::MIN <= n <= u8::MAX { visitor.got(Ev::U8(n as u8), okv(r)) && final(self).rest() == old(self).rest().skip(k as int) } else { true },
    None => true }, // #C28
@@at begin :: Deserializer for &mut Deserializer::deserialize_u8
proof { lemma_int_is_item(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_u16 [C22,C21,C25]
  ensures match int_at(old(self).rest()) {
    Some((n, k)) => if u16::MIN <= n <= u16::MAX { visitor.got(Ev::U16(n as u16), okv(r)) && final(self).rest() == old(self).rest().skip(k as int) } else { r is Err },
    None => r is Err }, // #C22
    match int_at(old(self).rest()) {
    Some((n, k)) => if u16::MIN <= n <= u16::MAX { visitor.got(Ev::U16(n as u16), okv(r)) && final(self).rest() == old(self).rest().skip(k as int) } else { true },
    None => true }, // #C28
@@at begin :: Deserializer for &mut Deserializer::deserialize_u16
proof { lemma_int_is_item(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_u32 [C22,C21,C25]
  ensures match int_at(old(self).rest()) {
    Some((n, k)) => if u32::MIN <= n <= u32::MAX { visitor.got(Ev::U32(n as u32), okv(r)) && final(self).rest() == old(self).rest().skip(k as int) } else { r is Err },
    None => r is Err }, // #C22
    match int_at(old(self).rest()) {
    Some((n, k)) => if u32::MIN <= n <= u32::MAX { visitor.got(Ev::U32(n as u32), okv(r)) && final(self).rest() == old(self).rest().skip(k as int) } else { true },
    None => true }, // #C28
@@at begin :: Deserializer for &mut Deserializer::deserialize_u32
proof { lemma_int_is_item(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_u64 [C22,C21,C25]
  ensures match int_at(old(self).rest()) {
    Some((n, k)) => if u64::MIN <= n <= u64::MAX { visitor.got(Ev::U64(n as u64), okv(r)) && final(self).rest() == old(self).rest().skip(k as int) } else { r is Err },
    None => r is Err }, // #C22
    match int_at(old(self).rest()) {
    Some((n, k)) => if u64::MIN <= n <= u64::MAX { visitor.got(Ev::U64(n as u64), okv(r)) && final(self).rest() == old(self).rest().skip(k as int) } else { true },
    None => true }, // #C28
@@at begin :: Deserializer for &mut Deserializer::deserialize_u64
proof { lemma_int_is_item(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_f32 [C22,C21,C25]
  ensures match f32_at(old(self).rest()) {
    Some((f, k)) => visitor.got(Ev::F32(f), okv(r)) && final(self).rest() == old(self).rest().skip(k as int),
    None => r is Err }, // #C22
    match f32_at(old(self).rest()) {
    Some((f, k)) => visitor.got(Ev::F32(f), okv(r)) && final(self).rest() == old(self).rest().skip(k as int),
    None => true }, // #C28
@@at begin :: Deserializer for &mut Deserializer::deserialize_f32
proof { lemma_float_is_item(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_f64 [C22,C21,C25]
  ensures match f64_at(old(self).rest()) {
    Some((f, k)) => visitor.got(Ev::F64(f), okv(r)) && final(self).rest() == old(self).rest().skip(k as int),
    None => r is Err }, // #C22
    match f64_at(old(self).rest()) {
    Some((f, k)) => visitor.got(Ev::F64(f), okv(r)) && final(self).rest() == old(self).rest().skip(k as int),
    None => true }, // #C28
@@at begin :: Deserializer for &mut Deserializer::deserialize_f64
proof { lemma_float_is_item(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_bool [C26,C21,C25]
  ensures match bool_at(old(self).rest()) {
    Some(b) => visitor.got(Ev::Bool(b), okv(r)) && final(self).rest() == old(self).rest().skip(1),
    None => r is Err }, // #C26
    match bool_at(old(self).rest()) {
    Some(b) => visitor.got(Ev::Bool(b), okv(r)) && final(self).rest() == old(self).rest().skip(1),
    None => true }, // #C28
@@fn Deserializer for &mut Deserializer::deserialize_unit | Deserializer for &mut Deserializer::deserialize_unit_struct [C26,C21,C25]
  ensures
    if nil_at(old(self).rest()) { visitor.got(Ev::Unit, okv(r)) && final(self).rest() == old(self).rest().skip(1) } else { r is Err }, // #C26
    if nil_at(old(self).rest()) { visitor.got(Ev::Unit, okv(r)) && final(self).rest() == old(self).rest().skip(1) } else { true }, // #C28
@@fn Deserializer for &mut Deserializer::deserialize_char [C23,C21,C25]
  ensures match str_at(old(self).rest()) {
    Some((p, t)) => if vstd::utf8::decode_utf8(p).len() == 1 { visitor.got(Ev::Char(vstd::utf8::decode_utf8(p)[0]), okv(r)) && final(self).rest() == t } else { r is Err },
    None => r is Err }, // #C23
    match str_at(old(self).rest()) {
    Some((p, t)) => if vstd::utf8::decode_utf8(p).len() == 1 { visitor.got(Ev::Char(vstd::utf8::decode_utf8(p)[0]), okv(r)) && final(self).rest() == t } else { true },
    None => true }, // #C28
@@fn Deserializer for &mut Deserializer::deserialize_str | Deserializer for &mut Deserializer::deserialize_string [C23,C21,C25]
  ensures match str_at(old(self).rest()) {
    Some((p, t)) => visitor.got(Ev::BStr(p), okv(r)) && final(self).rest() == t,
    None => r is Err }, // #C23
    match str_at(old(self).rest()) {
    Some((p, t)) => visitor.got(Ev::BStr(p), okv(r)) && final(self).rest() == t,
    None => true }, // #C28
@@fn Deserializer for &mut Deserializer::deserialize_bytes | Deserializer for &mut Deserializer::deserialize_byte_buf [C23,C21,C25]
  ensures match bin_at(old(self).rest()) {
    Some((p, t)) => visitor.got(Ev::BBytes(p), okv(r)) && final(self).rest() == t,
    None => r is Err }, // #C23
    match bin_at(old(self).rest()) {
    Some((p, t)) => visitor.got(Ev::BBytes(p), okv(r)) && final(self).rest() == t,
    None => true }, // #C28
@@at begin :: Deserializer for &mut Deserializer::deserialize_char | Deserializer for &mut Deserializer::deserialize_str | Deserializer for &mut Deserializer::deserialize_string
proof { lemma_str_is_item(old(self).rest()); }
@@at begin :: Deserializer for &mut Deserializer::deserialize_bytes | Deserializer for &mut Deserializer::deserialize_byte_buf
proof { lemma_bin_is_item(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_option [C26,C21,C25]
  ensures
    nil_at(old(self).rest()) ==> visitor.got(Ev::None, okv(r)) && final(self).rest() == old(self).rest().skip(1), // #C26 #C28
    !nil_at(old(self).rest()) ==> if old(self).rest().len() > 0 { visitor.got(Ev::Some, okv(r)) } else { r is Err }, // #C26
    !nil_at(old(self).rest()) ==> if old(self).rest().len() > 0 { visitor.got(Ev::Some, okv(r)) } else { true }, // #C28
@@fn Deserializer for &mut Deserializer::deserialize_newtype_struct [C26,C21,C25]
  ensures visitor.got(Ev::Newtype, okv(r)), // #C26 #C28
@@fn Deserializer for &mut Deserializer::deserialize_seq | Deserializer for &mut Deserializer::deserialize_tuple | Deserializer for &mut Deserializer::deserialize_tuple_struct [C25,C21,C26]
  ensures match arr_hd(old(self).rest()) {
    Some((h, n)) => r is Ok ==> visitor.got(Ev::Seq, okv(r)) && skipn(old(self).rest().skip(h as int), n) == Sk::Rest(final(self).rest()),
    None => r is Err }, // #C25
    match arr_hd(old(self).rest()) {
    Some((h, n)) => r is Ok ==> visitor.got(Ev::Seq, okv(r)) && (!(skipn(old(self).rest().skip(h as int), n) is Rest) || skipn(old(self).rest().skip(h as int), n) == Sk::Rest(final(self).rest())),
    None => true }, // #C28
@@fn Deserializer for &mut Deserializer::deserialize_map [C25,C21,C26]
  ensures match map_hd(old(self).rest()) {
    Some((h, n)) => r is Ok ==> visitor.got(Ev::Map, okv(r)) && skipn(old(self).rest().skip(h as int), 2 * n) == Sk::Rest(final(self).rest()),
    None => r is Err }, // #C25
    match map_hd(old(self).rest()) {
    Some((h, n)) => r is Ok ==> visitor.got(Ev::Map, okv(r)) && (!(skipn(old(self).rest().skip(h as int), 2 * n) is Rest) || skipn(old(self).rest().skip(h as int), 2 * n) == Sk::Rest(final(self).rest())),
    None => true }, // #C28
@@fn Deserializer for &mut Deserializer::deserialize_struct [C25,C26,C21]
  ensures match (arr_hd(old(self).rest()), map_hd(old(self).rest())) {
    (Some((h, n)), _) => r is Ok ==> visitor.got(Ev::Seq, okv(r)) && skipn(old(self).rest().skip(h as int), n) == Sk::Rest(final(self).rest()),
    (None, Some((h, n))) => r is Ok ==> visitor.got(Ev::Map, okv(r)) && skipn(old(self).rest().skip(h as int), 2 * n) == Sk::Rest(final(self).rest()),
    _ => r is Err }, // #C25 #C26
    match (arr_hd(old(self).rest()), map_hd(old(self).rest())) {
    (Some((h, n)), _) => r is Ok ==> visitor.got(Ev::Seq, okv(r)) && (!(skipn(old(self).rest().skip(h as int), n) is Rest) || skipn(old(self).rest().skip(h as int), n) == Sk::Rest(final(self).rest())),
    (None, Some((h, n))) => r is Ok ==> visitor.got(Ev::Map, okv(r)) && (!(skipn(old(self).rest().skip(h as int), 2 * n) is Rest) || skipn(old(self).rest().skip(h as int), 2 * n) == Sk::Rest(final(self).rest())),
    _ => true }, // #C28
@@at begin :: Deserializer for &mut Deserializer::deserialize_seq | Deserializer for &mut Deserializer::deserialize_tuple | Deserializer for &mut Deserializer::deserialize_tuple_struct | Deserializer for &mut Deserializer::deserialize_map | Deserializer for &mut Deserializer::deserialize_struct
proof { lemma_hd_is_item(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_enum [C26,C25,C21]
  ensures old(self).rest().len() == 0 ==> r is Err, // #C26
    old(self).rest().len() > 0 ==> visitor.got(Ev::Enum, okv(r)), // #C26 #C28
@@at begin :: Deserializer for &mut Deserializer::deserialize_enum
proof { lemma_skipn_1(old(self).rest()); lemma_hd_is_item(old(self).rest()); assert(0x80u8 | 1 == 0x81) by (bit_vector); }
@@fn Deserializer for &mut Deserializer::deserialize_identifier [C26,C21,C25]
  ensures ({ let s = old(self).rest();
    if is_str(s) { match str_at(s) { Some((p, t)) => visitor.got(Ev::BStr(p), okv(r)) && final(self).rest() == t, None => r is Err } }
    else if is_uint(s) { match int_at(s) { Some((n, k)) => visitor.got(Ev::U32(n as u32), okv(r)) && final(self).rest() == s.skip(k as int), None => r is Err } }
    else { r is Err } }), // #C26
    ({ let s = old(self).rest();
    if is_str(s) { match str_at(s) { Some((p, t)) => visitor.got(Ev::BStr(p), okv(r)) && final(self).rest() == t, None => true } }
    else if is_uint(s) { match int_at(s) { Some((n, k)) => visitor.got(Ev::U32(n as u32), okv(r)) && final(self).rest() == s.skip(k as int), None => true } }
    else { true } }), // #C28
@@at begin :: Deserializer for &mut Deserializer::deserialize_identifier
proof { lemma_arg_bound(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_ignored_any [C24,C21,C25]
  ensures match skip1(old(self).rest()) {
    Sk::Rest(t) => visitor.got(Ev::Unit, okv(r)) && final(self).rest() == t,
    _ => r is Err }, // #C24
@@fn Deserializer for &mut Deserializer::deserialize_any [C26,C21,C25]
  ensures ({ let s = old(self).rest();
    if s.len() == 0 { r is Err } else {
      let c = s[0];
      if is_str(s) { match str_at(s) { Some((p, t)) => visitor.got(Ev::BStr(p), okv(r)) && final(self).rest() == t, None => r is Err } }
      else if is_bin(s) { match bin_at(s) { Some((p, t)) => visitor.got(Ev::BBytes(p), okv(r)) && final(self).rest() == t, None => r is Err } }
      else if is_arr(s) { r is Ok ==> visitor.got(Ev::Seq, okv(r)) && arr_hd(s) is Some }
      else if is_map(s) { r is Ok ==> visitor.got(Ev::Map, okv(r)) && map_hd(s) is Some }
      else if c == 0xc0 { visitor.got(Ev::Unit, okv(r)) }
      else if c == 0xc2 { visitor.got(Ev::Bool(false), okv(r)) }
      else if c == 0xc3 { visitor.got(Ev::Bool(true), okv(r)) }
      else if c == 0xca { match f32_at(s) { Some((f, k)) => visitor.got(Ev::F32(f), okv(r)), None => r is Err } }
      else if c == 0xcb { match f64_at(s) { Some((f, k)) => visitor.got(Ev::F64(f), okv(r)), None => r is Err } }
      else { match int_at(s) { Some((n, k)) => visitor.got(
          if c <= 0x7f || c == 0xcc { Ev::U8(n as u8) } else if c == 0xcd { Ev::U16(n as u16) } else if c == 0xce { Ev::U32(n as u32) } else if c == 0xcf { Ev::U64(n as u64) }
          else if c >= 0xe0 || c == 0xd0 { Ev::I8(n as i8) } else if c == 0xd1 { Ev::I16(n as i16) } else if c == 0xd2 { Ev::I32(n as i32) } else { Ev::I64(n as i64) }, okv(r)),
        None => r is Err } }
    } }), // #C26
@@at begin :: Deserializer for &mut Deserializer::deserialize_any
proof { lemma_arg_bound(old(self).rest()); }
@@fn CountingAccess::new [C25]
  ensures cnt(r.count) == count, *r.de == *old(de), *final(r.de) == *final(de), // #C25 #C28
@@fn SeqAccess for CountingAccess::next_element_seed [C25,C21]
  ensures
    ca_reach(*old(self), *final(self), r is Ok, 1), // #C25 #C28
    cnt(old(self).count) == 0 ==> r is Ok && r->Ok_0 is None && *final(self) == *old(self), // #C25 #C28
    cnt(old(self).count) > 0 ==> cnt(final(self).count) == cnt(old(self).count) - 1 && (r is Ok ==> r->Ok_0 is Some), // #C25 #C28
@@fn MapAccess for CountingAccess::next_key_seed [C25,C21]
  ensures
    final(self).de.wf(), is_suffix(final(self).de.rest(), old(self).de.rest()), *final(final(self).de) == *final(old(self).de), // #C21
    cnt(old(self).count) == 0 ==> r is Ok && r->Ok_0 is None && *final(self) == *old(self), // #C25 #C28
    cnt(old(self).count) > 0 ==> cnt(final(self).count) == cnt(old(self).count) - 1 && (r is Ok ==> r->Ok_0 is Some && skip1(old(self).de.rest()) == Sk::Rest(final(self).de.rest())), // #C25 #C28
@@fn MapAccess for CountingAccess::next_value_seed [C25,C21]
  ensures
    final(self).de.wf(), is_suffix(final(self).de.rest(), old(self).de.rest()), *final(final(self).de) == *final(old(self).de), // #C21
    final(self).count == old(self).count, // #C25 #C28
    r is Ok ==> skip1(old(self).de.rest()) == Sk::Rest(final(self).de.rest()), // #C25 #C28
@@at begin :: SeqAccess for CountingAccess::next_element_seed
proof { lemma_skipn_1(old(self).de.rest()); assert(skipn(old(self).de.rest(), 0) == Sk::Rest(old(self).de.rest())); }
@@impl SeqAccess for CountingAccess
  open spec fn s_pre(self) -> bool { self.de.wf() }
@@impl MapAccess for CountingAccess
  open spec fn s_map_pre(self) -> bool { self.de.wf() }
@@impl EnumAccess for UnitVariantAccess | EnumAccess for VariantAccess
  open spec fn s_pre(self) -> bool { self.de.wf() }
@@impl VariantAccess for UnitVariantAccess | VariantAccess for VariantAccess
  open spec fn s_var_pre(self) -> bool { self.de.wf() }
@@fn SeqAccess for CountingAccess::size_hint | MapAccess for CountingAccess::size_hint [C25]
  ensures r is Some ==> r->0 == cnt(self.count), // #C25 #C28
@@fn EnumAccess for UnitVariantAccess::variant_seed | EnumAccess for VariantAccess::variant_seed [C26,C25,C21]
  ensures
    r is Ok ==> one_msg(*old(self.de), *r->Ok_0.1.de, true) && *final(r->Ok_0.1.de) == *final(self.de), // #C26 #C25 #C28
    r is Err ==> final(self.de).wf() && is_suffix(final(self.de).rest(), old(self.de).rest()), // #C21
@@fn VariantAccess for UnitVariantAccess::unit_variant [C26,C21]
  ensures r is Ok, *final(self.de) == *old(self.de), // #C26 #C28
@@fn VariantAccess for UnitVariantAccess::newtype_variant_seed | VariantAccess for UnitVariantAccess::tuple_variant | VariantAccess for UnitVariantAccess::struct_variant | VariantAccess for VariantAccess::unit_variant [C26,C21]
  ensures r is Err, *final(self.de) == *old(self.de), // #C26
@@fn VariantAccess for VariantAccess::newtype_variant_seed [C26,C25,C21]
  ensures de_msgs(self.de, r is Ok, 1), // #C25 #C26 #C28
@@fn VariantAccess for VariantAccess::tuple_variant [C26,C25,C21]
  ensures de_msgs(self.de, r is Ok, 1), // #C25 #C26 #C28
    match arr_hd(old(self.de).rest()) { Some((h, n)) => r is Ok ==> visitor.got(Ev::Seq, okv(r)), None => r is Err }, // #C26
    match arr_hd(old(self.de).rest()) { Some((h, n)) => r is Ok ==> visitor.got(Ev::Seq, okv(r)), None => true }, // #C28
@@fn VariantAccess for VariantAccess::struct_variant [C26,C25,C21]
  ensures de_msgs(self.de, r is Ok, 1), // #C25 #C26 #C28
    match (arr_hd(old(self.de).rest()), map_hd(old(self.de).rest())) { (Some(_), _) => r is Ok ==> visitor.got(Ev::Seq, okv(r)), (None, Some(_)) => r is Ok ==> visitor.got(Ev::Map, okv(r)), _ => r is Err }, // #C26
    match (arr_hd(old(self.de).rest()), map_hd(old(self.de).rest())) { (Some(_), _) => r is Ok ==> visitor.got(Ev::Seq, okv(r)), (None, Some(_)) => r is Ok ==> visitor.got(Ev::Map, okv(r)), _ => true }, // #C28
@@at begin :: VariantAccess for VariantAccess::newtype_variant_seed | VariantAccess for VariantAccess::tuple_variant | VariantAccess for VariantAccess::struct_variant
proof { lemma_skipn_1(self.de.rest()); }
@@fn Deserializer for &mut Deserializer::is_human_readable [C26]
  ensures r == false, // #C26
@@fn from_slice [C25,C21]
  requires input@.len() <= isize::MAX,
  ensures r is Ok ==> r->Ok_0.1 <= input@.len() && skip1(input@) == Sk::Rest(input@.skip(r->Ok_0.1 as int)), // #C25 #C28
@@at end :: from_slice
proof { assert(input@.skip((input@.len() - tail_len) as int) =~= de.rest()); }
@@fn from_slice_split_tail [C25,C21]
  requires input@.len() <= isize::MAX,
  ensures r is Ok ==> skip1(input@) == Sk::Rest(r->Ok_0.1@), // #C25 #C28
@@rename MapAccess for CountingAccess::size_hint map_size_hint
