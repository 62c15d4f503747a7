@@include common.spec
@@include serde_ser.spec
@@include base64.spec
@@include json_fmt.spec
@@include json_gram.spec
@@module ser
@@drop StdError for Error
@@drop Error for Error
@@drop Display for Error
@@subst-path Vec::new=>VpVec::vp_new
@@subst-path String::from_utf8_unchecked=>vp_from_utf8_unchecked
@@subst-path String::from_utf8=>vp_string_from_utf8
@@subst-fn encode_utf8=>vp_encode_utf8
@@subst-path ryu_js::Buffer::new=>VpRyu::new
@@subst-method end/0=>end_seq
@@subst-method is_finite/0=>vp_is_finite
@@subst-method is_nan/0=>vp_is_nan
@@subst-method is_infinite/0=>vp_is_infinite
@@prelude
use core::marker::PhantomData; use vstd::utf8::*; use vstd::float::*;
pub use vp_jss::*; pub use vp_jg::*;
pub mod vp_jss {
use super::vp_base::*; use super::vp_ser::*; use super::vp_b64::*; use super::vp_js::*; use super::vp_jg::*;
use vstd::prelude::*; use vstd::string::*; use vstd::utf8::*; use vstd::float::*;
pub type MaybeUninit<T> = T;
/// an uninitialised array: nothing is known about its content, so whatever is read from it before being written cannot meet a contract on values
#[verifier::external_body] pub fn vp_uninit_array<T, const N: usize>() -> (r: [T; N]) { unimplemented!() }
#[verifier::external_body] pub fn vp_encode_utf8<'a>(c: char, b: &'a mut [u8; 4]) -> (r: &'a str)
  ensures r.spec_bytes() == encode_utf8(seq![c]), 1 <= r.spec_bytes().len() <= 4 { unimplemented!() }
/// &s[a..b] of a str: panics unless both ends are character boundaries
#[verifier::external_body] pub fn vp_str_slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
  requires a <= b <= s.spec_bytes().len(), is_char_boundary(s.spec_bytes(), a as int), is_char_boundary(s.spec_bytes(), b as int)
  ensures r.spec_bytes() == s.spec_bytes().subrange(a as int, b as int) { &s[a..b] }
#[verifier::external_body] pub fn vp_str_len(s: &str) -> (r: usize) ensures r == s.spec_bytes().len() { s.len() }
pub trait VpFloat: Sized {
  spec fn fin(self) -> bool; spec fn nan(self) -> bool;
  fn vp_is_finite(self) -> (r: bool) ensures r == self.fin();
  fn vp_is_nan(self) -> (r: bool) ensures r == self.nan();
  fn vp_is_infinite(self) -> (r: bool) ensures r == (!self.fin() && !self.nan());
}
impl VpFloat for f32 {
  open spec fn fin(self) -> bool { self.is_finite_spec() } open spec fn nan(self) -> bool { self.is_nan_spec() }
  #[verifier::external_body] fn vp_is_finite(self) -> (r: bool) { self.is_finite() } #[verifier::external_body] fn vp_is_nan(self) -> (r: bool) { self.is_nan() } #[verifier::external_body] fn vp_is_infinite(self) -> (r: bool) { self.is_infinite() }
}
impl VpFloat for f64 {
  open spec fn fin(self) -> bool { self.is_finite_spec() } open spec fn nan(self) -> bool { self.is_nan_spec() }
  #[verifier::external_body] fn vp_is_finite(self) -> (r: bool) { self.is_finite() } #[verifier::external_body] fn vp_is_nan(self) -> (r: bool) { self.is_nan() } #[verifier::external_body] fn vp_is_infinite(self) -> (r: bool) { self.is_infinite() }
}
/// ryu_js: the text of a finite float is a JSON number (assumed: the crate is a dependency)
pub struct VpRyu;
impl VpRyu {
  pub fn new() -> Self { VpRyu }
  #[verifier::external_body] pub fn format_finite<F: VpFloat>(&mut self, v: F) -> (r: &str) requires v.fin() ensures jnum(r.spec_bytes()), vstd::string::is_ascii(r) { unimplemented!() }
}
/// what a writer handle has passed on when it is released (a handle is only ever used through its own methods: assumed at its release)
pub uninterp spec fn last<W>(w: W) -> Seq<u8>;
pub enum SerError { BufferFull, Other }
/// a Vec<u8> as a writer: accepts everything it is given unless memory runs out
pub struct VpVec { pub v: Vec<u8>, pub ok: bool }
impl VpVec { pub fn vp_new() -> (r: VpVec) ensures r.v@.len() == 0, r.ok { VpVec { v: Vec::new(), ok: true } } }
impl<'x> SerWrite for &'x mut VpVec {
  type Error = SerError;
  open spec fn view(&self) -> Seq<u8> { self.v@ }
  open spec fn alive(&self) -> bool { self.ok }
  #[verifier::external_body] fn write(&mut self, buf: &[u8]) -> (r: core::result::Result<(), SerError>) { unimplemented!() }
  #[verifier::external_body] fn write_byte(&mut self, byte: u8) -> (r: core::result::Result<(), SerError>) { unimplemented!() }
  #[verifier::external_body] fn write_str(&mut self, s: &str) -> (r: core::result::Result<(), SerError>) { unimplemented!() }
}
pub broadcast axiom fn axiom_last_vec(w: &mut VpVec) ensures #[trigger] last(w) == final(w).v@;
/// String::from_utf8_unchecked
#[verifier::external_body] pub fn vp_from_utf8_unchecked(v: VpVec) -> (r: String) requires valid_utf8(v.v@) ensures encode_utf8(r@) == v.v@ { unimplemented!() }
#[verifier::external_body] pub fn vp_string_from_utf8(v: VpVec) -> (r: core::result::Result<String, ()>) ensures r is Ok <==> valid_utf8(v.v@), r is Ok ==> encode_utf8(r->Ok_0@) == v.v@ { unimplemented!() }
pub proof fn lemma_hexbits(c: u8) ensures c >> 4 == c / 16, c & 0x0f == c % 16
{ assert(c >> 4 == c / 16) by (bit_vector); assert(c & 0x0f == c % 16) by (bit_vector); }
// ---------------------------------------------------------------- compound values
/// what stands before an element: nothing or a comma
pub open spec fn sep_ok(a: Seq<u8>, first: bool) -> bool { first || (a.len() >= 1 && a[0] == 44) }
/// the element itself
pub open spec fn sep_x(a: Seq<u8>, first: bool) -> Seq<u8> { if first { a } else { a.skip(1) } }
/// "key":value
pub open spec fn field_ok(x: Seq<u8>, key: Seq<u8>) -> bool { let k = quoted(key).len() as int; x.len() > k && x.take(k) == quoted(key) && x[k] == 58 && jone(x.skip(k + 1)) }
pub proof fn lemma_field_ent(x: Seq<u8>, key: Seq<u8>) requires field_ok(x, key), valid_utf8(key) ensures jent(x)
{ let k = quoted(key).len() as int; lemma_quoted_jstr(key); lemma_jent(x.take(k), x.skip(k + 1)); assert(x =~= x.take(k) + seq![58u8] + x.skip(k + 1)); }
pub proof fn lemma_sep(a: Seq<u8>, first: bool) requires sep_ok(a, first) ensures a == (if first { Seq::<u8>::empty() } else { seq![44u8] }) + sep_x(a, first)
{ assert(a =~= (if first { Seq::<u8>::empty() } else { seq![44u8] }) + sep_x(a, first)); }
/// pieces of a field: separator, key, colon, value
pub proof fn lemma_field_pieces(s: Seq<u8>, first: bool, key: Seq<u8>, v: Seq<u8>) requires s == (if first { Seq::<u8>::empty() } else { seq![44u8] }), jone(v)
  ensures ({ let a = s + quoted(key) + seq![58u8] + v; sep_ok(a, first) && field_ok(sep_x(a, first), key) })
{ let a = s + quoted(key) + seq![58u8] + v; let x = sep_x(a, first); assert(x =~= quoted(key) + seq![58u8] + v); let k = quoted(key).len() as int; assert(x.take(k) =~= quoted(key)); assert(x.skip(k + 1) =~= v); }
pub broadcast group group_jss { axiom_str_size, axiom_slice_size, axiom_last_vec, group_ext, lemma_ext3, lemma_jone_leaf, lemma_quoted_jstr }
} // vp_jss
broadcast use group_jss;
impl<E> vstd::std_specs::convert::FromSpecImpl<E> for Error<E> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: E) -> Self { Error::Writer(e) } }
pub open spec fn said(a: Seq<u8>, ev: SEv) -> bool { match ev { SEv::Any => true, SEv::Str(b) => a == quoted(b), SEv::U8(n) => a == dec(n as nat) } }
impl<'r, W: SerWrite, B: ByteEncoder> SerHandle for &'r mut Serializer<W, B> {
  type HOk = (); type HErr = Error<W::Error>;
  open spec fn h_pre(self) -> bool { self.output.alive() }
  #[verifier::prophetic] open spec fn h_post(self, ok: bool) -> bool { ok ==> final(self).output.alive() && ext(self.output.view(), final(self).output.view()) && jone(added(self.output.view(), final(self).output.view())) }
  open spec fn h_bytes(self, v: Seq<u8>) -> bool { B::fine(v) }
  #[verifier::prophetic] open spec fn h_said(self, ev: SEv) -> bool { said(added(self.output.view(), final(self).output.view()), ev) }
  open spec fn h_fl() -> int { B::fl() }
  #[verifier::prophetic] open spec fn h_text(self) -> Seq<u8> { added(self.output.view(), final(self).output.view()) }
}
impl<'r, W: SerWrite, B: ByteEncoder> SerHandle for KeySer<'r, W, B> {
  type HOk = (); type HErr = Error<W::Error>;
  open spec fn h_pre(self) -> bool { self.ser.output.alive() }
  #[verifier::prophetic] open spec fn h_post(self, ok: bool) -> bool { ok ==> final(self.ser).output.alive() && ext(self.ser.output.view(), final(self.ser).output.view()) && is_jstr(added(self.ser.output.view(), final(self.ser).output.view())) }
  open spec fn h_bytes(self, v: Seq<u8>) -> bool { true }
  #[verifier::prophetic] open spec fn h_said(self, ev: SEv) -> bool { match ev { SEv::Str(b) => added(self.ser.output.view(), final(self.ser).output.view()) == quoted(b), _ => true } }
  open spec fn h_fl() -> int { 10 }
  #[verifier::prophetic] open spec fn h_text(self) -> Seq<u8> { added(self.ser.output.view(), final(self.ser).output.view()) }
}
@@impl ByteEncoder
  /// the text of a byte string
  spec fn enc(v: Seq<u8>) -> Seq<u8>;
  /// the byte strings whose text is a JSON value (for pass-through: the fragments that are JSON values themselves)
  spec fn fine(v: Seq<u8>) -> bool;
  /// the format it stands for
  spec fn fl() -> int;
@@impl ByteEncoder for ArrayByteEncoder
  open spec fn fl() -> int { 0 }
  open spec fn enc(v: Seq<u8>) -> Seq<u8> { arr_text(v) }
  open spec fn fine(v: Seq<u8>) -> bool { true }
@@impl ByteEncoder for HexStrByteEncoder
  open spec fn fl() -> int { 1 }
  open spec fn enc(v: Seq<u8>) -> Seq<u8> { hex_text(v) }
  open spec fn fine(v: Seq<u8>) -> bool { true }
@@impl ByteEncoder for Base64ByteEncoder
  open spec fn fl() -> int { 2 }
  open spec fn enc(v: Seq<u8>) -> Seq<u8> { b64_text(v) }
  open spec fn fine(v: Seq<u8>) -> bool { true }
@@impl ByteEncoder for PassThroughByteEncoder
  open spec fn fl() -> int { 3 }
  open spec fn enc(v: Seq<u8>) -> Seq<u8> { v }
  open spec fn fine(v: Seq<u8>) -> bool { jone(v) }

@@fn to_writer_with_encoder [C06,C08,C09]
  requires writer.alive(),
  ensures r is Ok ==> ext(writer.view(), last(writer)) && jone(added(writer.view(), last(writer))), // #C06
    r is Ok ==> ser_text(value, B::fl(), added(writer.view(), last(writer))), // #C06 #C08
@@at tail :: to_writer_with_encoder
proof { assume(last(writer) == serializer.output.view()); }
@@fn to_writer [C06,C08,C09]
  requires writer.alive(),
  ensures r is Ok ==> jone(added(writer.view(), last(writer))), // #C06
    r is Ok ==> ext(writer.view(), last(writer)) && ser_text(value, 0, added(writer.view(), last(writer))), // #C06 #C08
@@fn to_string [C06,C05,C08]
  ensures r is Ok ==> jone(encode_utf8(r->Ok_0@)), // #C06
    r is Ok ==> ser_text(value, 0, encode_utf8(r->Ok_0@)), // #C06 #C08
@@at end :: to_string
proof { assert(vec.v@ =~= added(Seq::<u8>::empty(), vec.v@)) by { reveal(added); } lemma_jone_utf8(vec.v@); }
@@fn to_writer_hex_bytes [C06,C08,C09]
  requires writer.alive(),
  ensures r is Ok ==> jone(added(writer.view(), last(writer))), // #C06
    r is Ok ==> ext(writer.view(), last(writer)) && ser_text(value, 1, added(writer.view(), last(writer))), // #C06 #C08
@@fn to_string_hex_bytes [C06,C05,C08]
  ensures r is Ok ==> jone(encode_utf8(r->Ok_0@)), // #C06
    r is Ok ==> ser_text(value, 1, encode_utf8(r->Ok_0@)), // #C06 #C08
@@at end :: to_string_hex_bytes
proof { assert(vec.v@ =~= added(Seq::<u8>::empty(), vec.v@)) by { reveal(added); } lemma_jone_utf8(vec.v@); }
@@fn to_writer_base64_bytes [C06,C08,C09]
  requires writer.alive(),
  ensures r is Ok ==> jone(added(writer.view(), last(writer))), // #C06
    r is Ok ==> ext(writer.view(), last(writer)) && ser_text(value, 2, added(writer.view(), last(writer))), // #C06 #C08
@@fn to_string_base64_bytes [C06,C05,C08]
  ensures r is Ok ==> jone(encode_utf8(r->Ok_0@)), // #C06
    r is Ok ==> ser_text(value, 2, encode_utf8(r->Ok_0@)), // #C06 #C08
@@at end :: to_string_base64_bytes
proof { assert(vec.v@ =~= added(Seq::<u8>::empty(), vec.v@)) by { reveal(added); } lemma_jone_utf8(vec.v@); }
@@fn to_writer_pass_bytes [C06,C08,C09]
  requires writer.alive(),
  ensures true,
    r is Ok ==> ext(writer.view(), last(writer)) && ser_text(value, 3, added(writer.view(), last(writer))), // #C06 #C08
@@fn to_string_pass_bytes [C06,C05,C08]
  ensures r is Ok ==> ser_text(value, 3, encode_utf8(r->Ok_0@)), // #C06 #C08
@@at end :: to_string_pass_bytes
proof { assert(vec.v@ =~= added(Seq::<u8>::empty(), vec.v@)) by { reveal(added); } }
@@fn Serializer::new
  ensures r.output == output,
@@fn Serializer::into_inner
  ensures r == self.output,
@@fn Serializer::writer
  ensures *r == old(self).output, final(self).output == *final(r),
@@fn Serializer::writer_ref
  ensures *r == self.output,
@@fn hex [C05,C08]
  ensures r@ == hex2(c), // #C05 #C08
@@at begin :: hex
proof { lemma_hexbits(c); }
@@at tail :: hex
proof { assert(vp_r@ =~= hex2(c)); }
@@fn Serializer::serialize_bytes_as_hex_str [C08,C09,C27]
  requires old(self).output.alive(),
  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view()) && added(old(self).output.view(), final(self).output.view()) == hexs(v@), // #C08 #C27
    r is Err ==> !final(self).output.alive(), // #C08 #C27 #C09
    ext(old(self).output.view(), final(self).output.view()), // #C09
@@at begin :: Serializer::serialize_bytes_as_hex_str
let ghost vp_o = self.output.view(); let ghost vp_w0 = self.output; let ghost mut vp_j = 0int;
proof { assert(ext(vp_o, vp_o)); assert(hexs(v@.take(0)) =~= Seq::<u8>::empty()); }
@@at beforeloop 0 :: Serializer::serialize_bytes_as_hex_str
let ghost vp_wr = writer;
@@loop Serializer::serialize_bytes_as_hex_str 0
  invariant writer.alive(), ext(vp_o, writer.view()), vp_s0@ == v@, added(vp_o, writer.view()) == hexs(v@.take(vp_i0 as int)), *final(vp_wr) == *final(writer),
  decreases vp_s0@.len() - vp_i0
@@at loopbegin 0 :: Serializer::serialize_bytes_as_hex_str
let ghost vp_m = writer.view();
proof { assert(v@.take(vp_i0 as int).drop_last() =~= v@.take(vp_i0 - 1)); }
@@at afterloop 0 :: Serializer::serialize_bytes_as_hex_str
proof { assert(v@.take(v@.len() as int) =~= v@); }
@@fn format_escaped_str_contents [C05,C06,C09,C27]
  requires old(writer).alive(),
  ensures r is Ok ==> final(writer).alive() && ext(old(writer).view(), final(writer).view()) && added(old(writer).view(), final(writer).view()) == esc(value.spec_bytes()), // #C05 #C27
    r is Err ==> !final(writer).alive(), // #C05 #C09
    ext(old(writer).view(), final(writer).view()), // #C09
@@at begin :: format_escaped_str_contents
let ghost vp_o = writer.view(); let ghost vp_b = value.spec_bytes();
proof { lemma_boundary_ends(vp_b); lemma_esc_empty(); assert(vp_b.take(0) =~= Seq::<u8>::empty()); assert forall|k: int| 0 <= k < 32 implies e1(k as u8) == (if #[trigger] vp_tab_ESCAPE(k) == 117 { seq![92u8, 117u8, 48u8, 48u8] + hex2(k as u8) } else { seq![92u8, vp_tab_ESCAPE(k)] }) by { assert(e1(k as u8) =~= (if vp_tab_ESCAPE(k) == 117 { seq![92u8, 117u8, 48u8, 48u8] + hex2(k as u8) } else { seq![92u8, vp_tab_ESCAPE(k)] })); } }
@@loop format_escaped_str_contents 0
  invariant writer.alive(), ext(vp_o, writer.view()), vp_b == value.spec_bytes(), valid_utf8(vp_b), vp_s0@ == vp_b, bytes@ == vp_b, start <= vp_i0, is_char_boundary(vp_b, start as int), vp_o == old(writer).view(),
    added(vp_o, writer.view()) == esc(vp_b.take(start as int)), forall|k: int| start <= k < vp_i0 ==> plain1(#[trigger] vp_b[k]), vp_b.len() <= isize::MAX,
    forall|k: int| 0 <= k < 32 ==> e1(k as u8) == (if #[trigger] vp_tab_ESCAPE(k) == 117 { seq![92u8, 117u8, 48u8, 48u8] + hex2(k as u8) } else { seq![92u8, vp_tab_ESCAPE(k)] }),
  decreases vp_s0@.len() - vp_i0
@@at loopbegin 0 :: format_escaped_str_contents
let ghost vp_m = writer.view(); let ghost vp_st = start as int; let ghost vp_k = vp_i0 - 1;
proof { lemma_hexbits(vp_b[vp_k]); lemma_esc_step(vp_b, vp_st, vp_k); if vp_b[vp_k] < 0x80 { lemma_boundary(vp_b, vp_k); } assert(vp_st == vp_k ==> vp_b.subrange(vp_st, vp_k) =~= Seq::<u8>::empty()); assert(vp_b[vp_k] == 34 || vp_b[vp_k] == 92 ==> e1(vp_b[vp_k]) =~= seq![92u8, vp_b[vp_k]]); }
@@at loopend 0 :: format_escaped_str_contents
proof { let x = added(vp_m, writer.view()); assert(x =~= vp_b.subrange(vp_st, vp_k) + e1(vp_b[vp_k])); assert(added(vp_o, writer.view()) =~= esc(vp_b.take(vp_st)) + x); assert(esc(vp_b.take(vp_st)) + x =~= esc(vp_b.take(vp_st)) + vp_b.subrange(vp_st, vp_k) + e1(vp_b[vp_k])); }
@@at afterloop 0 :: format_escaped_str_contents
proof { let n = vp_b.len() as int; lemma_esc_step(vp_b, start as int, n); assert(vp_b.take(n) =~= vp_b); assert(start == n ==> vp_b.subrange(start as int, n) =~= Seq::<u8>::empty()); }

@@fn ByteEncoder::serialize_bytes
  requires old(ser).output.alive(),
  ensures r is Ok ==> final(ser).output.alive() && ext(old(ser).output.view(), final(ser).output.view()) && added(old(ser).output.view(), final(ser).output.view()) == Self::enc(v@) && (Self::fine(v@) ==> jone(added(old(ser).output.view(), final(ser).output.view()))), // #C08 #C06 #C27

@@fn ByteEncoder for ArrayByteEncoder::serialize_bytes [C08,C06,C09,C27]
@@fn ByteEncoder for HexStrByteEncoder::serialize_bytes [C08,C06,C09,C27]
  ensures r is Err ==> !final(ser).output.alive(), ext(old(ser).output.view(), final(ser).output.view()), // #C08 #C09
@@at tail :: ByteEncoder for HexStrByteEncoder::serialize_bytes
proof { if vp_r is Ok { let a = added(old(ser).output.view(), ser.output.view()); lemma_hexs_plain(v@); lemma_plain_quoted(hexs(v@)); assert(a =~= hex_text(v@)); } }
@@fn ByteEncoder for Base64ByteEncoder::serialize_bytes [C08,C06,C09,C27]
  ensures r is Err ==> !final(ser).output.alive(), ext(old(ser).output.view(), final(ser).output.view()), // #C08 #C09
@@at tail :: ByteEncoder for Base64ByteEncoder::serialize_bytes
proof { if vp_r is Ok { let a = added(old(ser).output.view(), ser.output.view()); lemma_b64_plain(v@); lemma_plain_quoted(b64(v@)); assert(a =~= b64_text(v@)); } }
@@fn ByteEncoder for PassThroughByteEncoder::serialize_bytes [C08,C06,C09,C27]
  ensures r is Err ==> !final(ser).output.alive(), ext(old(ser).output.view(), final(ser).output.view()), // #C08 #C09
@@outline ByteEncoder for ArrayByteEncoder::serialize_bytes :: ByteEncoder::serialize_bytes
@@attr ByteEncoder for ArrayByteEncoder::serialize_bytes :: #[verifier::exec_allows_no_decreases_clause]
@@at begin :: ByteEncoder for ArrayByteEncoder::serialize_bytes
let ghost vp_o = ser.output.view(); let ghost mut vp_m = vp_o; let ghost mut vp_n = vp_o;
proof { assert(alist(v@.take(0)) =~= Seq::<u8>::empty()); }
@@at beforeloop 0 :: ByteEncoder for ArrayByteEncoder::serialize_bytes
let ghost vp_seq0 = seq; proof { vp_m = seq.ser.output.view(); assert(ext(vp_m, vp_m)); }
@@loop ByteEncoder for ArrayByteEncoder::serialize_bytes 0
  invariant seq.ser.output.alive(), ext(vp_o, vp_m), added(vp_o, vp_m) == seq![91u8], ext(vp_m, seq.ser.output.view()), vp_s0@ == v@, added(vp_m, seq.ser.output.view()) == alist(v@.take(vp_i0 as int)), *final(vp_seq0.ser) == *final(seq.ser), seq.first == (vp_i0 == 0), vp_o == old(ser).output.view(),
  decreases vp_s0@.len() - vp_i0
@@at loopbegin 0 :: ByteEncoder for ArrayByteEncoder::serialize_bytes
let ghost vp_k = seq.ser.output.view();
@@at loopend 0 :: ByteEncoder for ArrayByteEncoder::serialize_bytes
proof { let i = vp_i0 - 1; let a = added(vp_k, seq.ser.output.view()); assert(v@.take(vp_i0 as int).drop_last() =~= v@.take(i)); lemma_sep(a, i == 0); assert(added(vp_m, seq.ser.output.view()) =~= added(vp_m, vp_k) + a); assert(alist(v@.take(i)) + comma(i as nat) + dec(v@[i] as nat) =~= alist(v@.take(i)) + a); }
@@at afterloop 0 :: ByteEncoder for ArrayByteEncoder::serialize_bytes
proof { assert(v@.take(v@.len() as int) =~= v@); vp_n = seq.ser.output.view(); lemma_alist_jlist(v@); lemma_arr(alist(v@), v@.len()); }
@@at tail :: ByteEncoder for ArrayByteEncoder::serialize_bytes
proof { if vp_r is Ok { let z = final(ser).output.view(); lemma_ext3(vp_o, vp_m, vp_n, z); assert(added(vp_o, z) =~= arr_text(v@)); } }

@@impl Serializer for &mut Serializer

@@fn Serializer for &mut Serializer::serialize_bool [C06,C27,C09]
  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view()) && added(old(self).output.view(), final(self).output.view()) == (if v { seq![116u8, 114u8, 117u8, 101u8] } else { seq![102u8, 97u8, 108u8, 115u8, 101u8] }), // #C06 #C27
    r is Err ==> !final(self).output.alive(), // #C06 #C27 #C09
    ext(old(self).output.view(), final(self).output.view()), // #C09
@@at tail :: Serializer for &mut Serializer::serialize_bool
proof { if vp_r is Ok { assert(added(old(self).output.view(), self.output.view()) =~= (if v { seq![116u8, 114u8, 117u8, 101u8] } else { seq![102u8, 97u8, 108u8, 115u8, 101u8] })); } }
@@fn Serializer for &mut Serializer::serialize_none [C06,C27,C09]
  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view()) && added(old(self).output.view(), final(self).output.view()) == seq![110u8, 117u8, 108u8, 108u8], // #C06 #C27
    r is Err ==> !final(self).output.alive(), // #C06 #C27 #C09
    ext(old(self).output.view(), final(self).output.view()), // #C09
@@fn Serializer for &mut Serializer::serialize_unit [C06,C27,C09]
  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view()) && added(old(self).output.view(), final(self).output.view()) == seq![110u8, 117u8, 108u8, 108u8], // #C06 #C27
    r is Err ==> !final(self).output.alive(), // #C06 #C27 #C09
    ext(old(self).output.view(), final(self).output.view()), // #C09
@@at tail :: Serializer for &mut Serializer::serialize_none
proof { if vp_r is Ok { assert(added(old(self).output.view(), self.output.view()) =~= seq![110u8, 117u8, 108u8, 108u8]); } }
@@fn Serializer for &mut Serializer::serialize_unit_struct [C06,C27,C09]
  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view()) && added(old(self).output.view(), final(self).output.view()) == seq![110u8, 117u8, 108u8, 108u8], // #C06 #C27
    r is Err ==> !final(self).output.alive(), // #C06 #C27 #C09
    ext(old(self).output.view(), final(self).output.view()), // #C09
@@fn Serializer for &mut Serializer::serialize_i8 [C04,C27,C09]
  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view()) && added(old(self).output.view(), final(self).output.view()) == idec(v as int), // #C04 #C27
    r is Err ==> !final(self).output.alive(), // #C04 #C27 #C09
    ext(old(self).output.view(), final(self).output.view()), // #C09
@@at begin :: Serializer for &mut Serializer::serialize_i8
let ghost vp_v = v as int; proof { lemma_idec_num(vp_v); }
@@fn Serializer for &mut Serializer::serialize_i16 [C04,C27,C09]
  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view()) && added(old(self).output.view(), final(self).output.view()) == idec(v as int), // #C04 #C27
    r is Err ==> !final(self).output.alive(), // #C04 #C27 #C09
    ext(old(self).output.view(), final(self).output.view()), // #C09
@@at begin :: Serializer for &mut Serializer::serialize_i16
let ghost vp_v = v as int; proof { lemma_idec_num(vp_v); }
@@fn Serializer for &mut Serializer::serialize_i32 [C04,C27,C09]
  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view()) && added(old(self).output.view(), final(self).output.view()) == idec(v as int), // #C04 #C27
    r is Err ==> !final(self).output.alive(), // #C04 #C27 #C09
    ext(old(self).output.view(), final(self).output.view()), // #C09
@@at begin :: Serializer for &mut Serializer::serialize_i32
let ghost vp_v = v as int; proof { lemma_idec_num(vp_v); }
@@fn Serializer for &mut Serializer::serialize_i64 [C04,C27,C09]
  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view()) && added(old(self).output.view(), final(self).output.view()) == idec(v as int), // #C04 #C27
    r is Err ==> !final(self).output.alive(), // #C04 #C27 #C09
    ext(old(self).output.view(), final(self).output.view()), // #C09
@@at begin :: Serializer for &mut Serializer::serialize_i64
let ghost vp_v = v as int; proof { lemma_idec_num(vp_v); }
@@fn Serializer for &mut Serializer::serialize_u8 [C04,C27,C09]
  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view()) && added(old(self).output.view(), final(self).output.view()) == idec(v as int), // #C04 #C27
    r is Err ==> !final(self).output.alive(), // #C04 #C27 #C09
    ext(old(self).output.view(), final(self).output.view()), // #C09
@@at begin :: Serializer for &mut Serializer::serialize_u8
let ghost vp_v = v as int; proof { lemma_idec_num(vp_v); }
@@fn Serializer for &mut Serializer::serialize_u16 [C04,C27,C09]
  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view()) && added(old(self).output.view(), final(self).output.view()) == idec(v as int), // #C04 #C27
    r is Err ==> !final(self).output.alive(), // #C04 #C27 #C09
    ext(old(self).output.view(), final(self).output.view()), // #C09
@@at begin :: Serializer for &mut Serializer::serialize_u16
let ghost vp_v = v as int; proof { lemma_idec_num(vp_v); }
@@fn Serializer for &mut Serializer::serialize_u32 [C04,C27,C09]
  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view()) && added(old(self).output.view(), final(self).output.view()) == idec(v as int), // #C04 #C27
    r is Err ==> !final(self).output.alive(), // #C04 #C27 #C09
    ext(old(self).output.view(), final(self).output.view()), // #C09
@@at begin :: Serializer for &mut Serializer::serialize_u32
let ghost vp_v = v as int; proof { lemma_idec_num(vp_v); }
@@fn Serializer for &mut Serializer::serialize_u64 [C04,C27,C09]
  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view()) && added(old(self).output.view(), final(self).output.view()) == idec(v as int), // #C04 #C27
    r is Err ==> !final(self).output.alive(), // #C04 #C27 #C09
    ext(old(self).output.view(), final(self).output.view()), // #C09
@@at begin :: Serializer for &mut Serializer::serialize_u64
let ghost vp_v = v as int; proof { lemma_idec_num(vp_v); }
@@at beforeloop 0 :: Serializer for &mut Serializer::serialize_u32
proof { assert(pow10(10) == 10000000000nat) by (compute); assert(buf@.skip(i + 1) =~= Seq::<u8>::empty()); assert(dec(v as nat) + buf@.skip(i + 1) =~= dec(v as nat)); }
@@loop Serializer for &mut Serializer::serialize_u32 0
  invariant_except_break i < 10, v < pow10((i + 1) as nat), dec(vp_v as nat) == dec(v as nat) + buf@.skip(i + 1), 0 <= vp_v,
  invariant *self == *old(self),
  ensures i < 10, dec(vp_v as nat) == buf@.skip(i as int), 0 <= vp_v,
  decreases v
@@at loopbegin 0 :: Serializer for &mut Serializer::serialize_u32
proof { lemma_dec_step(v as nat, buf@, buf@.update(i as int, (48 + v % 10) as u8), i as int); assert(pow10((i + 1) as nat) == 10 * pow10(i as nat)); assert(pow10(0) == 1); }

@@at beforeloop 0 :: Serializer for &mut Serializer::serialize_u64
proof { assert(pow10(20) == 100000000000000000000nat) by (compute); assert(buf@.skip(i + 1) =~= Seq::<u8>::empty()); assert(dec(v as nat) + buf@.skip(i + 1) =~= dec(v as nat)); }
@@loop Serializer for &mut Serializer::serialize_u64 0
  invariant_except_break i < 20, v < pow10((i + 1) as nat), dec(vp_v as nat) == dec(v as nat) + buf@.skip(i + 1), 0 <= vp_v,
  invariant *self == *old(self),
  ensures i < 20, dec(vp_v as nat) == buf@.skip(i as int), 0 <= vp_v,
  decreases v
@@at loopbegin 0 :: Serializer for &mut Serializer::serialize_u64
proof { lemma_dec_step(v as nat, buf@, buf@.update(i as int, (48 + v % 10) as u8), i as int); assert(pow10((i + 1) as nat) == 10 * pow10(i as nat)); assert(pow10(0) == 1); }

@@at beforeloop 0 :: Serializer for &mut Serializer::serialize_i32
let ghost vp_a = v as nat;
proof { assert(pow10(10) == 10000000000nat) by (compute); assert(vp_a == (if vp_v < 0 { -vp_v } else { vp_v })); assert(buf@.skip(i + 1) =~= Seq::<u8>::empty()); assert(dec(v as nat) + buf@.skip(i + 1) =~= dec(v as nat)); }
@@loop Serializer for &mut Serializer::serialize_i32 0
  invariant_except_break 1 <= i < 11, v < pow10(i as nat), dec(vp_a) == dec(v as nat) + buf@.skip(i + 1),
  invariant *self == *old(self), signed == (vp_v < 0),
  ensures i < 10, dec(vp_a) == buf@.skip(i + 1),
  decreases v
@@at loopbegin 0 :: Serializer for &mut Serializer::serialize_i32
proof { lemma_dec_step(v as nat, buf@, buf@.update(i as int, (48 + v % 10) as u8), i as int); assert(pow10(i as nat) == 10 * pow10((i - 1) as nat)); assert(pow10(0) == 1); }
@@at afterloop 0 :: Serializer for &mut Serializer::serialize_i32
proof { assert(buf@.update(i as int, 45u8).skip(i as int) =~= seq![45u8] + buf@.skip(i + 1)); }

@@at beforeloop 0 :: Serializer for &mut Serializer::serialize_i64
let ghost vp_a = v as nat;
proof { assert(pow10(19) == 10000000000000000000nat) by (compute); assert(vp_a == (if vp_v < 0 { -vp_v } else { vp_v })); assert(buf@.skip(i + 1) =~= Seq::<u8>::empty()); assert(dec(v as nat) + buf@.skip(i + 1) =~= dec(v as nat)); }
@@loop Serializer for &mut Serializer::serialize_i64 0
  invariant_except_break 1 <= i < 20, v < pow10(i as nat), dec(vp_a) == dec(v as nat) + buf@.skip(i + 1),
  invariant *self == *old(self), signed == (vp_v < 0),
  ensures i < 19, dec(vp_a) == buf@.skip(i + 1),
  decreases v
@@at loopbegin 0 :: Serializer for &mut Serializer::serialize_i64
proof { lemma_dec_step(v as nat, buf@, buf@.update(i as int, (48 + v % 10) as u8), i as int); assert(pow10(i as nat) == 10 * pow10((i - 1) as nat)); assert(pow10(0) == 1); }
@@at afterloop 0 :: Serializer for &mut Serializer::serialize_i64
proof { assert(buf@.update(i as int, 45u8).skip(i as int) =~= seq![45u8] + buf@.skip(i + 1)); }

@@fn Serializer for &mut Serializer::serialize_f32 | Serializer for &mut Serializer::serialize_f64 [C06,C09]
  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view()) && (v.fin() ==> jnum(added(old(self).output.view(), final(self).output.view()))) && (!v.fin() ==> added(old(self).output.view(), final(self).output.view()) == seq![110u8, 117u8, 108u8, 108u8]), // #C06
    r is Err ==> !final(self).output.alive(), // #C06 #C09
    ext(old(self).output.view(), final(self).output.view()), // #C09
@@fn Serializer for &mut Serializer::serialize_char [C05,C27,C09]
  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view()) && added(old(self).output.view(), final(self).output.view()) == quoted(encode_utf8(seq![v])), // #C05 #C27
    r is Err ==> !final(self).output.alive(), // #C05 #C27 #C09
    ext(old(self).output.view(), final(self).output.view()), // #C09
@@fn Serializer for &mut Serializer::serialize_str [C05,C06,C27,C09]
  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view()) && added(old(self).output.view(), final(self).output.view()) == quoted(v.spec_bytes()), // #C05 #C06 #C27
    r is Err ==> !final(self).output.alive(), // #C05 #C06 #C27 #C09
    ext(old(self).output.view(), final(self).output.view()), // #C09
@@fn Serializer for &mut Serializer::serialize_unit_variant [C05,C06,C27,C09]
  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view()) && added(old(self).output.view(), final(self).output.view()) == quoted(variant.spec_bytes()), // #C05 #C06 #C27
    r is Err ==> !final(self).output.alive(), // #C05 #C06 #C27 #C09
    ext(old(self).output.view(), final(self).output.view()), // #C09
@@at tail :: Serializer for &mut Serializer::serialize_str
proof { if vp_r is Ok { assert(added(old(self).output.view(), self.output.view()) =~= quoted(v.spec_bytes())); } }
@@fn Serializer for &mut Serializer::serialize_bytes [C08,C27,C09]
  ensures r is Ok ==> added(old(self).output.view(), final(self).output.view()) == B::enc(v@), // #C08 #C27
@@attr Serializer for &mut Serializer::serialize_bytes :: #[verifier::exec_allows_no_decreases_clause]
@@fn Serializer for &mut Serializer::serialize_some | Serializer for &mut Serializer::serialize_newtype_struct [C06,C27,C09]

@@fn Serializer for &mut Serializer::serialize_newtype_variant [C06,C27,C09]
  ensures
    r is Ok ==> ({ let a = added(old(self).output.view(), final(self).output.view()); let k = quoted(variant.spec_bytes()).len() as int; a.len() >= k + 3 && a[0] == 123 && a.subrange(1, 1 + k) == quoted(variant.spec_bytes()) && a[1 + k] == 58 && a.last() == 125 && jone(a.subrange(2 + k, a.len() - 1)) }), // #C06 #C27
@@at before "value.serialize" :: Serializer for &mut Serializer::serialize_newtype_variant
let ghost vp_m = self.output.view(); proof { assert(added(old(self).output.view(), vp_m) =~= seq![123u8] + quoted(variant.spec_bytes()) + seq![58u8]); }
@@at after "value.serialize" :: Serializer for &mut Serializer::serialize_newtype_variant
let ghost vp_n = self.output.view();
@@at tail :: Serializer for &mut Serializer::serialize_newtype_variant
proof { if vp_r is Ok { let o = old(self).output.view(); let z = self.output.view(); let x = added(vp_m, vp_n); lemma_ext3(o, vp_m, vp_n, z); lemma_variant(quoted(variant.spec_bytes()), x); let a = added(o, z); let k = quoted(variant.spec_bytes()).len() as int;
  assert(a =~= seq![123u8] + quoted(variant.spec_bytes()) + seq![58u8] + x + seq![125u8]); assert(a.subrange(1, 1 + k) =~= quoted(variant.spec_bytes())); assert(a.subrange(2 + k, a.len() - 1) =~= x); } }
@@fn Serializer for &mut Serializer::serialize_seq [C06,C27,C09]
  ensures
    r is Ok ==> r->Ok_0.ser.output.alive() && ext(old(self).output.view(), r->Ok_0.ser.output.view()) && added(old(self).output.view(), r->Ok_0.ser.output.view()) == seq![91u8] && r->Ok_0.first && *final(r->Ok_0.ser) == *final(self), // #C06 #C27
    r is Err ==> !final(self).output.alive(), // #C06 #C09
@@fn Serializer for &mut Serializer::serialize_tuple [C06,C27,C09]
  ensures
    r is Ok ==> r->Ok_0.ser.output.alive() && ext(old(self).output.view(), r->Ok_0.ser.output.view()) && added(old(self).output.view(), r->Ok_0.ser.output.view()) == seq![91u8] && r->Ok_0.first && *final(r->Ok_0.ser) == *final(self), // #C06 #C27
    r is Err ==> !final(self).output.alive(), // #C06 #C09
@@fn Serializer for &mut Serializer::serialize_tuple_struct [C06,C27,C09]
  ensures
    r is Ok ==> r->Ok_0.ser.output.alive() && ext(old(self).output.view(), r->Ok_0.ser.output.view()) && added(old(self).output.view(), r->Ok_0.ser.output.view()) == seq![91u8] && r->Ok_0.first && *final(r->Ok_0.ser) == *final(self), // #C06 #C27
    r is Err ==> !final(self).output.alive(), // #C06 #C09
@@fn Serializer for &mut Serializer::serialize_map [C06,C27,C09]
  ensures
    r is Ok ==> r->Ok_0.ser.output.alive() && ext(old(self).output.view(), r->Ok_0.ser.output.view()) && added(old(self).output.view(), r->Ok_0.ser.output.view()) == seq![123u8] && r->Ok_0.first && *final(r->Ok_0.ser) == *final(self), // #C06 #C27
    r is Err ==> !final(self).output.alive(), // #C06 #C09
@@fn Serializer for &mut Serializer::serialize_struct [C06,C27,C09]
  ensures
    r is Ok ==> r->Ok_0.ser.output.alive() && ext(old(self).output.view(), r->Ok_0.ser.output.view()) && added(old(self).output.view(), r->Ok_0.ser.output.view()) == seq![123u8] && r->Ok_0.first && *final(r->Ok_0.ser) == *final(self), // #C06 #C27
    r is Err ==> !final(self).output.alive(), // #C06 #C09
@@fn Serializer for &mut Serializer::serialize_tuple_variant [C06,C27,C09]
  ensures
    r is Ok ==> r->Ok_0.ser.output.alive() && ext(old(self).output.view(), r->Ok_0.ser.output.view()) && added(old(self).output.view(), r->Ok_0.ser.output.view()) == seq![123u8] + quoted(variant.spec_bytes()) + seq![58u8, 91u8] && r->Ok_0.first && *final(r->Ok_0.ser) == *final(self), // #C06 #C27
    r is Err ==> !final(self).output.alive(), // #C06 #C09
@@at tail :: Serializer for &mut Serializer::serialize_tuple_variant
proof { assert(added(old(self).output.view(), vp_r->Ok_0.ser.output.view()) =~= seq![123u8] + quoted(variant.spec_bytes()) + seq![58u8, 91u8]); }
@@fn Serializer for &mut Serializer::serialize_struct_variant [C06,C27,C09]
  ensures
    r is Ok ==> r->Ok_0.ser.output.alive() && ext(old(self).output.view(), r->Ok_0.ser.output.view()) && added(old(self).output.view(), r->Ok_0.ser.output.view()) == seq![123u8] + quoted(variant.spec_bytes()) + seq![58u8, 123u8] && r->Ok_0.first && *final(r->Ok_0.ser) == *final(self), // #C06 #C27
    r is Err ==> !final(self).output.alive(), // #C06 #C09
@@at tail :: Serializer for &mut Serializer::serialize_struct_variant
proof { assert(added(old(self).output.view(), vp_r->Ok_0.ser.output.view()) =~= seq![123u8] + quoted(variant.spec_bytes()) + seq![58u8, 123u8]); }
@@fn Serializer for &mut Serializer::collect_str [C05,C27,C09]
  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view()) && exists|b: Seq<u8>| value.shows(b) && valid_utf8(b) && added(old(self).output.view(), final(self).output.view()) == #[trigger] quoted(b), // #C05 #C27
    ext(old(self).output.view(), final(self).output.view()), // #C09
@@at begin :: Serializer for &mut Serializer::collect_str
let ghost vp_o = self.output.view();
@@at before "let mut col" :: Serializer for &mut Serializer::collect_str
let ghost vp_m = self.output.view();
@@at tail :: Serializer for &mut Serializer::collect_str
proof { if vp_r is Ok {
  let z = self.output.view();
  assert forall|b: Seq<u8>, n: Seq<u8>| #[trigger] value.shows(b) && ext(vp_m, n) && added(vp_m, n) == esc(b) && ext(n, z) && #[trigger] added(n, z) == seq![34u8] implies added(vp_o, z) == quoted(b) by { lemma_ext3(vp_o, vp_m, n, z); assert(added(vp_o, z) =~= quoted(b)); }
} }
@@fn StringCollector::new [C05]
  ensures *r.output == *old(output), *final(r.output) == *final(output),
@@impl Write for StringCollector
  open spec fn f_pre(&self) -> bool { self.output.alive() }
  #[verifier::prophetic] open spec fn f_reach(&self, n: Self, b: Seq<u8>, ok: bool) -> bool {
    ext(self.output.view(), n.output.view()) && *final(n.output) == *final(self.output) && (ok ==> n.output.alive() && added(self.output.view(), n.output.view()) == esc(b))
  }
  proof fn f_refl(&self) { lemma_esc_empty(); lemma_ext_refl(self.output.view()); }
  proof fn f_trans(&self, m: Self, n: Self, a: Seq<u8>, b: Seq<u8>, ok: bool) { lemma_esc_add(a, b); lemma_ext2(self.output.view(), m.output.view(), n.output.view()); }
@@fn Write for StringCollector::write_str [C05,C09]

@@fn Serializer for KeySer::serialize_bool [C07,C27,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && ext(old(self.ser).output.view(), final(self.ser).output.view()) && added(old(self.ser).output.view(), final(self.ser).output.view()) == seq![34u8] + (if v { seq![116u8, 114u8, 117u8, 101u8] } else { seq![102u8, 97u8, 108u8, 115u8, 101u8] }) + seq![34u8], // #C07 #C27
    r is Err ==> !final(self.ser).output.alive(), // #C07 #C27 #C09
    ext(old(self.ser).output.view(), final(self.ser).output.view()), // #C09
@@at tail :: Serializer for KeySer::serialize_bool
proof { if vp_r is Ok { let t = (if v { seq![116u8, 114u8, 117u8, 101u8] } else { seq![102u8, 97u8, 108u8, 115u8, 101u8] }); lemma_plain_quoted(t); assert(added(vp_o, self.ser.output.view()) =~= seq![34u8] + t + seq![34u8]); } }
@@at begin :: Serializer for KeySer::serialize_bool
let ghost vp_o = self.ser.output.view();
@@fn Serializer for KeySer::serialize_i8 [C07,C27,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && ext(old(self.ser).output.view(), final(self.ser).output.view()) && added(old(self.ser).output.view(), final(self.ser).output.view()) == seq![34u8] + idec(v as int) + seq![34u8], // #C07 #C27
    r is Err ==> !final(self.ser).output.alive(), // #C07 #C27 #C09
    ext(old(self.ser).output.view(), final(self.ser).output.view()), // #C09
@@at begin :: Serializer for KeySer::serialize_i8
let ghost vp_o = self.ser.output.view();
@@at tail :: Serializer for KeySer::serialize_i8
proof { if vp_r is Ok { let t = idec(v as int); lemma_idec_plain(v as int); lemma_plain_quoted(t); assert(added(vp_o, self.ser.output.view()) =~= seq![34u8] + t + seq![34u8]); } }
@@fn Serializer for KeySer::serialize_i16 [C07,C27,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && ext(old(self.ser).output.view(), final(self.ser).output.view()) && added(old(self.ser).output.view(), final(self.ser).output.view()) == seq![34u8] + idec(v as int) + seq![34u8], // #C07 #C27
    r is Err ==> !final(self.ser).output.alive(), // #C07 #C27 #C09
    ext(old(self.ser).output.view(), final(self.ser).output.view()), // #C09
@@at begin :: Serializer for KeySer::serialize_i16
let ghost vp_o = self.ser.output.view();
@@at tail :: Serializer for KeySer::serialize_i16
proof { if vp_r is Ok { let t = idec(v as int); lemma_idec_plain(v as int); lemma_plain_quoted(t); assert(added(vp_o, self.ser.output.view()) =~= seq![34u8] + t + seq![34u8]); } }
@@fn Serializer for KeySer::serialize_i32 [C07,C27,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && ext(old(self.ser).output.view(), final(self.ser).output.view()) && added(old(self.ser).output.view(), final(self.ser).output.view()) == seq![34u8] + idec(v as int) + seq![34u8], // #C07 #C27
    r is Err ==> !final(self.ser).output.alive(), // #C07 #C27 #C09
    ext(old(self.ser).output.view(), final(self.ser).output.view()), // #C09
@@at begin :: Serializer for KeySer::serialize_i32
let ghost vp_o = self.ser.output.view();
@@at tail :: Serializer for KeySer::serialize_i32
proof { if vp_r is Ok { let t = idec(v as int); lemma_idec_plain(v as int); lemma_plain_quoted(t); assert(added(vp_o, self.ser.output.view()) =~= seq![34u8] + t + seq![34u8]); } }
@@fn Serializer for KeySer::serialize_i64 [C07,C27,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && ext(old(self.ser).output.view(), final(self.ser).output.view()) && added(old(self.ser).output.view(), final(self.ser).output.view()) == seq![34u8] + idec(v as int) + seq![34u8], // #C07 #C27
    r is Err ==> !final(self.ser).output.alive(), // #C07 #C27 #C09
    ext(old(self.ser).output.view(), final(self.ser).output.view()), // #C09
@@at begin :: Serializer for KeySer::serialize_i64
let ghost vp_o = self.ser.output.view();
@@at tail :: Serializer for KeySer::serialize_i64
proof { if vp_r is Ok { let t = idec(v as int); lemma_idec_plain(v as int); lemma_plain_quoted(t); assert(added(vp_o, self.ser.output.view()) =~= seq![34u8] + t + seq![34u8]); } }
@@fn Serializer for KeySer::serialize_u8 [C07,C27,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && ext(old(self.ser).output.view(), final(self.ser).output.view()) && added(old(self.ser).output.view(), final(self.ser).output.view()) == seq![34u8] + idec(v as int) + seq![34u8], // #C07 #C27
    r is Err ==> !final(self.ser).output.alive(), // #C07 #C27 #C09
    ext(old(self.ser).output.view(), final(self.ser).output.view()), // #C09
@@at begin :: Serializer for KeySer::serialize_u8
let ghost vp_o = self.ser.output.view();
@@at tail :: Serializer for KeySer::serialize_u8
proof { if vp_r is Ok { let t = idec(v as int); lemma_idec_plain(v as int); lemma_plain_quoted(t); assert(added(vp_o, self.ser.output.view()) =~= seq![34u8] + t + seq![34u8]); } }
@@fn Serializer for KeySer::serialize_u16 [C07,C27,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && ext(old(self.ser).output.view(), final(self.ser).output.view()) && added(old(self.ser).output.view(), final(self.ser).output.view()) == seq![34u8] + idec(v as int) + seq![34u8], // #C07 #C27
    r is Err ==> !final(self.ser).output.alive(), // #C07 #C27 #C09
    ext(old(self.ser).output.view(), final(self.ser).output.view()), // #C09
@@at begin :: Serializer for KeySer::serialize_u16
let ghost vp_o = self.ser.output.view();
@@at tail :: Serializer for KeySer::serialize_u16
proof { if vp_r is Ok { let t = idec(v as int); lemma_idec_plain(v as int); lemma_plain_quoted(t); assert(added(vp_o, self.ser.output.view()) =~= seq![34u8] + t + seq![34u8]); } }
@@fn Serializer for KeySer::serialize_u32 [C07,C27,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && ext(old(self.ser).output.view(), final(self.ser).output.view()) && added(old(self.ser).output.view(), final(self.ser).output.view()) == seq![34u8] + idec(v as int) + seq![34u8], // #C07 #C27
    r is Err ==> !final(self.ser).output.alive(), // #C07 #C27 #C09
    ext(old(self.ser).output.view(), final(self.ser).output.view()), // #C09
@@at begin :: Serializer for KeySer::serialize_u32
let ghost vp_o = self.ser.output.view();
@@at tail :: Serializer for KeySer::serialize_u32
proof { if vp_r is Ok { let t = idec(v as int); lemma_idec_plain(v as int); lemma_plain_quoted(t); assert(added(vp_o, self.ser.output.view()) =~= seq![34u8] + t + seq![34u8]); } }
@@fn Serializer for KeySer::serialize_u64 [C07,C27,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && ext(old(self.ser).output.view(), final(self.ser).output.view()) && added(old(self.ser).output.view(), final(self.ser).output.view()) == seq![34u8] + idec(v as int) + seq![34u8], // #C07 #C27
    r is Err ==> !final(self.ser).output.alive(), // #C07 #C27 #C09
    ext(old(self.ser).output.view(), final(self.ser).output.view()), // #C09
@@at begin :: Serializer for KeySer::serialize_u64
let ghost vp_o = self.ser.output.view();
@@at tail :: Serializer for KeySer::serialize_u64
proof { if vp_r is Ok { let t = idec(v as int); lemma_idec_plain(v as int); lemma_plain_quoted(t); assert(added(vp_o, self.ser.output.view()) =~= seq![34u8] + t + seq![34u8]); } }
@@fn Serializer for KeySer::serialize_char [C07,C05,C27,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && ext(old(self.ser).output.view(), final(self.ser).output.view()) && added(old(self.ser).output.view(), final(self.ser).output.view()) == quoted(encode_utf8(seq![v])), // #C07 #C05 #C27
    r is Err ==> !final(self.ser).output.alive(), // #C07 #C05 #C27 #C09
    ext(old(self.ser).output.view(), final(self.ser).output.view()), // #C09
@@at begin :: Serializer for KeySer::serialize_char
proof { encode_utf8_valid_utf8(seq![v]); lemma_quoted_jstr(encode_utf8(seq![v])); }
@@fn Serializer for KeySer::serialize_str [C07,C05,C27,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && ext(old(self.ser).output.view(), final(self.ser).output.view()) && added(old(self.ser).output.view(), final(self.ser).output.view()) == quoted(v.spec_bytes()), // #C07 #C05 #C27
    r is Err ==> !final(self.ser).output.alive(), // #C07 #C05 #C27 #C09
    ext(old(self.ser).output.view(), final(self.ser).output.view()), // #C09
@@fn Serializer for KeySer::serialize_unit_variant [C07,C05,C27,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && ext(old(self.ser).output.view(), final(self.ser).output.view()) && added(old(self.ser).output.view(), final(self.ser).output.view()) == quoted(variant.spec_bytes()), // #C07 #C05 #C27
    r is Err ==> !final(self.ser).output.alive(), // #C07 #C05 #C27 #C09
    ext(old(self.ser).output.view(), final(self.ser).output.view()), // #C09
@@fn Serializer for KeySer::serialize_f32 [C07]
  ensures r is Err, *final(self.ser) == *old(self.ser), // #C07
@@fn Serializer for KeySer::serialize_f64 [C07]
  ensures r is Err, *final(self.ser) == *old(self.ser), // #C07
@@fn Serializer for KeySer::serialize_bytes [C07]
  ensures r is Err, *final(self.ser) == *old(self.ser), // #C07
@@fn Serializer for KeySer::serialize_none [C07]
  ensures r is Err, *final(self.ser) == *old(self.ser), // #C07
@@fn Serializer for KeySer::serialize_some [C07]
  ensures r is Err, *final(self.ser) == *old(self.ser), // #C07
@@fn Serializer for KeySer::serialize_unit [C07]
  ensures r is Err, *final(self.ser) == *old(self.ser), // #C07
@@fn Serializer for KeySer::serialize_unit_struct [C07]
  ensures r is Err, *final(self.ser) == *old(self.ser), // #C07
@@fn Serializer for KeySer::serialize_newtype_variant [C07]
  ensures r is Err, *final(self.ser) == *old(self.ser), // #C07
@@fn Serializer for KeySer::serialize_seq [C07]
  ensures r is Err, *final(self.ser) == *old(self.ser), // #C07
@@fn Serializer for KeySer::serialize_tuple [C07]
  ensures r is Err, *final(self.ser) == *old(self.ser), // #C07
@@fn Serializer for KeySer::serialize_tuple_struct [C07]
  ensures r is Err, *final(self.ser) == *old(self.ser), // #C07
@@fn Serializer for KeySer::serialize_tuple_variant [C07]
  ensures r is Err, *final(self.ser) == *old(self.ser), // #C07
@@fn Serializer for KeySer::serialize_map [C07]
  ensures r is Err, *final(self.ser) == *old(self.ser), // #C07
@@fn Serializer for KeySer::serialize_struct [C07]
  ensures r is Err, *final(self.ser) == *old(self.ser), // #C07
@@fn Serializer for KeySer::serialize_struct_variant [C07]
  ensures r is Err, *final(self.ser) == *old(self.ser), // #C07
@@fn Serializer for KeySer::serialize_newtype_struct [C07,C27,C09]

@@fn Serializer for KeySer::collect_str [C07,C05,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && ext(old(self.ser).output.view(), final(self.ser).output.view()) && exists|b: Seq<u8>| value.shows(b) && valid_utf8(b) && added(old(self.ser).output.view(), final(self.ser).output.view()) == #[trigger] quoted(b), // #C07 #C05
    ext(old(self.ser).output.view(), final(self.ser).output.view()), // #C09
@@rename SerializeSeq for SeqMapSerializer::end end_seq
@@impl SerializeSeq for SeqMapSerializer
  open spec fn c_pre(&self) -> bool { self.ser.output.alive() }
@@fn SerializeSeq for SeqMapSerializer::end [C06,C27,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && ext(old(self.ser).output.view(), final(self.ser).output.view()) && added(old(self.ser).output.view(), final(self.ser).output.view()) == seq![93u8], // #C06 #C27
    r is Err ==> !final(self.ser).output.alive(), ext(old(self.ser).output.view(), final(self.ser).output.view()), // #C06 #C09
@@at begin :: SerializeSeq for SeqMapSerializer::serialize_element
let ghost vp_o = self.ser.output.view(); let ghost vp_f0 = self.first;
@@fn SerializeSeq for SeqMapSerializer::serialize_element [C06,C27,C09]
  ensures *final(final(self).ser) == *final(old(self).ser),
    r is Ok ==> !final(self).first && final(self).ser.output.alive() && ext(old(self).ser.output.view(), final(self).ser.output.view()) && sep_ok(added(old(self).ser.output.view(), final(self).ser.output.view()), old(self).first) && jone(sep_x(added(old(self).ser.output.view(), final(self).ser.output.view()), old(self).first)) && said(sep_x(added(old(self).ser.output.view(), final(self).ser.output.view()), old(self).first), value.ev()), // #C06 #C27
@@at before "value.serialize" :: SerializeSeq for SeqMapSerializer::serialize_element
let ghost vp_m = self.ser.output.view(); proof { assert(ext(vp_o, vp_m)); assert(added(vp_o, vp_m) =~= (if vp_f0 { Seq::<u8>::empty() } else { seq![44u8] })); }
@@at tail :: SerializeSeq for SeqMapSerializer::serialize_element
proof { if vp_r is Ok { let a = added(vp_o, self.ser.output.view()); assert(sep_x(a, vp_f0) =~= added(vp_m, self.ser.output.view())); } }
@@rename SerializeTuple for SeqMapSerializer::serialize_element serialize_tuple_element
@@rename SerializeTuple for SeqMapSerializer::end end_tuple
@@impl SerializeTuple for SeqMapSerializer
  open spec fn ct_pre(&self) -> bool { self.ser.output.alive() }
@@fn SerializeTuple for SeqMapSerializer::end [C06,C27,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && ext(old(self.ser).output.view(), final(self.ser).output.view()) && added(old(self.ser).output.view(), final(self.ser).output.view()) == seq![93u8], // #C06 #C27
    r is Err ==> !final(self.ser).output.alive(), ext(old(self.ser).output.view(), final(self.ser).output.view()), // #C06 #C09
@@at begin :: SerializeTuple for SeqMapSerializer::serialize_element
let ghost vp_o = self.ser.output.view(); let ghost vp_f0 = self.first;
@@fn SerializeTuple for SeqMapSerializer::serialize_element [C06,C27,C09]
  ensures *final(final(self).ser) == *final(old(self).ser),
    r is Ok ==> !final(self).first && final(self).ser.output.alive() && ext(old(self).ser.output.view(), final(self).ser.output.view()) && sep_ok(added(old(self).ser.output.view(), final(self).ser.output.view()), old(self).first) && jone(sep_x(added(old(self).ser.output.view(), final(self).ser.output.view()), old(self).first)) && said(sep_x(added(old(self).ser.output.view(), final(self).ser.output.view()), old(self).first), value.ev()), // #C06 #C27
@@at before "value.serialize" :: SerializeTuple for SeqMapSerializer::serialize_element
let ghost vp_m = self.ser.output.view(); proof { assert(ext(vp_o, vp_m)); assert(added(vp_o, vp_m) =~= (if vp_f0 { Seq::<u8>::empty() } else { seq![44u8] })); }
@@at tail :: SerializeTuple for SeqMapSerializer::serialize_element
proof { if vp_r is Ok { let a = added(vp_o, self.ser.output.view()); assert(sep_x(a, vp_f0) =~= added(vp_m, self.ser.output.view())); } }
@@rename SerializeTupleStruct for SeqMapSerializer::serialize_field serialize_ts_field
@@rename SerializeTupleStruct for SeqMapSerializer::end end_ts
@@impl SerializeTupleStruct for SeqMapSerializer
  open spec fn cts_pre(&self) -> bool { self.ser.output.alive() }
@@fn SerializeTupleStruct for SeqMapSerializer::end [C06,C27,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && ext(old(self.ser).output.view(), final(self.ser).output.view()) && added(old(self.ser).output.view(), final(self.ser).output.view()) == seq![93u8], // #C06 #C27
    r is Err ==> !final(self.ser).output.alive(), ext(old(self.ser).output.view(), final(self.ser).output.view()), // #C06 #C09
@@at begin :: SerializeTupleStruct for SeqMapSerializer::serialize_field
let ghost vp_o = self.ser.output.view(); let ghost vp_f0 = self.first;
@@fn SerializeTupleStruct for SeqMapSerializer::serialize_field [C06,C27,C09]
  ensures *final(final(self).ser) == *final(old(self).ser),
    r is Ok ==> !final(self).first && final(self).ser.output.alive() && ext(old(self).ser.output.view(), final(self).ser.output.view()) && sep_ok(added(old(self).ser.output.view(), final(self).ser.output.view()), old(self).first) && jone(sep_x(added(old(self).ser.output.view(), final(self).ser.output.view()), old(self).first)) && said(sep_x(added(old(self).ser.output.view(), final(self).ser.output.view()), old(self).first), value.ev()), // #C06 #C27
@@at before "value.serialize" :: SerializeTupleStruct for SeqMapSerializer::serialize_field
let ghost vp_m = self.ser.output.view(); proof { assert(ext(vp_o, vp_m)); assert(added(vp_o, vp_m) =~= (if vp_f0 { Seq::<u8>::empty() } else { seq![44u8] })); }
@@at tail :: SerializeTupleStruct for SeqMapSerializer::serialize_field
proof { if vp_r is Ok { let a = added(vp_o, self.ser.output.view()); assert(sep_x(a, vp_f0) =~= added(vp_m, self.ser.output.view())); } }
@@rename SerializeTupleVariant for SeqMapSerializer::serialize_field serialize_tv_field
@@rename SerializeTupleVariant for SeqMapSerializer::end end_tv
@@impl SerializeTupleVariant for SeqMapSerializer
  open spec fn ctv_pre(&self) -> bool { self.ser.output.alive() }
@@fn SerializeTupleVariant for SeqMapSerializer::end [C06,C27,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && ext(old(self.ser).output.view(), final(self.ser).output.view()) && added(old(self.ser).output.view(), final(self.ser).output.view()) == seq![93u8, 125u8], // #C06 #C27
    r is Err ==> !final(self.ser).output.alive(), ext(old(self.ser).output.view(), final(self.ser).output.view()), // #C06 #C09
@@at begin :: SerializeTupleVariant for SeqMapSerializer::end
let ghost vp_o = self.ser.output.view();
@@at tail :: SerializeTupleVariant for SeqMapSerializer::end
proof { if vp_r is Ok { assert(added(vp_o, self.ser.output.view()) =~= seq![93u8, 125u8]); } }
@@at begin :: SerializeTupleVariant for SeqMapSerializer::serialize_field
let ghost vp_o = self.ser.output.view(); let ghost vp_f0 = self.first;
@@fn SerializeTupleVariant for SeqMapSerializer::serialize_field [C06,C27,C09]
  ensures *final(final(self).ser) == *final(old(self).ser),
    r is Ok ==> !final(self).first && final(self).ser.output.alive() && ext(old(self).ser.output.view(), final(self).ser.output.view()) && sep_ok(added(old(self).ser.output.view(), final(self).ser.output.view()), old(self).first) && jone(sep_x(added(old(self).ser.output.view(), final(self).ser.output.view()), old(self).first)) && said(sep_x(added(old(self).ser.output.view(), final(self).ser.output.view()), old(self).first), value.ev()), // #C06 #C27
@@at before "value.serialize" :: SerializeTupleVariant for SeqMapSerializer::serialize_field
let ghost vp_m = self.ser.output.view(); proof { assert(ext(vp_o, vp_m)); assert(added(vp_o, vp_m) =~= (if vp_f0 { Seq::<u8>::empty() } else { seq![44u8] })); }
@@at tail :: SerializeTupleVariant for SeqMapSerializer::serialize_field
proof { if vp_r is Ok { let a = added(vp_o, self.ser.output.view()); assert(sep_x(a, vp_f0) =~= added(vp_m, self.ser.output.view())); } }
@@rename SerializeMap for SeqMapSerializer::end end_map
@@impl SerializeMap for SeqMapSerializer
  open spec fn cm_pre(&self) -> bool { self.ser.output.alive() }
@@fn SerializeMap for SeqMapSerializer::end [C06,C27,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && ext(old(self.ser).output.view(), final(self.ser).output.view()) && added(old(self.ser).output.view(), final(self.ser).output.view()) == seq![125u8], // #C06 #C27
    r is Err ==> !final(self.ser).output.alive(), ext(old(self.ser).output.view(), final(self.ser).output.view()), // #C06 #C09
@@at begin :: SerializeMap for SeqMapSerializer::serialize_key
let ghost vp_o = self.ser.output.view(); let ghost vp_f0 = self.first;
@@fn SerializeMap for SeqMapSerializer::serialize_key [C06,C07,C27,C09]
  ensures *final(final(self).ser) == *final(old(self).ser),
    r is Ok ==> !final(self).first && final(self).ser.output.alive() && ext(old(self).ser.output.view(), final(self).ser.output.view()) && sep_ok(added(old(self).ser.output.view(), final(self).ser.output.view()), old(self).first) && is_jstr(sep_x(added(old(self).ser.output.view(), final(self).ser.output.view()), old(self).first)), // #C06 #C07 #C27
@@at before "key.serialize" :: SerializeMap for SeqMapSerializer::serialize_key
let ghost vp_m = self.ser.output.view(); proof { assert(ext(vp_o, vp_m)); assert(added(vp_o, vp_m) =~= (if vp_f0 { Seq::<u8>::empty() } else { seq![44u8] })); }
@@at tail :: SerializeMap for SeqMapSerializer::serialize_key
proof { if vp_r is Ok { let a = added(vp_o, self.ser.output.view()); assert(sep_x(a, vp_f0) =~= added(vp_m, self.ser.output.view())); } }
@@at begin :: SerializeMap for SeqMapSerializer::serialize_value
let ghost vp_o = self.ser.output.view(); let ghost vp_f0 = self.first;
@@fn SerializeMap for SeqMapSerializer::serialize_value [C06,C27,C09]
  ensures *final(final(self).ser) == *final(old(self).ser), final(self).first == old(self).first,
    r is Ok ==> final(self).ser.output.alive() && ext(old(self).ser.output.view(), final(self).ser.output.view()) && added(old(self).ser.output.view(), final(self).ser.output.view()).len() >= 1 && added(old(self).ser.output.view(), final(self).ser.output.view())[0] == 58 && jone(added(old(self).ser.output.view(), final(self).ser.output.view()).skip(1)), // #C06 #C27
@@at tail :: SerializeMap for SeqMapSerializer::serialize_value
proof { if vp_r is Ok { let a = added(vp_o, self.ser.output.view()); assert(a.skip(1) =~= added(vp_m, self.ser.output.view())); } }
@@at before "value.serialize" :: SerializeMap for SeqMapSerializer::serialize_value
let ghost vp_m = self.ser.output.view(); proof { assert(added(vp_o, vp_m) =~= seq![58u8]); }
@@rename SerializeStruct for SeqMapSerializer::end end_struct
@@impl SerializeStruct for SeqMapSerializer
  open spec fn cs_pre(&self) -> bool { self.ser.output.alive() }
@@fn SerializeStruct for SeqMapSerializer::end [C06,C27,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && ext(old(self.ser).output.view(), final(self.ser).output.view()) && added(old(self.ser).output.view(), final(self.ser).output.view()) == seq![125u8], // #C06 #C27
    r is Err ==> !final(self.ser).output.alive(), ext(old(self.ser).output.view(), final(self.ser).output.view()), // #C06 #C09
@@at begin :: SerializeStruct for SeqMapSerializer::serialize_field
let ghost vp_o = self.ser.output.view(); let ghost vp_f0 = self.first;
@@fn SerializeStruct for SeqMapSerializer::serialize_field [C06,C27,C09]
  ensures *final(final(self).ser) == *final(old(self).ser),
    r is Ok ==> !final(self).first && final(self).ser.output.alive() && ext(old(self).ser.output.view(), final(self).ser.output.view()) && sep_ok(added(old(self).ser.output.view(), final(self).ser.output.view()), old(self).first) && field_ok(sep_x(added(old(self).ser.output.view(), final(self).ser.output.view()), old(self).first), key.spec_bytes()), // #C06 #C27
@@at before "key.serialize" :: SerializeStruct for SeqMapSerializer::serialize_field
let ghost vp_k = self.ser.output.view(); proof { assert(ext(vp_o, vp_k)); assert(added(vp_o, vp_k) =~= (if vp_f0 { Seq::<u8>::empty() } else { seq![44u8] })); }
@@at before "value.serialize" :: SerializeStruct for SeqMapSerializer::serialize_field
let ghost vp_m = self.ser.output.view(); proof { assert(added(vp_k, vp_m) =~= quoted(key.spec_bytes()) + seq![58u8]); }
@@at tail :: SerializeStruct for SeqMapSerializer::serialize_field
proof { if vp_r is Ok { let z = self.ser.output.view(); lemma_ext3(vp_o, vp_k, vp_m, z); lemma_field_pieces(added(vp_o, vp_k), vp_f0, key.spec_bytes(), added(vp_m, z));
  assert(added(vp_o, z) =~= added(vp_o, vp_k) + quoted(key.spec_bytes()) + seq![58u8] + added(vp_m, z)); } }
@@rename SerializeStructVariant for SeqMapSerializer::serialize_field serialize_sv_field
@@rename SerializeStructVariant for SeqMapSerializer::end end_sv
@@impl SerializeStructVariant for SeqMapSerializer
  open spec fn csv_pre(&self) -> bool { self.ser.output.alive() }
@@fn SerializeStructVariant for SeqMapSerializer::end [C06,C27,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && ext(old(self.ser).output.view(), final(self.ser).output.view()) && added(old(self.ser).output.view(), final(self.ser).output.view()) == seq![125u8, 125u8], // #C06 #C27
    r is Err ==> !final(self.ser).output.alive(), ext(old(self.ser).output.view(), final(self.ser).output.view()), // #C06 #C09
@@at begin :: SerializeStructVariant for SeqMapSerializer::end
let ghost vp_o = self.ser.output.view();
@@at tail :: SerializeStructVariant for SeqMapSerializer::end
proof { if vp_r is Ok { assert(added(vp_o, self.ser.output.view()) =~= seq![125u8, 125u8]); } }
@@at begin :: SerializeStructVariant for SeqMapSerializer::serialize_field
let ghost vp_o = self.ser.output.view(); let ghost vp_f0 = self.first;
@@fn SerializeStructVariant for SeqMapSerializer::serialize_field [C06,C27,C09]
  ensures *final(final(self).ser) == *final(old(self).ser),
    r is Ok ==> !final(self).first && final(self).ser.output.alive() && ext(old(self).ser.output.view(), final(self).ser.output.view()) && sep_ok(added(old(self).ser.output.view(), final(self).ser.output.view()), old(self).first) && field_ok(sep_x(added(old(self).ser.output.view(), final(self).ser.output.view()), old(self).first), key.spec_bytes()), // #C06 #C27
@@at before "key.serialize" :: SerializeStructVariant for SeqMapSerializer::serialize_field
let ghost vp_k = self.ser.output.view(); proof { assert(ext(vp_o, vp_k)); assert(added(vp_o, vp_k) =~= (if vp_f0 { Seq::<u8>::empty() } else { seq![44u8] })); }
@@at before "value.serialize" :: SerializeStructVariant for SeqMapSerializer::serialize_field
let ghost vp_m = self.ser.output.view(); proof { assert(added(vp_k, vp_m) =~= quoted(key.spec_bytes()) + seq![58u8]); }
@@at tail :: SerializeStructVariant for SeqMapSerializer::serialize_field
proof { if vp_r is Ok { let z = self.ser.output.view(); lemma_ext3(vp_o, vp_k, vp_m, z); lemma_field_pieces(added(vp_o, vp_k), vp_f0, key.spec_bytes(), added(vp_m, z));
  assert(added(vp_o, z) =~= added(vp_o, vp_k) + quoted(key.spec_bytes()) + seq![58u8] + added(vp_m, z)); } }
@@postlude
// ---------------------------------------------------------------- protocol clients: arbitrary call sequences; Ok means exactly one JSON value was appended
proof fn vp_step_list(m: Seq<u8>, k: Seq<u8>, n: Seq<u8>, f: bool, i: nat)
  requires ext(m, k), ext(k, n), jlist(added(m, k), i), f == (i == 0), sep_ok(added(k, n), f), jone(sep_x(added(k, n), f))
  ensures ext(m, n), jlist(added(m, n), i + 1)
{ let a = added(k, n); lemma_ext2(m, k, n); lemma_sep(a, f); lemma_jlist_push(added(m, k), i, sep_x(a, f)); assert(added(m, k) + a =~= added(m, k) + comma(i) + sep_x(a, f)); }
proof fn vp_step_field(m: Seq<u8>, k: Seq<u8>, n: Seq<u8>, f: bool, i: nat, key: Seq<u8>)
  requires ext(m, k), ext(k, n), jents(added(m, k), i), f == (i == 0), sep_ok(added(k, n), f), field_ok(sep_x(added(k, n), f), key), valid_utf8(key)
  ensures ext(m, n), jents(added(m, n), i + 1)
{ let a = added(k, n); lemma_ext2(m, k, n); lemma_sep(a, f); lemma_field_ent(sep_x(a, f), key); lemma_jents_push(added(m, k), i, sep_x(a, f)); assert(added(m, k) + a =~= added(m, k) + comma(i) + sep_x(a, f)); }
proof fn vp_cat(p: Seq<u8>, sep: Seq<u8>, kx: Seq<u8>, v: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
  requires a == sep + kx, b.len() >= 1, b[0] == 58, v == b.skip(1)
  ensures p + a + b == p + sep + (kx + seq![58u8] + v)
{ assert(b =~= seq![58u8] + v); assert(p + a + b =~= p + sep + (kx + seq![58u8] + v)); }
#[verifier::spinoff_prover] proof fn vp_step_entry(m: Seq<u8>, k: Seq<u8>, k2: Seq<u8>, n: Seq<u8>, f: bool, i: nat)
  requires ext(m, k), ext(k, k2), ext(k2, n), jents(added(m, k), i), f == (i == 0), sep_ok(added(k, k2), f), is_jstr(sep_x(added(k, k2), f)), added(k2, n).len() >= 1, added(k2, n)[0] == 58, jone(added(k2, n).skip(1))
  ensures ext(m, n), jents(added(m, n), i + 1)
{ let a = added(k, k2); let b = added(k2, n); lemma_ext3(m, k, k2, n); lemma_sep(a, f); let x = sep_x(a, f) + seq![58u8] + b.skip(1); lemma_jent(sep_x(a, f), b.skip(1)); lemma_jents_push(added(m, k), i, x);
  vp_cat(added(m, k), comma(i), sep_x(a, f), b.skip(1), a, b); }
//@fn client_seq
fn client_seq<W: SerWrite, B: ByteEncoder, T: Serialize>(s: &mut Serializer<W, B>, declared: Option<usize>, idx: u32, name: &'static str, len: usize, vals: &[T]) -> (r: Result<(), W::Error>)
  requires old(s).output.alive(),
  ensures r is Ok ==> final(s).output.alive() && ext(old(s).output.view(), final(s).output.view()) && jone(added(old(s).output.view(), final(s).output.view())), // #C06
{
  let ghost o = s.output.view();
  let mut c = SerdeSerializer::serialize_seq(s, declared)?;
  let ghost m = c.ser.output.view(); let ghost fin = *final(c.ser);
  proof { lemma_none(); lemma_ext_refl(m); }
  let mut i: usize = 0;
  while i < vals.len()
    invariant i <= vals@.len(), c.ser.output.alive(), ext(o, m), ext(m, c.ser.output.view()), added(o, m) == seq![91u8], *final(c.ser) == fin, c.first == (i == 0),
      jlist(added(m, c.ser.output.view()), i as nat),
    decreases vals@.len() - i
  {
    let ghost k = c.ser.output.view(); let ghost f = c.first;
    SerializeSeq::serialize_element(&mut c, &vals[i])?;
    proof { vp_step_list(m, k, c.ser.output.view(), f, i as nat); }
    i = i + 1;
  }
  let ghost n = c.ser.output.view();
  proof { lemma_arr(added(m, n), i as nat);  }
  let vp_r = SerializeSeq::end_seq(c);
  proof { if vp_r is Ok { let z = final(s).output.view(); lemma_ext3(o, m, n, z);
    assert(added(o, z) =~= seq![91u8] + added(m, n) + seq![93u8]); } }
  vp_r
}
//@end
//@fn client_tuple
fn client_tuple<W: SerWrite, B: ByteEncoder, T: Serialize>(s: &mut Serializer<W, B>, declared: Option<usize>, idx: u32, name: &'static str, len: usize, vals: &[T]) -> (r: Result<(), W::Error>)
  requires old(s).output.alive(),
  ensures r is Ok ==> final(s).output.alive() && ext(old(s).output.view(), final(s).output.view()) && jone(added(old(s).output.view(), final(s).output.view())), // #C06
{
  let ghost o = s.output.view();
  let mut c = SerdeSerializer::serialize_tuple(s, len)?;
  let ghost m = c.ser.output.view(); let ghost fin = *final(c.ser);
  proof { lemma_none(); lemma_ext_refl(m); }
  let mut i: usize = 0;
  while i < vals.len()
    invariant i <= vals@.len(), c.ser.output.alive(), ext(o, m), ext(m, c.ser.output.view()), added(o, m) == seq![91u8], *final(c.ser) == fin, c.first == (i == 0),
      jlist(added(m, c.ser.output.view()), i as nat),
    decreases vals@.len() - i
  {
    let ghost k = c.ser.output.view(); let ghost f = c.first;
    SerializeTuple::serialize_tuple_element(&mut c, &vals[i])?;
    proof { vp_step_list(m, k, c.ser.output.view(), f, i as nat); }
    i = i + 1;
  }
  let ghost n = c.ser.output.view();
  proof { lemma_arr(added(m, n), i as nat);  }
  let vp_r = SerializeTuple::end_tuple(c);
  proof { if vp_r is Ok { let z = final(s).output.view(); lemma_ext3(o, m, n, z);
    assert(added(o, z) =~= seq![91u8] + added(m, n) + seq![93u8]); } }
  vp_r
}
//@end
//@fn client_tuple_struct
fn client_tuple_struct<W: SerWrite, B: ByteEncoder, T: Serialize>(s: &mut Serializer<W, B>, declared: Option<usize>, idx: u32, name: &'static str, len: usize, vals: &[T]) -> (r: Result<(), W::Error>)
  requires old(s).output.alive(),
  ensures r is Ok ==> final(s).output.alive() && ext(old(s).output.view(), final(s).output.view()) && jone(added(old(s).output.view(), final(s).output.view())), // #C06
{
  let ghost o = s.output.view();
  let mut c = SerdeSerializer::serialize_tuple_struct(s, name, len)?;
  let ghost m = c.ser.output.view(); let ghost fin = *final(c.ser);
  proof { lemma_none(); lemma_ext_refl(m); }
  let mut i: usize = 0;
  while i < vals.len()
    invariant i <= vals@.len(), c.ser.output.alive(), ext(o, m), ext(m, c.ser.output.view()), added(o, m) == seq![91u8], *final(c.ser) == fin, c.first == (i == 0),
      jlist(added(m, c.ser.output.view()), i as nat),
    decreases vals@.len() - i
  {
    let ghost k = c.ser.output.view(); let ghost f = c.first;
    SerializeTupleStruct::serialize_ts_field(&mut c, &vals[i])?;
    proof { vp_step_list(m, k, c.ser.output.view(), f, i as nat); }
    i = i + 1;
  }
  let ghost n = c.ser.output.view();
  proof { lemma_arr(added(m, n), i as nat);  }
  let vp_r = SerializeTupleStruct::end_ts(c);
  proof { if vp_r is Ok { let z = final(s).output.view(); lemma_ext3(o, m, n, z);
    assert(added(o, z) =~= seq![91u8] + added(m, n) + seq![93u8]); } }
  vp_r
}
//@end
//@fn client_tuple_variant
fn client_tuple_variant<W: SerWrite, B: ByteEncoder, T: Serialize>(s: &mut Serializer<W, B>, declared: Option<usize>, idx: u32, name: &'static str, len: usize, vals: &[T]) -> (r: Result<(), W::Error>)
  requires old(s).output.alive(),
  ensures r is Ok ==> final(s).output.alive() && ext(old(s).output.view(), final(s).output.view()) && jone(added(old(s).output.view(), final(s).output.view())), // #C06
{
  let ghost o = s.output.view();
  let mut c = SerdeSerializer::serialize_tuple_variant(s, "", idx, name, len)?;
  let ghost m = c.ser.output.view(); let ghost fin = *final(c.ser);
  proof { lemma_none(); lemma_ext_refl(m); }
  let mut i: usize = 0;
  while i < vals.len()
    invariant i <= vals@.len(), c.ser.output.alive(), ext(o, m), ext(m, c.ser.output.view()), added(o, m) == seq![123u8] + quoted(name.spec_bytes()) + seq![58u8, 91u8], *final(c.ser) == fin, c.first == (i == 0),
      jlist(added(m, c.ser.output.view()), i as nat),
    decreases vals@.len() - i
  {
    let ghost k = c.ser.output.view(); let ghost f = c.first;
    SerializeTupleVariant::serialize_tv_field(&mut c, &vals[i])?;
    proof { vp_step_list(m, k, c.ser.output.view(), f, i as nat); }
    i = i + 1;
  }
  let ghost n = c.ser.output.view();
  proof { lemma_arr(added(m, n), i as nat); lemma_quoted_jstr(name.spec_bytes()); lemma_variant(quoted(name.spec_bytes()), seq![91u8] + added(m, n) + seq![93u8]); }
  let vp_r = SerializeTupleVariant::end_tv(c);
  proof { if vp_r is Ok { let z = final(s).output.view(); lemma_ext3(o, m, n, z);
    assert(added(o, z) =~= seq![123u8] + quoted(name.spec_bytes()) + seq![58u8] + (seq![91u8] + added(m, n) + seq![93u8]) + seq![125u8]); } }
  vp_r
}
//@end
//@fn client_map
fn client_map<W: SerWrite, B: ByteEncoder, T: Serialize, K: Serialize>(s: &mut Serializer<W, B>, declared: Option<usize>, idx: u32, name: &'static str, len: usize, keys: &[K], vals: &[T]) -> (r: Result<(), W::Error>)
  requires keys@.len() == vals@.len(), old(s).output.alive(),
  ensures r is Ok ==> final(s).output.alive() && ext(old(s).output.view(), final(s).output.view()) && jone(added(old(s).output.view(), final(s).output.view())), // #C06
{
  let ghost o = s.output.view();
  let mut c = SerdeSerializer::serialize_map(s, declared)?;
  let ghost m = c.ser.output.view(); let ghost fin = *final(c.ser);
  proof { lemma_none(); lemma_ext_refl(m); }
  let mut i: usize = 0;
  while i < vals.len()
    invariant i <= vals@.len(), keys@.len() == vals@.len(), c.ser.output.alive(), ext(o, m), ext(m, c.ser.output.view()), added(o, m) == seq![123u8], *final(c.ser) == fin, c.first == (i == 0),
      jents(added(m, c.ser.output.view()), i as nat),
    decreases vals@.len() - i
  {
    let ghost k = c.ser.output.view(); let ghost f = c.first;
    SerializeMap::serialize_key(&mut c, &keys[i])?;
    let ghost k2 = c.ser.output.view();
    SerializeMap::serialize_value(&mut c, &vals[i])?;
    proof { vp_step_entry(m, k, k2, c.ser.output.view(), f, i as nat); }
    i = i + 1;
  }
  let ghost n = c.ser.output.view();
  proof { lemma_obj(added(m, n), i as nat);  }
  let vp_r = SerializeMap::end_map(c);
  proof { if vp_r is Ok { let z = final(s).output.view(); lemma_ext3(o, m, n, z);
    assert(added(o, z) =~= seq![123u8] + added(m, n) + seq![125u8]); } }
  vp_r
}
//@end
//@fn client_struct
fn client_struct<W: SerWrite, B: ByteEncoder, T: Serialize>(s: &mut Serializer<W, B>, declared: Option<usize>, idx: u32, name: &'static str, len: usize, keys: &[&'static str], vals: &[T]) -> (r: Result<(), W::Error>)
  requires keys@.len() == vals@.len(), old(s).output.alive(),
  ensures r is Ok ==> final(s).output.alive() && ext(old(s).output.view(), final(s).output.view()) && jone(added(old(s).output.view(), final(s).output.view())), // #C06
{
  let ghost o = s.output.view();
  let mut c = SerdeSerializer::serialize_struct(s, name, len)?;
  let ghost m = c.ser.output.view(); let ghost fin = *final(c.ser);
  proof { lemma_none(); lemma_ext_refl(m); }
  let mut i: usize = 0;
  while i < vals.len()
    invariant i <= vals@.len(), keys@.len() == vals@.len(), c.ser.output.alive(), ext(o, m), ext(m, c.ser.output.view()), added(o, m) == seq![123u8], *final(c.ser) == fin, c.first == (i == 0),
      jents(added(m, c.ser.output.view()), i as nat),
    decreases vals@.len() - i
  {
    let ghost k = c.ser.output.view(); let ghost f = c.first;
    SerializeStruct::serialize_field(&mut c, keys[i], &vals[i])?;
    proof { vp_step_field(m, k, c.ser.output.view(), f, i as nat, keys[i as int].spec_bytes()); }
    i = i + 1;
  }
  let ghost n = c.ser.output.view();
  proof { lemma_obj(added(m, n), i as nat);  }
  let vp_r = SerializeStruct::end_struct(c);
  proof { if vp_r is Ok { let z = final(s).output.view(); lemma_ext3(o, m, n, z);
    assert(added(o, z) =~= seq![123u8] + added(m, n) + seq![125u8]); } }
  vp_r
}
//@end
//@fn client_struct_variant
fn client_struct_variant<W: SerWrite, B: ByteEncoder, T: Serialize>(s: &mut Serializer<W, B>, declared: Option<usize>, idx: u32, name: &'static str, len: usize, keys: &[&'static str], vals: &[T]) -> (r: Result<(), W::Error>)
  requires keys@.len() == vals@.len(), old(s).output.alive(),
  ensures r is Ok ==> final(s).output.alive() && ext(old(s).output.view(), final(s).output.view()) && jone(added(old(s).output.view(), final(s).output.view())), // #C06
{
  let ghost o = s.output.view();
  let mut c = SerdeSerializer::serialize_struct_variant(s, "", idx, name, len)?;
  let ghost m = c.ser.output.view(); let ghost fin = *final(c.ser);
  proof { lemma_none(); lemma_ext_refl(m); }
  let mut i: usize = 0;
  while i < vals.len()
    invariant i <= vals@.len(), keys@.len() == vals@.len(), c.ser.output.alive(), ext(o, m), ext(m, c.ser.output.view()), added(o, m) == seq![123u8] + quoted(name.spec_bytes()) + seq![58u8, 123u8], *final(c.ser) == fin, c.first == (i == 0),
      jents(added(m, c.ser.output.view()), i as nat),
    decreases vals@.len() - i
  {
    let ghost k = c.ser.output.view(); let ghost f = c.first;
    SerializeStructVariant::serialize_sv_field(&mut c, keys[i], &vals[i])?;
    proof { vp_step_field(m, k, c.ser.output.view(), f, i as nat, keys[i as int].spec_bytes()); }
    i = i + 1;
  }
  let ghost n = c.ser.output.view();
  proof { lemma_obj(added(m, n), i as nat); lemma_quoted_jstr(name.spec_bytes()); lemma_variant(quoted(name.spec_bytes()), seq![123u8] + added(m, n) + seq![125u8]); }
  let vp_r = SerializeStructVariant::end_sv(c);
  proof { if vp_r is Ok { let z = final(s).output.view(); lemma_ext3(o, m, n, z);
    assert(added(o, z) =~= seq![123u8] + quoted(name.spec_bytes()) + seq![58u8] + (seq![123u8] + added(m, n) + seq![125u8]) + seq![125u8]); } }
  vp_r
}
//@end

