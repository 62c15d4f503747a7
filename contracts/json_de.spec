@@include common.spec
@@include serde_de.spec
@@include serde_ser.spec
@@include base64.spec
@@include json_fmt.spec
@@include json_gram.spec
@@include json_dfmt.spec
@@include json_rt.spec
@@module de
@@drop encode
@@drop StdError for Error
@@drop Error for Error
@@drop Display for Error
@@drop Deserializer for MapKey::deserialize_i128
@@drop Deserializer for MapKey::deserialize_u128
@@subst-fn neg=>vp_neg
@@subst-path char::from_u32=>vp_char_from_u32
@@subst-path u16::from_le_bytes=>vp_u16_from_le
@@subst-path str::from_utf8_unchecked=>vp_from_utf8_unchecked
@@bound NumParseTool :: VpInt
@@bound CheckedSub :: VpSigned
@@head
use core::num::{ParseFloatError, ParseIntError};
use core::ops::Neg;
@@prelude
broadcast use {group_suffix, lemma_skipws, lemma_skipws_idem, lemma_uint_at, lemma_or32, lemma_shl4, lemma_add_skip, lemma_update_skip, group_bitops, lemma_be2};
pub use vp_jp::*;
pub mod vp_jp {
use super::vp_base::*; use super::vp_jd::*;
use vstd::prelude::*; use vstd::string::*; use vstd::utf8::*; use core::num::{ParseFloatError, ParseIntError}; use core::ops::Neg;
// ---------------------------------------------------------------- assumed contracts of core functions
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExParseFloatError(core::num::ParseFloatError);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExParseIntError(core::num::ParseIntError);
/// digits with an optional sign (core's integer parser)
pub open spec fn inum(s: Seq<u8>, signed: bool) -> Option<int> {
  let neg = signed && s.len() > 0 && s[0] == 45; let t = if neg || (s.len() > 0 && s[0] == 43) { s.skip(1) } else { s };
  if t.len() > 0 && drun(t) == t.len() { Some(if neg { -dnum(t) } else { dnum(t) as int }) } else { None }
}
pub uninterp spec fn f32_parsed(s: Seq<u8>) -> Option<f32>;
pub uninterp spec fn f64_parsed(s: Seq<u8>) -> Option<f64>;
pub trait FromStr: Sized {
  type Err;
  spec fn parsed(s: Seq<u8>) -> Option<Self>;
  fn from_str(s: &str) -> (r: core::result::Result<Self, Self::Err>) ensures okv(r) == Self::parsed(s.spec_bytes()), s.spec_bytes().len() == 0 ==> r is Err;
}
impl FromStr for f32 { type Err = ParseFloatError; open spec fn parsed(s: Seq<u8>) -> Option<f32> { f32_parsed(s) } #[verifier::external_body] fn from_str(s: &str) -> (r: core::result::Result<Self, ParseFloatError>) { unimplemented!() } }
impl FromStr for f64 { type Err = ParseFloatError; open spec fn parsed(s: Seq<u8>) -> Option<f64> { f64_parsed(s) } #[verifier::external_body] fn from_str(s: &str) -> (r: core::result::Result<Self, ParseFloatError>) { unimplemented!() } }
impl FromStr for u64 { type Err = ParseIntError; open spec fn parsed(s: Seq<u8>) -> Option<u64> { match inum(s, false) { Some(n) => if 0 <= n <= u64::MAX { Some(n as u64) } else { None }, None => None } } #[verifier::external_body] fn from_str(s: &str) -> (r: core::result::Result<Self, ParseIntError>) { unimplemented!() } }
impl FromStr for i64 { type Err = ParseIntError; open spec fn parsed(s: Seq<u8>) -> Option<i64> { match inum(s, true) { Some(n) => if i64::MIN <= n <= i64::MAX { Some(n as i64) } else { None }, None => None } } #[verifier::external_body] fn from_str(s: &str) -> (r: core::result::Result<Self, ParseIntError>) { unimplemented!() } }
/// what the signed integer types have in common
pub trait VpSigned: VpInt { proof fn lemma_signed() ensures Self::lo() <= -9, 9 <= Self::hi(); }
impl VpSigned for i8 { proof fn lemma_signed() {} } impl VpSigned for i16 { proof fn lemma_signed() {} } impl VpSigned for i32 { proof fn lemma_signed() {} } impl VpSigned for i64 { proof fn lemma_signed() {} }
#[verifier::external_body] pub fn vp_neg<T: VpInt + Neg<Output = T>>(x: T) -> (r: T) requires T::lo() <= -x.ival() <= T::hi() ensures r.ival() == -x.ival() { x.neg() }
#[verifier::external_body] pub fn vp_char_from_u32(x: u32) -> (r: Option<char>) ensures r is Some <==> x < 0xD800 || 0xE000 <= x < 0x11_0000, r is Some ==> r->0 as u32 == x { char::from_u32(x) }
#[verifier::external_body] pub fn vp_u16_from_le(b: [u8; 2]) -> (r: u16) ensures r == b@[0] + 256 * b@[1] { u16::from_le_bytes(b) }
#[verifier::external_body] pub fn vp_from_utf8_unchecked(b: &[u8]) -> (r: &str) requires valid_utf8(b@) ensures r.spec_bytes() == b@ { unsafe { core::str::from_utf8_unchecked(b) } }
#[verifier::external_body] pub fn vp_copy_within(b: &mut [u8], lo: usize, hi: usize, d: usize)
  requires lo <= hi <= old(b)@.len(), d + (hi - lo) <= old(b)@.len()
  ensures final(b)@ == old(b)@.take(d as int) + old(b)@.subrange(lo as int, hi as int) + old(b)@.skip(d + (hi - lo)) { b.copy_within(lo..hi, d) }
#[verifier::external_body] pub fn vp_encode_utf8_at(c: char, b: &mut [u8], d: usize) -> (r: usize)
  requires d + encode_utf8(seq![c]).len() <= old(b)@.len()
  ensures r == encode_utf8(seq![c]).len(), final(b)@ == old(b)@.take(d as int) + encode_utf8(seq![c]) + old(b)@.skip(d + r) { c.encode_utf8(&mut b[d..]).len() }
/// the raw view of a slice: disjoint parts of it can be taken out as references of their own
#[verifier::external_body] pub struct VpRaw<'a> { p: core::marker::PhantomData<&'a mut [u8]> }
impl<'a> VpRaw<'a> { pub uninterp spec fn bytes(self) -> Seq<u8>; pub uninterp spec fn taken(self) -> Set<int>; }
#[verifier::external_body] pub fn vp_raw_of<'a>(x: &mut &'a mut [u8]) -> (r: VpRaw<'a>) ensures r.bytes() == old(x)@, r.taken() == Set::<int>::empty(), final(x)@ == old(x)@ { unimplemented!() }
#[verifier::external_body] pub fn vp_raw_part<'a>(p: &mut VpRaw<'a>, off: usize, len: usize) -> (r: &'a mut [u8])
  requires off + len <= old(p).bytes().len(), forall|i: int| off <= i < off + len ==> !#[trigger] old(p).taken().contains(i)
  ensures r@ == old(p).bytes().subrange(off as int, off + len), final(p).bytes() == old(p).bytes(), forall|i: int| final(p).taken().contains(i) <==> old(p).taken().contains(i) || off <= i < off + len { unimplemented!() }
pub broadcast proof fn lemma_add_skip(a: Seq<u8>, b: Seq<u8>, i: int) requires 0 <= i <= a.len() ensures #[trigger] (a.take(i) + b).skip(i) == b { assert((a.take(i) + b).skip(i) =~= b); }
pub broadcast proof fn lemma_update_skip(a: Seq<u8>, j: int, x: u8, i: int) requires 0 <= j < i <= a.len() ensures #[trigger] a.update(j, x).skip(i) == a.skip(i) { assert(a.update(j, x).skip(i) =~= a.skip(i)); }
pub broadcast proof fn lemma_or32(c: u8) ensures #[trigger] (c | 0x20) == (if c / 32 % 2 == 0 { c + 32 } else { c as int }) { assert((c | 0x20) == (if c / 32 % 2 == 0 { add(c, 32) } else { c })) by (bit_vector); assert(c / 32 % 2 == 0 ==> c <= 223) by (bit_vector); }
pub broadcast proof fn lemma_shl4(n: u8) ensures n < 16 ==> #[trigger] (n << 4u8) == n * 16 { assert(n < 16 ==> (n << 4u8) == mul(n, 16)) by (bit_vector); }
/// bit operations in which no two operands share a bit are sums
pub broadcast proof fn lemma_bit0_usize(x: usize) ensures #[trigger] (x & 1) == x % 2 { assert((x & 1) == x % 2) by (bit_vector); }
pub broadcast proof fn lemma_bit0_u8(x: u8) ensures #[trigger] (x & 1) == x % 2 { assert((x & 1) == x % 2) by (bit_vector); }
pub broadcast proof fn lemma_or_u8(a: u8, b: u8) ensures a % 16 == 0 && b < 16 ==> #[trigger] (a | b) == a + b { assert(a % 16 == 0 && b < 16 ==> (a | b) == add(a, b)) by (bit_vector); assert(a % 16 == 0 ==> a <= 240) by (bit_vector); }
pub broadcast proof fn lemma_or_u16(a: u16, b: u16) ensures #![trigger (a | b)] a % 16 == 0 && b < 16 ==> (a | b) == a + b, a % 256 == 0 && b < 256 ==> (a | b) == a + b, a % 4096 == 0 && b < 4096 ==> (a | b) == a + b {
  assert(a % 16 == 0 && b < 16 ==> (a | b) == add(a, b) && a <= 0xfff0) by (bit_vector); assert(a % 256 == 0 && b < 256 ==> (a | b) == add(a, b) && a <= 0xff00) by (bit_vector); assert(a % 4096 == 0 && b < 4096 ==> (a | b) == add(a, b) && a <= 0xf000) by (bit_vector); }
pub broadcast proof fn lemma_or_u32(a: u32, b: u32) ensures #![trigger (a | b)] a % 16 == 0 && b < 16 ==> (a | b) == a + b, a % 256 == 0 && b < 256 ==> (a | b) == a + b, a % 4096 == 0 && b < 4096 ==> (a | b) == a + b {
  assert(a % 16 == 0 && b < 16 ==> (a | b) == add(a, b) && a <= 0xffff_fff0) by (bit_vector); assert(a % 256 == 0 && b < 256 ==> (a | b) == add(a, b) && a <= 0xffff_ff00) by (bit_vector); assert(a % 4096 == 0 && b < 4096 ==> (a | b) == add(a, b) && a <= 0xffff_f000) by (bit_vector); }
pub broadcast proof fn lemma_shl_u16(n: u16) ensures #![trigger (n << 4)] #![trigger (n << 8)] #![trigger (n << 12)] n < 4096 ==> (n << 4) == n * 16, n < 256 ==> (n << 8) == n * 256, n < 16 ==> (n << 12) == n * 4096 {
  assert(n < 4096 ==> (n << 4) == mul(n, 16)) by (bit_vector); assert(n < 256 ==> (n << 8) == mul(n, 256)) by (bit_vector); assert(n < 16 ==> (n << 12) == mul(n, 4096)) by (bit_vector); }
pub broadcast proof fn lemma_shl_u32(n: u32) ensures #![trigger (n << 4)] #![trigger (n << 8)] #![trigger (n << 12)] n < 0x10000 ==> (n << 4) == n * 16, n < 0x10000 ==> (n << 8) == n * 256, n < 0x10000 ==> (n << 12) == n * 4096 {
  assert(n < 0x10000 ==> (n << 4) == mul(n, 16)) by (bit_vector); assert(n < 0x10000 ==> (n << 8) == mul(n, 256)) by (bit_vector); assert(n < 0x10000 ==> (n << 12) == mul(n, 4096)) by (bit_vector); }
pub broadcast group group_bitops { lemma_bit0_usize, lemma_bit0_u8, lemma_or_u8, lemma_or_u16, lemma_or_u32, lemma_shl_u16, lemma_shl_u32 }
} // vp_jp
@@prelude
pub use vp_jl::*;
pub mod vp_jl {
use super::vp_base::*; use super::vp_jd::*; use super::vp_jp::*; use super::vp_js::*; use super::vp_b64::*;
use vstd::prelude::*; use vstd::utf8::*;
broadcast use {group_suffix, lemma_skipws, lemma_skipws_idem};
/// characters that make a number a floating-point number
pub open spec fn fch(c: u8) -> bool { c == 46 || c == 101 || c == 69 }
pub open spec fn isf(s: Seq<u8>) -> bool { exists|j: int| 0 <= j < s.len() && fch(#[trigger] s[j]) }
pub open spec fn any_parsed(s: Seq<u8>) -> Option<f64> { f64_parsed(s) }
pub proof fn lemma_num_utf8(s: Seq<u8>, k: int) requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> nch(#[trigger] s[j]) ensures valid_utf8(s.take(k))
{ let x = s.take(k); assert forall|j: int| 0 <= j < x.len() implies #[trigger] x[j] < 0x80 by { assert(nch(s[j])); } lemma_ascii_utf8(x); }
/// a decodable string whose content is text
pub open spec fn utf8s(d: Option<(Seq<u8>, Seq<u8>)>) -> bool { d is Some && valid_utf8((d->0).0) }
pub open spec fn jv(s: Seq<u8>, m: bool) -> bool {
  let u = skipws(s); let v = u.skip(1);
  jskip(u, m) == jskip(s, m) && jskip(s, m) == (
    if u.len() == 0 { None::<Seq<u8>> } else if u[0] == 34 { sskip(v, m) } else if u[0] == 91 { jels(v, true, m) } else if u[0] == 123 { jents(v, true, m) }
    else if u[0] == 110 { if lit(u, lnull()) { Some(u.skip(4)) } else { None } }
    else if u[0] == 116 { if lit(u, ltrue()) { Some(u.skip(4)) } else { None } }
    else if u[0] == 102 { if lit(u, lfalse()) { Some(u.skip(5)) } else { None } }
    else if nch(u[0]) && (!m || dig(u[0]) || u[0] == 45) { Some(u.skip(nrun(u) as int)) } else { None })
}
/// what a value is, by its first character
pub proof fn lemma_jv(s: Seq<u8>) ensures jv(s, true), jv(s, false),
  ({ let u = skipws(s); let v = u.skip(1); u.len() > 0 ==> {
    (sdec(v) is Some ==> sskip(v, true) == Some((sdec(v)->0).1) && sskip(v, false) == Some((sdec(v)->0).1))
    && (adec(v) is Some ==> jels(v, true, false) == Some((adec(v)->0).1))
    && (u[0] == 110 ==> (lit(u, lnull()) <==> lit(v, seq![117u8, 108u8, 108u8]))) && (u[0] == 116 ==> (lit(u, ltrue()) <==> lit(v, seq![114u8, 117u8, 101u8]))) && (u[0] == 102 ==> (lit(u, lfalse()) <==> lit(v, seq![97u8, 108u8, 115u8, 101u8])))
    && nrun(u) <= u.len() && (nrun(u) > 0 <==> nch(u[0])) } }),
  ({ let u = skipws(s); (lit(u, lnull()) ==> u.len() >= 4 && u[0] == 110) && (lit(u, ltrue()) ==> u.len() >= 4 && u[0] == 116) && (lit(u, lfalse()) ==> u.len() >= 5 && u[0] == 102) }),
{
  lemma_jskip_ws(s, true); lemma_jskip_ws(s, false); reveal(jskip);
  let u = skipws(s); let v = u.skip(1);
  if u.len() > 0 { lemma_sdec_sskip(v, true); lemma_sdec_sskip(v, false); lemma_adec(v); lemma_words(u); lemma_nrun_all(u); }
  if lit(u, lnull()) { assert(u.take(4)[0] == u[0]); } if lit(u, ltrue()) { assert(u.take(4)[0] == u[0]); } if lit(u, lfalse()) { assert(u.take(5)[0] == u[0]); }
}
/// reading an integer stops inside, or at the end of, the number token
pub proof fn lemma_jval_int(s: Seq<u8>) ensures ({ let u = skipws(s);
    (uint_at(u) is Some ==> ({ let k = (uint_at(u)->0).1; 0 < k <= u.len() && jval(s, u.skip(k)) })) && (int_at(u) is Some ==> ({ let k = (int_at(u)->0).1; 0 < k <= u.len() && jval(s, u.skip(k)) })) })
{
  let u = skipws(s); lemma_jskip_num(s, false); lemma_suffix_trans_all(s); lemma_nrun_all(u);
  if uint_at(u) is Some { lemma_uint_nrun(u); let k = (uint_at(u)->0).1; lemma_num_stop(s, k); }
  if u.len() > 0 && u[0] == 45 { let w = u.skip(1); if uint_at(w) is Some { lemma_uint_nrun(w); lemma_nrun_all(w); let k = (uint_at(w)->0).1; assert(nrun(u) == 1 + nrun(w)); lemma_num_stop(s, k + 1); } }
}
pub proof fn lemma_suffix_trans_all(s: Seq<u8>) ensures is_suffix(skipws(s), s) { }
proof fn lemma_num_stop(s: Seq<u8>, k: int) requires skipws(s).len() > 0, nch(skipws(s)[0]), 0 < k <= skipws(s).len(), k == skipws(s).len() || !nch(skipws(s)[k]) ==> nrun(skipws(s)) == k ensures jval(s, skipws(s).skip(k))
{ let u = skipws(s); lemma_jskip_num(s, false); let t = u.skip(k); if k < u.len() && nch(u[k]) { assert(t[0] == u[k]); lemma_suffix_skip(u, k); lemma_suffix_trans(t, u, s); } }
/// a strict skipper and a lenient one agree where the strict one succeeds
pub proof fn lemma_sskip_strict(s: Seq<u8>) ensures sskip(s, true) is Some ==> sskip(s, false) == sskip(s, true) decreases s.len()
{ reveal(sskip); if s.len() > 0 && s[0] != 34 { if s[0] == 92 { if s.len() >= 2 { lemma_sskip_strict(s.skip(2)); } } else { lemma_sskip_strict(s.skip(1)); } } }
/// a control character before any quote
pub proof fn lemma_sskip_ctl(s: Seq<u8>, k: int) requires 0 <= k < s.len(), s[k] < 32, forall|i: int| 0 <= i < k ==> s[i] >= 32 && #[trigger] s[i] != 34 ensures sskip(s, true) is None decreases k
{ reveal(sskip); if k > 0 { let n = if s[0] == 92 { 2int } else { 1 }; assert(s[0] >= 32 && s[0] != 34); if n <= k { let t = s.skip(n); assert forall|i: int| 0 <= i < k - n implies t[i] >= 32 && #[trigger] t[i] != 34 by { assert(t[i] == s[i + n]); } lemma_sskip_ctl(t, k - n); } } }
pub proof fn lemma_key(s: Seq<u8>) requires s.len() > 0, s[0] == 34 ensures skipws(s) == s, jskip(s, false) == sskip(s.skip(1), false), !nch(s[0]), sdec(s.skip(1)) is Some ==> sskip(s.skip(1), false) == Some((sdec(s.skip(1))->0).1), jval(s, s.skip(1)) || true
{ lemma_jv(s); }
/// a run without quotes and backslashes, then a quote
pub proof fn lemma_sskip_to(s: Seq<u8>, k: int) requires 0 <= k < s.len(), s[k] == 34, forall|i: int| 0 <= i < k ==> #[trigger] s[i] != 34 && s[i] != 92 ensures sskip(s, false) == Some(s.skip(k + 1)) decreases k
{ reveal(sskip); if k > 0 { let t = s.skip(1); assert forall|i: int| 0 <= i < k - 1 implies #[trigger] t[i] != 34 && t[i] != 92 by { assert(t[i] == s[i + 1]); } assert(s[0] != 34 && s[0] != 92); lemma_sskip_to(t, k - 1); assert(t.skip(k) =~= s.skip(k + 1)); } else { assert(s.skip(1) =~= s.skip(k + 1)); } }
pub proof fn lemma_ws_prefix(s: Seq<u8>) ensures ({ let n = s.len() - skipws(s).len(); 0 <= n && skipws(s) == s.skip(n) && forall|i: int| 0 <= i < n ==> ws(#[trigger] s[i]) }) decreases s.len()
{ reveal(skipws); let n = s.len() - skipws(s).len(); if s.len() > 0 && ws(s[0]) { let t = s.skip(1); lemma_ws_prefix(t); assert(t.skip(n - 1) =~= s.skip(n)); assert forall|i: int| 0 <= i < n implies ws(#[trigger] s[i]) by { if i > 0 { assert(t[i - 1] == s[i]); } } } else { assert(s.skip(0) =~= s); } }
/// white space, then k characters without quotes and backslashes, then a quote
pub proof fn lemma_key_to(s: Seq<u8>, k: int) requires ({ let u = skipws(s); 0 <= k < u.len() && u[k] == 34 && forall|i: int| 0 <= i < k ==> #[trigger] u[i] != 34 && u[i] != 92 }) ensures sskip(s, false) == Some(skipws(s).skip(k + 1))
{ lemma_ws_prefix(s); let u = skipws(s); let n = s.len() - u.len(); assert forall|i: int| 0 <= i < n + k implies #[trigger] s[i] != 34 && s[i] != 92 by { if i >= n { assert(u[i - n] == s[i]); } else { assert(ws(s[i])); } } assert(s[n + k] == u[k]); lemma_sskip_to(s, n + k); assert(s.skip(n + k + 1) =~= u.skip(k + 1)); }
pub proof fn lemma_key_int(s: Seq<u8>) requires s.len() > 0, s[0] == 34 
  ensures ({ let w = s.skip(1); let u = skipws(w);
    (uint_at(u) is Some ==> ({ let k = (uint_at(u)->0).1; k < u.len() && u[k] == 34 ==> sskip(w, false) == Some(u.skip(k + 1)) })) && (int_at(u) is Some ==> ({ let k = (int_at(u)->0).1; k < u.len() && u[k] == 34 ==> sskip(w, false) == Some(u.skip(k + 1)) })) })
{
  let w = s.skip(1); let u = skipws(w); lemma_jval_int(w); lemma_drun_all(u);
  if uint_at(u) is Some { let k = (uint_at(u)->0).1; assert forall|i: int| 0 <= i < k implies #[trigger] u[i] != 34 && u[i] != 92 by { assert(dig(u[i])); } if k < u.len() && u[k] == 34 { lemma_key_to(w, k); } }
  if u.len() > 0 && u[0] == 45 { let x = u.skip(1); lemma_drun_all(x); if uint_at(x) is Some { let k = (uint_at(x)->0).1 + 1; assert forall|i: int| 0 <= i < k implies #[trigger] u[i] != 34 && u[i] != 92 by { if i > 0 { assert(dig(x[i - 1])); } } if k < u.len() && u[k] == 34 { lemma_key_to(w, k); } } }
}
pub proof fn lemma_key_bool(s: Seq<u8>) requires s.len() > 0, s[0] == 34
  ensures ({ let w = s.skip(1); let u = skipws(w); (u.len() > 4 ==> u.skip(4).skip(1) == u.skip(5)) && (lit(u, lfalse()) ==> u.len() >= 5 && u[0] == 102) && (lit(u, ltrue()) ==> u[0] == 116) && (u.len() > 5 ==> u.skip(5).skip(1) == u.skip(6)) && (lit(u, ltrue()) && u.len() > 4 && u[4] == 34 ==> sskip(w, false) == Some(u.skip(5))) && (lit(u, lfalse()) && u.len() > 5 && u[5] == 34 ==> sskip(w, false) == Some(u.skip(6))) })
{
  let w = s.skip(1); let u = skipws(w); lemma_jv(w); if u.len() > 4 { assert(u.skip(4).skip(1) =~= u.skip(5)); } if u.len() > 5 { assert(u.skip(5).skip(1) =~= u.skip(6)); }
  if lit(u, ltrue()) && u.len() > 4 && u[4] == 34 { assert forall|i: int| 0 <= i < 4 implies #[trigger] u[i] != 34 && u[i] != 92 by { assert(u.take(4)[i] == u[i]); assert(ltrue()[i] == u[i]); } lemma_key_to(w, 4); }
  if lit(u, lfalse()) && u.len() > 5 && u[5] == 34 { assert forall|i: int| 0 <= i < 5 implies #[trigger] u[i] != 34 && u[i] != 92 by { assert(u.take(5)[i] == u[i]); assert(lfalse()[i] == u[i]); } lemma_key_to(w, 5); }
}
} // vp_jl
@@prelude
pub use vp_jstr::*;
pub mod vp_jstr {
use super::vp_base::*; use super::vp_jd::*; use super::vp_b64::*;
use vstd::prelude::*; use vstd::utf8::*;
/// characters before the first quote, backslash or control character
pub open spec fn prun(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 || !plain(s[0]) { 0 } else { 1 + prun(s.skip(1)) } }
pub proof fn lemma_prun(s: Seq<u8>, k: int) requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> plain(#[trigger] s[i]), k == s.len() || !plain(s[k]) ensures prun(s) == k decreases k
{ if k > 0 { assert(plain(s[0])); let t = s.skip(1); assert forall|i: int| 0 <= i < k - 1 implies plain(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); } lemma_prun(t, k - 1); } }
pub proof fn lemma_prun_all(s: Seq<u8>) ensures prun(s) <= s.len(), forall|i: int| 0 <= i < prun(s) ==> plain(#[trigger] s[i]), prun(s) < s.len() ==> !plain(s[prun(s) as int]) decreases s.len()
{ if s.len() > 0 && plain(s[0]) { let t = s.skip(1); lemma_prun_all(t); assert forall|i: int| 0 <= i < prun(s) implies plain(#[trigger] s[i]) by { if i > 0 { assert(t[i - 1] == s[i]); } } } }
pub proof fn lemma_unesc_len(x: Seq<u8>) ensures match unesc(x) { Some((d, n)) => 0 < n <= 5 && n <= x.len() && 0 < d.len() <= n + 1, None => true }
{ if x.len() >= 5 { if let Some(v) = hex4(x[1], x[2], x[3], x[4]) { reveal_with_fuel(encode_utf8, 2); let c = v as char; let s = seq![c]; assert(s.drop_first() =~= Seq::<char>::empty()); assert(encode_utf8(s) =~= encode_scalar(c as u32)); assert(0 <= v <= 0xffff) by (nonlinear_arith) requires v == ((hx(x[1]) * 16 + hx(x[2])) * 16 + hx(x[3])) * 16 + hx(x[4]), 0 <= hx(x[1]) < 16, 0 <= hx(x[2]) < 16, 0 <= hx(x[3]) < 16, 0 <= hx(x[4]) < 16; } } }
/// what happens at one position of a string
pub proof fn lemma_sdec_at(t: Seq<u8>) ensures t.len() == 0 ==> sdec(t) is None, t.len() > 0 && t[0] < 32 ==> sdec(t) is None, t.len() > 0 && t[0] == 34 ==> sdec(t) == Some((Seq::<u8>::empty(), t.skip(1))),
  t.len() > 0 && t[0] == 92 ==> match unesc(t.skip(1)) { Some((d, n)) => 0 < n <= 5 && 1 + n <= t.len() && 0 < d.len() <= n + 1 && sdec(t) == prep(d, sdec(t.skip(1 + n))), None => sdec(t) is None }
{ reveal(sdec); if t.len() > 0 { lemma_unesc_len(t.skip(1)); } }
/// decoding a string in place: a[..dest] has been decoded, o[index..start] is to be kept as it is
pub open spec fn sinv(a: Seq<u8>, o: Seq<u8>, i0: int, dest: int, index: int, start: int) -> bool {
  0 <= i0 <= dest <= index <= start <= o.len() && a.len() == o.len() && a.skip(index) == o.skip(index)
  && sdec(o.skip(i0)) == prep(a.subrange(i0, dest), prep(o.subrange(index, start), sdec(o.skip(start)))) }
/// the buffer after o[index..end] has been moved down
pub open spec fn moved(a: Seq<u8>, dest: int, index: int, end: int) -> Seq<u8> { a.take(dest) + a.subrange(index, end) + a.skip(dest + (end - index)) }
pub open spec fn sinv2(b: Seq<u8>, o: Seq<u8>, i0: int, m: int, end: int) -> bool { 0 <= i0 <= m <= end <= o.len() && b.len() == o.len() && b.skip(end) == o.skip(end) && sdec(o.skip(i0)) == prep(b.subrange(i0, m), sdec(o.skip(end))) }
pub proof fn lemma_str_move(a: Seq<u8>, o: Seq<u8>, i0: int, dest: int, index: int, start: int) requires sinv(a, o, i0, dest, index, start)
  ensures ({ let k = prun(o.skip(start)) as int; let end = start + k; let b = moved(a, dest, index, end); end <= o.len() && sinv2(b, o, i0, dest + (end - index), end) && (index == dest ==> b == a) && (end < o.len() ==> a[end] == o[end] && b[end] == o[end]) && a.skip(start) == o.skip(start) })
{
  let s = o.skip(start); lemma_prun_all(s); let k = prun(s) as int; let end = start + k; lemma_sdec_run(s, k); assert(s.skip(k) =~= o.skip(end)); assert(s.take(k) =~= o.subrange(start, end));
  let p = a.subrange(i0, dest); let q = o.subrange(index, start); let z = sdec(o.skip(end));
  lemma_prep2(q, s.take(k), z); assert(q + s.take(k) =~= o.subrange(index, end)); lemma_prep2(p, o.subrange(index, end), z);
  let b = moved(a, dest, index, end); let m = dest + (end - index);
  lemma_sub(a, o, index, index, end); lemma_skip(a, o, index, start - index); lemma_skip(a, o, index, end - index);
  assert(b.subrange(i0, m) =~= p + o.subrange(index, end)); assert(b.skip(end) =~= a.skip(end)); if index == dest { assert(b =~= a); }
  if end < o.len() { assert(o.skip(end)[0] == o[end]); assert(b.skip(end)[0] == b[end]); assert(a.skip(end)[0] == a[end]); }
}
/// what is found after the run
pub proof fn lemma_str_found(b: Seq<u8>, o: Seq<u8>, i0: int, m: int, end: int) requires sinv2(b, o, i0, m, end)
  ensures end == o.len() ==> sdec(o.skip(i0)) is None,
    end < o.len() ==> { let c = o[end]; let x = o.skip(end + 1); b[end] == c && b.skip(end + 1) == x && (c < 32 ==> sdec(o.skip(i0)) is None) && (c == 34 ==> sdec(o.skip(i0)) == Some((b.subrange(i0, m), x)))
      && (c == 92 ==> match unesc(x) { Some((d, n)) => 0 < n <= 5 && n <= x.len() && 0 < d.len() <= n + 1 && sdec(o.skip(i0)) == prep(b.subrange(i0, m), prep(d, sdec(o.skip(end + 1 + n)))), None => sdec(o.skip(i0)) is None }) }
{
  let t = o.skip(end); lemma_sdec_at(t);
  if end < o.len() { let x = o.skip(end + 1); assert(t.skip(1) =~= x); lemma_skip(b, o, end, 1); assert(b.skip(end)[0] == b[end]); assert(t[0] == o[end]);
    if o[end] == 34 { assert(b.subrange(i0, m) + Seq::<u8>::empty() =~= b.subrange(i0, m)); }
    if o[end] == 92 { if let Some((d, n)) = unesc(x) { assert(t.skip(1 + n) =~= o.skip(end + 1 + n)); } } }
}
/// after an escape: either its character has been written at m, or it is kept where it is
pub proof fn lemma_str_esc(a2: Seq<u8>, b: Seq<u8>, o: Seq<u8>, i0: int, m: int, end: int, dest: int, index: int, start: int)
  requires sinv2(b, o, i0, m, end), end < o.len(), o[end] == 92, unesc(o.skip(end + 1)) is Some,
    ({ let d = (unesc(o.skip(end + 1))->0).0; let n = (unesc(o.skip(end + 1))->0).1;
      (a2 == b && dest == m && index == end + 1 && start == end + 2 && n == 1 && d.len() == 1 && d[0] == o[end + 1])
      || (index == start && start == end + 1 + n && dest == m + d.len() && a2.len() == b.len() && (forall|i: int| 0 <= i < b.len() ==> #[trigger] a2[i] == (if m <= i < m + d.len() { d[i - m] } else { b[i] }))) }),
  ensures sinv(a2, o, i0, dest, index, start)
{
  lemma_str_found(b, o, i0, m, end); let x = o.skip(end + 1); let d = (unesc(x)->0).0; let n = (unesc(x)->0).1; let z = sdec(o.skip(end + 1 + n));
  assert(d.len() <= n + 1); assert(end + 1 + n <= o.len());
  assert forall|i: int| end <= i < o.len() implies #[trigger] b[i] == o[i] by { assert(b.skip(end)[i - end] == o.skip(end)[i - end]); }
  if a2 == b && start == end + 2 && index == end + 1 { assert(o.subrange(index, start) =~= d); assert(a2.skip(index) =~= o.skip(index)); }
  else {
    assert(a2.subrange(i0, dest) =~= b.subrange(i0, m) + d); lemma_prep2(b.subrange(i0, m), d, z); assert(o.subrange(index, start) =~= Seq::<u8>::empty()); lemma_prep0(z);
    assert(a2.skip(index) =~= o.skip(index));
  }
}
pub proof fn lemma_sinv0(o: Seq<u8>, i0: int) requires 0 <= i0 <= o.len() ensures sinv(o, o, i0, i0, i0, i0) { assert(o.subrange(i0, i0) =~= Seq::<u8>::empty()); let z = sdec(o.skip(i0)); lemma_prep0(z); lemma_prep0(prep(Seq::<u8>::empty(), z)); }
/// hexadecimal digits decoded in place: c[..k] has been decoded
pub open spec fn hinv(c: Seq<u8>, o: Seq<u8>, k: int) -> bool { 0 <= 2 * k <= o.len() && c.len() == o.len() && (forall|i: int| k <= i < o.len() ==> #[trigger] c[i] == o[i]) && hexdec(o) == prep(c.take(k), hexdec(o.skip(2 * k))) }
pub proof fn lemma_hex0(o: Seq<u8>) ensures hinv(o, o, 0) { assert(o.take(0) =~= Seq::<u8>::empty()); assert(o.skip(0) =~= o); lemma_prep0(hexdec(o)); }
pub proof fn lemma_hex_at(c: Seq<u8>, o: Seq<u8>, k: int) requires hinv(c, o, k)
  ensures 2 * k == o.len() ==> hexdec(o) is None,
    2 * k < o.len() ==> c[2 * k] == o[2 * k] && (if o[2 * k] == 34 { hexdec(o) == Some((c.take(k), o.skip(2 * k + 1))) && c.skip(2 * k + 1) == o.skip(2 * k + 1) }
      else if 2 * k + 1 < o.len() && is_hex(o[2 * k]) && is_hex(o[2 * k + 1]) { c[2 * k + 1] == o[2 * k + 1] && hinv(c.update(k, (hx(o[2 * k]) * 16 + hx(o[2 * k + 1])) as u8), o, k + 1) } else { hexdec(o) is None && (2 * k + 1 < o.len() ==> c[2 * k + 1] == o[2 * k + 1]) })
{
  let t = o.skip(2 * k); reveal_with_fuel(hexdec, 2);
  if t.len() > 0 { assert(t[0] == o[2 * k]); if o[2 * k] == 34 { assert(c.take(k) + Seq::<u8>::empty() =~= c.take(k)); assert(t.skip(1) =~= o.skip(2 * k + 1)); assert(c.skip(2 * k + 1) =~= o.skip(2 * k + 1)); }
    else if t.len() >= 2 { assert(t[1] == o[2 * k + 1]); if is_hex(t[0]) && is_hex(t[1]) { let v = (hx(t[0]) * 16 + hx(t[1])) as u8; assert(t.skip(2) =~= o.skip(2 * (k + 1))); lemma_prep2(c.take(k), seq![v], hexdec(t.skip(2))); assert(c.take(k) + seq![v] =~= c.update(k, v).take(k + 1)); } } }
}
/// base64 decoded in place: past the decoded bytes the buffer is as it was
pub proof fn lemma_b64_buf(o: Seq<u8>) ensures ({ let u = unb64(o.take(arun(o) as int)); let c = u + o.skip(u.len() as int); u.len() <= o.len() ==> c.take(u.len() as int) == u && (forall|j: int| u.len() <= j <= o.len() ==> #[trigger] c.skip(j) == o.skip(j)) && (forall|j: int| u.len() <= j < o.len() ==> #[trigger] c[j] == o[j]) })
{ let u = unb64(o.take(arun(o) as int)); let c = u + o.skip(u.len() as int); if u.len() <= o.len() { assert(c.take(u.len() as int) =~= u); assert forall|j: int| u.len() <= j <= o.len() implies #[trigger] c.skip(j) == o.skip(j) by { assert(c.skip(j) =~= o.skip(j)); } } }
/// numbers of an array collected in place
pub open spec fn ainv(a: Seq<u8>, i0: int, j: int, s0: Seq<u8>, s: Seq<u8>) -> bool { 0 <= i0 <= j <= a.len() && arrels(s0) == prep(a.subrange(i0, j), arrels(s)) }
pub proof fn lemma_arr0(a: Seq<u8>, i0: int, s: Seq<u8>) requires 0 <= i0 <= a.len() ensures ainv(a, i0, i0, s, s) { assert(a.subrange(i0, i0) =~= Seq::<u8>::empty()); lemma_prep0(arrels(s)); }
pub proof fn lemma_adec0(s: Seq<u8>) ensures skipws(s).len() == 0 ==> adec(s) is None, arrels(skipws(s)) == arrels(s), !closed(s, 93) ==> adec(s) == arrels(s), closed(s, 93) ==> adec(s) == Some((Seq::<u8>::empty(), skipws(s).skip(1))) { reveal_with_fuel(arrels, 1); lemma_skipws(s); lemma_skipws_idem(s); }
pub proof fn lemma_arr_at(a: Seq<u8>, i0: int, j: int, s0: Seq<u8>, s: Seq<u8>) requires ainv(a, i0, j, s0, s), j < a.len()
  ensures ({ let u = skipws(s); match uint_at(u) { Some((n, k)) => if n > 255 { arrels(s0) is None } else { 0 < k <= u.len() && ({ let v = skipws(u.skip(k)); let b = a.update(j, n as u8);
      if v.len() == 0 { arrels(s0) is None } else if v[0] == 93 { arrels(s0) == Some((b.subrange(i0, j + 1), v.skip(1))) } else if v[0] == 44 { ainv(b, i0, j + 1, s0, v.skip(1)) } else { arrels(s0) is None } }) }, None => arrels(s0) is None } })
{
  reveal_with_fuel(arrels, 2); let u = skipws(s); lemma_skipws(s); lemma_uint_at(u);
  if let Some((n, k)) = uint_at(u) { if n <= 255 { let v = skipws(u.skip(k)); lemma_skipws(u.skip(k)); let b = a.update(j, n as u8); let p = a.subrange(i0, j); assert(b.subrange(i0, j + 1) =~= p + seq![n as u8]); if v.len() > 0 { lemma_prep2(p, seq![n as u8], arrels(v.skip(1))); } } }
}
} // vp_jstr
@@prelude
impl vstd::std_specs::convert::FromSpecImpl<Utf8Error> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: Utf8Error) -> Self { Error::InvalidUnicodeCodePoint } }
impl vstd::std_specs::convert::FromSpecImpl<ParseFloatError> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ParseFloatError) -> Self { Error::InvalidNumber } }
impl vstd::std_specs::convert::FromSpecImpl<ParseIntError> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ParseIntError) -> Self { Error::InvalidNumber } }
impl<'de, P> Deserializer<'de, P> {
  pub open spec fn wf(&self) -> bool { self.index <= self.input@.len() && self.input@.len() <= isize::MAX }
  pub open spec fn rest(&self) -> Seq<u8> { if self.index <= self.input@.len() { self.input@.skip(self.index as int) } else { Seq::empty() } }
}
impl<'r, 'de, P> DeHandle for &'r mut Deserializer<'de, P> {
  type HErr = Error;
  open spec fn pre(self) -> bool { self.wf() }
  #[verifier::prophetic] open spec fn post(self, ok: bool) -> bool { final(self).wf() && (ok ==> jval(self.rest(), final(self).rest())) }
  #[verifier::prophetic] open spec fn skip_post(self, ok: bool) -> bool { (ok <==> jskip(self.rest(), true) is Some) && (ok ==> jskip(self.rest(), true) == Some(final(self).rest())) }
}
/// a client that takes everything there is stops at the closing bracket
pub open spec fn all_taken(r: Option<Seq<u8>>, t: Seq<u8>, close: u8, ok: bool) -> bool { (ok <==> r is Some) && (ok ==> closed(t, close) && r == Some(skipws(t).skip(1))) }
impl<'a, 'de, P> DeHandle for CommaSeparated<'a, 'de, P> {
  type HErr = Error;
  open spec fn pre(self) -> bool { self.de.wf() }
  #[verifier::prophetic] open spec fn post(self, ok: bool) -> bool { final(self.de).wf() && (ok ==> els_to(self.de.rest(), self.first, final(self.de).rest())) }
  #[verifier::prophetic] open spec fn skip_post(self, ok: bool) -> bool { all_taken(jels(self.de.rest(), self.first, true), final(self.de).rest(), 93, ok) }
}
impl<'a, 'de, P> MapHandle for CommaSeparated<'a, 'de, P> {
  type HErr = Error;
  open spec fn m_pre(self) -> bool { self.de.wf() }
  #[verifier::prophetic] open spec fn m_post(self, ok: bool) -> bool { final(self.de).wf() && (ok ==> ents_to(self.de.rest(), self.first, final(self.de).rest())) }
  #[verifier::prophetic] open spec fn m_skip_post(self, ok: bool) -> bool { all_taken(jents(self.de.rest(), self.first, true), final(self.de).rest(), 125, ok) }
}
impl<'a, 'de, P> DeHandle for UnitVariantAccess<'a, 'de, P> {
  type HErr = Error;
  open spec fn pre(self) -> bool { self.de.wf() }
  #[verifier::prophetic] open spec fn post(self, ok: bool) -> bool { final(self.de).wf() && (ok ==> jval(self.de.rest(), final(self.de).rest())) }
  #[verifier::prophetic] open spec fn skip_post(self, ok: bool) -> bool { true }
}
impl<'a, 'de, P> DeHandle for VariantAccess<'a, 'de, P> {
  type HErr = Error;
  open spec fn pre(self) -> bool { self.de.wf() }
  #[verifier::prophetic] open spec fn post(self, ok: bool) -> bool { final(self.de).wf() && (ok ==> ents_to(self.de.rest(), true, final(self.de).rest())) }
  #[verifier::prophetic] open spec fn skip_post(self, ok: bool) -> bool { true }
}
impl<'a, 'de, P> DeHandle for MapKey<'a, 'de, P> {
  type HErr = Error;
  open spec fn pre(self) -> bool { self.de.wf() && self.de.rest().len() > 0 && self.de.rest()[0] == 34 }
  #[verifier::prophetic] open spec fn post(self, ok: bool) -> bool { final(self.de).wf() && (ok ==> sskip(self.de.rest().skip(1), false) == Some(final(self.de).rest())) }
  #[verifier::prophetic] open spec fn skip_post(self, ok: bool) -> bool { (ok <==> utf8s(sdec(self.de.rest().skip(1)))) && (ok ==> (sdec(self.de.rest().skip(1))->0).1 == final(self.de).rest()) }
}

@@fn Deserializer::from_mut_slice [C11,C15]
  requires old(input)@.len() <= isize::MAX,
  ensures r.wf(), r.rest() == old(input)@, // #C11 #C15
@@at begin :: Deserializer::from_mut_slice
proof { assert(input@.skip(0) =~= input@); }
@@fn Deserializer::end [C15,C11]
  requires self.wf(),
  ensures r is Ok <==> skipws(self.rest()).len() == 0, // #C15
@@fn Deserializer::remaining_len [C11]
  ensures r == self.rest().len(), // #C11
@@fn Deserializer::peek [C11]
  ensures self.rest().len() > 0 ==> r == Ok::<u8, Error>(self.rest()[0]), // #C11
    self.rest().len() == 0 ==> r is Err, // #C11
@@fn Deserializer::eat_some [C11]
  requires old(self).index + len <= usize::MAX,
  ensures final(self).input@ == old(self).input@, final(self).index == old(self).index + len, // #C11
@@fn Deserializer::eat_whitespace [C15,C11]
  requires old(self).wf(),
  ensures final(self).wf(), final(self).input@ == old(self).input@, // #C11
    r is Ok <==> skipws(old(self).rest()).len() > 0, // #C15
    r is Ok ==> r->Ok_0 == skipws(old(self).rest())[0] && final(self).rest() == skipws(old(self).rest()) && final(self).index >= old(self).index, // #C15
    r is Err ==> final(self).index == old(self).index, // #C15
@@at posend0 :: Deserializer::eat_whitespace
proof { assert(vp_p0@ =~= old(self).rest()); lemma_skipws_at(vp_p0@, vp_q0 as int); }
@@fn Deserializer::input_mut [C11]
  requires old(self).wf(),
  ensures r is Ok, r->Ok_0@ == old(self).rest(), final(r->Ok_0)@.len() == old(self).rest().len(), // #C11
    final(self).index == old(self).index, final(self).input@ == old(self).input@.take(old(self).index as int) + final(r->Ok_0)@, // #C11
@@fn Deserializer::split_input [C11,C12,C14]
  requires old(self).wf(), len + skip <= old(self).rest().len(),
  ensures final(self).wf(), r@ == old(self).rest().take(len as int), final(self).index == 0, final(self).rest() == old(self).rest().skip(len + skip), // #C11 #C12 #C14
@@at tail :: Deserializer::split_input
proof { assert(self.input@.skip(0) =~= self.input@); assert(old(self).input@.skip(old(self).index as int).skip(len + skip) =~= self.input@); }
@@fn parse_hex_nib [C12,C14]
  ensures r is Some <==> is_hex(ch), r is Some ==> r->0 == hx(ch) && r->0 < 16, // #C12 #C14
@@fn parse_uuuu [C12]
  ensures r is Some <==> hex4(vp_arg0@[0], vp_arg0@[1], vp_arg0@[2], vp_arg0@[3]) is Some, r is Some ==> r->0 == hex4(vp_arg0@[0], vp_arg0@[1], vp_arg0@[2], vp_arg0@[3])->0, // #C12
@@fn NumParseTool::ZERO [C13]
  ensures r.ival() == 0, Self::lo() <= 0, 9 <= Self::hi(), // #C13
@@fn NumParseTool::try_from_ascii_decimal [C13]
  ensures r is Some <==> dig(code), r is Some ==> r->0.ival() == code - 48 && Self::lo() <= 0 && 9 <= Self::hi(), // #C13
@@fn NumParseTool::checked_mul_ten [C13]
  ensures r is Ok <==> Self::lo() <= self.ival() * 10 <= Self::hi(), r is Ok ==> r->Ok_0.ival() == self.ival() * 10, // #C13
@@fn NumParseTool::checked_add [C13]
  ensures r is Ok <==> Self::lo() <= self.ival() + rhs.ival() <= Self::hi(), r is Ok ==> r->Ok_0.ival() == self.ival() + rhs.ival(), // #C13
@@fn CheckedSub::checked_sub [C13]
  ensures r is Ok <==> Self::lo() <= self.ival() - rhs.ival() <= Self::hi(), r is Ok ==> r->Ok_0.ival() == self.ival() - rhs.ival(), // #C13
@@fn Deserializer::parse_positive_number [C13,C14,C11]
  requires old(self).wf(), 0 <= number.ival() <= T::hi(), T::lo() <= 0,
  ensures final(self).wf(), final(self).input@ == old(self).input@, // #C11
    ({ let s = old(self).rest(); let v = dapp(number.ival() as nat, s.take(drun(s) as int));
      (r is Ok <==> v <= T::hi()) && (r is Ok ==> r->Ok_0.ival() == v && final(self).rest() == s.skip(drun(s) as int)) }), // #C13 #C14
@@fn Deserializer::parse_negative_number [C13,C11]
  requires old(self).wf(), T::lo() <= number.ival() <= 0, 0 <= T::hi(),
  ensures final(self).wf(), final(self).input@ == old(self).input@, // #C11
    ({ let s = old(self).rest(); let v = dapp((-number.ival()) as nat, s.take(drun(s) as int));
      (r is Ok <==> T::lo() <= -v) && (r is Ok ==> r->Ok_0.ival() == -v && final(self).rest() == s.skip(drun(s) as int)) }), // #C13
@@at begin :: Deserializer::parse_positive_number | Deserializer::parse_negative_number
let ghost vp_o = self.rest(); let ghost vp_n0 = number.ival();
proof { assert(vp_o.take(0) =~= Seq::<u8>::empty()); lemma_drun_all(vp_o); }
@@loop Deserializer::parse_positive_number 0
 invariant_except_break pos == vp_i0,
 invariant vp_i0 <= vp_s0@.len(), vp_s0@ == vp_o, pos <= vp_o.len(), number.ival() == dapp(vp_n0 as nat, vp_o.take(pos as int)), 0 <= number.ival() <= T::hi(), T::lo() <= 0, forall|j: int| 0 <= j < pos ==> dig(#[trigger] vp_o[j]),
 ensures pos == drun(vp_o),
 decreases vp_s0@.len() - vp_i0
@@loop Deserializer::parse_negative_number 0
 invariant_except_break pos == vp_i0,
 invariant vp_i0 <= vp_s0@.len(), vp_s0@ == vp_o, pos <= vp_o.len(), number.ival() == -dapp((-vp_n0) as nat, vp_o.take(pos as int)), T::lo() <= number.ival() <= 0, 0 <= T::hi(), forall|j: int| 0 <= j < pos ==> dig(#[trigger] vp_o[j]),
 ensures pos == drun(vp_o),
 decreases vp_s0@.len() - vp_i0
@@at loopbegin 0 :: Deserializer::parse_positive_number
proof { lemma_dapp_at(vp_n0 as nat, vp_o, pos as int); }
@@at loopbegin 0 :: Deserializer::parse_negative_number
proof { lemma_dapp_at((-vp_n0) as nat, vp_o, pos as int); }
@@at afterloop 0 :: Deserializer::parse_positive_number | Deserializer::parse_negative_number
proof { lemma_drun_all(vp_o); lemma_drun(vp_o, pos as int); }
@@fn Deserializer::parse_unsigned [C13,C14,C17,C11]
  requires old(self).wf(),
  ensures final(self).wf(), final(self).input@ == old(self).input@, // #C11
    match uint_at(skipws(old(self).rest())) {
      Some((n, k)) => (r is Ok <==> n <= T::hi()) && (r is Ok ==> r->Ok_0.ival() == n && final(self).rest() == skipws(old(self).rest()).skip(k) && final(self).index > old(self).index),
      None => r is Err }, // #C13 #C14 #C17
@@at tail :: Deserializer::parse_unsigned
proof { assert(vp_r is Ok ==> self.rest().len() == self.input@.len() - self.index); }
@@at begin :: Deserializer::parse_unsigned
proof { let u = skipws(self.rest()); lemma_drun_all(u); if u.len() > 0 && dig(u[0]) { lemma_dapp_first(u); } }
@@fn Deserializer::parse_signed [C13,C17,C11]
  requires old(self).wf(),
  ensures final(self).wf(), final(self).input@ == old(self).input@, // #C11
    match int_at(skipws(old(self).rest())) {
      Some((n, k)) => (r is Ok <==> T::lo() <= n <= T::hi()) && (r is Ok ==> r->Ok_0.ival() == n && final(self).rest() == skipws(old(self).rest()).skip(k)),
      None => r is Err }, // #C13 #C17
@@at begin :: Deserializer::parse_signed
proof { T::lemma_signed(); let u = skipws(self.rest()); if u.len() > 0 && dig(u[0]) { lemma_dapp_first(u); } if u.len() > 1 && dig(u[1]) { lemma_dapp_first(u.skip(1)); } }
@@fn Deserializer::parse_token_content [C15,C11]
  requires old(self).wf(), token@.len() <= isize::MAX,
  ensures final(self).wf(), final(self).input@ == old(self).input@, // #C11
    r is Ok <==> lit(old(self).rest(), token@), r is Ok ==> final(self).rest() == old(self).rest().skip(token@.len() as int), // #C15
@@at tail :: Deserializer::parse_token_content
proof { let n = token@.len() as int; let o = old(self).rest(); if n <= o.len() { if vp_r is Ok { assert(o.take(n) =~= token@); } else { assert(!(o.take(n) =~= token@)); } } }
@@at begin :: Deserializer::parse_token_content
proof { let n = token@.len() as int; if n <= self.rest().len() { assert(self.input@.subrange(self.index as int, self.index + n) =~= self.rest().take(n)); } }
@@def DECODERC
  requires old(de).wf(),
  ensures final(de).wf(), // #C11
    r is Ok ==> Self::dec_ok(old(de).rest(), r->Ok_0@, final(de).rest()) && sskip(old(de).rest(), false) == Some(final(de).rest()), // #C14 #C15
    Self::dec_must(old(de).rest()) ==> r is Ok, // #C14
@@fn Deserializer::parse_float_or_int [C13,C11,C15]
  requires old(self).wf(), old(self).rest().len() > 0, peek == old(self).rest()[0],
  ensures final(self).wf(), final(self).input@ == old(self).input@, // #C11
    ({ let u = old(self).rest(); let x = u.take(nrun(u) as int);
      (r is Ok ==> final(self).rest() == u.skip(nrun(u) as int) && nrun(u) > 0) &&
      (if isf(x) { r is Ok <==> any_parsed(x) is Some } else if peek == 45 { r is Ok <==> i64::parsed(x) is Some } else { r is Ok <==> u64::parsed(x) is Some }) &&
      (r is Ok ==> r->Ok_0 == (if isf(x) { AnyNumber::Float(any_parsed(x)->0) } else if peek == 45 { AnyNumber::NegInt(i64::parsed(x)->0) } else { AnyNumber::PosInt(u64::parsed(x)->0) })) }), // #C13 #C15
@@at pos0 :: Deserializer::parse_float_or_int
  forall|j: int| 0 <= j < vp_q0 ==> nch(#[trigger] vp_p0@[j]), is_float <==> exists|j: int| 0 <= j < vp_q0 && fch(#[trigger] vp_p0@[j]),
  vp_r0 is Some ==> vp_q0 < vp_p0@.len() && !nch(vp_p0@[vp_q0 as int]),
@@at posend0 :: Deserializer::parse_float_or_int
proof { assert(vp_p0@ =~= old(self).rest()); lemma_nrun(vp_p0@, vp_q0 as int); lemma_num_utf8(vp_p0@, vp_q0 as int); assert(vp_p0@.take(vp_p0@.len() as int) =~= vp_p0@);
  let x = vp_p0@.take(vp_q0 as int); assert(forall|j: int| 0 <= j < vp_q0 ==> #[trigger] x[j] == vp_p0@[j]); assert(is_float == isf(x)); }
@@fn Deserializer::match_float [C15,C11,C16]
  requires self.wf(),
  ensures r@ == self.rest().take(nrun(self.rest()) as int), // #C15 #C16
@@at posend0 :: Deserializer::match_float
proof { assert(vp_p0@ =~= self.rest()); lemma_nrun(vp_p0@, vp_q0 as int); assert(vp_p0@.take(vp_p0@.len() as int) =~= vp_p0@); }
@@fn Deserializer::parse_float [C13,C15,C11]
  requires old(self).wf(),
  ensures final(self).wf(), final(self).input@ == old(self).input@, // #C11
    ({ let u = skipws(old(self).rest()); let k = nrun(u) as int;
      if u.len() == 0 { r is Err } else if u[0] == 110 { (r is Ok <==> lit(u, lnull())) && (r is Ok ==> r->Ok_0 is None && final(self).rest() == u.skip(4)) }
      else { (r is Ok <==> F::parsed(u.take(k)) is Some) && (r is Ok ==> r->Ok_0 == F::parsed(u.take(k)) && final(self).rest() == u.skip(k) && k > 0) } }), // #C13 #C15
@@at begin :: Deserializer::parse_float
proof { let u = skipws(self.rest()); if u.len() > 0 { lemma_words(u); } lemma_nrun_all(u); lemma_num_utf8(u, nrun(u) as int); }
@@fn Deserializer::parse_key_colon [C15,C11]
  requires old(self).wf(),
  ensures final(self).wf(), final(self).input@ == old(self).input@, // #C11
    ({ let u = skipws(old(self).rest()); (r is Ok <==> u.len() > 0 && u[0] == 58) && (r is Ok ==> final(self).rest() == u.skip(1)) }), // #C15
    ({ let u = skipws(old(self).rest()); (r is Ok <== u.len() > 0 && u[0] == 58) && (r is Ok ==> final(self).rest() == u.skip(1)) }), // #C27
@@fn Deserializer::eat_str_content [C16,C11,C12]
  requires old(self).wf(),
  ensures final(self).wf(), final(self).input@ == old(self).input@, // #C11
    r is Ok <==> sskip(old(self).rest(), true) is Some, r is Ok ==> sskip(old(self).rest(), true) == Some(final(self).rest()), // #C16
@@loop Deserializer::eat_str_content 0
 invariant self.input@ == old(self).input@, self.index == old(self).index, self.wf(), self.index <= start <= self.input@.len(), sskip(old(self).rest(), true) == sskip(self.input@.skip(start as int), true),
 decreases self.input@.len() - start,
@@at posend0 :: Deserializer::eat_str_content
proof { assert(vp_p0@ =~= self.input@.skip(start as int)); if vp_r0 is None { lemma_sskip_none(vp_p0@); } else if vp_p0@[vp_q0 as int] < 32 { lemma_sskip_ctl(vp_p0@, vp_q0 as int); } }
@@at posend1 :: Deserializer::eat_str_content
proof { assert(vp_p1@ =~= self.input@.subrange(start as int, end as int)); let o = self.input@.skip(start as int); assert(vp_p1@ =~= o.take(found as int)); lemma_sskip_find(o, found as int, vp_q1 as int); assert(o.skip(found + 1) =~= self.input@.skip(end + 1)); }
@@fn Deserializer::parse_str_content [C12,C11,C15]
  requires old(self).wf(),
  ensures final(self).wf(), // #C11
    r is Ok <==> utf8s(sdec(old(self).rest())), r is Ok ==> sdec(old(self).rest()) == Some((r->Ok_0.spec_bytes(), final(self).rest())), // #C12 #C15
    r is Ok <== utf8s(sdec(old(self).rest())), r is Ok ==> (sdec(old(self).rest()) is None || sdec(old(self).rest()) == Some((r->Ok_0.spec_bytes(), final(self).rest()))), // #C27
@@fn Deserializer::parse_str_bytes_content [C12,C11,C14,C15,C27]
  requires old(self).wf(),
  ensures final(self).wf(), // #C11
    r is Ok <==> sdec(old(self).rest()) is Some, r is Ok ==> sdec(old(self).rest()) == Some((r->Ok_0@, final(self).rest())), // #C12 #C14 #C15
    r is Ok <== sdec(old(self).rest()) is Some, r is Ok ==> (sdec(old(self).rest()) is None || sdec(old(self).rest()) == Some((r->Ok_0@, final(self).rest()))), // #C27
@@attr Deserializer::parse_str_bytes_content :: #[verifier::rlimit(60)]
@@at begin :: Deserializer::parse_str_bytes_content
let ghost vp_o = self.input@; let ghost vp_i0 = self.index as int;
proof { lemma_sinv0(vp_o, vp_i0); }
@@loop Deserializer::parse_str_bytes_content 0
 invariant self.index == vp_i0, start <= index + 1, vp_o.len() <= isize::MAX, vp_o == old(self).input@, vp_i0 == old(self).index, sinv(self.input@, vp_o, vp_i0, dest as int, index as int, start as int),
 decreases vp_o.len() - start,
@@at loopbegin 0 :: Deserializer::parse_str_bytes_content
let ghost vp_e = start + prun(vp_o.skip(start as int)); let ghost vp_b = moved(self.input@, dest as int, index as int, vp_e); let ghost vp_m = dest + (vp_e - index);
proof { lemma_str_move(self.input@, vp_o, vp_i0, dest as int, index as int, start as int); lemma_str_found(vp_b, vp_o, vp_i0, vp_m, vp_e); }
@@at posend0 :: Deserializer::parse_str_bytes_content
proof { assert(vp_p0@ =~= self.input@.skip(start as int)); lemma_prun(vp_p0@, vp_q0 as int); }
@@at loopend 0 :: Deserializer::parse_str_bytes_content
proof { lemma_str_esc(self.input@, vp_b, vp_o, vp_i0, vp_m, vp_e, dest as int, index as int, start as int); }
@@fn Deserializer::parse_hex_bytes_content [C14,C11,C15,C27]
  requires old(self).wf(),
  ensures final(self).wf(), // #C11
    r is Ok <==> hexdec(old(self).rest()) is Some, r is Ok ==> hexdec(old(self).rest()) == Some((r->Ok_0@, final(self).rest())), // #C14 #C15
    r is Ok <== hexdec(old(self).rest()) is Some, r is Ok ==> (hexdec(old(self).rest()) is None || hexdec(old(self).rest()) == Some((r->Ok_0@, final(self).rest()))), // #C27
@@at begin :: Deserializer::parse_hex_bytes_content
let ghost vp_o = self.rest(); proof { lemma_hex0(vp_o); }
@@at beforeloop 0 :: Deserializer::parse_hex_bytes_content
let ghost vp_c0 = cells;
@@loop Deserializer::parse_hex_bytes_content 0
 invariant after_borrow(self.index) == old(self).index, after_borrow(self.input)@ == old(self).input@.take(old(self).index as int) + final(cells)@, final(cells)@.len() == cells@.len(), len == vp_k, hinv(cells@, vp_o, vp_k as int), final(vp_c0)@ == final(cells)@,
 decreases cells@.len() - vp_k,
@@at loopbegin 0 :: Deserializer::parse_hex_bytes_content
proof { lemma_hex_at(cells@, vp_o, vp_k - 1); }
@@at afterloop 0 :: Deserializer::parse_hex_bytes_content
proof { lemma_hex_at(cells@, vp_o, vp_k as int); }
@@at begin :: Deserializer::parse_base64_bytes_content
let ghost vp_o = self.rest(); proof { lemma_b64_buf(vp_o); lemma_arun_all(vp_o); lemma_erun_all(vp_o.skip(arun(vp_o) as int)); }
@@at posend0 :: Deserializer::parse_base64_bytes_content
proof { let k = arun(vp_o) as int; let t = vp_o.skip(k); assert(vp_p0@ =~= vp_o.skip(k + 1)); assert forall|i: int| 0 <= i < vp_q0 + 1 implies #[trigger] t[i] == 61 by { if i > 0 { assert(t[i] == vp_p0@[i - 1]); } } assert(vp_r0 is Some ==> t[vp_q0 + 1] == vp_p0@[vp_q0 as int]); lemma_erun(t, vp_q0 + 1); }
@@at begin :: Deserializer::parse_array_bytes_content
proof { lemma_adec0(self.rest()); assert(self.rest().take(0) =~= Seq::<u8>::empty()); }
@@at beforeloop 0 :: Deserializer::parse_array_bytes_content
let ghost vp_o = self.rest(); proof { lemma_arr0(self.input@, start as int, vp_o) }
@@loop Deserializer::parse_array_bytes_content 0
 invariant_except_break ainv(self.input@, start as int, index as int, vp_o, self.rest()),
 invariant start <= index <= self.index, self.wf(), self.input@.len() == old(self).input@.len(), arrels(vp_o) == arrels(old(self).rest()), adec(old(self).rest()) == arrels(old(self).rest()),
 ensures self.rest().len() > 0, arrels(vp_o) == Some((self.input@.subrange(start as int, index as int), self.rest().skip(1))),
 decreases self.input@.len() - self.index,
@@at loopbegin 0 :: Deserializer::parse_array_bytes_content
proof { if index < self.input@.len() { lemma_arr_at(self.input@, start as int, index as int, vp_o, self.rest()); } else { assert(self.rest().len() == 0); lemma_adec0(self.rest()); } }
@@fn Deserializer::parse_base64_bytes_content [C14,C11,C15,C27]
  requires old(self).wf(),
  ensures final(self).wf(), // #C11
    r is Ok ==> b64dec(old(self).rest()) == Some((r->Ok_0@, final(self).rest())), b64must(old(self).rest()) ==> r is Ok, // #C14 #C15
    r is Ok ==> (b64dec(old(self).rest()) is None || b64dec(old(self).rest()) == Some((r->Ok_0@, final(self).rest()))), b64must(old(self).rest()) ==> r is Ok, // #C27
@@fn Deserializer::parse_array_bytes_content [C14,C11,C15,C27]
  requires old(self).wf(),
  ensures final(self).wf(), // #C11
    r is Ok <==> adec(old(self).rest()) is Some, r is Ok ==> adec(old(self).rest()) == Some((r->Ok_0@, final(self).rest())), // #C14 #C15
    r is Ok <== adec(old(self).rest()) is Some, r is Ok ==> (adec(old(self).rest()) is None || adec(old(self).rest()) == Some((r->Ok_0@, final(self).rest()))), // #C27
@@impl StringByteDecoder
  spec fn dec_ok(s: Seq<u8>, d: Seq<u8>, t: Seq<u8>) -> bool;
  spec fn dec_must(s: Seq<u8>) -> bool;
@@impl StringByteDecoder for StringByteNopeDecoder
  open spec fn dec_ok(s: Seq<u8>, d: Seq<u8>, t: Seq<u8>) -> bool { sdec(s) == Some((d, t)) }
  open spec fn dec_must(s: Seq<u8>) -> bool { sdec(s) is Some }
@@impl StringByteDecoder for StringByteHexDecoder
  open spec fn dec_ok(s: Seq<u8>, d: Seq<u8>, t: Seq<u8>) -> bool { hexdec(s) == Some((d, t)) }
  open spec fn dec_must(s: Seq<u8>) -> bool { hexdec(s) is Some }
@@impl StringByteDecoder for StringByteBase64Decoder
  open spec fn dec_ok(s: Seq<u8>, d: Seq<u8>, t: Seq<u8>) -> bool { b64dec(s) == Some((d, t)) }
  open spec fn dec_must(s: Seq<u8>) -> bool { b64must(s) }
@@fn StringByteDecoder::decode_string_to_bytes [C14,C11,C15]
%DECODERC%
@@fn StringByteDecoder for StringByteNopeDecoder::decode_string_to_bytes | StringByteDecoder for StringByteHexDecoder::decode_string_to_bytes | StringByteDecoder for StringByteBase64Decoder::decode_string_to_bytes [C14,C11,C15]
@@at begin :: StringByteDecoder for StringByteNopeDecoder::decode_string_to_bytes
proof { lemma_sdec_sskip(de.rest(), false); }
@@at begin :: StringByteDecoder for StringByteHexDecoder::decode_string_to_bytes
proof { lemma_hexdec_sskip(de.rest(), false); }
@@at begin :: StringByteDecoder for StringByteBase64Decoder::decode_string_to_bytes
proof { lemma_b64dec_sskip(de.rest()); }
@@fn NumParseTool for u8::try_from_ascii_decimal | NumParseTool for u16::try_from_ascii_decimal | NumParseTool for u32::try_from_ascii_decimal | NumParseTool for u64::try_from_ascii_decimal | NumParseTool for i8::try_from_ascii_decimal | NumParseTool for i16::try_from_ascii_decimal | NumParseTool for i32::try_from_ascii_decimal | NumParseTool for i64::try_from_ascii_decimal [C13]
@@fn NumParseTool for u8::checked_mul_ten | NumParseTool for u16::checked_mul_ten | NumParseTool for u32::checked_mul_ten | NumParseTool for u64::checked_mul_ten | NumParseTool for i8::checked_mul_ten | NumParseTool for i16::checked_mul_ten | NumParseTool for i32::checked_mul_ten | NumParseTool for i64::checked_mul_ten [C13]
@@fn NumParseTool for u8::checked_add | NumParseTool for u16::checked_add | NumParseTool for u32::checked_add | NumParseTool for u64::checked_add | NumParseTool for i8::checked_add | NumParseTool for i16::checked_add | NumParseTool for i32::checked_add | NumParseTool for i64::checked_add [C13]
@@fn CheckedSub for i8::checked_sub | CheckedSub for i16::checked_sub | CheckedSub for i32::checked_sub | CheckedSub for i64::checked_sub [C13]

@@fn Deserializer for &mut Deserializer::deserialize_bool [C15,C11]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if lit(u, ltrue()) { visitor.got(Ev::Bool(true), okv(r)) && t == u.skip(4) } else if lit(u, lfalse()) { visitor.got(Ev::Bool(false), okv(r)) && t == u.skip(5) } else { r is Err } }), // #C15
    ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if lit(u, ltrue()) { visitor.got(Ev::Bool(true), okv(r)) && t == u.skip(4) } else if lit(u, lfalse()) { visitor.got(Ev::Bool(false), okv(r)) && t == u.skip(5) } else { true } }), // #C27
    visitor.ignores() ==> (r is Ok <==> lit(skipws(old(self).rest()), ltrue()) || lit(skipws(old(self).rest()), lfalse())), // #C16
@@at begin :: Deserializer for &mut Deserializer::deserialize_bool
proof { lemma_jv(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_i8 [C13,C11,C15]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      match int_at(u) { Some((n, k)) => if i8::MIN <= n <= i8::MAX { visitor.got(Ev::I8(n as i8), okv(r)) && t == u.skip(k) } else { r is Err }, None => r is Err } }), // #C13
    ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      match int_at(u) { Some((n, k)) => if i8::MIN <= n <= i8::MAX { visitor.got(Ev::I8(n as i8), okv(r)) && t == u.skip(k) } else { true }, None => true } }), // #C27
@@at begin :: Deserializer for &mut Deserializer::deserialize_i8
proof { lemma_jv(old(self).rest()); lemma_jval_int(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_i16 [C13,C11,C15]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      match int_at(u) { Some((n, k)) => if i16::MIN <= n <= i16::MAX { visitor.got(Ev::I16(n as i16), okv(r)) && t == u.skip(k) } else { r is Err }, None => r is Err } }), // #C13
    ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      match int_at(u) { Some((n, k)) => if i16::MIN <= n <= i16::MAX { visitor.got(Ev::I16(n as i16), okv(r)) && t == u.skip(k) } else { true }, None => true } }), // #C27
@@at begin :: Deserializer for &mut Deserializer::deserialize_i16
proof { lemma_jv(old(self).rest()); lemma_jval_int(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_i32 [C13,C11,C15]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      match int_at(u) { Some((n, k)) => if i32::MIN <= n <= i32::MAX { visitor.got(Ev::I32(n as i32), okv(r)) && t == u.skip(k) } else { r is Err }, None => r is Err } }), // #C13
    ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      match int_at(u) { Some((n, k)) => if i32::MIN <= n <= i32::MAX { visitor.got(Ev::I32(n as i32), okv(r)) && t == u.skip(k) } else { true }, None => true } }), // #C27
@@at begin :: Deserializer for &mut Deserializer::deserialize_i32
proof { lemma_jv(old(self).rest()); lemma_jval_int(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_i64 [C13,C11,C15]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      match int_at(u) { Some((n, k)) => if i64::MIN <= n <= i64::MAX { visitor.got(Ev::I64(n as i64), okv(r)) && t == u.skip(k) } else { r is Err }, None => r is Err } }), // #C13
    ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      match int_at(u) { Some((n, k)) => if i64::MIN <= n <= i64::MAX { visitor.got(Ev::I64(n as i64), okv(r)) && t == u.skip(k) } else { true }, None => true } }), // #C27
@@at begin :: Deserializer for &mut Deserializer::deserialize_i64
proof { lemma_jv(old(self).rest()); lemma_jval_int(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_u8 [C13,C11,C15]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      match uint_at(u) { Some((n, k)) => if u8::MIN <= n <= u8::MAX { visitor.got(Ev::U8(n as u8), okv(r)) && t == u.skip(k) } else { r is Err }, None => r is Err } }), // #C13
    ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      match uint_at(u) { Some((n, k)) => if u8::MIN <= n <= u8::MAX { visitor.got(Ev::U8(n as u8), okv(r)) && t == u.skip(k) } else { true }, None => true } }), // #C27
@@at begin :: Deserializer for &mut Deserializer::deserialize_u8
proof { lemma_jv(old(self).rest()); lemma_jval_int(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_u16 [C13,C11,C15]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      match uint_at(u) { Some((n, k)) => if u16::MIN <= n <= u16::MAX { visitor.got(Ev::U16(n as u16), okv(r)) && t == u.skip(k) } else { r is Err }, None => r is Err } }), // #C13
    ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      match uint_at(u) { Some((n, k)) => if u16::MIN <= n <= u16::MAX { visitor.got(Ev::U16(n as u16), okv(r)) && t == u.skip(k) } else { true }, None => true } }), // #C27
@@at begin :: Deserializer for &mut Deserializer::deserialize_u16
proof { lemma_jv(old(self).rest()); lemma_jval_int(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_u32 [C13,C11,C15]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      match uint_at(u) { Some((n, k)) => if u32::MIN <= n <= u32::MAX { visitor.got(Ev::U32(n as u32), okv(r)) && t == u.skip(k) } else { r is Err }, None => r is Err } }), // #C13
    ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      match uint_at(u) { Some((n, k)) => if u32::MIN <= n <= u32::MAX { visitor.got(Ev::U32(n as u32), okv(r)) && t == u.skip(k) } else { true }, None => true } }), // #C27
@@at begin :: Deserializer for &mut Deserializer::deserialize_u32
proof { lemma_jv(old(self).rest()); lemma_jval_int(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_u64 [C13,C11,C15]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      match uint_at(u) { Some((n, k)) => if u64::MIN <= n <= u64::MAX { visitor.got(Ev::U64(n as u64), okv(r)) && t == u.skip(k) } else { r is Err }, None => r is Err } }), // #C13
    ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      match uint_at(u) { Some((n, k)) => if u64::MIN <= n <= u64::MAX { visitor.got(Ev::U64(n as u64), okv(r)) && t == u.skip(k) } else { true }, None => true } }), // #C27
@@at begin :: Deserializer for &mut Deserializer::deserialize_u64
proof { lemma_jv(old(self).rest()); lemma_jval_int(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_f32 [C13,C11,C15]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if u.len() == 0 { r is Err } else if u[0] == 110 { if lit(u, lnull()) { visitor.got(Ev::F32(f32_nan()), okv(r)) && t == u.skip(4) } else { r is Err } }
      else { match f32_parsed(u.take(nrun(u) as int)) { Some(f) => visitor.got(Ev::F32(f), okv(r)) && t == u.skip(nrun(u) as int), None => r is Err } } }), // #C13 #C15
@@at begin :: Deserializer for &mut Deserializer::deserialize_f32
proof { lemma_jv(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_f64 [C13,C11,C15]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if u.len() == 0 { r is Err } else if u[0] == 110 { if lit(u, lnull()) { visitor.got(Ev::F64(f64_nan()), okv(r)) && t == u.skip(4) } else { r is Err } }
      else { match f64_parsed(u.take(nrun(u) as int)) { Some(f) => visitor.got(Ev::F64(f), okv(r)) && t == u.skip(nrun(u) as int), None => r is Err } } }), // #C13 #C15
@@at begin :: Deserializer for &mut Deserializer::deserialize_f64
proof { lemma_jv(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_char [C12,C11,C15]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if u.len() > 0 && u[0] == 34 { match sdec(u.skip(1)) { Some((d, x)) => if vstd::utf8::valid_utf8(d) && vstd::utf8::decode_utf8(d).len() == 1 { visitor.got(Ev::Char(vstd::utf8::decode_utf8(d)[0]), okv(r)) && t == x } else { r is Err }, None => r is Err } } else { r is Err } }), // #C12
    ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if u.len() > 0 && u[0] == 34 { match sdec(u.skip(1)) { Some((d, x)) => if vstd::utf8::valid_utf8(d) && vstd::utf8::decode_utf8(d).len() == 1 { visitor.got(Ev::Char(vstd::utf8::decode_utf8(d)[0]), okv(r)) && t == x } else { true }, None => true } } else { true } }), // #C27
@@at begin :: Deserializer for &mut Deserializer::deserialize_char
proof { lemma_jv(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_str | Deserializer for &mut Deserializer::deserialize_string | Deserializer for &mut Deserializer::deserialize_identifier [C12,C11,C15]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if u.len() > 0 && u[0] == 34 { match sdec(u.skip(1)) { Some((d, x)) => if vstd::utf8::valid_utf8(d) { visitor.got(Ev::BStr(d), okv(r)) && t == x } else { r is Err }, None => r is Err } } else { r is Err } }), // #C12
    ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if u.len() > 0 && u[0] == 34 { match sdec(u.skip(1)) { Some((d, x)) => if vstd::utf8::valid_utf8(d) { visitor.got(Ev::BStr(d), okv(r)) && t == x } else { true }, None => true } } else { true } }), // #C27
    ({ let u = skipws(old(self).rest()); visitor.ignores() ==> (r is Ok <==> u.len() > 0 && u[0] == 34 && utf8s(sdec(u.skip(1)))) }), // #C16
@@at begin :: Deserializer for &mut Deserializer::deserialize_str | Deserializer for &mut Deserializer::deserialize_string | Deserializer for &mut Deserializer::deserialize_identifier
proof { lemma_jv(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_bytes | Deserializer for &mut Deserializer::deserialize_byte_buf [C14,C11,C15]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if u.len() == 0 { r is Err }
      else if u[0] == 34 { (r is Ok ==> exists|d: Seq<u8>| #[trigger] P::dec_ok(u.skip(1), d, t) && visitor.got(Ev::BBytes(d), okv(r))) && (P::dec_must(u.skip(1)) ==> exists|d: Seq<u8>| #[trigger] P::dec_ok(u.skip(1), d, t) && visitor.got(Ev::BBytes(d), okv(r))) }
      else if u[0] == 91 { match adec(u.skip(1)) { Some((d, x)) => visitor.got(Ev::BBytes(d), okv(r)) && t == x, None => r is Err } }
      else { r is Err } }), // #C14
    ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if u.len() == 0 { true }
      else if u[0] == 34 { (r is Ok ==> exists|d: Seq<u8>| #[trigger] P::dec_ok(u.skip(1), d, t) && visitor.got(Ev::BBytes(d), okv(r))) && (P::dec_must(u.skip(1)) ==> exists|d: Seq<u8>| #[trigger] P::dec_ok(u.skip(1), d, t) && visitor.got(Ev::BBytes(d), okv(r))) }
      else if u[0] == 91 { match adec(u.skip(1)) { Some((d, x)) => visitor.got(Ev::BBytes(d), okv(r)) && t == x, None => true } }
      else { true } }), // #C27
@@at begin :: Deserializer for &mut Deserializer::deserialize_bytes | Deserializer for &mut Deserializer::deserialize_byte_buf
proof { lemma_jv(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_option [C15,C11]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if u.len() == 0 { r is Err } else if u[0] == 110 { if lit(u, lnull()) { visitor.got(Ev::None, okv(r)) && t == u.skip(4) } else { r is Err } } else { visitor.got(Ev::Some, okv(r)) } }), // #C15
    ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if u.len() == 0 { true } else if u[0] == 110 { if lit(u, lnull()) { visitor.got(Ev::None, okv(r)) && t == u.skip(4) } else { true } } else { visitor.got(Ev::Some, okv(r)) } }), // #C27
@@at begin :: Deserializer for &mut Deserializer::deserialize_option
proof { lemma_jv(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_unit | Deserializer for &mut Deserializer::deserialize_unit_struct [C15,C11]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if lit(u, lnull()) { visitor.got(Ev::Unit, okv(r)) && t == u.skip(4) } else { r is Err } }), // #C15
    ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if lit(u, lnull()) { visitor.got(Ev::Unit, okv(r)) && t == u.skip(4) } else { true } }), // #C27
    visitor.ignores() ==> (r is Ok <==> lit(skipws(old(self).rest()), lnull())), // #C16
@@at begin :: Deserializer for &mut Deserializer::deserialize_unit | Deserializer for &mut Deserializer::deserialize_unit_struct
proof { lemma_jv(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_newtype_struct [C15,C11]
  ensures visitor.got(Ev::Newtype, okv(r)), // #C15 #C27
@@at begin :: Deserializer for &mut Deserializer::deserialize_newtype_struct
proof { lemma_jv(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_seq | Deserializer for &mut Deserializer::deserialize_tuple | Deserializer for &mut Deserializer::deserialize_tuple_struct [C15,C11]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if u.len() > 0 && u[0] == 91 { (r is Ok ==> visitor.got(Ev::Seq, okv(r)) && jels(u.skip(1), true, false) == Some(t)) && (visitor.ignores() ==> self.skip_post(r is Ok)) } else { r is Err } }), // #C15 #C16
    ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if u.len() > 0 && u[0] == 91 { (r is Ok ==> visitor.got(Ev::Seq, okv(r)) && (jels(u.skip(1), true, false) is None || jels(u.skip(1), true, false) == Some(t))) && (visitor.ignores() ==> self.skip_post(r is Ok)) } else { true } }), // #C27
@@at begin :: Deserializer for &mut Deserializer::deserialize_seq | Deserializer for &mut Deserializer::deserialize_tuple | Deserializer for &mut Deserializer::deserialize_tuple_struct
proof { lemma_jv(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_map [C15,C11]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if u.len() > 0 && u[0] == 123 { (r is Ok ==> visitor.got(Ev::Map, okv(r)) && jents(u.skip(1), true, false) == Some(t)) && (visitor.ignores() ==> self.skip_post(r is Ok)) } else { r is Err } }), // #C15 #C16
    ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if u.len() > 0 && u[0] == 123 { (r is Ok ==> visitor.got(Ev::Map, okv(r)) && (jents(u.skip(1), true, false) is None || jents(u.skip(1), true, false) == Some(t))) && (visitor.ignores() ==> self.skip_post(r is Ok)) } else { true } }), // #C27
@@at begin :: Deserializer for &mut Deserializer::deserialize_map
proof { lemma_jv(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_struct [C15,C11]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if u.len() > 0 && u[0] == 91 { r is Ok ==> visitor.got(Ev::Seq, okv(r)) && jels(u.skip(1), true, false) == Some(t) } else if u.len() > 0 && u[0] == 123 { r is Ok ==> visitor.got(Ev::Map, okv(r)) && jents(u.skip(1), true, false) == Some(t) } else { r is Err } }), // #C15
    ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if u.len() > 0 && u[0] == 91 { r is Ok ==> visitor.got(Ev::Seq, okv(r)) && (jels(u.skip(1), true, false) is None || jels(u.skip(1), true, false) == Some(t)) } else if u.len() > 0 && u[0] == 123 { r is Ok ==> visitor.got(Ev::Map, okv(r)) && (jents(u.skip(1), true, false) is None || jents(u.skip(1), true, false) == Some(t)) } else { true } }), // #C27
@@at begin :: Deserializer for &mut Deserializer::deserialize_struct
proof { lemma_jv(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_enum [C15,C11]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if u.len() == 0 { r is Err } else if u[0] == 34 { visitor.got(Ev::Enum, okv(r)) } else if u[0] == 123 { r is Ok ==> visitor.got(Ev::Enum, okv(r)) && jents(u.skip(1), true, false) == Some(t) } else { r is Err } }), // #C15
    ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if u.len() == 0 { true } else if u[0] == 34 { visitor.got(Ev::Enum, okv(r)) } else if u[0] == 123 { r is Ok ==> visitor.got(Ev::Enum, okv(r)) && (jents(u.skip(1), true, false) is None || jents(u.skip(1), true, false) == Some(t)) } else { true } }), // #C27
@@at begin :: Deserializer for &mut Deserializer::deserialize_enum
proof { lemma_jv(old(self).rest()); }
@@fn Deserializer for &mut Deserializer::deserialize_ignored_any [C16,C11,C15]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if u.len() == 0 { r is Err }
      else if u[0] == 34 { match sskip(u.skip(1), true) { Some(x) => visitor.got(Ev::Unit, okv(r)) && t == x, None => r is Err } }
      else if dig(u[0]) || u[0] == 45 { visitor.got(Ev::Unit, okv(r)) && t == u.skip(nrun(u) as int) }
      else { r is Ok ==> jskip(s, false) == Some(t) } }), // #C16
@@at begin :: Deserializer for &mut Deserializer::deserialize_ignored_any
proof { lemma_jv(old(self).rest()); lemma_sskip_strict(skipws(old(self).rest()).skip(1)); }
@@fn Deserializer for &mut Deserializer::deserialize_any [C15,C11,C12,C13]
  ensures ({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();
      if u.len() == 0 { r is Err }
      else if u[0] == 110 { if lit(u, lnull()) { visitor.got(Ev::Unit, okv(r)) && t == u.skip(4) } else { r is Err } }
      else if u[0] == 116 || u[0] == 102 { if lit(u, ltrue()) { visitor.got(Ev::Bool(true), okv(r)) && t == u.skip(4) } else if lit(u, lfalse()) { visitor.got(Ev::Bool(false), okv(r)) && t == u.skip(5) } else { r is Err } }
      else if u[0] == 34 { match sdec(u.skip(1)) { Some((d, x)) => if vstd::utf8::valid_utf8(d) { visitor.got(Ev::BStr(d), okv(r)) && t == x } else { r is Err }, None => r is Err } }
      else if dig(u[0]) || u[0] == 45 { let x = u.take(nrun(u) as int);
        if isf(x) { match any_parsed(x) { Some(f) => visitor.got(Ev::F64(f), okv(r)), None => r is Err } } else if u[0] == 45 { match i64::parsed(x) { Some(n) => visitor.got(Ev::I64(n), okv(r)), None => r is Err } } else { match u64::parsed(x) { Some(n) => visitor.got(Ev::U64(n), okv(r)), None => r is Err } } }
      else if u[0] == 91 { r is Ok ==> visitor.got(Ev::Seq, okv(r)) && jels(u.skip(1), true, false) == Some(t) }
      else if u[0] == 123 { r is Ok ==> visitor.got(Ev::Map, okv(r)) && jents(u.skip(1), true, false) == Some(t) }
      else { r is Err } }), // #C15 #C12 #C13
@@at begin :: Deserializer for &mut Deserializer::deserialize_any
proof { lemma_jv(old(self).rest()); }
@@fn CommaSeparated::new [C15]
  ensures r.first, *r.de == *old(de), *final(r.de) == *final(de), // #C15 #C27
@@fn SeqAccess for CommaSeparated::next_element_seed [C15,C11,C16]
  ensures
    final(self).de.wf(), *final(final(self).de) == *final(old(self).de), // #C11
    ({ let s = old(self).de.rest(); let t = final(self).de.rest();
      if closed(s, 93) { r is Ok && r->Ok_0 is None && t == skipws(s) && final(self).first == old(self).first }
      else { match estart(s, old(self).first, 93) { None => r is Err, Some(v) => (r is Ok ==> r->Ok_0 is Some && seed.gots(r->Ok_0) && jval(v, t) && !final(self).first) && (r is Err ==> seed.gots(None))
        && (seed.seed_ignores() ==> (r is Ok <==> jskip(v, true) is Some) && (r is Ok ==> jskip(v, true) == Some(t))) } } }), // #C15 #C16
    ({ let s = old(self).de.rest(); let t = final(self).de.rest();
      if closed(s, 93) { r is Ok && r->Ok_0 is None && t == skipws(s) && final(self).first == old(self).first }
      else { match estart(s, old(self).first, 93) { None => true, Some(v) => (r is Ok ==> r->Ok_0 is Some && seed.gots(r->Ok_0) && jval(v, t) && !final(self).first) && (r is Err ==> seed.gots(None))
        && (seed.seed_ignores() ==> (r is Ok <== jskip(v, true) is Some) && (r is Ok ==> (jskip(v, true) is None || jskip(v, true) == Some(t)))) } } }), // #C27
@@fn MapAccess for CommaSeparated::next_key_seed [C15,C11,C16,C17]
  ensures
    final(self).de.wf(), *final(final(self).de) == *final(old(self).de), // #C11
    ({ let s = old(self).de.rest(); let t = final(self).de.rest();
      if closed(s, 125) { r is Ok && r->Ok_0 is None && t == skipws(s) && final(self).first == old(self).first }
      else { match estart(s, old(self).first, 125) { None => r is Err, Some(v) => if v[0] != 34 { r is Err } else { (r is Ok ==> r->Ok_0 is Some && seed.gots(r->Ok_0) && sskip(v.skip(1), false) == Some(t) && !final(self).first) && (r is Err ==> seed.gots(None))
        && (seed.seed_ignores() ==> (r is Ok <==> utf8s(sdec(v.skip(1)))) && (r is Ok ==> (sdec(v.skip(1))->0).1 == t)) } } } }), // #C15 #C16 #C17
    ({ let s = old(self).de.rest(); let t = final(self).de.rest();
      if closed(s, 125) { r is Ok && r->Ok_0 is None && t == skipws(s) && final(self).first == old(self).first }
      else { match estart(s, old(self).first, 125) { None => true, Some(v) => if v[0] != 34 { true } else { (r is Ok ==> r->Ok_0 is Some && seed.gots(r->Ok_0) && (sskip(v.skip(1), false) is None || sskip(v.skip(1), false) == Some(t)) && !final(self).first) && (r is Err ==> seed.gots(None))
        && (seed.seed_ignores() ==> (r is Ok <== utf8s(sdec(v.skip(1)))) && (r is Ok ==> (sdec(v.skip(1))->0).1 == t)) } } } }), // #C27
@@fn MapAccess for CommaSeparated::next_value_seed [C15,C11,C16]
  ensures
    final(self).de.wf(), *final(final(self).de) == *final(old(self).de), final(self).first == old(self).first, // #C11
    ({ let u = skipws(old(self).de.rest()); let t = final(self).de.rest();
      if u.len() == 0 || u[0] != 58 { r is Err }
      else { seed.gots(okv(r)) && (r is Ok ==> jval(u.skip(1), t)) && (seed.seed_ignores() ==> (r is Ok <==> jskip(u.skip(1), true) is Some) && (r is Ok ==> jskip(u.skip(1), true) == Some(t))) } }), // #C15 #C16
    ({ let u = skipws(old(self).de.rest()); let t = final(self).de.rest();
      if u.len() == 0 || u[0] != 58 { true }
      else { seed.gots(okv(r)) && (r is Ok ==> jval(u.skip(1), t)) && (seed.seed_ignores() ==> (r is Ok <== jskip(u.skip(1), true) is Some) && (r is Ok ==> (jskip(u.skip(1), true) is None || jskip(u.skip(1), true) == Some(t)))) } }), // #C27
@@impl SeqAccess for CommaSeparated
  open spec fn s_pre(self) -> bool { self.de.wf() }
  fn size_hint(&self) -> (r: Option<usize>) { None }
@@impl MapAccess for CommaSeparated
  open spec fn s_map_pre(self) -> bool { self.de.wf() }
  fn map_size_hint(&self) -> (r: Option<usize>) { None }
@@impl EnumAccess for UnitVariantAccess | EnumAccess for VariantAccess
  open spec fn s_pre(self) -> bool { self.de.wf() }
@@impl VariantAccess for UnitVariantAccess | VariantAccess for VariantAccess
  open spec fn s_var_pre(self) -> bool { self.de.wf() }
@@impl Deserializer for &mut Deserializer | Deserializer for MapKey
  fn is_human_readable(&self) -> bool { true }

@@fn MapKey::parse_unsigned_numkey [C17,C11]
  requires self.de.wf(), self.de.rest().len() > 0, self.de.rest()[0] == 34,
  ensures final(self.de).wf(), // #C11
    ({ let u = skipws(old(self.de).rest().skip(1)); match uint_at(u) {
      Some((n, k)) => (r is Ok <==> 0 <= n <= T::hi() && k < u.len() && u[k] == 34) && (r is Ok ==> r->Ok_0.ival() == n && final(self.de).rest() == u.skip(k + 1)),
      None => r is Err } }), // #C17
    ({ let u = skipws(old(self.de).rest().skip(1)); match uint_at(u) {
      Some((n, k)) => (r is Ok <== 0 <= n <= T::hi() && k < u.len() && u[k] == 34) && (r is Ok ==> r->Ok_0.ival() == n && final(self.de).rest() == u.skip(k + 1)),
      None => true } }), // #C27
@@at begin :: MapKey::parse_unsigned_numkey
proof { lemma_jval_int(self.de.rest().skip(1)); }
@@fn MapKey::parse_signed_numkey [C17,C11]
  requires self.de.wf(), self.de.rest().len() > 0, self.de.rest()[0] == 34,
  ensures final(self.de).wf(), // #C11
    ({ let u = skipws(old(self.de).rest().skip(1)); match int_at(u) {
      Some((n, k)) => (r is Ok <==> T::lo() <= n <= T::hi() && k < u.len() && u[k] == 34) && (r is Ok ==> r->Ok_0.ival() == n && final(self.de).rest() == u.skip(k + 1)),
      None => r is Err } }), // #C17
    ({ let u = skipws(old(self.de).rest().skip(1)); match int_at(u) {
      Some((n, k)) => (r is Ok <== T::lo() <= n <= T::hi() && k < u.len() && u[k] == 34) && (r is Ok ==> r->Ok_0.ival() == n && final(self.de).rest() == u.skip(k + 1)),
      None => true } }), // #C27
@@at begin :: MapKey::parse_signed_numkey
proof { lemma_jval_int(self.de.rest().skip(1)); }
@@fn Deserializer for MapKey::deserialize_any | Deserializer for MapKey::deserialize_str | Deserializer for MapKey::deserialize_f32 | Deserializer for MapKey::deserialize_f64 | Deserializer for MapKey::deserialize_string | Deserializer for MapKey::deserialize_bytes | Deserializer for MapKey::deserialize_byte_buf | Deserializer for MapKey::deserialize_option | Deserializer for MapKey::deserialize_unit | Deserializer for MapKey::deserialize_unit_struct | Deserializer for MapKey::deserialize_seq | Deserializer for MapKey::deserialize_tuple | Deserializer for MapKey::deserialize_tuple_struct | Deserializer for MapKey::deserialize_map | Deserializer for MapKey::deserialize_struct | Deserializer for MapKey::deserialize_identifier | Deserializer for MapKey::deserialize_ignored_any [C17,C11,C15,C12]
  ensures ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      match sdec(s.skip(1)) { Some((d, x)) => if vstd::utf8::valid_utf8(d) { visitor.got(Ev::BStr(d), okv(r)) && t == x } else { r is Err }, None => r is Err } }), // #C17 #C12
    ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      match sdec(s.skip(1)) { Some((d, x)) => if vstd::utf8::valid_utf8(d) { visitor.got(Ev::BStr(d), okv(r)) && t == x } else { true }, None => true } }), // #C27
    visitor.ignores() ==> self.skip_post(r is Ok), // #C16
@@at begin :: Deserializer for MapKey::deserialize_any | Deserializer for MapKey::deserialize_str | Deserializer for MapKey::deserialize_f32 | Deserializer for MapKey::deserialize_f64 | Deserializer for MapKey::deserialize_string | Deserializer for MapKey::deserialize_bytes | Deserializer for MapKey::deserialize_byte_buf | Deserializer for MapKey::deserialize_option | Deserializer for MapKey::deserialize_unit | Deserializer for MapKey::deserialize_unit_struct | Deserializer for MapKey::deserialize_seq | Deserializer for MapKey::deserialize_tuple | Deserializer for MapKey::deserialize_tuple_struct | Deserializer for MapKey::deserialize_map | Deserializer for MapKey::deserialize_struct | Deserializer for MapKey::deserialize_identifier | Deserializer for MapKey::deserialize_ignored_any
proof { lemma_key(self.de.rest()); }
@@fn Deserializer for MapKey::deserialize_char [C17,C11,C12]
  ensures ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      match sdec(s.skip(1)) { Some((d, x)) => if vstd::utf8::valid_utf8(d) && vstd::utf8::decode_utf8(d).len() == 1 { visitor.got(Ev::Char(vstd::utf8::decode_utf8(d)[0]), okv(r)) && t == x } else { r is Err }, None => r is Err } }), // #C17 #C12
    ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      match sdec(s.skip(1)) { Some((d, x)) => if vstd::utf8::valid_utf8(d) && vstd::utf8::decode_utf8(d).len() == 1 { visitor.got(Ev::Char(vstd::utf8::decode_utf8(d)[0]), okv(r)) && t == x } else { true }, None => true } }), // #C27
@@at begin :: Deserializer for MapKey::deserialize_char
proof { lemma_key(self.de.rest()); }
@@fn Deserializer for MapKey::deserialize_i8 [C17,C11,C15]
  ensures ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      let u = skipws(s.skip(1)); match int_at(u) { Some((n, k)) => if i8::MIN <= n <= i8::MAX && k < u.len() && u[k] == 34 { visitor.got(Ev::I8(n as i8), okv(r)) && t == u.skip(k + 1) } else { r is Err }, None => r is Err } }), // #C17
    ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      let u = skipws(s.skip(1)); match int_at(u) { Some((n, k)) => if i8::MIN <= n <= i8::MAX && k < u.len() && u[k] == 34 { visitor.got(Ev::I8(n as i8), okv(r)) && t == u.skip(k + 1) } else { true }, None => true } }), // #C27
@@at begin :: Deserializer for MapKey::deserialize_i8
proof { lemma_key(self.de.rest()); lemma_key_int(self.de.rest()); }
@@fn Deserializer for MapKey::deserialize_i16 [C17,C11,C15]
  ensures ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      let u = skipws(s.skip(1)); match int_at(u) { Some((n, k)) => if i16::MIN <= n <= i16::MAX && k < u.len() && u[k] == 34 { visitor.got(Ev::I16(n as i16), okv(r)) && t == u.skip(k + 1) } else { r is Err }, None => r is Err } }), // #C17
    ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      let u = skipws(s.skip(1)); match int_at(u) { Some((n, k)) => if i16::MIN <= n <= i16::MAX && k < u.len() && u[k] == 34 { visitor.got(Ev::I16(n as i16), okv(r)) && t == u.skip(k + 1) } else { true }, None => true } }), // #C27
@@at begin :: Deserializer for MapKey::deserialize_i16
proof { lemma_key(self.de.rest()); lemma_key_int(self.de.rest()); }
@@fn Deserializer for MapKey::deserialize_i32 [C17,C11,C15]
  ensures ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      let u = skipws(s.skip(1)); match int_at(u) { Some((n, k)) => if i32::MIN <= n <= i32::MAX && k < u.len() && u[k] == 34 { visitor.got(Ev::I32(n as i32), okv(r)) && t == u.skip(k + 1) } else { r is Err }, None => r is Err } }), // #C17
    ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      let u = skipws(s.skip(1)); match int_at(u) { Some((n, k)) => if i32::MIN <= n <= i32::MAX && k < u.len() && u[k] == 34 { visitor.got(Ev::I32(n as i32), okv(r)) && t == u.skip(k + 1) } else { true }, None => true } }), // #C27
@@at begin :: Deserializer for MapKey::deserialize_i32
proof { lemma_key(self.de.rest()); lemma_key_int(self.de.rest()); }
@@fn Deserializer for MapKey::deserialize_i64 [C17,C11,C15]
  ensures ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      let u = skipws(s.skip(1)); match int_at(u) { Some((n, k)) => if i64::MIN <= n <= i64::MAX && k < u.len() && u[k] == 34 { visitor.got(Ev::I64(n as i64), okv(r)) && t == u.skip(k + 1) } else { r is Err }, None => r is Err } }), // #C17
    ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      let u = skipws(s.skip(1)); match int_at(u) { Some((n, k)) => if i64::MIN <= n <= i64::MAX && k < u.len() && u[k] == 34 { visitor.got(Ev::I64(n as i64), okv(r)) && t == u.skip(k + 1) } else { true }, None => true } }), // #C27
@@at begin :: Deserializer for MapKey::deserialize_i64
proof { lemma_key(self.de.rest()); lemma_key_int(self.de.rest()); }
@@fn Deserializer for MapKey::deserialize_u8 [C17,C11,C15]
  ensures ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      let u = skipws(s.skip(1)); match uint_at(u) { Some((n, k)) => if u8::MIN <= n <= u8::MAX && k < u.len() && u[k] == 34 { visitor.got(Ev::U8(n as u8), okv(r)) && t == u.skip(k + 1) } else { r is Err }, None => r is Err } }), // #C17
    ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      let u = skipws(s.skip(1)); match uint_at(u) { Some((n, k)) => if u8::MIN <= n <= u8::MAX && k < u.len() && u[k] == 34 { visitor.got(Ev::U8(n as u8), okv(r)) && t == u.skip(k + 1) } else { true }, None => true } }), // #C27
@@at begin :: Deserializer for MapKey::deserialize_u8
proof { lemma_key(self.de.rest()); lemma_key_int(self.de.rest()); }
@@fn Deserializer for MapKey::deserialize_u16 [C17,C11,C15]
  ensures ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      let u = skipws(s.skip(1)); match uint_at(u) { Some((n, k)) => if u16::MIN <= n <= u16::MAX && k < u.len() && u[k] == 34 { visitor.got(Ev::U16(n as u16), okv(r)) && t == u.skip(k + 1) } else { r is Err }, None => r is Err } }), // #C17
    ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      let u = skipws(s.skip(1)); match uint_at(u) { Some((n, k)) => if u16::MIN <= n <= u16::MAX && k < u.len() && u[k] == 34 { visitor.got(Ev::U16(n as u16), okv(r)) && t == u.skip(k + 1) } else { true }, None => true } }), // #C27
@@at begin :: Deserializer for MapKey::deserialize_u16
proof { lemma_key(self.de.rest()); lemma_key_int(self.de.rest()); }
@@fn Deserializer for MapKey::deserialize_u32 [C17,C11,C15]
  ensures ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      let u = skipws(s.skip(1)); match uint_at(u) { Some((n, k)) => if u32::MIN <= n <= u32::MAX && k < u.len() && u[k] == 34 { visitor.got(Ev::U32(n as u32), okv(r)) && t == u.skip(k + 1) } else { r is Err }, None => r is Err } }), // #C17
    ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      let u = skipws(s.skip(1)); match uint_at(u) { Some((n, k)) => if u32::MIN <= n <= u32::MAX && k < u.len() && u[k] == 34 { visitor.got(Ev::U32(n as u32), okv(r)) && t == u.skip(k + 1) } else { true }, None => true } }), // #C27
@@at begin :: Deserializer for MapKey::deserialize_u32
proof { lemma_key(self.de.rest()); lemma_key_int(self.de.rest()); }
@@fn Deserializer for MapKey::deserialize_u64 [C17,C11,C15]
  ensures ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      let u = skipws(s.skip(1)); match uint_at(u) { Some((n, k)) => if u64::MIN <= n <= u64::MAX && k < u.len() && u[k] == 34 { visitor.got(Ev::U64(n as u64), okv(r)) && t == u.skip(k + 1) } else { r is Err }, None => r is Err } }), // #C17
    ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      let u = skipws(s.skip(1)); match uint_at(u) { Some((n, k)) => if u64::MIN <= n <= u64::MAX && k < u.len() && u[k] == 34 { visitor.got(Ev::U64(n as u64), okv(r)) && t == u.skip(k + 1) } else { true }, None => true } }), // #C27
@@at begin :: Deserializer for MapKey::deserialize_u64
proof { lemma_key(self.de.rest()); lemma_key_int(self.de.rest()); }
@@fn Deserializer for MapKey::deserialize_bool [C17,C11,C15]
  ensures ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      let u = skipws(s.skip(1));
      if lit(u, ltrue()) { if u.len() > 4 && u[4] == 34 { visitor.got(Ev::Bool(true), okv(r)) && (r is Ok ==> t == u.skip(5)) } else { r is Err } } else if lit(u, lfalse()) { if u.len() > 5 && u[5] == 34 { visitor.got(Ev::Bool(false), okv(r)) && (r is Ok ==> t == u.skip(6)) } else { r is Err } } else { r is Err } }), // #C17
    ({ let s = old(self.de).rest(); let t = final(self.de).rest();
      let u = skipws(s.skip(1));
      if lit(u, ltrue()) { if u.len() > 4 && u[4] == 34 { visitor.got(Ev::Bool(true), okv(r)) && (r is Ok ==> t == u.skip(5)) } else { true } } else if lit(u, lfalse()) { if u.len() > 5 && u[5] == 34 { visitor.got(Ev::Bool(false), okv(r)) && (r is Ok ==> t == u.skip(6)) } else { true } } else { true } }), // #C27
@@at begin :: Deserializer for MapKey::deserialize_bool
proof { lemma_key(self.de.rest()); lemma_key_bool(self.de.rest()); }
@@fn Deserializer for MapKey::deserialize_enum [C17,C11]
  ensures visitor.got(Ev::Enum, okv(r)), // #C17 #C27
@@at begin :: Deserializer for MapKey::deserialize_enum
proof { lemma_key(self.de.rest()); }
@@fn Deserializer for MapKey::deserialize_newtype_struct [C17,C11]
  ensures visitor.got(Ev::Newtype, okv(r)), // #C17 #C27
@@at begin :: Deserializer for MapKey::deserialize_newtype_struct
proof { lemma_key(self.de.rest()); }
@@fn EnumAccess for UnitVariantAccess::variant_seed [C15,C11]
  ensures
    r is Ok ==> r->Ok_0.1.de.wf() && jval(old(self.de).rest(), r->Ok_0.1.de.rest()) && seed.gots(Some(r->Ok_0.0)) && *final(r->Ok_0.1.de) == *final(self.de), // #C15 #C27
    r is Err ==> final(self.de).wf() && seed.gots(None), // #C11 #C15 #C27
@@fn EnumAccess for VariantAccess::variant_seed [C15,C11]
  ensures
    r is Ok ==> r->Ok_0.1.de.wf() && (exists|x: Seq<u8>| jval(old(self.de).rest(), x) && skipws(x).len() > 0 && (#[trigger] skipws(x))[0] == 58 && r->Ok_0.1.de.rest() == skipws(x).skip(1)) && seed.gots(Some(r->Ok_0.0)) && *final(r->Ok_0.1.de) == *final(self.de), // #C15 #C27
    r is Err ==> final(self.de).wf(), // #C11
@@fn VariantAccess for UnitVariantAccess::unit_variant [C15,C11]
  ensures r is Ok, *final(self.de) == *old(self.de), // #C15 #C27
@@fn VariantAccess for UnitVariantAccess::newtype_variant_seed | VariantAccess for UnitVariantAccess::tuple_variant | VariantAccess for UnitVariantAccess::struct_variant | VariantAccess for VariantAccess::unit_variant [C15,C11]
  ensures r is Err, *final(self.de) == *old(self.de), // #C15
@@fn VariantAccess for VariantAccess::newtype_variant_seed [C15,C11]
  ensures final(self.de).wf(), seed.gots(okv(r)), r is Ok ==> jval(old(self.de).rest(), final(self.de).rest()), // #C15 #C27
@@fn VariantAccess for VariantAccess::tuple_variant [C15,C11]
  ensures final(self.de).wf(), ({ let u = skipws(old(self.de).rest()); r is Ok ==> u.len() > 0 && u[0] == 91 && visitor.got(Ev::Seq, okv(r)) && jels(u.skip(1), true, false) == Some(final(self.de).rest()) }), // #C15
    final(self.de).wf(), ({ let u = skipws(old(self.de).rest()); r is Ok ==> u.len() > 0 && u[0] == 91 && visitor.got(Ev::Seq, okv(r)) && (jels(u.skip(1), true, false) is None || jels(u.skip(1), true, false) == Some(final(self.de).rest())) }), // #C27
@@fn VariantAccess for VariantAccess::struct_variant [C15,C11]
  ensures final(self.de).wf(), ({ let u = skipws(old(self.de).rest()); let t = final(self.de).rest(); r is Ok ==> u.len() > 0 && (if u[0] == 91 { visitor.got(Ev::Seq, okv(r)) && jels(u.skip(1), true, false) == Some(t) } else { u[0] == 123 && visitor.got(Ev::Map, okv(r)) && jents(u.skip(1), true, false) == Some(t) }) }), // #C15
    final(self.de).wf(), ({ let u = skipws(old(self.de).rest()); let t = final(self.de).rest(); r is Ok ==> u.len() > 0 && (if u[0] == 91 { visitor.got(Ev::Seq, okv(r)) && (jels(u.skip(1), true, false) is None || jels(u.skip(1), true, false) == Some(t)) } else { u[0] == 123 && visitor.got(Ev::Map, okv(r)) && (jents(u.skip(1), true, false) is None || jents(u.skip(1), true, false) == Some(t)) }) }), // #C27
@@fn from_mut_slice_with_decoder | from_mut_slice | from_mut_slice_hex_bytes | from_mut_slice_base64_bytes [C15,C11]
  requires old(v)@.len() <= isize::MAX,
  ensures r is Ok ==> jskip(old(v)@, false) is Some && skipws(jskip(old(v)@, false)->0).len() == 0, // #C15
@@at begin :: from_mut_slice_with_decoder
proof { assert(forall|t: Seq<u8>| t.len() > 0 && nch(t[0]) ==> (#[trigger] skipws(t)) == t); }

