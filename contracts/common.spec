@@head
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, non_camel_case_types, unused_braces, unused_assignments, unreachable_patterns, unreachable_code, unused_must_use, non_upper_case_globals)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::std_specs::convert::TryFromSpec;
use vstd::std_specs::convert::FromSpec;
use core::num::{NonZeroUsize, TryFromIntError};
use core::convert::Infallible;
use core::str::Utf8Error;

@@prelude
pub use vp_base::*;
pub mod vp_base {
use vstd::prelude::*; use vstd::string::*; use core::num::{NonZeroUsize, TryFromIntError}; use core::convert::Infallible; use core::str::Utf8Error;
// ---------------------------------------------------------------- assumed contracts of core functions
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExTryFromSliceError(core::array::TryFromSliceError);
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExUtf8Error(core::str::Utf8Error);

pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
  ensures r == (match o { Some(x) => Some(*x), None => None });
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
  ensures r == (if a is Some { a } else { b });
pub assume_specification<T> [core::mem::replace] (d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s;
pub assume_specification [i8::unsigned_abs] (x: i8) -> (r: u8) ensures r as int == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification [i16::unsigned_abs] (x: i16) -> (r: u16) ensures r as int == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification [i32::unsigned_abs] (x: i32) -> (r: u32) ensures r as int == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification [i64::unsigned_abs] (x: i64) -> (r: u64) ensures r as int == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification [u8::is_ascii_digit] (x: &u8) -> (r: bool) ensures r == (48 <= *x <= 57);
pub assume_specification [u8::is_ascii_hexdigit] (x: &u8) -> (r: bool) ensures r == (48 <= *x <= 57 || 65 <= *x <= 70 || 97 <= *x <= 102);
pub assume_specification [u8::is_ascii_control] (x: &u8) -> (r: bool) ensures r == (*x < 32 || *x == 127);
pub assume_specification [u8::is_ascii_whitespace] (x: &u8) -> (r: bool) ensures r == (*x == 32 || *x == 9 || *x == 10 || *x == 12 || *x == 13);
pub assume_specification [u8::is_ascii_alphabetic] (x: &u8) -> (r: bool) ensures r == (65 <= *x <= 90 || 97 <= *x <= 122);
pub assume_specification [u8::is_ascii_alphanumeric] (x: &u8) -> (r: bool) ensures r == (48 <= *x <= 57 || 65 <= *x <= 90 || 97 <= *x <= 122);
pub assume_specification [u8::is_ascii_uppercase] (x: &u8) -> (r: bool) ensures r == (65 <= *x <= 90);
pub assume_specification [u8::is_ascii_lowercase] (x: &u8) -> (r: bool) ensures r == (97 <= *x <= 122);
pub assume_specification [u8::is_ascii] (x: &u8) -> (r: bool) ensures r == (*x < 128);
pub assume_specification [u8::to_ascii_lowercase] (x: &u8) -> (r: u8) ensures r == (if 65 <= *x <= 90 { *x + 32 } else { *x as int });
pub assume_specification [u8::to_ascii_uppercase] (x: &u8) -> (r: u8) ensures r == (if 97 <= *x <= 122 { *x - 32 } else { *x as int });
pub assume_specification [core::str::from_utf8] (b: &[u8]) -> (r: core::result::Result<&str, core::str::Utf8Error>)
  ensures r is Ok <==> vstd::utf8::valid_utf8(b@), r is Ok ==> r->Ok_0.spec_bytes() == b@;

#[verifier::opaque] pub open spec fn be(s: Seq<u8>) -> nat decreases s.len() {
  if s.len() == 0 { 0 } else { be(s.drop_last()) * 256 + s.last() as nat }
}
pub broadcast proof fn lemma_be1(s: Seq<u8>) requires s.len() == 1 ensures #[trigger] be(s) == s[0] as nat
{ reveal(be); reveal_with_fuel(be, 3); assert(s.drop_last() =~= Seq::<u8>::empty()); }
pub broadcast proof fn lemma_be2(s: Seq<u8>) requires s.len() == 2 ensures #[trigger] be(s) == s[0] as nat * 256 + s[1] as nat
{ reveal(be); reveal_with_fuel(be, 2); lemma_be1(s.drop_last()); }
pub broadcast proof fn lemma_be4(s: Seq<u8>) requires s.len() == 4
  ensures #[trigger] be(s) == ((s[0] as nat * 256 + s[1] as nat) * 256 + s[2] as nat) * 256 + s[3] as nat
{ reveal(be); reveal_with_fuel(be, 3); lemma_be2(s.drop_last().drop_last()); }
pub broadcast proof fn lemma_be8(s: Seq<u8>) requires s.len() == 8
  ensures #[trigger] be(s) == ((((((s[0] as nat * 256 + s[1] as nat) * 256 + s[2] as nat) * 256 + s[3] as nat) * 256 + s[4] as nat) * 256 + s[5] as nat) * 256 + s[6] as nat) * 256 + s[7] as nat
{ reveal(be); reveal_with_fuel(be, 5); lemma_be4(s.drop_last().drop_last().drop_last().drop_last()); }
pub open spec fn sx(n: nat, bits: nat) -> int { if n < pow2n((bits - 1) as nat) { n as int } else { n as int - pow2n(bits) as int } }
pub open spec fn pow2n(b: nat) -> nat { if b == 7 { 0x80 } else if b == 8 { 0x100 } else if b == 15 { 0x8000 } else if b == 16 { 0x1_0000 } else if b == 31 { 0x8000_0000 } else if b == 32 { 0x1_0000_0000 } else if b == 63 { 0x8000_0000_0000_0000 } else { 0x1_0000_0000_0000_0000 } }

pub uninterp spec fn f32_of_bits(b: nat) -> f32;
pub uninterp spec fn f64_of_bits(b: nat) -> f64;
pub uninterp spec fn f32_nan() -> f32;
pub uninterp spec fn f64_nan() -> f64;
#[verifier::external_body] pub fn u8_from_be_bytes(b: [u8;1]) -> (r: u8) ensures r as nat == be(b@) { u8::from_be_bytes(b) }
#[verifier::external_body] pub fn u16_from_be_bytes(b: [u8;2]) -> (r: u16) ensures r as nat == be(b@) { u16::from_be_bytes(b) }
#[verifier::external_body] pub fn u32_from_be_bytes(b: [u8;4]) -> (r: u32) ensures r as nat == be(b@) { u32::from_be_bytes(b) }
#[verifier::external_body] pub fn u64_from_be_bytes(b: [u8;8]) -> (r: u64) ensures r as nat == be(b@) { u64::from_be_bytes(b) }
#[verifier::external_body] pub fn i8_from_be_bytes(b: [u8;1]) -> (r: i8) ensures r as int == sx(be(b@), 8) { i8::from_be_bytes(b) }
#[verifier::external_body] pub fn i16_from_be_bytes(b: [u8;2]) -> (r: i16) ensures r as int == sx(be(b@), 16) { i16::from_be_bytes(b) }
#[verifier::external_body] pub fn i32_from_be_bytes(b: [u8;4]) -> (r: i32) ensures r as int == sx(be(b@), 32) { i32::from_be_bytes(b) }
#[verifier::external_body] pub fn i64_from_be_bytes(b: [u8;8]) -> (r: i64) ensures r as int == sx(be(b@), 64) { i64::from_be_bytes(b) }
#[verifier::external_body] pub fn f32_from_be_bytes(b: [u8;4]) -> (r: f32) ensures r == f32_of_bits(be(b@)) { f32::from_be_bytes(b) }
#[verifier::external_body] pub fn f64_from_be_bytes(b: [u8;8]) -> (r: f64) ensures r == f64_of_bits(be(b@)) { f64::from_be_bytes(b) }
#[verifier::external_body] pub fn vp_f32_nan() -> (r: f32) ensures r == f32_nan() { f32::NAN }
#[verifier::external_body] pub fn vp_f64_nan() -> (r: f64) ensures r == f64_nan() { f64::NAN }
#[verifier::external_body] pub fn vp_array_from_slice<const N: usize>(a: &[u8]) -> (r: [u8; N])
  requires a@.len() == N ensures r@ == a@ { a.try_into().unwrap() }
pub struct VpParseCharError;
#[verifier::external_body] pub fn vp_char_from_str(s: &str) -> (r: core::result::Result<char, VpParseCharError>)
  ensures r is Ok <==> vstd::utf8::decode_utf8(s.spec_bytes()).len() == 1, r is Ok ==> r->Ok_0 == vstd::utf8::decode_utf8(s.spec_bytes())[0] { s.parse().map_err(|_| VpParseCharError) }

pub open spec fn is_suffix(t: Seq<u8>, s: Seq<u8>) -> bool { t.len() <= s.len() && t == s.subrange(s.len() - t.len(), s.len() as int) }
pub broadcast proof fn lemma_suffix_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
  requires #[trigger] is_suffix(a, b), #[trigger] is_suffix(b, c) ensures is_suffix(a, c)
{ assert(a =~= c.subrange(c.len() - a.len(), c.len() as int)); }
pub broadcast proof fn lemma_suffix_refl(a: Seq<u8>) ensures #[trigger] is_suffix(a, a) { assert(a =~= a.subrange(0, a.len() as int)); }
pub broadcast proof fn lemma_suffix_skip(a: Seq<u8>, k: int) requires 0 <= k <= a.len() ensures #[trigger] is_suffix(a.skip(k), a) { assert(a.skip(k) =~= a.subrange(k, a.len() as int)); }
pub broadcast proof fn lemma_skip_skip(a: Seq<u8>, j: int, k: int) requires 0 <= j, 0 <= k, j + k <= a.len()
  ensures #[trigger] a.skip(j).skip(k) == a.skip(j + k) { assert(a.skip(j).skip(k) =~= a.skip(j + k)); }
pub broadcast proof fn lemma_skip_take(a: Seq<u8>, j: int, k: int) requires 0 <= j, 0 <= k, j + k <= a.len()
  ensures #[trigger] a.skip(j).take(k) == a.subrange(j, j + k) { assert(a.skip(j).take(k) =~= a.subrange(j, j + k)); }
pub broadcast proof fn lemma_u8_as_i8(n: u8) ensures #[trigger] (n as i8) as int == (if n < 0x80 { n as int } else { n as int - 256 })
{ assert((n as i8) as int == (if n < 0x80 { n as int } else { n as int - 256 })) by (bit_vector); }
pub broadcast proof fn lemma_and15(c: usize) ensures #[trigger] (c & 15) <= 15, 0x80 <= c <= 0x8f ==> (c & 15) == c - 0x80, 0x90 <= c <= 0x9f ==> (c & 15) == c - 0x90
{ assert((c & 15) <= 15) by (bit_vector); assert(0x80 <= c && c <= 0x8f ==> (c & 15) == c - 0x80) by (bit_vector); assert(0x90 <= c && c <= 0x9f ==> (c & 15) == c - 0x90) by (bit_vector); }
pub broadcast proof fn lemma_and31(c: usize) ensures #[trigger] (c & 31) <= 31, 0xa0 <= c <= 0xbf ==> (c & 31) == c - 0xa0
{ assert((c & 31) <= 31) by (bit_vector); assert(0xa0 <= c && c <= 0xbf ==> (c & 31) == c - 0xa0) by (bit_vector); }
pub broadcast group group_bits { lemma_u8_as_i8, lemma_and15, lemma_and31 }
pub broadcast group group_suffix { lemma_suffix_trans, lemma_suffix_refl, lemma_suffix_skip, lemma_skip_skip, lemma_skip_take }
pub open spec fn okv<T, E>(r: core::result::Result<T, E>) -> Option<T> { match r { Ok(v) => Some(v), Err(_) => None } }
// numeric casts to floating point: a function of the mathematical value of the source (core language: `as` rounds to nearest, ties to even)
pub uninterp spec fn f32_of_int(n: int) -> f32;
pub uninterp spec fn f64_of_int(n: int) -> f64;
pub uninterp spec fn f32_of_f64(x: f64) -> f32;
pub uninterp spec fn f64_of_f32(x: f32) -> f64;
pub trait VpNum: Sized { spec fn to_f32(self) -> f32; spec fn to_f64(self) -> f64; }
impl VpNum for u8 { open spec fn to_f32(self) -> f32 { f32_of_int(self as int) } open spec fn to_f64(self) -> f64 { f64_of_int(self as int) } }
impl VpNum for i8 { open spec fn to_f32(self) -> f32 { f32_of_int(self as int) } open spec fn to_f64(self) -> f64 { f64_of_int(self as int) } }
impl VpNum for u16 { open spec fn to_f32(self) -> f32 { f32_of_int(self as int) } open spec fn to_f64(self) -> f64 { f64_of_int(self as int) } }
impl VpNum for i16 { open spec fn to_f32(self) -> f32 { f32_of_int(self as int) } open spec fn to_f64(self) -> f64 { f64_of_int(self as int) } }
impl VpNum for u32 { open spec fn to_f32(self) -> f32 { f32_of_int(self as int) } open spec fn to_f64(self) -> f64 { f64_of_int(self as int) } }
impl VpNum for i32 { open spec fn to_f32(self) -> f32 { f32_of_int(self as int) } open spec fn to_f64(self) -> f64 { f64_of_int(self as int) } }
impl VpNum for u64 { open spec fn to_f32(self) -> f32 { f32_of_int(self as int) } open spec fn to_f64(self) -> f64 { f64_of_int(self as int) } }
impl VpNum for i64 { open spec fn to_f32(self) -> f32 { f32_of_int(self as int) } open spec fn to_f64(self) -> f64 { f64_of_int(self as int) } }
impl VpNum for usize { open spec fn to_f32(self) -> f32 { f32_of_int(self as int) } open spec fn to_f64(self) -> f64 { f64_of_int(self as int) } }
impl VpNum for isize { open spec fn to_f32(self) -> f32 { f32_of_int(self as int) } open spec fn to_f64(self) -> f64 { f64_of_int(self as int) } }
impl VpNum for f32 { open spec fn to_f32(self) -> f32 { self } open spec fn to_f64(self) -> f64 { f64_of_f32(self) } }
impl VpNum for f64 { open spec fn to_f32(self) -> f32 { f32_of_f64(self) } open spec fn to_f64(self) -> f64 { self } }
#[verifier::external_body] pub fn vp_as_f32<T: VpNum>(x: T) -> (r: f32) ensures r == x.to_f32() { unimplemented!() }
#[verifier::external_body] pub fn vp_as_f64<T: VpNum>(x: T) -> (r: f64) ensures r == x.to_f64() { unimplemented!() }
// conversions between primitive integers (core::convert::TryFrom between integer types)
pub trait VpInt: Sized { spec fn lo() -> int; spec fn hi() -> int; spec fn ival(self) -> int; }
impl VpInt for i8 { open spec fn lo() -> int { i8::MIN as int } open spec fn hi() -> int { i8::MAX as int } open spec fn ival(self) -> int { self as int } }
impl VpInt for u8 { open spec fn lo() -> int { u8::MIN as int } open spec fn hi() -> int { u8::MAX as int } open spec fn ival(self) -> int { self as int } }
impl VpInt for i16 { open spec fn lo() -> int { i16::MIN as int } open spec fn hi() -> int { i16::MAX as int } open spec fn ival(self) -> int { self as int } }
impl VpInt for u16 { open spec fn lo() -> int { u16::MIN as int } open spec fn hi() -> int { u16::MAX as int } open spec fn ival(self) -> int { self as int } }
impl VpInt for i32 { open spec fn lo() -> int { i32::MIN as int } open spec fn hi() -> int { i32::MAX as int } open spec fn ival(self) -> int { self as int } }
impl VpInt for u32 { open spec fn lo() -> int { u32::MIN as int } open spec fn hi() -> int { u32::MAX as int } open spec fn ival(self) -> int { self as int } }
impl VpInt for i64 { open spec fn lo() -> int { i64::MIN as int } open spec fn hi() -> int { i64::MAX as int } open spec fn ival(self) -> int { self as int } }
impl VpInt for u64 { open spec fn lo() -> int { u64::MIN as int } open spec fn hi() -> int { u64::MAX as int } open spec fn ival(self) -> int { self as int } }
impl VpInt for i128 { open spec fn lo() -> int { i128::MIN as int } open spec fn hi() -> int { i128::MAX as int } open spec fn ival(self) -> int { self as int } }
impl VpInt for u128 { open spec fn lo() -> int { u128::MIN as int } open spec fn hi() -> int { u128::MAX as int } open spec fn ival(self) -> int { self as int } }
impl VpInt for usize { open spec fn lo() -> int { usize::MIN as int } open spec fn hi() -> int { usize::MAX as int } open spec fn ival(self) -> int { self as int } }
impl VpInt for isize { open spec fn lo() -> int { isize::MIN as int } open spec fn hi() -> int { isize::MAX as int } open spec fn ival(self) -> int { self as int } }
#[verifier::external_body] pub fn vp_try_into<A: VpInt, B: VpInt + TryFrom<A>>(a: A) -> (r: core::result::Result<B, <B as TryFrom<A>>::Error>)
  ensures r is Ok <==> B::lo() <= a.ival() <= B::hi(), r is Ok ==> r->Ok_0.ival() == a.ival() { B::try_from(a) }
#[verifier::external_body] pub fn vp_usize_try_from<A: VpInt>(a: A) -> (r: core::result::Result<usize, <usize as TryFrom<A>>::Error>) where usize: TryFrom<A>
  ensures r is Ok <==> 0 <= a.ival() <= usize::MAX, r is Ok ==> r->Ok_0 == a.ival() { usize::try_from(a) }
#[verifier::external_body] pub fn vp_i16_from<A: VpInt>(a: A) -> (r: i16) where i16: From<A> ensures r == a.ival() { i16::from(a) }
#[verifier::external_body] pub fn vp_i32_from<A: VpInt>(a: A) -> (r: i32) where i32: From<A> ensures r == a.ival() { i32::from(a) }
#[verifier::external_body] pub fn vp_i64_from<A: VpInt>(a: A) -> (r: i64) where i64: From<A> ensures r == a.ival() { i64::from(a) }
#[verifier::external_body] pub fn vp_i128_from<A: VpInt>(a: A) -> (r: i128) where i128: From<A> ensures r == a.ival() { i128::from(a) }
#[verifier::external_body] pub fn f32_from_bits(b: u32) -> (r: f32) ensures r == f32_of_bits(b as nat) { f32::from_bits(b) }
#[verifier::external_body] pub fn f64_from_bits(b: u64) -> (r: f64) ensures r == f64_of_bits(b as nat) { f64::from_bits(b) }
}
@@subst-fn try_into=>vp_try_into
@@subst-path usize::try_from=>vp_usize_try_from
@@subst-path f32::from=>vp_as_f32
@@subst-path f64::from=>vp_as_f64
@@subst-path u8::from_be_bytes=>u8_from_be_bytes
@@subst-path u16::from_be_bytes=>u16_from_be_bytes
@@subst-path u32::from_be_bytes=>u32_from_be_bytes
@@subst-path u64::from_be_bytes=>u64_from_be_bytes
@@subst-path i8::from_be_bytes=>i8_from_be_bytes
@@subst-path i16::from_be_bytes=>i16_from_be_bytes
@@subst-path i32::from_be_bytes=>i32_from_be_bytes
@@subst-path i64::from_be_bytes=>i64_from_be_bytes
@@subst-path f32::from_be_bytes=>f32_from_be_bytes
@@subst-path f64::from_be_bytes=>f64_from_be_bytes
@@subst-path f32::from_bits=>f32_from_bits
@@subst-path f64::from_bits=>f64_from_bits
@@subst-path i16::from=>vp_i16_from
@@subst-path i32::from=>vp_i32_from
@@subst-path i64::from=>vp_i64_from
@@subst-path i128::from=>vp_i128_from
@@subst-path f32::NAN=>vp_f32_nan()
@@subst-path f64::NAN=>vp_f64_nan()
@@subst-path char::from_str=>vp_char_from_str
