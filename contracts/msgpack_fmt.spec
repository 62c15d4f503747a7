@@prelude
pub use vp_fmt::*;
pub mod vp_fmt {
use super::vp_base::*;
broadcast use group_suffix;
use vstd::prelude::*; use vstd::string::*; use core::num::{NonZeroUsize, TryFromIntError}; use core::convert::Infallible; use core::str::Utf8Error;
// ---------------------------------------------------------------- MessagePack format (from the MessagePack specification)
/// what the first byte of an item announces: (header bytes, following payload bytes, following items)
pub enum Hd { Item { h: nat, payload: nat, items: nat }, Eof, Reserved }
pub open spec fn hd_len(s: Seq<u8>, w: nat, extra: nat) -> Hd {
  if s.len() < 1 + w { Hd::Eof } else { Hd::Item { h: 1 + w, payload: be(s.subrange(1, 1 + w as int)) + extra, items: 0 } }
}
pub open spec fn hd_items(s: Seq<u8>, w: nat, mul: nat) -> Hd {
  if s.len() < 1 + w { Hd::Eof } else { Hd::Item { h: 1 + w, payload: 0, items: mul * be(s.subrange(1, 1 + w as int)) } }
}
pub open spec fn fixed(n: nat) -> Hd { Hd::Item { h: 1, payload: n, items: 0 } }
pub open spec fn hd(s: Seq<u8>) -> Hd {
  if s.len() == 0 { Hd::Eof } else {
    let c = s[0];
    if c <= 0x7f || c >= 0xe0 { fixed(0) }
    else if c <= 0x8f { Hd::Item { h: 1, payload: 0, items: 2 * ((c - 0x80) as nat) } }
    else if c <= 0x9f { Hd::Item { h: 1, payload: 0, items: (c - 0x90) as nat } }
    else if c <= 0xbf { fixed((c - 0xa0) as nat) }
    else if c == 0xc0 || c == 0xc2 || c == 0xc3 { fixed(0) }
    else if c == 0xc1 { Hd::Reserved }
    else if c == 0xc4 || c == 0xd9 { hd_len(s, 1, 0) }
    else if c == 0xc5 || c == 0xda { hd_len(s, 2, 0) }
    else if c == 0xc6 || c == 0xdb { hd_len(s, 4, 0) }
    else if c == 0xc7 { hd_len(s, 1, 1) }
    else if c == 0xc8 { hd_len(s, 2, 1) }
    else if c == 0xc9 { hd_len(s, 4, 1) }
    else if c == 0xca { fixed(4) } else if c == 0xcb { fixed(8) }
    else if c == 0xcc || c == 0xd0 { fixed(1) } else if c == 0xcd || c == 0xd1 { fixed(2) }
    else if c == 0xce || c == 0xd2 { fixed(4) } else if c == 0xcf || c == 0xd3 { fixed(8) }
    else if c == 0xd4 { fixed(2) } else if c == 0xd5 { fixed(3) } else if c == 0xd6 { fixed(5) } else if c == 0xd7 { fixed(9) } else if c == 0xd8 { fixed(17) }
    else if c == 0xdc { hd_items(s, 2, 1) } else if c == 0xdd { hd_items(s, 4, 1) }
    else if c == 0xde { hd_items(s, 2, 2) } else { hd_items(s, 4, 2) }
  }
}
pub enum Sk { Rest(Seq<u8>), Eof, Reserved }
/// what is left after exactly one item
pub open spec fn skip1(s: Seq<u8>) -> Sk decreases s.len(), 0nat {
  match hd(s) {
    Hd::Eof => Sk::Eof, Hd::Reserved => Sk::Reserved,
    Hd::Item { h, payload, items } =>
      if h < 1 || h + payload > s.len() { Sk::Eof }
      else { skipn(s.skip((h + payload) as int), items) }
  }
}
/// what is left after n items
pub open spec fn skipn(s: Seq<u8>, n: nat) -> Sk decreases s.len(), n {
  if n == 0 { Sk::Rest(s) } else {
    match skip1(s) {
      Sk::Rest(t) => if t.len() < s.len() { skipn(t, (n - 1) as nat) } else { Sk::Eof },
      x => x,
    }
  }
}
pub proof fn lemma_skip_shrinks(s: Seq<u8>, n: nat)
  ensures
    match skip1(s) { Sk::Rest(t) => t.len() < s.len() && is_suffix(t, s), _ => true },
    match skipn(s, n) { Sk::Rest(t) => t.len() + n <= s.len() && is_suffix(t, s), _ => true },
  decreases s.len(), n + 1
{
  broadcast use {lemma_suffix_trans, lemma_suffix_refl, lemma_suffix_skip};
  lemma_skip1_shrinks(s);
  if n > 0 {
    match skip1(s) { Sk::Rest(t) => { if t.len() < s.len() { lemma_skip_shrinks(t, (n - 1) as nat); } } _ => {} }
  }
}
pub proof fn lemma_skip1_shrinks(s: Seq<u8>)
  ensures match skip1(s) { Sk::Rest(t) => t.len() < s.len() && is_suffix(t, s), _ => true },
  decreases s.len(), 0nat
{
  broadcast use {lemma_suffix_trans, lemma_suffix_refl, lemma_suffix_skip};
  match hd(s) {
    Hd::Item { h, payload, items } => if h >= 1 && h + payload <= s.len() { lemma_skip_shrinks(s.skip((h + payload) as int), items); },
    _ => {}
  }
}
pub proof fn lemma_skipn_add(s: Seq<u8>, a: nat, b: nat)
  ensures skipn(s, a + b) == (match skipn(s, a) { Sk::Rest(t) => skipn(t, b), x => x })
  decreases a
{
  lemma_skip1_shrinks(s);
  if a > 0 {
    match skip1(s) { Sk::Rest(t) => { lemma_skipn_add(t, (a - 1) as nat, b); assert((a + b - 1) as nat == (a - 1) as nat + b); } _ => {} }
  }
}
/// an entry is two items
pub proof fn lemma_skipn_two(s: Seq<u8>, k: nat)
  ensures k > 0 ==> skipn(s, 2 * k) == (match skip1(s) { Sk::Rest(t) => match skip1(t) { Sk::Rest(u) => skipn(u, 2 * ((k - 1) as nat)), x => x }, x => x }),
    match skip1(s) { Sk::Rest(t) => t.len() < s.len() && is_suffix(t, s) && (match skip1(t) { Sk::Rest(u) => u.len() < t.len() && is_suffix(u, t), _ => true }), _ => true },
{
  lemma_skip1_shrinks(s);
  match skip1(s) { Sk::Rest(t) => { lemma_skip1_shrinks(t); } _ => {} }
  if k > 0 { reveal_with_fuel(skipn, 3); }
}
pub proof fn lemma_skipn_step(s: Seq<u8>, k: nat)
  ensures k > 0 ==> skipn(s, k) == (match skip1(s) { Sk::Rest(t) => skipn(t, (k - 1) as nat), x => x })
{ lemma_skip1_shrinks(s); }
pub proof fn lemma_skipn_1(s: Seq<u8>) ensures skipn(s, 1) == skip1(s)
{ lemma_skip1_shrinks(s); reveal_with_fuel(skipn, 3); }

/// the integer item at the front of s: value, number of bytes
pub open spec fn arg(s: Seq<u8>, w: int) -> nat { be(s.subrange(1, 1 + w)) }
pub open spec fn int_at(s: Seq<u8>) -> Option<(int, nat)> {
  if s.len() == 0 { None } else {
    let c = s[0]; let l = s.len();
    if c <= 0x7f { Some((c as int, 1)) }
    else if c >= 0xe0 { Some((c - 0x100, 1)) }
    else if c == 0xcc && l >= 2 { Some((arg(s, 1) as int, 2)) }
    else if c == 0xcd && l >= 3 { Some((arg(s, 2) as int, 3)) }
    else if c == 0xce && l >= 5 { Some((arg(s, 4) as int, 5)) }
    else if c == 0xcf && l >= 9 { Some((arg(s, 8) as int, 9)) }
    else if c == 0xd0 && l >= 2 { Some((sx(arg(s, 1), 8), 2)) }
    else if c == 0xd1 && l >= 3 { Some((sx(arg(s, 2), 16), 3)) }
    else if c == 0xd2 && l >= 5 { Some((sx(arg(s, 4), 32), 5)) }
    else if c == 0xd3 && l >= 9 { Some((sx(arg(s, 8), 64), 9)) }
    else { None }
  }
}
/// header of a string / binary: (header length, payload length)
pub open spec fn str_hd(s: Seq<u8>) -> Option<(nat, nat)> {
  if s.len() == 0 { None } else if 0xa0 <= s[0] <= 0xbf { Some((1, (s[0] - 0xa0) as nat)) }
  else if s[0] == 0xd9 && s.len() >= 2 { Some((2, arg(s, 1))) }
  else if s[0] == 0xda && s.len() >= 3 { Some((3, arg(s, 2))) }
  else if s[0] == 0xdb && s.len() >= 5 { Some((5, arg(s, 4))) } else { None }
}
pub open spec fn bin_hd(s: Seq<u8>) -> Option<(nat, nat)> {
  if s.len() == 0 { None }
  else if s[0] == 0xc4 && s.len() >= 2 { Some((2, arg(s, 1))) }
  else if s[0] == 0xc5 && s.len() >= 3 { Some((3, arg(s, 2))) }
  else if s[0] == 0xc6 && s.len() >= 5 { Some((5, arg(s, 4))) } else { None }
}
pub open spec fn payload_at(s: Seq<u8>, h: Option<(nat, nat)>) -> Option<(Seq<u8>, Seq<u8>)> {
  match h { Some((h, n)) => if h + n <= s.len() { Some((s.subrange(h as int, (h + n) as int), s.skip((h + n) as int))) } else { None }, None => None }
}
pub open spec fn str_at(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
  match payload_at(s, str_hd(s)) { Some((p, t)) => if vstd::utf8::valid_utf8(p) { Some((p, t)) } else { None }, None => None }
}
pub open spec fn bin_at(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> { payload_at(s, bin_hd(s)) }
/// header of an array / map: (header length, count)
pub open spec fn arr_hd(s: Seq<u8>) -> Option<(nat, nat)> {
  if s.len() == 0 { None } else if 0x90 <= s[0] <= 0x9f { Some((1, (s[0] - 0x90) as nat)) }
  else if s[0] == 0xdc && s.len() >= 3 { Some((3, arg(s, 2))) }
  else if s[0] == 0xdd && s.len() >= 5 { Some((5, arg(s, 4))) } else { None }
}
pub open spec fn map_hd(s: Seq<u8>) -> Option<(nat, nat)> {
  if s.len() == 0 { None } else if 0x80 <= s[0] <= 0x8f { Some((1, (s[0] - 0x80) as nat)) }
  else if s[0] == 0xde && s.len() >= 3 { Some((3, arg(s, 2))) }
  else if s[0] == 0xdf && s.len() >= 5 { Some((5, arg(s, 4))) } else { None }
}

pub open spec fn is_str(s: Seq<u8>) -> bool { s.len() > 0 && (0xa0 <= s[0] <= 0xbf || 0xd9 <= s[0] <= 0xdb) }
pub open spec fn is_bin(s: Seq<u8>) -> bool { s.len() > 0 && 0xc4 <= s[0] <= 0xc6 }
pub open spec fn is_arr(s: Seq<u8>) -> bool { s.len() > 0 && (0x90 <= s[0] <= 0x9f || s[0] == 0xdc || s[0] == 0xdd) }
pub open spec fn is_map(s: Seq<u8>) -> bool { s.len() > 0 && (0x80 <= s[0] <= 0x8f || s[0] == 0xde || s[0] == 0xdf) }
pub open spec fn is_uint(s: Seq<u8>) -> bool { s.len() > 0 && (s[0] <= 0x7f || 0xcc <= s[0] <= 0xce) }
pub open spec fn nil_at(s: Seq<u8>) -> bool { s.len() > 0 && s[0] == 0xc0 }
pub open spec fn bool_at(s: Seq<u8>) -> Option<bool> { if s.len() > 0 && s[0] == 0xc2 { Some(false) } else if s.len() > 0 && s[0] == 0xc3 { Some(true) } else { None } }
pub open spec fn f32_at(s: Seq<u8>) -> Option<(f32, nat)> {
  if s.len() == 0 { None } else { let c = s[0]; let l = s.len();
    if c == 0xca { if l >= 5 { Some((f32_of_bits(arg(s, 4)), 5)) } else { None } }
    else if c == 0xcb { if l >= 9 { Some((f32_of_f64(f64_of_bits(arg(s, 8))), 9)) } else { None } }
    else if c == 0xc0 { Some((f32_nan(), 1)) }
    else { match int_at(s) { Some((n, k)) => Some((f32_of_int(n), k)), None => None } } }
}
pub open spec fn f64_at(s: Seq<u8>) -> Option<(f64, nat)> {
  if s.len() == 0 { None } else { let c = s[0]; let l = s.len();
    if c == 0xcb { if l >= 9 { Some((f64_of_bits(arg(s, 8)), 9)) } else { None } }
    else if c == 0xca { if l >= 5 { Some((f64_of_f32(f32_of_bits(arg(s, 4))), 5)) } else { None } }
    else if c == 0xc0 { Some((f64_nan(), 1)) }
    else { match int_at(s) { Some((n, k)) => Some((f64_of_int(n), k)), None => None } } }
}

pub proof fn lemma_int_is_item(s: Seq<u8>) ensures match int_at(s) { Some((n, k)) => skip1(s) == Sk::Rest(s.skip(k as int)), None => true } { reveal_with_fuel(skip1, 2); reveal_with_fuel(skipn, 2); }
pub proof fn lemma_float_is_item(s: Seq<u8>) ensures match f32_at(s) { Some((n, k)) => skip1(s) == Sk::Rest(s.skip(k as int)), None => true }, match f64_at(s) { Some((n, k)) => skip1(s) == Sk::Rest(s.skip(k as int)), None => true } { lemma_int_is_item(s); reveal_with_fuel(skip1, 2); reveal_with_fuel(skipn, 2); }
pub proof fn lemma_str_is_item(s: Seq<u8>) ensures match payload_at(s, str_hd(s)) { Some((p, t)) => skip1(s) == Sk::Rest(t), None => true } { reveal_with_fuel(skip1, 2); reveal_with_fuel(skipn, 2); }
pub proof fn lemma_bin_is_item(s: Seq<u8>) ensures match bin_at(s) { Some((p, t)) => skip1(s) == Sk::Rest(t), None => true } { reveal_with_fuel(skip1, 2); reveal_with_fuel(skipn, 2); }
pub proof fn lemma_hd_is_item(s: Seq<u8>) ensures
  match arr_hd(s) { Some((h, n)) => h <= s.len() && skip1(s) == skipn(s.skip(h as int), n) && map_hd(s) is None, None => true },
  match map_hd(s) { Some((h, n)) => h <= s.len() && skip1(s) == skipn(s.skip(h as int), 2 * n), None => true } { reveal_with_fuel(skip1, 2); }
pub proof fn lemma_arg_bound(s: Seq<u8>) ensures s.len() >= 2 ==> arg(s, 1) <= 0xff, s.len() >= 3 ==> arg(s, 2) <= 0xffff, s.len() >= 5 ==> arg(s, 4) <= 0xffff_ffff, s.len() >= 9 ==> arg(s, 8) <= 0xffff_ffff_ffff_ffff
{ broadcast use {lemma_be1, lemma_be2, lemma_be4, lemma_be8}; }
} // vp_fmt
