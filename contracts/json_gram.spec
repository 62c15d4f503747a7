@@prelude
pub mod vp_jg {
use super::vp_base::*; use super::vp_b64::*; use super::vp_js::*;
use vstd::prelude::*; use vstd::utf8::*;
broadcast use lemma_quoted_jstr;
// ---------------------------------------------------------------- JSON values as the serializer writes them (no whitespace)
pub open spec fn cnt(n: nat) -> bool { true }
/// one value
#[verifier::opaque] pub open spec fn jone(a: Seq<u8>) -> bool decreases a.len(), 0int {
  a == seq![110u8, 117, 108, 108] || a == seq![116u8, 114, 117, 101] || a == seq![102u8, 97, 108, 115, 101] || jnum(a) || is_jstr(a)
  || (a.len() >= 2 && a[0] == 91 && a.last() == 93 && exists|n: nat| #[trigger] cnt(n) && jlist(a.subrange(1, a.len() - 1), n))
  || (a.len() >= 2 && a[0] == 123 && a.last() == 125 && exists|n: nat| #[trigger] cnt(n) && jents(a.subrange(1, a.len() - 1), n))
}
/// n values separated by single commas
#[verifier::opaque] pub open spec fn jlist(b: Seq<u8>, n: nat) -> bool decreases b.len(), 1int {
  if n == 0 { b.len() == 0 } else if n == 1 { jone(b) } else { exists|i: int| 0 <= i < b.len() && #[trigger] b[i] == 44 && jlist(b.take(i), (n - 1) as nat) && jone(b.skip(i + 1)) }
}
/// a key, a colon and a value
#[verifier::opaque] pub open spec fn jent(x: Seq<u8>) -> bool decreases x.len(), 1int { exists|i: int| 0 <= i < x.len() && #[trigger] x[i] == 58 && is_jstr(x.take(i)) && jone(x.skip(i + 1)) }
/// n entries separated by single commas
#[verifier::opaque] pub open spec fn jents(b: Seq<u8>, n: nat) -> bool decreases b.len(), 2int {
  if n == 0 { b.len() == 0 } else if n == 1 { jent(b) } else { exists|i: int| 0 <= i < b.len() && #[trigger] b[i] == 44 && jents(b.take(i), (n - 1) as nat) && jent(b.skip(i + 1)) }
}
pub broadcast proof fn lemma_jone_leaf(a: Seq<u8>)
  ensures a == seq![110u8, 117, 108, 108] || a == seq![116u8, 114, 117, 101] || a == seq![102u8, 97, 108, 115, 101] || jnum(a) || is_jstr(a) ==> #[trigger] jone(a) { reveal(jone); reveal(jlist); reveal(jent); reveal(jents); }
pub open spec fn comma(n: nat) -> Seq<u8> { if n == 0 { Seq::empty() } else { seq![44u8] } }
pub proof fn lemma_jlist_push(b: Seq<u8>, n: nat, x: Seq<u8>) requires jlist(b, n), jone(x) ensures jlist(b + comma(n) + x, n + 1)
{ reveal(jone); reveal(jlist); reveal(jent); reveal(jents); let s = b + comma(n) + x; if n == 0 { assert(s =~= x); } else { let i = b.len() as int; assert(s[i] == 44); assert(s.take(i) =~= b); assert(s.skip(i + 1) =~= x); } }
pub proof fn lemma_jents_push(b: Seq<u8>, n: nat, x: Seq<u8>) requires jents(b, n), jent(x) ensures jents(b + comma(n) + x, n + 1)
{ reveal(jone); reveal(jlist); reveal(jent); reveal(jents); let s = b + comma(n) + x; if n == 0 { assert(s =~= x); } else { let i = b.len() as int; assert(s[i] == 44); assert(s.take(i) =~= b); assert(s.skip(i + 1) =~= x); } }
pub proof fn lemma_jent(k: Seq<u8>, v: Seq<u8>) requires is_jstr(k), jone(v) ensures jent(k + seq![58u8] + v)
{ reveal(jone); reveal(jlist); reveal(jent); reveal(jents); let x = k + seq![58u8] + v; let i = k.len() as int; assert(x[i] == 58); assert(x.take(i) =~= k); assert(x.skip(i + 1) =~= v); }
pub proof fn lemma_arr(b: Seq<u8>, n: nat) requires jlist(b, n) ensures jone(seq![91u8] + b + seq![93u8])
{ reveal(jone); reveal(jlist); reveal(jent); reveal(jents); let a = seq![91u8] + b + seq![93u8]; assert(a.subrange(1, a.len() - 1) =~= b); assert(cnt(n)); }
pub proof fn lemma_obj(b: Seq<u8>, n: nat) requires jents(b, n) ensures jone(seq![123u8] + b + seq![125u8])
{ reveal(jone); reveal(jlist); reveal(jent); reveal(jents); let a = seq![123u8] + b + seq![125u8]; assert(a.subrange(1, a.len() - 1) =~= b); assert(cnt(n)); }
pub proof fn lemma_none() ensures jlist(Seq::empty(), 0), jents(Seq::empty(), 0) { reveal(jone); reveal(jlist); reveal(jent); reveal(jents); reveal(jone); reveal(jlist); reveal(jent); reveal(jents); }
/// {"name":value}
pub proof fn lemma_variant(k: Seq<u8>, v: Seq<u8>) requires is_jstr(k), jone(v) ensures jone(seq![123u8] + k + seq![58u8] + v + seq![125u8])
{ let x = k + seq![58u8] + v; lemma_jent(k, v); lemma_none(); lemma_jents_push(Seq::empty(), 0, x); assert(Seq::<u8>::empty() + comma(0) + x =~= x); lemma_obj(x, 1); assert(seq![123u8] + x + seq![125u8] =~= seq![123u8] + k + seq![58u8] + v + seq![125u8]); }
/// JSON text is UTF-8
pub proof fn lemma_jone_utf8(a: Seq<u8>) requires jone(a) ensures valid_utf8(a) decreases a.len(), 0int
{
  reveal(jone); reveal(jlist); reveal(jent); reveal(jents);
  if jnum(a) { lemma_jnum_ascii(a); lemma_ascii_utf8(a); }
  else if is_jstr(a) { reveal(is_jstr); let s = choose|s: Seq<u8>| valid_utf8(s) && a == #[trigger] quoted(s); lemma_esc_utf8(s); lemma_ascii_utf8(seq![34u8]); valid_utf8_concat(seq![34u8], esc(s)); valid_utf8_concat(seq![34u8] + esc(s), seq![34u8]); }
  else if a == seq![110u8, 117, 108, 108] || a == seq![116u8, 114, 117, 101] || a == seq![102u8, 97, 108, 115, 101] { lemma_ascii_utf8(a); }
  else {
    let b = a.subrange(1, a.len() - 1); let (o, c) = (seq![a[0]], seq![a.last()]);
    if a[0] == 91 { let n = choose|n: nat| cnt(n) && jlist(b, n); lemma_jlist_utf8(b, n); } else { let n = choose|n: nat| cnt(n) && jents(b, n); lemma_jents_utf8(b, n); }
    lemma_ascii_utf8(o); lemma_ascii_utf8(c); valid_utf8_concat(o, b); valid_utf8_concat(o + b, c); assert(a =~= o + b + c);
  }
}
proof fn lemma_cat(x: Seq<u8>, i: int) requires 0 <= i < x.len(), x[i] < 0x80, valid_utf8(x.take(i)), valid_utf8(x.skip(i + 1)) ensures valid_utf8(x)
{ let c = seq![x[i]]; lemma_ascii_utf8(c); valid_utf8_concat(x.take(i), c); valid_utf8_concat(x.take(i) + c, x.skip(i + 1)); assert(x =~= x.take(i) + c + x.skip(i + 1)); }
pub proof fn lemma_jlist_utf8(b: Seq<u8>, n: nat) requires jlist(b, n) ensures valid_utf8(b) decreases b.len(), 1int
{ reveal(jone); reveal(jlist); reveal(jent); reveal(jents); if n == 0 { lemma_ascii_utf8(b); } else if n == 1 { lemma_jone_utf8(b); } else { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == 44 && jlist(b.take(i), (n - 1) as nat) && jone(b.skip(i + 1)); lemma_jlist_utf8(b.take(i), (n - 1) as nat); lemma_jone_utf8(b.skip(i + 1)); lemma_cat(b, i); } }
pub proof fn lemma_jent_utf8(b: Seq<u8>) requires jent(b) ensures valid_utf8(b) decreases b.len(), 1int
{ reveal(jone); reveal(jlist); reveal(jent); reveal(jents); reveal(is_jstr); let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == 58 && is_jstr(b.take(i)) && jone(b.skip(i + 1)); lemma_jone_leaf(b.take(i)); lemma_jone_utf8(b.take(i)); lemma_jone_utf8(b.skip(i + 1)); lemma_cat(b, i); }
pub proof fn lemma_jents_utf8(b: Seq<u8>, n: nat) requires jents(b, n) ensures valid_utf8(b) decreases b.len(), 2int
{ reveal(jone); reveal(jlist); reveal(jent); reveal(jents); if n == 0 { lemma_ascii_utf8(b); } else if n == 1 { lemma_jent_utf8(b); } else { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == 44 && jents(b.take(i), (n - 1) as nat) && jent(b.skip(i + 1)); lemma_jents_utf8(b.take(i), (n - 1) as nat); lemma_jent_utf8(b.skip(i + 1)); lemma_cat(b, i); } }
// ---------------------------------------------------------------- byte strings
/// decimal byte values separated by commas
pub open spec fn alist(v: Seq<u8>) -> Seq<u8> decreases v.len() { if v.len() == 0 { Seq::empty() } else { alist(v.drop_last()) + comma((v.len() - 1) as nat) + dec(v.last() as nat) } }
pub proof fn lemma_alist_jlist(v: Seq<u8>) ensures jlist(alist(v), v.len()) decreases v.len()
{ if v.len() == 0 { lemma_none(); assert(alist(v) =~= Seq::<u8>::empty()); } else { lemma_alist_jlist(v.drop_last()); lemma_idec_num(v.last() as int); lemma_jone_leaf(dec(v.last() as nat)); lemma_jlist_push(alist(v.drop_last()), (v.len() - 1) as nat, dec(v.last() as nat)); } }
pub open spec fn arr_text(v: Seq<u8>) -> Seq<u8> { seq![91u8] + alist(v) + seq![93u8] }
pub open spec fn hex_text(v: Seq<u8>) -> Seq<u8> { seq![34u8] + hexs(v) + seq![34u8] }
pub open spec fn b64_text(v: Seq<u8>) -> Seq<u8> { seq![34u8] + b64(v) + seq![34u8] }
pub proof fn lemma_hexs_plain(v: Seq<u8>) ensures ascii_plain(hexs(v)) decreases v.len()
{ if v.len() > 0 { let h = hexs(v.drop_last()); lemma_hexs_plain(v.drop_last()); assert forall|i: int| 0 <= i < hexs(v).len() implies plain1(#[trigger] hexs(v)[i]) && hexs(v)[i] < 0x80 by { if i < h.len() { assert(hexs(v)[i] == h[i]); } } } }
pub proof fn lemma_b64_plain(v: Seq<u8>) ensures ascii_plain(b64(v)) { }
} // vp_jg
