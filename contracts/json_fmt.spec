@@prelude
pub use vp_js::*;
pub mod vp_js {
use super::vp_base::*;
use vstd::prelude::*; use vstd::utf8::*;
// ---------------------------------------------------------------- JSON text (RFC 8259), stated independently of the code
/// canonical decimal text
#[verifier::opaque] pub open spec fn dec(n: nat) -> Seq<u8> decreases n { if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10).push((48 + n % 10) as u8) } }
pub open spec fn idec(v: int) -> Seq<u8> { if v < 0 { seq![45u8] + dec((-v) as nat) } else { dec(v as nat) } }
pub open spec fn pow10(k: nat) -> nat decreases k { if k == 0 { 1 } else { 10 * pow10((k - 1) as nat) } }
pub open spec fn digit(c: u8) -> bool { 48 <= c <= 57 }
pub open spec fn digits(s: Seq<u8>) -> bool { s.len() >= 1 && forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
/// integer part: no leading zero
pub open spec fn jint(s: Seq<u8>) -> bool { digits(s) && (s.len() == 1 || s[0] != 48) }
pub open spec fn jfrac(s: Seq<u8>) -> bool { s.len() == 0 || (s[0] == 46 && digits(s.skip(1))) }
pub open spec fn jexp(s: Seq<u8>) -> bool { s.len() == 0 || ((s[0] == 101 || s[0] == 69) && (digits(s.skip(1)) || (s.len() >= 2 && (s[1] == 43 || s[1] == 45) && digits(s.skip(2))))) }
#[verifier::opaque] pub open spec fn jnum(a: Seq<u8>) -> bool {
  exists|neg: bool, i: Seq<u8>, f: Seq<u8>, e: Seq<u8>| jint(i) && jfrac(f) && jexp(e) && a == #[trigger] num4(neg, i, f, e) }
pub open spec fn num4(neg: bool, i: Seq<u8>, f: Seq<u8>, e: Seq<u8>) -> Seq<u8> { (if neg { seq![45u8] } else { Seq::<u8>::empty() }) + i + f + e }
/// value of a digit string
pub open spec fn dval(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { dval(s.drop_last()) * 10 + (s.last() - 48) as nat } }
pub proof fn lemma_dec(n: nat) ensures jint(dec(n)), dval(dec(n)) == n, dec(n).len() >= 1, n > 0 ==> dec(n)[0] != 48, n == 0 ==> dec(n) == seq![48u8], decreases n
{
  reveal(dec);
  if n < 10 { assert(dec(n).drop_last() =~= Seq::<u8>::empty()); reveal_with_fuel(dval, 3); }
  else { lemma_dec(n / 10); assert(dec(n).drop_last() =~= dec(n / 10)); assert(dec(n)[0] == dec(n / 10)[0]);
    assert(dval(dec(n)) == dval(dec(n / 10)) * 10 + (dec(n).last() - 48) as nat); assert((48 + n % 10) as u8 == 48 + n % 10); assert(dec(n).last() == 48 + n % 10); }
}
pub proof fn lemma_dec_step(v: nat, b: Seq<u8>, c: Seq<u8>, i: int) requires 0 <= i < b.len(), c == b.update(i, (48 + v % 10) as u8)
  ensures v < 10 ==> dec(v) + b.skip(i + 1) == c.skip(i), v >= 10 ==> dec(v) + b.skip(i + 1) == dec(v / 10) + c.skip(i)
{ reveal(dec); assert(c.skip(i) =~= seq![(48 + v % 10) as u8] + b.skip(i + 1));
  if v >= 10 { assert(dec(v) + b.skip(i + 1) =~= dec(v / 10) + c.skip(i)); } else { assert(dec(v) + b.skip(i + 1) =~= c.skip(i)); } }
pub proof fn lemma_idec_num(v: int) ensures jnum(idec(v))
{ reveal(jnum); let n = if v < 0 { (-v) as nat } else { v as nat }; lemma_dec(n); let e = Seq::<u8>::empty(); assert(jfrac(e) && jexp(e));
  let neg = v < 0; assert(idec(v) =~= num4(neg, dec(n), e, e)); }
/// characters written as they are: visible ASCII except quote and backslash
pub open spec fn plain1(b: u8) -> bool { 32 <= b && b != 34 && b != 92 }
pub open spec fn ascii_plain(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> plain1(#[trigger] s[i]) && s[i] < 0x80 }
pub proof fn lemma_idec_plain(v: int) ensures ascii_plain(idec(v))
{ let n = if v < 0 { (-v) as nat } else { v as nat }; lemma_dec(n); let d = dec(n); assert forall|i: int| 0 <= i < idec(v).len() implies plain1(#[trigger] idec(v)[i]) && idec(v)[i] < 0x80 by { if v < 0 { if i > 0 { assert(idec(v)[i] == d[i - 1]); } } else { assert(idec(v)[i] == d[i]); } } }
pub open spec fn hexd(k: int) -> u8 { if k < 10 { (48 + k) as u8 } else { (55 + k) as u8 } }
/// two uppercase hexadecimal digits
pub open spec fn hex2(c: u8) -> Seq<u8> { seq![hexd(c as int / 16), hexd(c as int % 16)] }
pub open spec fn hexs(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { hexs(s.drop_last()) + hex2(s.last()) } }
/// a character (UTF-8 unit) inside a string
pub open spec fn e1(b: u8) -> Seq<u8> {
  if b == 34 || b == 92 { seq![92u8, b] } else if b == 8 { seq![92u8, 98u8] } else if b == 9 { seq![92u8, 116u8] } else if b == 10 { seq![92u8, 110u8] } else if b == 12 { seq![92u8, 102u8] } else if b == 13 { seq![92u8, 114u8] }
  else if b < 32 { seq![92u8, 117u8, 48u8, 48u8, hexd(b as int / 16), hexd(b as int % 16)] } else { seq![b] }
}
#[verifier::opaque] pub open spec fn esc(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { esc(s.drop_last()) + e1(s.last()) } }
pub proof fn lemma_esc_empty() ensures esc(Seq::<u8>::empty()) == Seq::<u8>::empty() { reveal(esc); }
pub proof fn lemma_esc1(b: u8) ensures esc(seq![b]) == e1(b) { reveal_with_fuel(esc, 2); assert(seq![b].drop_last() =~= Seq::<u8>::empty()); assert(Seq::<u8>::empty() + e1(b) =~= e1(b)); }
pub proof fn lemma_esc_add(a: Seq<u8>, b: Seq<u8>) ensures esc(a + b) == esc(a) + esc(b) decreases b.len()
{
  reveal(esc);
  if b.len() == 0 { assert(a + b =~= a); assert(esc(a) + esc(b) =~= esc(a)); }
  else { lemma_esc_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(esc(a) + (esc(b.drop_last()) + e1(b.last())) =~= (esc(a) + esc(b.drop_last())) + e1(b.last())); }
}
pub proof fn lemma_esc_plain(s: Seq<u8>) requires forall|i: int| 0 <= i < s.len() ==> plain1(#[trigger] s[i]) ensures esc(s) == s decreases s.len()
{ reveal(esc); if s.len() == 0 { assert(s =~= Seq::<u8>::empty()); } else { let t = s.drop_last(); assert forall|i: int| 0 <= i < t.len() implies plain1(#[trigger] t[i]) by { assert(t[i] == s[i]); } lemma_esc_plain(t); assert(plain1(s[s.len() - 1])); assert(t + seq![s.last()] =~= s); } }
/// the text before `st` is written; `st..i` is plain
pub proof fn lemma_esc_step(s: Seq<u8>, st: int, i: int) requires 0 <= st <= i <= s.len(), forall|k: int| st <= k < i ==> plain1(#[trigger] s[k])
  ensures esc(s.take(i)) == esc(s.take(st)) + s.subrange(st, i), i < s.len() ==> esc(s.take(i + 1)) == esc(s.take(st)) + s.subrange(st, i) + e1(s[i])
{
  let t = s.subrange(st, i);
  assert forall|k: int| 0 <= k < t.len() implies plain1(#[trigger] t[k]) by { assert(t[k] == s[st + k]); }
  lemma_esc_plain(t); lemma_esc_add(s.take(st), t); assert(s.take(st) + t =~= s.take(i));
  if i < s.len() { reveal(esc); assert(s.take(i + 1).drop_last() =~= s.take(i)); }
}
pub open spec fn quoted(s: Seq<u8>) -> Seq<u8> { seq![34u8] + esc(s) + seq![34u8] }
/// a JSON string: the quoted escape of some text
#[verifier::opaque] pub open spec fn is_jstr(a: Seq<u8>) -> bool { exists|s: Seq<u8>| valid_utf8(s) && a == #[trigger] quoted(s) }
pub broadcast proof fn lemma_quoted_jstr(s: Seq<u8>) requires valid_utf8(s) ensures is_jstr(#[trigger] quoted(s)) { reveal(is_jstr); }
pub proof fn lemma_ascii_utf8(s: Seq<u8>) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 0x80 ensures valid_utf8(s) decreases s.len()
{ if s.len() > 0 { let t = pop_first_scalar(s); assert(t =~= s.skip(1)); assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < 0x80 by { assert(t[i] == s[i + 1]); } lemma_ascii_utf8(t); } }
pub proof fn lemma_jnum_ascii(a: Seq<u8>) requires jnum(a) ensures forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] < 0x80
{ reveal(jnum); let (neg, i, f, e) = choose|neg: bool, i: Seq<u8>, f: Seq<u8>, e: Seq<u8>| jint(i) && jfrac(f) && jexp(e) && a == #[trigger] num4(neg, i, f, e);
  let p = if neg { seq![45u8] } else { Seq::<u8>::empty() };
  assert forall|k: int| 0 <= k < f.len() implies #[trigger] f[k] < 0x80 by { if k > 0 { assert(f.skip(1)[k - 1] == f[k]); } }
  assert forall|k: int| 0 <= k < e.len() implies #[trigger] e[k] < 0x80 by { if k > 1 { if digits(e.skip(1)) { assert(e.skip(1)[k - 1] == e[k]); } else { assert(e.skip(2)[k - 2] == e[k]); } } else if k == 1 { if digits(e.skip(1)) { assert(e.skip(1)[0] == e[1]); } } }
  assert forall|k: int| 0 <= k < a.len() implies #[trigger] a[k] < 0x80 by { let (l1, l2, l3) = (p.len() as int, (p + i).len() as int, (p + i + f).len() as int); if k < l1 { assert(a[k] == p[k]); } else if k < l2 { assert(a[k] == i[k - l1]); } else if k < l3 { assert(a[k] == f[k - l2]); } else { assert(a[k] == e[k - l3]); } } }
pub proof fn lemma_plain_quoted(s: Seq<u8>) requires ascii_plain(s) ensures quoted(s) == seq![34u8] + s + seq![34u8], valid_utf8(s), is_jstr(seq![34u8] + s + seq![34u8])
{ lemma_ascii_utf8(s); lemma_esc_plain(s); lemma_quoted_jstr(s); }
/// a byte that is not a continuation byte starts a scalar; an ASCII byte is one by itself
pub proof fn lemma_boundary(s: Seq<u8>, i: int) requires valid_utf8(s), 0 <= i < s.len(), s[i] < 0x80 ensures is_char_boundary(s, i), is_char_boundary(s, i + 1) decreases s.len()
{
  if i > 0 { let n = length_of_first_scalar(s) as int; let t = pop_first_scalar(s); assert(n <= i); lemma_boundary(t, i - n); assert(t[i - n] == s[i]); }
  else { let t = pop_first_scalar(s); assert(t =~= s.skip(1)); assert(is_char_boundary(t, 0)); assert(is_char_boundary(s, 0)); }
}
pub proof fn lemma_boundary_ends(s: Seq<u8>) requires valid_utf8(s) ensures is_char_boundary(s, 0), is_char_boundary(s, s.len() as int) decreases s.len()
{ if s.len() > 0 { lemma_boundary_ends(pop_first_scalar(s)); } }
/// escaping valid UTF-8 gives valid UTF-8
pub proof fn lemma_esc_utf8(s: Seq<u8>) requires valid_utf8(s) ensures valid_utf8(esc(s)) decreases s.len()
{
  if s.len() == 0 { lemma_esc_empty(); assert(s =~= Seq::<u8>::empty()); }
  else {
    let n = length_of_first_scalar(s) as int; let h = s.take(n); let t = pop_first_scalar(s); assert(t =~= s.skip(n)); assert(s =~= h + t);
    lemma_esc_utf8(t); lemma_esc_add(h, t);
    lemma_boundary_ends(t); assert(is_char_boundary(s, n)); valid_utf8_split(s, n); assert(s.subrange(0, n) =~= h);
    if s[0] < 0x80 { assert(h =~= seq![s[0]]); lemma_esc1(s[0]); lemma_e1_ascii(s[0]); lemma_ascii_utf8(esc(h)); }
    else { assert forall|i: int| 0 <= i < h.len() implies plain1(#[trigger] h[i]) by { assert(valid_first_scalar(s)); assert(h[i] == s[i]); if i == 1 { assert(s[1] >= 0x80); } if i == 2 { assert(s[2] >= 0x80); } if i == 3 { assert(s[3] >= 0x80); } } lemma_esc_plain(h); }
    valid_utf8_concat(esc(h), esc(t));
  }
}
proof fn lemma_e1_ascii(b: u8) requires b < 0x80 ensures forall|i: int| 0 <= i < e1(b).len() ==> #[trigger] e1(b)[i] < 0x80 { }
} // vp_js
