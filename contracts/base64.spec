@@module base64
@@subst-method chunks_exact/1=>vp_chunks_exact

@@prelude
pub use vp_b64::*;
pub mod vp_b64 {
use super::vp_base::*;
use vstd::prelude::*;
// ---------------------------------------------------------------- base64 (RFC 4648 section 4), stated independently of the code
/// the alphabet
pub open spec fn alpha(k: int) -> u8 { if k < 26 { (65 + k) as u8 } else if k < 52 { (97 + (k - 26)) as u8 } else if k < 62 { (48 + (k - 52)) as u8 } else if k == 62 { 43 } else { 47 } }
pub open spec fn is_alpha(c: u8) -> bool { 65 <= c <= 90 || 97 <= c <= 122 || 48 <= c <= 57 || c == 43 || c == 47 }
pub open spec fn code(c: u8) -> int { if 65 <= c <= 90 { c - 65 } else if 97 <= c <= 122 { c - 97 + 26 } else if 48 <= c <= 57 { c - 48 + 52 } else if c == 43 { 62 } else { 63 } }
pub proof fn lemma_code(k: int) requires 0 <= k < 64 ensures is_alpha(alpha(k)), code(alpha(k)) == k { }
pub open spec fn byte0(s: Seq<u8>, k: int) -> int { if 0 <= k < s.len() { s[k] as int } else { 0 } }
pub open spec fn b64len(n: int) -> int { (n * 4 + 2) / 3 }
/// value of the i-th character: six bits of the byte string, zero-padded at the end
pub open spec fn b64val(s: Seq<u8>, i: int) -> int {
  let j = 3 * (i / 4);
  if i % 4 == 0 { byte0(s, j) / 4 } else if i % 4 == 1 { byte0(s, j) % 4 * 16 + byte0(s, j + 1) / 16 }
  else if i % 4 == 2 { byte0(s, j + 1) % 16 * 4 + byte0(s, j + 2) / 64 } else { byte0(s, j + 2) % 64 }
}
/// unpadded text of a byte string
pub open spec fn b64(s: Seq<u8>) -> Seq<u8> { Seq::new(b64len(s.len() as int) as nat, |i: int| alpha(b64val(s, i))) }
pub open spec fn unlen(n: int) -> int { n * 3 / 4 }
pub open spec fn unval(c: Seq<u8>, i: int) -> int {
  let j = 4 * (i / 3);
  if i % 3 == 0 { code(c[j]) * 4 + code(c[j + 1]) / 16 } else if i % 3 == 1 { code(c[j + 1]) % 16 * 16 + code(c[j + 2]) / 4 }
  else { code(c[j + 2]) % 4 * 64 + code(c[j + 3]) }
}
/// bytes denoted by a string of alphabet characters (bits that fill no byte are dropped)
pub open spec fn unb64(c: Seq<u8>) -> Seq<u8> { Seq::new(unlen(c.len() as int) as nat, |i: int| unval(c, i) as u8) }
/// number of leading alphabet characters
pub open spec fn arun(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 || !is_alpha(s[0]) { 0 } else { 1 + arun(s.skip(1)) } }
pub proof fn lemma_arun(s: Seq<u8>, k: int) requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> is_alpha(#[trigger] s[i]), k == s.len() || !is_alpha(s[k]) ensures arun(s) == k decreases s.len()
{ if k > 0 { let t = s.skip(1); assert forall|i: int| 0 <= i < k - 1 implies is_alpha(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); } lemma_arun(t, k - 1); } }
pub proof fn lemma_arun_all(s: Seq<u8>) ensures arun(s) <= s.len(), forall|i: int| 0 <= i < arun(s) ==> is_alpha(#[trigger] s[i]), arun(s) < s.len() ==> !is_alpha(s[arun(s) as int]) decreases s.len()
{ if s.len() > 0 && is_alpha(s[0]) { let t = s.skip(1); lemma_arun_all(t); assert forall|i: int| 0 <= i < arun(s) implies is_alpha(#[trigger] s[i]) by { if i > 0 { assert(t[i - 1] == s[i]); } } } }
pub proof fn lemma_b64val(s: Seq<u8>, i: int) requires 0 <= i ensures 0 <= b64val(s, i) < 64
{ let j = 3 * (i / 4); assert(0 <= byte0(s, j) < 256 && 0 <= byte0(s, j + 1) < 256 && 0 <= byte0(s, j + 2) < 256); }
/// the pure arithmetic of one byte: put together again from the six-bit pieces
proof fn lemma_b64_bits(a: int, b: int, c: int) requires 0 <= a < 256, 0 <= b < 256, 0 <= c < 256
  ensures (a / 4) * 4 + (a % 4 * 16 + b / 16) / 16 == a, (a % 4 * 16 + b / 16) % 16 * 16 + (b % 16 * 4 + c / 64) / 4 == b, (b % 16 * 4 + c / 64) % 4 * 64 + c % 64 == c { }
/// one byte of the decoded text; w is the value of each character
proof fn lemma_b64_byte(s: Seq<u8>, i: int) requires 0 <= i < s.len() ensures unb64(b64(s)).len() == s.len(), unb64(b64(s))[i] == s[i]
{
  let c = b64(s); let k = i / 3; let n = s.len() as int; assert(c.len() == b64len(n)); assert(unlen(b64len(n)) == n);
  let a = byte0(s, 3 * k); let b = byte0(s, 3 * k + 1); let d = byte0(s, 3 * k + 2); lemma_b64_bits(a, b, d);
  lemma_b64_chr(s, 4 * k); lemma_b64_chr(s, 4 * k + 1); lemma_b64_chr(s, 4 * k + 2); lemma_b64_chr(s, 4 * k + 3);
  assert((4 * k) / 4 == k && (4 * k + 1) / 4 == k && (4 * k + 2) / 4 == k && (4 * k + 3) / 4 == k);
  assert(4 * k + 1 < c.len()); if i % 3 == 1 { assert(4 * k + 2 < c.len()); } if i % 3 == 2 { assert(4 * k + 3 < c.len()); }
}
proof fn lemma_b64_chr(s: Seq<u8>, i: int) requires 0 <= i ensures i < b64(s).len() ==> is_alpha(b64(s)[i]) && code(b64(s)[i]) == b64val(s, i) { lemma_b64val(s, i); lemma_code(b64val(s, i)); }
/// decoding an encoding gives the bytes back, whatever follows that is not in the alphabet
pub proof fn lemma_b64_rt(s: Seq<u8>, t: Seq<u8>) requires t.len() == 0 || !is_alpha(t[0])
  ensures unb64(b64(s)) == s, forall|i: int| 0 <= i < b64(s).len() ==> is_alpha(#[trigger] b64(s)[i]), arun(b64(s) + t) == b64(s).len()
{
  let c = b64(s); let u = unb64(c);
  assert forall|i: int| 0 <= i < s.len() implies #[trigger] u[i] == s[i] by { lemma_b64_byte(s, i); }
  assert(u.len() == s.len()) by { if s.len() > 0 { lemma_b64_byte(s, 0); } }
  assert(u =~= s);
  assert forall|i: int| 0 <= i < c.len() implies is_alpha(#[trigger] c[i]) by { lemma_b64_chr(s, i); }
  let z = c + t;
  assert forall|i: int| 0 <= i < c.len() implies is_alpha(#[trigger] z[i]) by { assert(z[i] == c[i]); }
  lemma_arun(z, c.len() as int);
}
// ---------------------------------------------------------------- chunk iterators and cell cursors (what core's chunks_exact / Cell iterators do)
pub struct VpChunks<'a> { pub s: &'a [u8], pub pos: usize, pub n: usize }
impl<'a> VpChunks<'a> {
  pub open spec fn wf(&self) -> bool { self.n > 0 && self.pos <= self.s@.len() && self.pos % self.n == 0 }
  pub fn has_next(&self) -> (r: bool) requires self.wf() ensures r == (self.pos + self.n <= self.s@.len()) { self.s.len() - self.pos >= self.n }
  pub fn next_chunk(&mut self) -> (r: &'a [u8]) requires old(self).wf(),  old(self).pos + old(self).n <= old(self).s@.len()
    ensures r@ == old(self).s@.subrange(old(self).pos as int, old(self).pos + old(self).n), final(self).pos == old(self).pos + old(self).n, final(self).s == old(self).s, final(self).n == old(self).n, final(self).wf()
  {
    let p = self.pos; assert(p + self.n <= self.s.len()); self.pos = p + self.n;
    proof { let (a, n) = (p as int, self.n as int); vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(a, n); assert((a + n) % n == a % n); }
    vstd::slice::slice_subrange(self.s, p, self.pos)
  }
  pub fn remainder(&self) -> (r: &'a [u8]) requires self.wf(), self.pos + self.n > self.s@.len() ensures r@ == self.s@.skip(self.pos as int)
  { proof { assert(self.s@.subrange(self.pos as int, self.s@.len() as int) =~= self.s@.skip(self.pos as int)); } vstd::slice::slice_subrange(self.s, self.pos, self.s.len()) }
}
pub trait VpChunksExact { fn vp_chunks_exact<'a>(&'a self, n: usize) -> (r: VpChunks<'a>); }
impl VpChunksExact for [u8] {
  fn vp_chunks_exact<'a>(&'a self, n: usize) -> (r: VpChunks<'a>) ensures r.s@ == self@, r.pos == 0, r.n == n { VpChunks { s: self, pos: 0, n } }
}
#[derive(Clone, Copy)]
pub struct VpRange { pub lo: usize, pub hi: usize }
pub struct VpCellChunks { pub pos: usize, pub len: usize, pub n: usize }
impl VpCellChunks {
  pub open spec fn wf(&self) -> bool { self.n > 0 && self.pos <= self.len }
  pub fn new(len: usize, n: usize) -> (r: Self) requires n > 0 ensures r.pos == 0, r.len == len, r.n == n { VpCellChunks { pos: 0, len, n } }
  pub fn has_next(&self) -> (r: bool) requires self.wf() ensures r == (self.pos + self.n <= self.len) { self.len - self.pos >= self.n }
  pub fn next_chunk(&mut self) -> (r: VpRange) requires old(self).wf(), old(self).pos + old(self).n <= old(self).len
    ensures r.lo == old(self).pos, r.hi == r.lo + old(self).n, final(self).pos == r.hi, final(self).len == old(self).len, final(self).n == old(self).n
  { let lo = self.pos; self.pos = lo + self.n; VpRange { lo, hi: self.pos } }
  pub fn remainder(&self) -> (r: VpRange) requires self.wf(), self.pos + self.n > self.len ensures r.lo == self.pos, r.hi == self.len { VpRange { lo: self.pos, hi: self.len } }
}
/// iterator over the cells of a slice together with the slice itself
pub struct VpCellIter<'a> { pub cells: &'a mut [u8], pub pos: usize }
impl<'a> VpCellIter<'a> {
  pub fn new(cells: &'a mut [u8]) -> (r: Self) ensures r.pos == 0, r.cells@ == old(cells)@, final(cells)@ == final(r.cells)@ { VpCellIter { cells, pos: 0 } }
  /// `next().unwrap()` (or `unwrap_unchecked`) followed by `set`: the iterator must not be exhausted
  pub fn set_next(&mut self, v: u8) requires old(self).pos < old(self).cells@.len()
    ensures final(self).pos == old(self).pos + 1, final(self).cells@ == old(self).cells@.update(old(self).pos as int, v), final(final(self).cells)@ == final(old(self).cells)@
  { let p = self.pos; self.cells[p] = v; self.pos = p + 1; }
}
pub open spec fn pk(c: Seq<u8>) -> int decreases c.len() { if c.len() == 0 { 1 } else { pk(c.drop_last()) * 64 + code(c.last()) } }
pub proof fn lemma_pk(c: Seq<u8>) requires c.len() <= 4, forall|i: int| 0 <= i < c.len() ==> is_alpha(#[trigger] c[i])
  ensures c.len() == 0 ==> pk(c) == 1, c.len() == 1 ==> pk(c) == 64 + code(c[0]), c.len() == 2 ==> pk(c) == (64 + code(c[0])) * 64 + code(c[1]),
    c.len() == 3 ==> pk(c) == ((64 + code(c[0])) * 64 + code(c[1])) * 64 + code(c[2]),
    c.len() == 4 ==> pk(c) == (((64 + code(c[0])) * 64 + code(c[1])) * 64 + code(c[2])) * 64 + code(c[3]),
    1 <= pk(c), c.len() < 4 ==> pk(c) < 0x8_0000, pk(c) < 0x200_0000
{
  reveal_with_fuel(pk, 5);
  if c.len() >= 1 { let a = c.drop_last(); if a.len() >= 1 { let b = a.drop_last(); if b.len() >= 1 { let d = b.drop_last(); if d.len() >= 1 { assert(d.drop_last() =~= Seq::<u8>::empty()); } } } }
}
pub proof fn lemma_pk_inj(c: Seq<u8>, d: Seq<u8>) requires c.len() <= 3, d.len() <= 3, pk(c) == pk(d), forall|i: int| 0 <= i < c.len() ==> is_alpha(#[trigger] c[i]), forall|i: int| 0 <= i < d.len() ==> is_alpha(#[trigger] d[i])
  ensures c.len() == d.len(), unb64(c) == unb64(d)
{ lemma_pk(c); lemma_pk(d); assert(c.len() == d.len()); assert(forall|i: int| 0 <= i < c.len() ==> code(#[trigger] c[i]) == code(d[i])); assert(unb64(c) =~= unb64(d)); }
pub proof fn lemma_lz(x: u32, lz: u32)
  requires lz < 32, (x >> sub(31u32, lz)) & 1u32 != 0, lz > 0 ==> (x >> sub(32u32, lz)) == 0,
  ensures x == 1 ==> lz == 31, 64 <= x < 128 ==> lz == 25, 4096 <= x < 8192 ==> lz == 19, 0x4_0000 <= x < 0x8_0000 ==> lz == 13
{
  let a = (31 - lz) as u32; let b = (32 - lz) as u32;
  assert(a < 32u32 && b == a + 1 && (x >> a) & 1u32 != 0u32 && (a < 31 ==> (x >> b) == 0u32) ==> (x == 1 ==> a == 0) && (64 <= x && x < 128 ==> a == 6) && (4096 <= x && x < 8192 ==> a == 12) && (0x4_0000 <= x && x < 0x8_0000 ==> a == 18)) by (bit_vector);
}
/// single bit operations, brought to the forms of lemma_bits whatever way the pieces are put together
pub broadcast group group_b64bits { lemma_shr4m, lemma_shr6m, lemma_and63 }
pub broadcast proof fn lemma_shr4m(x: u8) ensures #[trigger] ((x >> 4u8) & 0x0F) == x >> 4u8 { assert((x >> 4u8) & 0x0F == x >> 4u8) by (bit_vector); }
pub broadcast proof fn lemma_shr6m(x: u8) ensures #[trigger] ((x >> 6u8) & 0x03) == x >> 6u8 { assert((x >> 6u8) & 0x03 == x >> 6u8) by (bit_vector); }
pub broadcast proof fn lemma_and63(x: u8) ensures #[trigger] (x & 0x3Fu8) < 64, x < 64 ==> (x & 0x3F) == x { assert((x & 0x3Fu8) < 64 && (x < 64 ==> (x & 0x3F) == x)) by (bit_vector); }
pub broadcast group group_cellbits { lemma_shl6w, lemma_orw }
pub broadcast proof fn lemma_shl6w(x: u32) ensures x < 0x400_0000 ==> #[trigger] (x << 6u32) == x * 64 { assert(x < 0x400_0000u32 ==> x << 6u32 == mul(x, 64)) by (bit_vector); }
pub broadcast proof fn lemma_orw(x: u32, y: u32) ensures x % 64 == 0 && y < 64 ==> #[trigger] (x | y) == x + y, y % 64 == 0 && x < 64 ==> (x | y) == x + y
{ assert(x % 64 == 0 && y < 64 || y % 64 == 0 && x < 64 ==> (x | y) == add(x, y) && x + y < 0x1_0000_0000) by (bit_vector); }
/// the four characters of a group of three bytes (opaque: the bodies need no arithmetic)
#[verifier::opaque] pub open spec fn sx0(a: int) -> int { a / 4 }
#[verifier::opaque] pub open spec fn sx1(a: int, b: int) -> int { a % 4 * 16 + b / 16 }
#[verifier::opaque] pub open spec fn sx2(b: int, c: int) -> int { b % 16 * 4 + c / 64 }
#[verifier::opaque] pub open spec fn sx3(c: int) -> int { c % 64 }
/// bit operations of the codec as arithmetic
pub proof fn lemma_bits(a: u8, b: u8, c: u8)
  ensures a >> 2 == sx0(a as int), (a >> 2) & 0x3F == sx0(a as int),
    ((a & 0x03) << 4) | ((b & 0xF0) >> 4) == sx1(a as int, b as int), (((a & 0x03) << 4) | ((b & 0xF0) >> 4)) & 0x3F == sx1(a as int, b as int),
    ((a & 0x03) << 4) | (b >> 4) == sx1(a as int, b as int), (((a & 0x03) << 4) | (b >> 4)) & 0x3F == sx1(a as int, b as int), ((a << 4) | (b >> 4)) & 0x3F == sx1(a as int, b as int),
    ((b & 0x0F) << 2) | ((c & 0xC0) >> 6) == sx2(b as int, c as int), (((b & 0x0F) << 2) | ((c & 0xC0) >> 6)) & 0x3F == sx2(b as int, c as int),
    ((b & 0x0F) << 2) | (c >> 6) == sx2(b as int, c as int), (((b & 0x0F) << 2) | (c >> 6)) & 0x3F == sx2(b as int, c as int), ((b << 2) | (c >> 6)) & 0x3F == sx2(b as int, c as int),
    c & 0x3F == sx3(c as int), (c & 0x3F) & 0x3F == sx3(c as int),
    (b & 0x0F) << 2 == sx2(b as int, 0), ((b & 0x0F) << 2) & 0x3F == sx2(b as int, 0), (b << 2) & 0x3F == sx2(b as int, 0), (b << 2) & 0x3C == sx2(b as int, 0), ((b << 2) & 0x3C) & 0x3F == sx2(b as int, 0),
    (a & 0x03) << 4 == sx1(a as int, 0), ((a & 0x03) << 4) & 0x3F == sx1(a as int, 0), (a << 4) & 0x3F == sx1(a as int, 0), (a << 4) & 0x30 == sx1(a as int, 0), ((a << 4) & 0x30) & 0x3F == sx1(a as int, 0),
    0 <= sx0(a as int) < 64, 0 <= sx1(a as int, b as int) < 64, 0 <= sx2(b as int, c as int) < 64, 0 <= sx3(c as int) < 64, 0 <= sx1(a as int, 0) < 64, 0 <= sx2(b as int, 0) < 64,
{
  reveal(sx0); reveal(sx1); reveal(sx2); reveal(sx3);
  assert(a >> 2 == a / 4 && (a >> 2) & 0x3F == a / 4) by (bit_vector);
  assert(((a & 0x03) << 4) | ((b & 0xF0) >> 4) == a % 4 * 16 + b / 16 && (((a & 0x03) << 4) | ((b & 0xF0) >> 4)) & 0x3F == a % 4 * 16 + b / 16) by (bit_vector);
  assert(((a & 0x03) << 4) | (b >> 4) == a % 4 * 16 + b / 16 && (((a & 0x03) << 4) | (b >> 4)) & 0x3F == a % 4 * 16 + b / 16 && ((a << 4) | (b >> 4)) & 0x3F == a % 4 * 16 + b / 16) by (bit_vector);
  assert(((b & 0x0F) << 2) | ((c & 0xC0) >> 6) == b % 16 * 4 + c / 64 && (((b & 0x0F) << 2) | ((c & 0xC0) >> 6)) & 0x3F == b % 16 * 4 + c / 64) by (bit_vector);
  assert(((b & 0x0F) << 2) | (c >> 6) == b % 16 * 4 + c / 64 && (((b & 0x0F) << 2) | (c >> 6)) & 0x3F == b % 16 * 4 + c / 64 && ((b << 2) | (c >> 6)) & 0x3F == b % 16 * 4 + c / 64) by (bit_vector);
  assert(c & 0x3F == c % 64 && (c & 0x3F) & 0x3F == c % 64) by (bit_vector);
  assert((b & 0x0F) << 2 == b % 16 * 4 && ((b & 0x0F) << 2) & 0x3F == b % 16 * 4 && (b << 2) & 0x3F == b % 16 * 4 && (b << 2) & 0x3C == b % 16 * 4 && ((b << 2) & 0x3C) & 0x3F == b % 16 * 4) by (bit_vector);
  assert((a & 0x03) << 4 == a % 4 * 16 && ((a & 0x03) << 4) & 0x3F == a % 4 * 16 && (a << 4) & 0x3F == a % 4 * 16 && (a << 4) & 0x30 == a % 4 * 16 && ((a << 4) & 0x30) & 0x3F == a % 4 * 16) by (bit_vector);
}
/// values of the characters of group j
pub proof fn lemma_vals(s: Seq<u8>, j: int) requires 0 <= j, 3 * j < s.len()
  ensures b64val(s, 4 * j) == sx0(s[3 * j] as int), b64val(s, 4 * j + 1) == sx1(s[3 * j] as int, byte0(s, 3 * j + 1)),
    b64val(s, 4 * j + 2) == sx2(byte0(s, 3 * j + 1), byte0(s, 3 * j + 2)), b64val(s, 4 * j + 3) == sx3(byte0(s, 3 * j + 2))
{ reveal(sx0); reveal(sx1); reveal(sx2); reveal(sx3); assert((4 * j + 3) / 4 == j && (4 * j + 2) / 4 == j && (4 * j + 1) / 4 == j && (4 * j) / 4 == j && (4 * j) % 4 == 0 && (4 * j + 1) % 4 == 1 && (4 * j + 2) % 4 == 2 && (4 * j + 3) % 4 == 3); }
pub proof fn lemma_sub(a: Seq<u8>, b: Seq<u8>, k: int, lo: int, hi: int) requires 0 <= k <= lo <= hi <= a.len(), a.len() == b.len(), a.skip(k) == b.skip(k) ensures a.subrange(lo, hi) == b.subrange(lo, hi)
{ assert forall|i: int| lo <= i < hi implies a[i] == b[i] by { assert(a.skip(k)[i - k] == b.skip(k)[i - k]); } assert(a.subrange(lo, hi) =~= b.subrange(lo, hi)); }
pub proof fn lemma_skip(a: Seq<u8>, b: Seq<u8>, k: int, m: int) requires 0 <= k, 0 <= m, k + m <= a.len(), a.len() == b.len(), a.skip(k) == b.skip(k) ensures a.skip(k + m) == b.skip(k + m)
{ assert(a.skip(k + m) =~= a.skip(k).skip(m)); assert(b.skip(k + m) =~= b.skip(k).skip(m)); }
pub proof fn lemma_upd(a: Seq<u8>, o: Seq<u8>, p: int, v: u8) requires 0 <= p < a.len(), a.len() == o.len(), a.skip(p) == o.skip(p) 
  ensures a.update(p, v).skip(p + 1) == o.skip(p + 1), a.update(p, v).take(p + 1) == a.take(p).push(v)
{ assert forall|i: int| p <= i < a.len() implies a[i] == o[i] by { assert(a.skip(p)[i - p] == o.skip(p)[i - p]); } assert(a.update(p, v).skip(p + 1) =~= o.skip(p + 1)); assert(a.update(p, v).take(p + 1) =~= a.take(p).push(v)); }
pub proof fn lemma_three(c0: Seq<u8>, o: Seq<u8>, j: int, s: Seq<u8>, c: Seq<u8>)
  requires 0 <= j, 4 * j + 4 <= o.len(), c0.len() == o.len(), c0.skip(3 * j) == o.skip(3 * j), c0.take(3 * j) == unb64(o.take(4 * j)), s.len() == 4,
    c == c0.update(3 * j, unval(s, 0) as u8).update(3 * j + 1, unval(s, 1) as u8).update(3 * j + 2, unval(s, 2) as u8),
    unb64(o.take(4 * j + 4)) == unb64(o.take(4 * j)) + unb64(s)
  ensures c.take(3 * (j + 1)) == unb64(o.take(4 * (j + 1))), c.skip(3 * (j + 1)) == o.skip(3 * (j + 1)), c.len() == o.len()
{
  let c1 = c0.update(3 * j, unval(s, 0) as u8); let c2 = c1.update(3 * j + 1, unval(s, 1) as u8);
  lemma_upd(c0, o, 3 * j, unval(s, 0) as u8); lemma_upd(c1, o, 3 * j + 1, unval(s, 1) as u8); lemma_upd(c2, o, 3 * j + 2, unval(s, 2) as u8);
  assert(c0.take(3 * j).push(unval(s, 0) as u8).push(unval(s, 1) as u8).push(unval(s, 2) as u8) =~= unb64(o.take(4 * j)) + unb64(s));
}
/// the 4-character group at 4*j of a text whose leading alphabet run is arun
pub proof fn lemma_group(o: Seq<u8>, j: int, hi: int) requires 0 <= j, 4 * j <= arun(o), 4 * j <= hi <= o.len(), hi - 4 * j <= 4, hi - 4 * j == 4 || hi == o.len()
  ensures ({ let s = o.subrange(4 * j, hi); let k = arun(s); let c = s.take(k as int);
    k <= s.len() && (k < s.len() || k < 4 ==> arun(o) == 4 * j + k && unb64(o.take(arun(o) as int)) == unb64(o.take(4 * j)) + unb64(c) && (forall|i: int| 0 <= i < c.len() ==> is_alpha(#[trigger] c[i])))
    && (k == 4 ==> c == s && arun(o) >= 4 * j + 4 && unb64(o.take(4 * j + 4)) == unb64(o.take(4 * j)) + unb64(s) && (forall|i: int| 0 <= i < s.len() ==> is_alpha(#[trigger] s[i])))
    && unb64(o.take(4 * j)).len() == 3 * j })
{
  let s = o.subrange(4 * j, hi); let k = arun(s); let c = s.take(k as int); lemma_arun_all(s); lemma_arun_all(o);
  if k < s.len() { assert(o[4 * j + k] == s[k as int]); } 
  if arun(o) < 4 * j + k { assert(s[arun(o) - 4 * j] == o[arun(o) as int]); }
  let e = 4 * j + k; let t = o.take(e);
  let u = unb64(c);
  assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] == unval(t, 3 * j + i) as u8 by { assert((3 * j + i) / 3 == j && (3 * j + i) % 3 == i); 
    assert(t[4 * j] == c[0] && t[4 * j + 1] == c[1]); if i >= 1 { assert(t[4 * j + 2] == c[2]); } if i >= 2 { assert(t[4 * j + 3] == c[3]); } }
  lemma_unb64_push(t, j, u);
  assert(t.take(4 * j) =~= o.take(4 * j));
  if k == 4 { assert(c =~= s); }
}
/// four code characters of a group of three bytes, three of two, two of one
pub proof fn lemma_b64_push(s: Seq<u8>, j: int, o: Seq<u8>)
  requires 0 <= j, 3 * j < s.len(), o.len() == (if s.len() - 3 * j >= 3 { 4 } else { s.len() - 3 * j + 1 }), forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == alpha(b64val(s, 4 * j + i)),
  ensures b64(s).take(4 * j) + o == b64(s).take(4 * j + o.len()), 4 * j + o.len() <= b64(s).len(), s.len() - 3 * j < 3 ==> b64(s).take(4 * j + o.len()) == b64(s),
{ assert(b64(s).take(4 * j) + o =~= b64(s).take(4 * j + o.len())); assert(s.len() - 3 * j < 3 ==> b64(s).take(4 * j + o.len()) =~= b64(s)); }
/// decoding group by group
pub proof fn lemma_unb64_push(c: Seq<u8>, j: int, o: Seq<u8>)
  requires 0 <= j, 4 * j <= c.len(), c.len() - 4 * j <= 4, o.len() == unlen(c.len() - 4 * j), forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == unval(c, 3 * j + i) as u8,
  ensures unb64(c.take(4 * j)) + o == unb64(c), unb64(c.take(4 * j)).len() == 3 * j,
{ let a = unb64(c.take(4 * j)); assert(a.len() == 3 * j);
  assert forall|i: int| 0 <= i < 3 * j implies a[i] == unb64(c)[i] by { let t = c.take(4 * j); let k = 4 * (i / 3); assert(k + 3 < 4 * j); assert(t[k] == c[k] && t[k + 1] == c[k + 1] && t[k + 2] == c[k + 2] && t[k + 3] == c[k + 3]); }
  assert(a + o =~= unb64(c)); }
/// bytes of the packed groups
pub proof fn lemma_packed(c: Seq<u8>, p: u32) requires c.len() <= 4, forall|i: int| 0 <= i < c.len() ==> is_alpha(#[trigger] c[i]), p == pk(c)
  ensures c.len() == 4 ==> (p >> 16) as u8 == unval(c, 0) && (p >> 8) as u8 == unval(c, 1) && p as u8 == unval(c, 2),
    c.len() == 3 ==> ({ let q = p << 6u32; (q >> 16) as u8 == unval(c, 0) && (q >> 8) as u8 == unval(c, 1) }),
    c.len() == 2 ==> ({ let q = p << 4u32; (q >> 8) as u8 == unval(c, 0) }),
{
  lemma_pk(c);
  if c.len() == 4 { let (x0, x1, x2, x3) = (code(c[0]) as u32, code(c[1]) as u32, code(c[2]) as u32, code(c[3]) as u32);
    assert(x0 < 64 && x1 < 64 && x2 < 64 && x3 < 64 && p == (((64u32 + x0) * 64u32 + x1) * 64u32 + x2) * 64u32 + x3 ==>
      (p >> 16u32) as u8 == x0 * 4 + x1 / 16 && (p >> 8u32) as u8 == x1 % 16 * 16 + x2 / 4 && p as u8 == x2 % 4 * 64 + x3) by (bit_vector); }
  if c.len() == 3 { let (x0, x1, x2) = (code(c[0]) as u32, code(c[1]) as u32, code(c[2]) as u32); 
    assert(x0 < 64 && x1 < 64 && x2 < 64 && p == ((64u32 + x0) * 64u32 + x1) * 64u32 + x2 ==>
      ((p << 6u32) >> 16u32) as u8 == x0 * 4 + x1 / 16 && ((p << 6u32) >> 8u32) as u8 == x1 % 16 * 16 + x2 / 4) by (bit_vector); }
  if c.len() == 2 { let (x0, x1) = (code(c[0]) as u32, code(c[1]) as u32); 
    assert(x0 < 64 && x1 < 64 && p == (64u32 + x0) * 64u32 + x1 ==> ((p << 4u32) >> 8u32) as u8 == x0 * 4 + x1 / 16) by (bit_vector); }
}
} // vp_b64
@@prelude
/// try_fold(init, decode_cell) over the cells of a range
pub fn vp_fold_decode_cell(d: &VpCellIter, r: VpRange, init: u32) -> (res: core::result::Result<u32, u32>)
  requires r.lo <= r.hi <= d.cells@.len(), r.hi - r.lo <= 4, init == 1,
  ensures ({ let s = old(d.cells)@.subrange(r.lo as int, r.hi as int); let k = arun(s);
    (res is Ok <==> k == s.len()) && (match res { Ok(x) => x, Err(x) => x }) == pk(s.take(k as int)) }),
{
  let ghost s = d.cells@.subrange(r.lo as int, r.hi as int);
  proof { lemma_arun_all(s); }
  let mut acc = init; let mut j = r.lo;
  proof { assert(s.take(0) =~= Seq::<u8>::empty()); }
  while j < r.hi
    invariant r.lo <= j <= r.hi <= d.cells@.len(), r.hi - r.lo <= 4, s == d.cells@.subrange(r.lo as int, r.hi as int), acc == pk(s.take(j - r.lo)), j - r.lo <= arun(s),
      arun(s) <= s.len(), forall|i: int| 0 <= i < arun(s) ==> is_alpha(#[trigger] s[i]), arun(s) < s.len() ==> !is_alpha(s[arun(s) as int]),
    decreases r.hi - j
  {
    let ghost i = j - r.lo; let ghost t = s.take(i + 1);
    proof { assert(d.cells@[j as int] == s[i]); lemma_pk(s.take(i)); }
    match decode_cell(acc, d.cells[j]) {
      Ok(x) => { proof { assert(i < arun(s)); assert(t.drop_last() =~= s.take(i)); assert(t.last() == s[i]); } acc = x; }
      Err(x) => { return Err(x); }
    }
    j = j + 1;
  }
  Ok(acc)
}

@@fn get_code [C10,C14]
  ensures r == (if is_alpha(c) { Some(code(c) as u8) } else { None }), // #C10 #C14
@@fn decode_cell [C10,C14]
  requires acc < 0x8_0000,
  ensures r is Ok <==> is_alpha(cell), r is Ok ==> r->Ok_0 == acc * 64 + code(cell), r is Err ==> r->Err_0 == acc, // #C10 #C14
@@at begin :: decode_cell
broadcast use group_cellbits;
@@fn handle_tail [C10,C14,C11]
  requires dest.cells@.len() <= isize::MAX, dcount % 3 == 0, dest.pos == dcount, exists|c: Seq<u8>| #[trigger] pk(c) == packed && c.len() <= 3 && (forall|i: int| 0 <= i < c.len() ==> is_alpha(#[trigger] c[i])) && dcount / 3 * 4 + c.len() <= dest.cells@.len(),
  ensures forall|c: Seq<u8>| #[trigger] pk(c) == packed && c.len() <= 3 && (forall|i: int| 0 <= i < c.len() ==> is_alpha(#[trigger] c[i])) && dcount / 3 * 4 + c.len() <= old(dest.cells)@.len() ==> {
    let u = unb64(c);
    r.1 == dcount / 3 * 4 + c.len() && r.0 == dcount + u.len() && final(dest.cells)@ == old(dest.cells)@.take(dcount as int) + u + old(dest.cells)@.skip(dcount + u.len()) }, // #C10 #C14
@@fn decode [C10,C14,C11]
  requires old(slice)@.len() <= isize::MAX,
  ensures ({ let k = arun(old(slice)@); let u = unb64(old(slice)@.take(k as int));
    r.1 == k && r.0 == u.len() && final(slice)@ == u + old(slice)@.skip(u.len() as int) }), // #C10 #C14
    r.0 <= r.1 <= old(slice)@.len(), final(slice)@.len() == old(slice)@.len(), // #C10 #C11
@@fn encode [C10,C08,C09,C27]
  requires old(ser).alive(), // #C09
  ensures r is Ok ==> final(ser).alive() && ext(old(ser).view(), final(ser).view()) && added(old(ser).view(), final(ser).view()) == b64(bytes@) && r->Ok_0 == (3 - bytes@.len() % 3) % 3, // #C10 #C08 #C27
    r is Err ==> !final(ser).alive(), // #C09 #C10
    ext(old(ser).view(), final(ser).view()), // #C09
@@at begin :: encode
hide(alpha); hide(b64val);
broadcast use group_b64bits;
proof { assert forall|k: int| 0 <= k < 64 implies #[trigger] vp_tab_ALPHABET(k) == alpha(k) by { reveal(alpha); } }
let ghost vp_o = ser.view(); let ghost mut vp_j = 0int; let ghost mut vp_w = vp_o;
proof { assert(b64(bytes@).take(0) =~= Seq::<u8>::empty()); }
@@loop encode 0
  invariant ser.alive(), ext(vp_o, ser.view()), chunks.wf(), chunks.n == 3, chunks.s@ == bytes@, chunks.pos == 3 * vp_j, 0 <= vp_j, vp_o == old(ser).view(),
    added(vp_o, ser.view()) == b64(bytes@).take(4 * vp_j), forall|k: int| 0 <= k < 64 ==> #[trigger] vp_tab_ALPHABET(k) == alpha(k),
  decreases chunks.s@.len() - chunks.pos
@@at loopbegin 0 :: encode
proof { vp_w = ser.view(); lemma_vals(bytes@, vp_j); lemma_bits(bytes@[3 * vp_j], bytes@[3 * vp_j + 1], bytes@[3 * vp_j + 2]); }
@@at loopend 0 :: encode
proof { lemma_b64_push(bytes@, vp_j, added(vp_w, ser.view())); assert(added(vp_o, ser.view()) =~= added(vp_o, vp_w) + added(vp_w, ser.view())); vp_j = vp_j + 1; }
@@at afterloop 0 :: encode
proof { vp_w = ser.view(); if 3 * vp_j < bytes@.len() { lemma_vals(bytes@, vp_j); lemma_bits(bytes@[3 * vp_j], byte0(bytes@, 3 * vp_j + 1) as u8, 0); } }
@@at tail :: encode
proof { if bytes@.len() > 3 * vp_j { if vp_r is Ok { lemma_b64_push(bytes@, vp_j, added(vp_w, ser.view())); } assert(added(vp_o, ser.view()) =~= added(vp_o, vp_w) + added(vp_w, ser.view())); } else { assert(b64(bytes@).take(4 * vp_j) =~= b64(bytes@)); } }
@@attr decode :: #[verifier::rlimit(40)]
@@at begin :: decode
let ghost vp_o = slice@; let ghost mut vp_j = 0int;
proof { assert(unb64(vp_o.take(0)) =~= Seq::<u8>::empty()); lemma_arun_all(vp_o); }
@@at beforeloop 0 :: decode
let ghost vp_d0 = dest;
@@loop decode 0
  invariant chunks.wf(), chunks.n == 4, chunks.len == vp_o.len(), chunks.pos == 4 * vp_j, 0 <= vp_j, dest.pos == 3 * vp_j, dcount == dest.pos, dest.cells@.len() == vp_o.len(), vp_o.len() <= isize::MAX,
    dest.cells@.take(3 * vp_j) == unb64(vp_o.take(4 * vp_j)), dest.cells@.skip(3 * vp_j) == vp_o.skip(3 * vp_j), 4 * vp_j <= arun(vp_o), final(vp_d0.cells)@ == final(dest.cells)@,
    arun(vp_o) <= vp_o.len(), forall|i: int| 0 <= i < arun(vp_o) ==> is_alpha(#[trigger] vp_o[i]), arun(vp_o) < vp_o.len() ==> !is_alpha(vp_o[arun(vp_o) as int]),
  decreases chunks.len - chunks.pos
@@at loopbegin 0 :: decode
let ghost vp_s = vp_o.subrange(4 * vp_j, 4 * vp_j + 4); let ghost vp_c0 = dest.cells@;
proof { lemma_group(vp_o, vp_j, 4 * vp_j + 4); lemma_sub(dest.cells@, vp_o, 3 * vp_j, 4 * vp_j, 4 * vp_j + 4); lemma_skip(dest.cells@, vp_o, 3 * vp_j, unlen(arun(vp_s) as int));
  lemma_pk(vp_s.take(arun(vp_s) as int)); if arun(vp_s) == 4 { lemma_packed(vp_s, pk(vp_s) as u32); } }
@@at loopend 0 :: decode
proof { lemma_three(vp_c0, vp_o, vp_j, vp_s, dest.cells@); vp_j = vp_j + 1; }
@@at afterloop 0 :: decode
proof { let vp_s = vp_o.skip(4 * vp_j); assert(vp_s =~= vp_o.subrange(4 * vp_j, vp_o.len() as int)); lemma_group(vp_o, vp_j, vp_o.len() as int); 
  lemma_sub(dest.cells@, vp_o, 3 * vp_j, 4 * vp_j, vp_o.len() as int); lemma_skip(dest.cells@, vp_o, 3 * vp_j, unlen(arun(vp_s) as int)); lemma_pk(vp_s.take(arun(vp_s) as int)); }
@@at begin :: handle_tail
let ghost vp_c = choose|c: Seq<u8>| #[trigger] pk(c) == packed && c.len() <= 3 && (forall|i: int| 0 <= i < c.len() ==> is_alpha(#[trigger] c[i])) && dcount / 3 * 4 + c.len() <= dest.cells@.len();
let ghost vp_p = packed; let ghost vp_d = dcount; let ghost vp_d0 = dest; let ghost vp_o = dest.cells@;
proof { lemma_pk(vp_c); lemma_packed(vp_c, packed); }
@@at after "let leftovers" :: handle_tail
proof { let lz = vstd::std_specs::bits::u32_leading_zeros(vp_p) as u32; vstd::std_specs::bits::axiom_u32_leading_zeros(vp_p); lemma_lz(vp_p, lz); assert(leftovers == vp_c.len()); }
let ghost vp_n = if vp_c.len() > 0 { vp_c.len() - 1 } else { 0int };
@@loop handle_tail 0
  invariant tail_dcount <= vp_n <= 2, dest.pos == vp_d + vp_n - tail_dcount, dest.cells@.len() == vp_o.len(), final(vp_d0.cells)@ == final(dest.cells)@,
    dest.cells@.take(dest.pos as int) == vp_o.take(vp_d as int) + unb64(vp_c).take(vp_n - tail_dcount), dest.cells@.skip(dest.pos as int) == vp_o.skip(dest.pos as int),
    vp_d + vp_n < vp_o.len() || vp_n == 0,
    decreases tail_dcount
@@at loopbegin 0 :: handle_tail
let ghost vp_c0 = dest.cells@; let ghost vp_q = dest.pos as int;
@@at loopend 0 :: handle_tail
proof { lemma_upd(vp_c0, vp_o, vp_q, dest.cells@[vp_q]); assert(dest.cells@ =~= vp_c0.update(vp_q, dest.cells@[vp_q])); assert(unb64(vp_c).take(vp_q - vp_d + 1) =~= unb64(vp_c).take(vp_q - vp_d).push(unb64(vp_c)[vp_q - vp_d])); 
  assert(unb64(vp_c)[vp_q - vp_d] == unval(vp_c, vp_q - vp_d) as u8);
  assert(dest.cells@.take(dest.pos as int) =~= vp_o.take(vp_d as int) + unb64(vp_c).take(vp_n - tail_dcount)); }
@@at tail :: handle_tail
proof { assert(dest.cells@ =~= dest.cells@.take(dest.pos as int) + dest.cells@.skip(dest.pos as int)); assert(unb64(vp_c).take(vp_n) =~= unb64(vp_c));
  assert forall|c: Seq<u8>| #[trigger] pk(c) == vp_p && c.len() <= 3 && (forall|i: int| 0 <= i < c.len() ==> is_alpha(#[trigger] c[i])) implies c.len() == vp_c.len() && unb64(c) == unb64(vp_c) by { lemma_pk_inj(c, vp_c); } }
@@at tail :: decode
proof { let k = arun(vp_o); assert(dest.cells@ =~= dest.cells@.take(3 * vp_j) + dest.cells@.skip(3 * vp_j)); assert(vp_o.take(k as int) =~= vp_o || true); }
