@@prelude
pub use vp_jd::*;
pub mod vp_jd {
use super::vp_base::*;
use super::vp_b64::*;
use vstd::prelude::*; use vstd::utf8::*;
// ---------------------------------------------------------------- reading JSON text, stated independently of the code
pub open spec fn ws(b: u8) -> bool { b == 32 || b == 9 || b == 10 || b == 13 }
#[verifier::opaque] pub open spec fn skipws(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 0 && ws(s[0]) { skipws(s.skip(1)) } else { s } }
pub broadcast proof fn lemma_skipws(s: Seq<u8>) ensures is_suffix(#[trigger] skipws(s), s), skipws(s).len() <= s.len(), skipws(s).len() > 0 ==> !ws(skipws(s)[0]), s.len() > 0 && !ws(s[0]) ==> skipws(s) == s decreases s.len()
{ reveal(skipws); if s.len() > 0 && ws(s[0]) { lemma_skipws(s.skip(1)); assert(skipws(s) =~= s.subrange(s.len() - skipws(s).len(), s.len() as int)); } else { assert(s =~= s.subrange(0, s.len() as int)); } }
pub broadcast proof fn lemma_skipws_idem(s: Seq<u8>) ensures #[trigger] skipws(skipws(s)) == skipws(s) { lemma_skipws(s); let t = skipws(s); reveal(skipws); }
pub proof fn lemma_skipws_at(s: Seq<u8>, k: int) requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> ws(#[trigger] s[i]), k == s.len() || !ws(s[k]) ensures skipws(s) == s.skip(k) decreases k
{ reveal(skipws); if k > 0 { assert(ws(s[0])); let t = s.skip(1); assert forall|i: int| 0 <= i < k - 1 implies ws(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); } lemma_skipws_at(t, k - 1); assert(t.skip(k - 1) =~= s.skip(k)); } else { assert(s.skip(0) =~= s); } }

// ---- strings
pub open spec fn prep(p: Seq<u8>, r: Option<(Seq<u8>, Seq<u8>)>) -> Option<(Seq<u8>, Seq<u8>)> { match r { Some((d, t)) => Some((p + d, t)), None => None } }
pub broadcast proof fn lemma_prep0(r: Option<(Seq<u8>, Seq<u8>)>) ensures #[trigger] prep(Seq::<u8>::empty(), r) == r { if let Some((d, t)) = r { assert(Seq::<u8>::empty() + d =~= d); } }
pub broadcast proof fn lemma_prep2(a: Seq<u8>, b: Seq<u8>, r: Option<(Seq<u8>, Seq<u8>)>) ensures #[trigger] prep(a, prep(b, r)) == prep(a + b, r) { if let Some((d, t)) = r { assert(a + (b + d) =~= (a + b) + d); } }
pub open spec fn hexv(c: u8) -> Option<int> { if 48 <= c <= 57 { Some(c - 48) } else if 97 <= c <= 102 { Some(c - 97 + 10) } else if 65 <= c <= 70 { Some(c - 65 + 10) } else { None } }
pub open spec fn is_hex(c: u8) -> bool { hexv(c) is Some }
pub open spec fn hx(c: u8) -> int { match hexv(c) { Some(v) => v, None => 0 } }
pub open spec fn hex4(a: u8, b: u8, c: u8, d: u8) -> Option<int> { if is_hex(a) && is_hex(b) && is_hex(c) && is_hex(d) { Some(((hx(a) * 16 + hx(b)) * 16 + hx(c)) * 16 + hx(d)) } else { None } }
/// what follows a backslash: the bytes denoted and how many bytes are taken
pub open spec fn unesc(s: Seq<u8>) -> Option<(Seq<u8>, int)> {
  if s.len() == 0 { None }
  else if s[0] == 34 || s[0] == 92 || s[0] == 47 { Some((seq![s[0]], 1)) }
  else if s[0] == 98 { Some((seq![8u8], 1)) } else if s[0] == 102 { Some((seq![12u8], 1)) } else if s[0] == 110 { Some((seq![10u8], 1)) }
  else if s[0] == 114 { Some((seq![13u8], 1)) } else if s[0] == 116 { Some((seq![9u8], 1)) }
  else if s[0] == 117 && s.len() >= 5 { match hex4(s[1], s[2], s[3], s[4]) { Some(v) => if 0xD800 <= v <= 0xDFFF { None } else { Some((encode_utf8(seq![v as char]), 5)) }, None => None } }
  else { None }
}
/// content of a string and the text after its closing quote; the opening quote has been taken
#[verifier::opaque] pub open spec fn sdec(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> decreases s.len() {
  if s.len() == 0 { None }
  else if s[0] == 34 { Some((Seq::empty(), s.skip(1))) }
  else if s[0] < 32 { None }
  else if s[0] == 92 { match unesc(s.skip(1)) { Some((c, k)) => if 0 < k <= 5 && 1 + k <= s.len() { prep(c, sdec(s.skip(1 + k))) } else { None }, None => None } }
  else { prep(seq![s[0]], sdec(s.skip(1))) }
}
/// where a string ends: the text after the first quote that is not preceded by an odd number of backslashes; strict: no control character on the way
#[verifier::opaque] pub open spec fn sskip(s: Seq<u8>, strict: bool) -> Option<Seq<u8>> decreases s.len() {
  if s.len() == 0 { None }
  else if s[0] == 34 { Some(s.skip(1)) }
  else if strict && s[0] < 32 { None }
  else if s[0] == 92 { if s.len() < 2 || (strict && s[1] < 32) { None } else { sskip(s.skip(2), strict) } }
  else { sskip(s.skip(1), strict) }
}
pub open spec fn plain(b: u8) -> bool { 32 <= b && b != 34 && b != 92 }
pub proof fn lemma_sdec_run(s: Seq<u8>, k: int) requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> plain(#[trigger] s[i]) ensures sdec(s) == prep(s.take(k), sdec(s.skip(k))) decreases k
{
  if k == 0 { assert(s.take(0) =~= Seq::<u8>::empty()); assert(s.skip(0) =~= s); lemma_prep0(sdec(s)); }
  else { reveal(sdec); assert(plain(s[0])); let t = s.skip(1); assert forall|i: int| 0 <= i < k - 1 implies plain(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); }
    lemma_sdec_run(t, k - 1); assert(t.skip(k - 1) =~= s.skip(k)); lemma_prep2(seq![s[0]], t.take(k - 1), sdec(s.skip(k))); assert(seq![s[0]] + t.take(k - 1) =~= s.take(k)); }
}
pub proof fn lemma_sskip_run(s: Seq<u8>, k: int, m: bool) requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> plain(#[trigger] s[i]) ensures sskip(s, m) == sskip(s.skip(k), m) decreases k
{
  if k == 0 { assert(s.skip(0) =~= s); }
  else { reveal(sskip); assert(plain(s[0])); let t = s.skip(1); assert forall|i: int| 0 <= i < k - 1 implies plain(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); }
    lemma_sskip_run(t, k - 1, m); assert(t.skip(k - 1) =~= s.skip(k)); }
}
pub proof fn lemma_sskip_suffix(s: Seq<u8>, m: bool) ensures sskip(s, m) is Some ==> is_suffix(sskip(s, m)->0, s) && sskip(s, m)->0.len() < s.len() decreases s.len()
{
  reveal(sskip);
  if s.len() == 0 { } else if s[0] == 34 { assert(is_suffix(s.skip(1), s)) by { lemma_suffix_skip(s, 1); } }
  else if s[0] == 92 { if s.len() >= 2 { lemma_sskip_suffix(s.skip(2), m); lemma_suffix_skip(s, 2); if sskip(s, m) is Some { lemma_suffix_trans(sskip(s, m)->0, s.skip(2), s); } } }
  else { lemma_sskip_suffix(s.skip(1), m); lemma_suffix_skip(s, 1); if sskip(s, m) is Some { lemma_suffix_trans(sskip(s, m)->0, s.skip(1), s); } }
}
/// a decodable string ends where the skipper says
pub proof fn lemma_sdec_sskip(s: Seq<u8>, m: bool) ensures sdec(s) is Some ==> sskip(s, m) == Some((sdec(s)->0).1) decreases s.len()
{
  reveal(sdec); reveal(sskip);
  if s.len() == 0 { } else if s[0] == 34 { } else if s[0] < 32 { }
  else if s[0] == 92 {
    if let Some((c, k)) = unesc(s.skip(1)) { if 0 < k <= 5 && 1 + k <= s.len() {
      lemma_sdec_sskip(s.skip(1 + k), m);
      let t = s.skip(2);
      assert(s.skip(1)[0] == s[1]);
      if k == 5 {
        let q = s.skip(1); assert(q[1] == s[2] && q[2] == s[3] && q[3] == s[4] && q[4] == s[5]);
        assert forall|i: int| 0 <= i < 4 implies plain(#[trigger] t[i]) by { assert(t[i] == s[i + 2]); assert(is_hex(s[2]) && is_hex(s[3]) && is_hex(s[4]) && is_hex(s[5])); }
        lemma_sskip_run(t, 4, m); assert(t.skip(4) =~= s.skip(6));
      } else { assert(t =~= s.skip(1 + k)); }
    } }
  } else { lemma_sdec_sskip(s.skip(1), m); }
}
/// skipping from a token boundary to the first quote or control character at k, with c backslashes right before it
pub proof fn lemma_sskip_find(s: Seq<u8>, k: int, c: int)
  requires 0 <= c <= k < s.len(), s[k] == 34 || s[k] < 32, forall|i: int| 0 <= i < k ==> s[i] >= 32 && #[trigger] s[i] != 34,
    forall|i: int| k - c <= i < k ==> #[trigger] s[i] == 92, c < k ==> s[k - c - 1] != 92,
  ensures s[k] < 32 ==> sskip(s, true) is None, s[k] == 34 && c % 2 == 0 ==> sskip(s, true) == Some(s.skip(k + 1)), s[k] == 34 && c % 2 != 0 ==> sskip(s, true) == sskip(s.skip(k + 1), true)
  decreases k
{
  reveal(sskip);
  if k == 0 { assert(s.skip(1) =~= s.skip(k + 1)); }
  else if s[0] == 92 {
    if k == 1 { assert(c == 1); assert(s.skip(2) =~= s.skip(k + 1)); }
    else {
      let t = s.skip(2); assert(s[1] >= 32 && s[1] != 34);
      let c2 = if c == k { c - 2 } else { c };
      if c < k { assert(c != k - 1) by { if c == k - 1 { assert(s[0] != 92); } } assert(t[k - 2 - c2 - 1 + 0] == s[k - c - 1] || k - 2 == c2); }
      assert forall|i: int| 0 <= i < k - 2 implies t[i] >= 32 && #[trigger] t[i] != 34 by { assert(t[i] == s[i + 2]); }
      assert forall|i: int| k - 2 - c2 <= i < k - 2 implies #[trigger] t[i] == 92 by { assert(t[i] == s[i + 2]); }
      lemma_sskip_find(t, k - 2, c2);
      assert(t.skip(k - 2 + 1) =~= s.skip(k + 1));
    }
  } else {
    let t = s.skip(1); assert(c < k) by { if c == k { assert(s[0] == 92); } } 
    assert(s[0] >= 32 && s[0] != 34);
    assert forall|i: int| 0 <= i < k - 1 implies t[i] >= 32 && #[trigger] t[i] != 34 by { assert(t[i] == s[i + 1]); }
    assert forall|i: int| k - 1 - c <= i < k - 1 implies #[trigger] t[i] == 92 by { assert(t[i] == s[i + 1]); }
    if c < k - 1 { assert(t[k - 1 - c - 1] == s[k - c - 1]); }
    lemma_sskip_find(t, k - 1, c);
    assert(t.skip(k - 1 + 1) =~= s.skip(k + 1));
  }
}
/// no quote and no control character: never ends
pub proof fn lemma_sskip_none(s: Seq<u8>) requires forall|i: int| 0 <= i < s.len() ==> s[i] >= 32 && #[trigger] s[i] != 34 ensures sskip(s, true) is None decreases s.len()
{ reveal(sskip); if s.len() > 0 { assert(s[0] >= 32 && s[0] != 34); let n = if s[0] == 92 { 2int } else { 1 }; if n <= s.len() { let t = s.skip(n); assert forall|i: int| 0 <= i < t.len() implies t[i] >= 32 && #[trigger] t[i] != 34 by { assert(t[i] == s[i + n]); } lemma_sskip_none(t); } } }

// ---- numbers
pub open spec fn dig(c: u8) -> bool { 48 <= c <= 57 }
pub open spec fn drun(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 || !dig(s[0]) { 0 } else { 1 + drun(s.skip(1)) } }
pub open spec fn dnum(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { dnum(s.drop_last()) * 10 + (s.last() - 48) as nat } }
/// an unsigned integer token: zero alone, or a nonzero digit and the digits after it
pub open spec fn uint_at(s: Seq<u8>) -> Option<(nat, int)> { if s.len() == 0 || !dig(s[0]) { None } else if s[0] == 48 { Some((0, 1)) } else { Some((dnum(s.take(drun(s) as int)), drun(s) as int)) } }
pub open spec fn int_at(s: Seq<u8>) -> Option<(int, int)> {
  if s.len() > 0 && s[0] == 45 { match uint_at(s.skip(1)) { Some((n, k)) => Some((-n, k + 1)), None => None } } else { match uint_at(s) { Some((n, k)) => Some((n as int, k)), None => None } } }
pub proof fn lemma_drun(s: Seq<u8>, k: int) requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> dig(#[trigger] s[i]), k == s.len() || !dig(s[k]) ensures drun(s) == k decreases s.len()
{ if k > 0 { assert(dig(s[0])); let t = s.skip(1); assert forall|i: int| 0 <= i < k - 1 implies dig(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); } lemma_drun(t, k - 1); } }
pub proof fn lemma_drun_all(s: Seq<u8>) ensures drun(s) <= s.len(), forall|i: int| 0 <= i < drun(s) ==> dig(#[trigger] s[i]), drun(s) < s.len() ==> !dig(s[drun(s) as int]) decreases s.len()
{ if s.len() > 0 && dig(s[0]) { let t = s.skip(1); lemma_drun_all(t); assert forall|i: int| 0 <= i < drun(s) implies dig(#[trigger] s[i]) by { if i > 0 { assert(t[i - 1] == s[i]); } } } }
pub proof fn lemma_dnum_mono(s: Seq<u8>, i: int, k: int) requires 0 <= i <= k <= s.len(), forall|j: int| 0 <= j < k ==> dig(#[trigger] s[j]) ensures dnum(s.take(i)) <= dnum(s.take(k)) decreases k - i
{ if i < k { lemma_dnum_mono(s, i, k - 1); assert(s.take(k).drop_last() =~= s.take(k - 1)); assert(dig(s[k - 1])); } }
pub proof fn lemma_dnum_step(s: Seq<u8>, i: int) requires 0 <= i < s.len(), dig(s[i]) ensures dnum(s.take(i + 1)) == dnum(s.take(i)) * 10 + (s[i] - 48) { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn lemma_dnum1(s: Seq<u8>) requires s.len() >= 1, dig(s[0]) ensures dnum(s.take(1)) == s[0] - 48 { lemma_dnum_step(s, 0); assert(s.take(0) =~= Seq::<u8>::empty()); }
pub broadcast proof fn lemma_uint_at(s: Seq<u8>) ensures (#[trigger] uint_at(s)) is Some ==> 0 < (uint_at(s)->0).1 <= s.len() { lemma_drun_all(s); }
/// a number token: the longest run of digits, signs, point and exponent letters
pub open spec fn nch(c: u8) -> bool { 48 <= c <= 57 || c == 43 || c == 45 || c == 46 || c == 101 || c == 69 }
pub open spec fn nrun(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 || !nch(s[0]) { 0 } else { 1 + nrun(s.skip(1)) } }
pub proof fn lemma_nrun(s: Seq<u8>, k: int) requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> nch(#[trigger] s[i]), k == s.len() || !nch(s[k]) ensures nrun(s) == k decreases s.len()
{ if k > 0 { assert(nch(s[0])); let t = s.skip(1); assert forall|i: int| 0 <= i < k - 1 implies nch(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); } lemma_nrun(t, k - 1); } }
pub proof fn lemma_nrun_all(s: Seq<u8>) ensures nrun(s) <= s.len(), forall|i: int| 0 <= i < nrun(s) ==> nch(#[trigger] s[i]), nrun(s) < s.len() ==> !nch(s[nrun(s) as int]) decreases s.len()
{ if s.len() > 0 && nch(s[0]) { let t = s.skip(1); lemma_nrun_all(t); assert forall|i: int| 0 <= i < nrun(s) implies nch(#[trigger] s[i]) by { if i > 0 { assert(t[i - 1] == s[i]); } } } }

// ---- values and containers. strict: as a skipper must see them (keys are decodable text, no control characters in strings, numbers start with a digit or a minus sign);
// not strict: where a client of the access objects can stop (keys of a one-entry object and string contents are up to the client)
pub open spec fn lit(s: Seq<u8>, w: Seq<u8>) -> bool { w.len() <= s.len() && s.take(w.len() as int) == w }
pub open spec fn lnull() -> Seq<u8> { seq![110u8, 117u8, 108u8, 108u8] }
pub open spec fn ltrue() -> Seq<u8> { seq![116u8, 114u8, 117u8, 101u8] }
pub open spec fn lfalse() -> Seq<u8> { seq![102u8, 97u8, 108u8, 115u8, 101u8] }
pub open spec fn shorter(r: Option<Seq<u8>>, n: nat) -> bool { r is Some && r->0.len() < n }
/// where the next element of a container starts: after one comma, unless it is the first
pub open spec fn estart(s: Seq<u8>, first: bool, close: u8) -> Option<Seq<u8>> {
  let u = skipws(s);
  if u.len() == 0 || u[0] == close { None }
  else if u[0] == 44 { let v = skipws(u.skip(1)); if first || v.len() == 0 || v[0] == close { None } else { Some(v) } }
  else if first { Some(u) } else { None }
}
pub open spec fn closed(s: Seq<u8>, close: u8) -> bool { let u = skipws(s); u.len() > 0 && u[0] == close }
#[verifier::opaque] pub open spec fn jskip(s: Seq<u8>, m: bool) -> Option<Seq<u8>> decreases s.len(), 0nat {
  let u = skipws(s);
  if u.len() == 0 || u.len() > s.len() { None }
  else if u[0] == 34 { sskip(u.skip(1), m) }
  else if u[0] == 91 { jels(u.skip(1), true, m) }
  else if u[0] == 123 { jents(u.skip(1), true, m) }
  else if u[0] == 110 { if lit(u, lnull()) { Some(u.skip(4)) } else { None } }
  else if u[0] == 116 { if lit(u, ltrue()) { Some(u.skip(4)) } else { None } }
  else if u[0] == 102 { if lit(u, lfalse()) { Some(u.skip(5)) } else { None } }
  else if nch(u[0]) && (!m || dig(u[0]) || u[0] == 45) { Some(u.skip(nrun(u) as int)) }
  else { None }
}
/// elements up to and including the closing bracket
#[verifier::opaque] pub open spec fn jels(s: Seq<u8>, first: bool, m: bool) -> Option<Seq<u8>> decreases s.len(), 1nat {
  if closed(s, 93) { Some(skipws(s).skip(1)) }
  else { match estart(s, first, 93) {
    Some(v) => if v.len() <= s.len() { let t = jskip(v, m); if shorter(t, v.len()) { jels(t->0, false, m) } else { None } } else { None },
    None => None } }
}
/// a key and the colon after it
#[verifier::opaque] pub open spec fn jkey(v: Seq<u8>, m: bool) -> Option<Seq<u8>> decreases v.len(), 2nat {
  let t = if m { match sdec(v.skip(1)) { Some((c, t)) => if v.len() > 0 && v[0] == 34 && valid_utf8(c) { Some(t) } else { None }, None => None } } else { jskip(v, m) };
  match t { Some(t) => { let u = skipws(t); if u.len() > 0 && u[0] == 58 { Some(u.skip(1)) } else { None } }, None => None }
}
/// entries up to and including the closing brace
#[verifier::opaque] pub open spec fn jents(s: Seq<u8>, first: bool, m: bool) -> Option<Seq<u8>> decreases s.len(), 3nat {
  if closed(s, 125) { Some(skipws(s).skip(1)) }
  else { match estart(s, first, 125) {
    Some(v) => if v.len() <= s.len() { let k = jkey(v, m); if shorter(k, v.len()) { let t = jskip(k->0, m); if shorter(t, k->0.len()) { jents(t->0, false, m) } else { None } } else { None } } else { None },
    None => None } }
}

// ---- derived facts
pub open spec fn dapp(n: nat, s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { n } else { dapp(n, s.drop_last()) * 10 + (s.last() - 48) as nat } }
pub proof fn lemma_dapp_step(n: nat, s: Seq<u8>, i: int) requires 0 <= i < s.len(), dig(s[i]) ensures dapp(n, s.take(i + 1)) == dapp(n, s.take(i)) * 10 + (s[i] - 48) { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn lemma_dapp_mono(n: nat, s: Seq<u8>, i: int, k: int) requires 0 <= i <= k <= s.len(), forall|j: int| 0 <= j < k ==> dig(#[trigger] s[j]) ensures dapp(n, s.take(i)) <= dapp(n, s.take(k)) decreases k - i
{ if i < k { lemma_dapp_mono(n, s, i, k - 1); assert(dig(s[k - 1])); lemma_dapp_step(n, s, k - 1); } }
/// one step of the accumulation, and what an overflow at this step means for the whole run
pub proof fn lemma_dapp_at(n: nat, s: Seq<u8>, i: int) requires 0 <= i < s.len(), forall|j: int| 0 <= j < i ==> dig(#[trigger] s[j])
  ensures dig(s[i]) ==> dapp(n, s.take(i + 1)) == dapp(n, s.take(i)) * 10 + (s[i] - 48) && dapp(n, s.take(i + 1)) <= dapp(n, s.take(drun(s) as int)) && i < drun(s), !dig(s[i]) ==> drun(s) == i
{ lemma_drun_all(s); if dig(s[i]) { lemma_dapp_step(n, s, i); if drun(s) <= i { assert(dig(s[drun(s) as int])); } lemma_dapp_mono(n, s, i + 1, drun(s) as int); } else { lemma_drun(s, i); } }
pub proof fn lemma_dapp_first(s: Seq<u8>) requires s.len() > 0, dig(s[0])
  ensures drun(s) == 1 + drun(s.skip(1)), dapp((s[0] - 48) as nat, s.skip(1).take(drun(s.skip(1)) as int)) == dnum(s.take(drun(s) as int))
{ lemma_drun_all(s.skip(1)); let t = s.skip(1); lemma_dapp_dnum(s, t, drun(t) as int); }
proof fn lemma_dapp_dnum(s: Seq<u8>, t: Seq<u8>, k: int) requires s.len() > 0, dig(s[0]), t == s.skip(1), 0 <= k <= t.len() ensures dapp((s[0] - 48) as nat, t.take(k)) == dnum(s.take(k + 1)) decreases k
{ if k == 0 { lemma_dnum1(s); } else { lemma_dapp_dnum(s, t, k - 1); assert(t.take(k).drop_last() =~= t.take(k - 1)); assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(t.take(k).last() == s.take(k + 1).last()); } }
pub broadcast proof fn lemma_lit(s: Seq<u8>) ensures lit(s, lnull()) <==> #[trigger] s.len() >= 4 && s[0] == 110 && lit(s.skip(1), seq![117u8, 108u8, 108u8]) { 
  if s.len() >= 4 { assert(s.take(4) =~= lnull() <==> s[0] == 110 && s[1] == 117 && s[2] == 108 && s[3] == 108) by { if s[0] == 110 && s[1] == 117 && s[2] == 108 && s[3] == 108 { assert(s.take(4) =~= lnull()); } else if s.take(4) == lnull() { assert(s.take(4)[0] == s[0] && s.take(4)[1] == s[1] && s.take(4)[2] == s[2] && s.take(4)[3] == s[3]); } } 
    lemma_lit3(s.skip(1), 117, 108, 108); } }
pub proof fn lemma_lit3(s: Seq<u8>, a: u8, b: u8, c: u8) requires s.len() >= 3 ensures lit(s, seq![a, b, c]) <==> s[0] == a && s[1] == b && s[2] == c
{ if s[0] == a && s[1] == b && s[2] == c { assert(s.take(3) =~= seq![a, b, c]); } else if s.take(3) == seq![a, b, c] { assert(s.take(3)[0] == s[0] && s.take(3)[1] == s[1] && s.take(3)[2] == s[2]); } }
pub proof fn lemma_lit4(s: Seq<u8>, a: u8, b: u8, c: u8, d: u8) requires s.len() >= 4 ensures lit(s, seq![a, b, c, d]) <==> s[0] == a && s[1] == b && s[2] == c && s[3] == d
{ if s[0] == a && s[1] == b && s[2] == c && s[3] == d { assert(s.take(4) =~= seq![a, b, c, d]); } else if s.take(4) == seq![a, b, c, d] { assert(s.take(4)[0] == s[0] && s.take(4)[1] == s[1] && s.take(4)[2] == s[2] && s.take(4)[3] == s[3]); } }
/// the three literals, once their first letter has been taken
pub proof fn lemma_words(u: Seq<u8>) requires u.len() > 0
  ensures u[0] == 110 ==> (lit(u, lnull()) <==> lit(u.skip(1), seq![117u8, 108u8, 108u8])),
    u[0] == 116 ==> (lit(u, ltrue()) <==> lit(u.skip(1), seq![114u8, 117u8, 101u8])),
    u[0] == 102 ==> (lit(u, lfalse()) <==> lit(u.skip(1), seq![97u8, 108u8, 115u8, 101u8])),
{
  let t = u.skip(1);
  if u.len() >= 4 { lemma_lit4(u, 110, 117, 108, 108); lemma_lit3(t, 117, 108, 108); lemma_lit4(u, 116, 114, 117, 101); lemma_lit3(t, 114, 117, 101); }
  if u.len() >= 5 { lemma_lit4(t, 97, 108, 115, 101); if u[0] == 102 && t[0] == 97 && t[1] == 108 && t[2] == 115 && t[3] == 101 { assert(u.take(5) =~= lfalse()); } else if u.take(5) == lfalse() { assert(u.take(5)[0] == u[0] && u.take(5)[1] == t[0] && u.take(5)[2] == t[1] && u.take(5)[3] == t[2] && u.take(5)[4] == t[3]); } }
}
/// pairs of hexadecimal digits up to a quote
#[verifier::opaque] pub open spec fn hexdec(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> decreases s.len() {
  if s.len() == 0 { None } else if s[0] == 34 { Some((Seq::empty(), s.skip(1))) }
  else if s.len() >= 2 && is_hex(s[0]) && is_hex(s[1]) { prep(seq![(hx(s[0]) * 16 + hx(s[1])) as u8], hexdec(s.skip(2))) } else { None }
}
pub proof fn lemma_hexdec_sskip(s: Seq<u8>, m: bool) ensures hexdec(s) is Some ==> sskip(s, m) == Some((hexdec(s)->0).1) decreases s.len()
{ reveal(hexdec); reveal_with_fuel(sskip, 3); if s.len() > 0 && s[0] != 34 && s.len() >= 2 && is_hex(s[0]) && is_hex(s[1]) { lemma_hexdec_sskip(s.skip(2), m); assert(s.skip(1)[0] == s[1]); assert(s.skip(1).skip(1) =~= s.skip(2)); } }
/// leading padding characters
pub open spec fn erun(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 || s[0] != 61 { 0 } else { 1 + erun(s.skip(1)) } }
pub proof fn lemma_erun(s: Seq<u8>, k: int) requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> #[trigger] s[i] == 61, k == s.len() || s[k] != 61 ensures erun(s) == k decreases s.len()
{ if k > 0 { let t = s.skip(1); assert(s[0] == 61); assert forall|i: int| 0 <= i < k - 1 implies #[trigger] t[i] == 61 by { assert(t[i] == s[i + 1]); } lemma_erun(t, k - 1); } }
pub proof fn lemma_erun_all(s: Seq<u8>) ensures erun(s) <= s.len(), forall|i: int| 0 <= i < erun(s) ==> #[trigger] s[i] == 61, erun(s) < s.len() ==> s[erun(s) as int] != 61 decreases s.len()
{ if s.len() > 0 && s[0] == 61 { let t = s.skip(1); lemma_erun_all(t); assert forall|i: int| 0 <= i < erun(s) implies #[trigger] s[i] == 61 by { if i > 0 { assert(t[i - 1] == s[i]); } } } }
/// base64 characters, padding, quote: the bytes and what follows. how much padding there is, is up to the decoder (b64must: padding that every decoder must accept)
pub open spec fn b64dec(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
  let k = arun(s) as int; let t = s.skip(k); let e = erun(t) as int;
  if k <= s.len() && e < t.len() && t[e] == 34 { Some((unb64(s.take(k)), t.skip(e + 1))) } else { None }
}
pub open spec fn b64must(s: Seq<u8>) -> bool { let k = arun(s) as int; let e = erun(s.skip(k)) as int; b64dec(s) is Some && k % 4 != 1 && (e == 0 || (k + e) % 4 == 0) && e < 4 }
pub proof fn lemma_b64dec_sskip(s: Seq<u8>) ensures b64dec(s) is Some ==> sskip(s, false) == Some((b64dec(s)->0).1)
{ let k = arun(s) as int; lemma_arun_all(s); let t = s.skip(k); let e = erun(t) as int; lemma_erun_all(t);
  if b64dec(s) is Some { assert forall|i: int| 0 <= i < k + e implies plain(#[trigger] s[i]) by { if i >= k { assert(t[i - k] == s[i]); } } lemma_sskip_run(s, k + e, false); assert(s.skip(k + e)[0] == t[e]); reveal(sskip); assert(s.skip(k + e).skip(1) =~= t.skip(e + 1)); } }
/// an array of numbers 0..=255; the opening bracket has been taken
#[verifier::opaque] pub open spec fn arrels(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> decreases s.len() {
  let u = skipws(s);
  match uint_at(u) {
    Some((n, k)) => if n <= 255 && 0 < k <= u.len() && u.len() <= s.len() { let v = skipws(u.skip(k));
        if v.len() == 0 || v.len() > u.skip(k).len() { None } else if v[0] == 93 { Some((seq![n as u8], v.skip(1))) } else if v[0] == 44 { prep(seq![n as u8], arrels(v.skip(1))) } else { None } } else { None },
    None => None }
}
pub open spec fn adec(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> { if closed(s, 93) { Some((Seq::empty(), skipws(s).skip(1))) } else { arrels(s) } }
pub proof fn lemma_jskip_ws(s: Seq<u8>, m: bool) ensures jskip(skipws(s), m) == jskip(s, m) { lemma_skipws(s); lemma_skipws_idem(s); reveal(jskip); }
/// a number token ends where the digits end if no other number character follows
pub proof fn lemma_uint_nrun(u: Seq<u8>) ensures uint_at(u) is Some ==> ({ let k = (uint_at(u)->0).1; 0 < k <= u.len() && nch(u[0]) && dig(u[0]) && u[0] != 34 && (k == u.len() || !nch(u[k]) ==> nrun(u) == k) })
{ if uint_at(u) is Some { let k = (uint_at(u)->0).1; lemma_drun_all(u); assert(0 < k <= u.len()); assert forall|i: int| 0 <= i < k implies nch(#[trigger] u[i]) by { assert(dig(u[i])); } if k == u.len() || !nch(u[k]) { lemma_nrun(u, k); } } }
pub proof fn lemma_jskip_num(s: Seq<u8>, m: bool) ensures ({ let u = skipws(s); u.len() > 0 && nch(u[0]) && (!m || dig(u[0]) || u[0] == 45) ==> jskip(s, m) == Some(u.skip(nrun(u) as int)) }) { lemma_skipws(s); reveal(jskip); }
pub proof fn lemma_arrels(s: Seq<u8>) ensures arrels(s) is Some ==> jels(s, true, false) == Some((arrels(s)->0).1) && (forall|w: Seq<u8>| skipws(w).len() > 0 && (#[trigger] skipws(w))[0] == 44 && skipws(w).skip(1) == s ==> jels(w, false, false) == Some((arrels(s)->0).1)) decreases s.len()
{
  reveal(arrels); lemma_skipws(s); let u = skipws(s); lemma_uint_nrun(u);
  if arrels(s) is Some {
    let k = (uint_at(u)->0).1; let x = u.skip(k); lemma_skipws(x); let v = skipws(x);
    assert(k < u.len() && !nch(u[k])) by { assert(x.len() > 0); assert(x[0] == u[k]); if !ws(x[0]) { assert(v == x); } }
    lemma_jskip_num(s, false); lemma_jskip_ws(s, false);
    if v[0] == 44 { lemma_arrels(v.skip(1)); }
    assert(jels(x, false, false) == Some((arrels(s)->0).1)) by { reveal(jels); }
    assert(jels(s, true, false) == Some((arrels(s)->0).1)) by { reveal(jels); reveal(jskip); reveal(jkey); reveal(jents); assert(!closed(s, 93)); assert(estart(s, true, 93) == Some(u)); assert(jskip(u, false) == Some(x)); assert(shorter(jskip(u, false), u.len())); }
    assert forall|w: Seq<u8>| skipws(w).len() > 0 && (#[trigger] skipws(w))[0] == 44 && skipws(w).skip(1) == s implies jels(w, false, false) == Some((arrels(s)->0).1) by { reveal(jels); lemma_skipws(w); lemma_skipws_idem(s); }
  }
}
pub proof fn lemma_adec(s: Seq<u8>) ensures adec(s) is Some ==> jels(s, true, false) == Some((adec(s)->0).1) { lemma_arrels(s); reveal(jels); }
/// where the reader of one value may stop: right after it; a reader of integers may also stop inside a number token, before a character that can start nothing
pub open spec fn jval(s: Seq<u8>, t: Seq<u8>) -> bool { jskip(s, false) == Some(t) || (skipws(s).len() > 0 && nch(skipws(s)[0]) && t.len() > 0 && nch(t[0]) && t.len() < s.len() && is_suffix(t, s)) }
/// what a correct reader of a container owes when it stops: if the container closes here, it is the whole container that was read
pub open spec fn els_to(s: Seq<u8>, first: bool, t: Seq<u8>) -> bool { closed(t, 93) ==> jels(s, first, false) == Some(skipws(t).skip(1)) }
pub open spec fn ents_to(s: Seq<u8>, first: bool, t: Seq<u8>) -> bool { closed(t, 125) ==> jents(s, first, false) == Some(skipws(t).skip(1)) }
} // vp_jd
