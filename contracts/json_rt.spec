@@prelude
pub use vp_rt::*;
pub mod vp_rt {
use super::vp_base::*; use super::vp_b64::*; use super::vp_js::*; use super::vp_jd::*; use super::vp_jg;
use vstd::prelude::*; use vstd::utf8::*;
// ---------------------------------------------------------------- what the serializer's contracts fix is read back by what the deserializer's contracts fix
// (the texts are those of the contracts of ser.rs: quoted, idec, arr_text, hex_text, b64_text, jone; the readers are those of the contracts of de.rs)
proof fn lemma_ws1(s: Seq<u8>) requires s.len() > 0, !ws(s[0]) ensures skipws(s) == s { lemma_skipws(s); }
proof fn lemma_cut(a: Seq<u8>, t: Seq<u8>) ensures (a + t).skip(a.len() as int) == t, (a + t).take(a.len() as int) == a { assert((a + t).skip(a.len() as int) =~= t); assert((a + t).take(a.len() as int) =~= a); }
pub proof fn lemma_ascii_char(b: u8) requires b < 0x80 ensures encode_utf8(seq![b as char]) == seq![b]
{ let c = b as char; let u = b as u32; assert(seq![c].drop_first() =~= Seq::<char>::empty()); reveal_with_fuel(encode_utf8, 2); assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty()); assert(encode_utf8(seq![c]) =~= encode_scalar(c as u32)); assert(c as u32 == u); assert((u & 0x7F) as u8 == b) by (bit_vector) requires b < 0x80u8, u == b as u32; assert(encode_scalar(c as u32) =~= seq![b]); }
/// a string: any text comes back from its quoted, escaped form, and the reader stops right after it
pub proof fn lemma_sdec_esc(s: Seq<u8>, t: Seq<u8>) ensures sdec(esc(s) + seq![34u8] + t) == Some((s, t)) decreases s.len()
{
  let z = esc(s) + seq![34u8] + t;
  reveal(sdec);
  if s.len() == 0 { lemma_esc_empty(); assert(s =~= Seq::<u8>::empty()); assert(z =~= seq![34u8] + t); assert(z.skip(1) =~= t); }
  else {
    let b = s[0]; let r = s.skip(1); let y = esc(r) + seq![34u8] + t;
    assert(s =~= seq![b] + r); lemma_esc_add(seq![b], r); lemma_esc1(b); lemma_sdec_esc(r, t);
    assert(z =~= e1(b) + y); lemma_cut(e1(b), y);
    if b == 34 || b == 92 || b < 32 {
      let k = e1(b).len() as int - 1; let q = z.skip(1); assert(z[0] == 92 && q[0] == e1(b)[1]);
      if k == 5 { assert(q[1] == e1(b)[2] && q[2] == e1(b)[3] && q[3] == e1(b)[4] && q[4] == e1(b)[5]); lemma_ascii_char(b); assert(hx(hexd(b as int / 16)) == b / 16 && hx(hexd(b as int % 16)) == b % 16); }
      assert(unesc(q) == Some((seq![b], k)));
      assert(sdec(z) == prep(seq![b], sdec(z.skip(1 + k))));
    } else { assert(z[0] == b); }
  }
}
pub proof fn lemma_rt_str(s: Seq<u8>, t: Seq<u8>) ensures (quoted(s) + t)[0] == 34, sdec((quoted(s) + t).skip(1)) == Some((s, t)), jskip(quoted(s) + t, true) == Some(t), jskip(quoted(s) + t, false) == Some(t)
{ let z = quoted(s) + t; let y = esc(s) + seq![34u8] + t; assert(z =~= seq![34u8] + y); assert(z.skip(1) =~= y); lemma_sdec_esc(s, t); lemma_ws1(z); lemma_sdec_sskip(y, true); lemma_sdec_sskip(y, false); reveal(jskip); }
/// integers
proof fn lemma_dval(s: Seq<u8>) ensures dval(s) == dnum(s) decreases s.len() { if s.len() > 0 { lemma_dval(s.drop_last()); } }
pub proof fn lemma_rt_uint(n: nat, t: Seq<u8>) requires t.len() == 0 || !dig(t[0]) ensures uint_at(dec(n) + t) == Some((n, dec(n).len() as int)), dig((dec(n) + t)[0])
{
  let d = dec(n); let z = d + t; lemma_dec(n); lemma_dval(d); lemma_cut(d, t);
  assert forall|i: int| 0 <= i < d.len() implies dig(#[trigger] z[i]) by { assert(z[i] == d[i]); assert(digit(d[i])); }
  lemma_drun(z, d.len() as int); assert(z[0] == d[0]); assert(dig(z[0]));
}
pub proof fn lemma_rt_int(v: int, t: Seq<u8>) requires t.len() == 0 || !dig(t[0]) ensures int_at(idec(v) + t) == Some((v, idec(v).len() as int)), (idec(v) + t)[0] == 45 || dig((idec(v) + t)[0]), v >= 0 ==> uint_at(idec(v) + t) == Some((v as nat, idec(v).len() as int))
{
  let z = idec(v) + t;
  if v < 0 { let d = dec((-v) as nat); lemma_dec((-v) as nat); assert(z.skip(1) =~= d + t); lemma_rt_uint((-v) as nat, t); } else { lemma_rt_uint(v as nat, t); }
}
/// byte strings: hexadecimal
proof fn lemma_hexs_add(a: Seq<u8>, b: Seq<u8>) ensures hexs(a + b) == hexs(a) + hexs(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); assert(hexs(a) + hexs(b) =~= hexs(a)); } else { lemma_hexs_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(hexs(a) + (hexs(b.drop_last()) + hex2(b.last())) =~= (hexs(a) + hexs(b.drop_last())) + hex2(b.last())); } }
pub proof fn lemma_hexdec_hexs(s: Seq<u8>, t: Seq<u8>) ensures hexdec(hexs(s) + seq![34u8] + t) == Some((s, t)) decreases s.len()
{
  let z = hexs(s) + seq![34u8] + t; reveal(hexdec);
  if s.len() == 0 { assert(z =~= seq![34u8] + t); assert(z.skip(1) =~= t); assert(s =~= Seq::<u8>::empty()); }
  else {
    let b = s[0]; let r = s.skip(1); let y = hexs(r) + seq![34u8] + t; assert(s =~= seq![b] + r); lemma_hexs_add(seq![b], r); assert(seq![b].drop_last() =~= Seq::<u8>::empty()); reveal_with_fuel(hexs, 2); assert(hexs(seq![b]) =~= hex2(b));
    lemma_hexdec_hexs(r, t); assert(z =~= hex2(b) + y); lemma_cut(hex2(b), y); let h = (hexd(b as int / 16), hexd(b as int % 16)); assert(z[0] == h.0 && z[1] == h.1); assert(hx(h.0) * 16 + hx(h.1) == b); assert(seq![b] + r =~= s);
  }
}
pub proof fn lemma_rt_hex(s: Seq<u8>, t: Seq<u8>) ensures ({ let z = vp_jg::hex_text(s) + t; z[0] == 34 && hexdec(z.skip(1)) == Some((s, t)) })
{ let z = vp_jg::hex_text(s) + t; let y = hexs(s) + seq![34u8] + t; assert(z =~= seq![34u8] + y); assert(z.skip(1) =~= y); lemma_hexdec_hexs(s, t); }
/// byte strings: Base64
proof fn lemma_b64_mod(n: int) requires n >= 0 ensures b64len(n) % 4 != 1 { }
pub proof fn lemma_rt_b64(s: Seq<u8>, t: Seq<u8>) ensures ({ let z = vp_jg::b64_text(s) + t; z[0] == 34 && b64dec(z.skip(1)) == Some((s, t)) && b64must(z.skip(1)) })
{
  let z = vp_jg::b64_text(s) + t; let q = seq![34u8] + t; let y = b64(s) + q; assert(z =~= seq![34u8] + y); assert(z.skip(1) =~= y);
  lemma_b64_rt(s, q); lemma_cut(b64(s), q); assert(q.skip(1) =~= t); assert(erun(q) == 0);
  lemma_b64_mod(s.len() as int);
}
/// byte strings: arrays of numbers
proof fn lemma_alist_front(b: u8, r: Seq<u8>) ensures vp_jg::alist(seq![b] + r) == dec(b as nat) + (if r.len() == 0 { Seq::<u8>::empty() } else { seq![44u8] + vp_jg::alist(r) }) decreases r.len()
{
  let s = seq![b] + r; let e = Seq::<u8>::empty();
  if r.len() == 0 { assert(s.drop_last() =~= e); assert(vp_jg::alist(e) =~= e); assert(s.last() == b); assert(vp_jg::alist(s) =~= dec(b as nat) + e); }
  else {
    let r1 = r.drop_last(); lemma_alist_front(b, r1); assert(s.drop_last() =~= seq![b] + r1); assert(s.last() == r.last());
    if r1.len() == 0 { assert(vp_jg::alist(r1) =~= e); assert(vp_jg::alist(r) =~= dec(r.last() as nat)); }
    assert(vp_jg::alist(s) =~= dec(b as nat) + (seq![44u8] + vp_jg::alist(r)));
  }
}
proof fn lemma_arrels_alist(v: Seq<u8>, t: Seq<u8>) requires v.len() > 0 ensures arrels(vp_jg::alist(v) + seq![93u8] + t) == Some((v, t)), dig((vp_jg::alist(v) + seq![93u8] + t)[0]) decreases v.len()
{
  let b = v[0]; let r = v.skip(1); let z = vp_jg::alist(v) + seq![93u8] + t; assert(v =~= seq![b] + r); lemma_alist_front(b, r);
  let y = if r.len() == 0 { seq![93u8] + t } else { seq![44u8] + (vp_jg::alist(r) + seq![93u8] + t) };
  assert(z =~= dec(b as nat) + y); lemma_rt_uint(b as nat, y); lemma_cut(dec(b as nat), y); lemma_ws1(z); lemma_ws1(y); lemma_dec(b as nat);
  reveal(arrels);
  if r.len() == 0 { assert(y.skip(1) =~= t); assert(v =~= seq![b]); } else { lemma_arrels_alist(r, t); assert(y.skip(1) =~= vp_jg::alist(r) + seq![93u8] + t); }
}
pub proof fn lemma_rt_arr(v: Seq<u8>, t: Seq<u8>) ensures ({ let z = vp_jg::arr_text(v) + t; z[0] == 91 && adec(z.skip(1)) == Some((v, t)) })
{
  let z = vp_jg::arr_text(v) + t; let y = vp_jg::alist(v) + seq![93u8] + t; assert(z =~= seq![91u8] + y); assert(z.skip(1) =~= y);
  if v.len() == 0 { assert(y =~= seq![93u8] + t); lemma_ws1(y); assert(y.skip(1) =~= t); assert(v =~= Seq::<u8>::empty()); } else { lemma_arrels_alist(v, t); lemma_ws1(y); }
}
/// literals
pub proof fn lemma_rt_lit(t: Seq<u8>) ensures lit(lnull() + t, lnull()), lit(ltrue() + t, ltrue()), lit(lfalse() + t, lfalse()), (lnull() + t).skip(4) == t, (ltrue() + t).skip(4) == t, (lfalse() + t).skip(5) == t
{ lemma_cut(lnull(), t); lemma_cut(ltrue(), t); lemma_cut(lfalse(), t); }
// one step of each reader
proof fn lemma_els1(v: Seq<u8>, s: Seq<u8>, m: bool) requires v.len() > 0, !ws(v[0]), v[0] != 93, v[0] != 44, jskip(v, m) == Some(s), s.len() < v.len()
  ensures jels(v, true, m) == jels(s, false, m), jels(seq![44u8] + v, false, m) == jels(s, false, m)
{ let w = seq![44u8] + v; lemma_ws1(v); lemma_ws1(w); assert(w.skip(1) =~= v); assert(shorter(jskip(v, m), v.len())); reveal(jskip); reveal(jels); reveal(jkey); reveal(jents); }
proof fn lemma_els_end(t: Seq<u8>, f: bool, m: bool) ensures jels(seq![93u8] + t, f, m) == Some(t)
{ let w = seq![93u8] + t; lemma_ws1(w); assert(w.skip(1) =~= t); reveal(jskip); reveal(jels); reveal(jkey); reveal(jents); }
proof fn lemma_ents1(v: Seq<u8>, k: Seq<u8>, s: Seq<u8>, m: bool) requires v.len() > 0, v[0] == 34, jkey(v, m) == Some(k), k.len() < v.len(), jskip(k, m) == Some(s), s.len() < k.len()
  ensures jents(v, true, m) == jents(s, false, m), jents(seq![44u8] + v, false, m) == jents(s, false, m)
{ let w = seq![44u8] + v; lemma_ws1(v); lemma_ws1(w); assert(w.skip(1) =~= v); assert(shorter(jkey(v, m), v.len()) && shorter(jskip(k, m), k.len())); reveal(jskip); reveal(jels); reveal(jkey); reveal(jents); }
proof fn lemma_ents_end(t: Seq<u8>, f: bool, m: bool) ensures jents(seq![125u8] + t, f, m) == Some(t)
{ let w = seq![125u8] + t; lemma_ws1(w); assert(w.skip(1) =~= t); reveal(jskip); reveal(jels); reveal(jkey); reveal(jents); }
proof fn lemma_key1(q: Seq<u8>, v: Seq<u8>, m: bool) requires valid_utf8(q) ensures jkey(quoted(q) + (seq![58u8] + v), m) == Some(v)
{ let c = seq![58u8] + v; lemma_rt_str(q, c); lemma_ws1(c); assert(c.skip(1) =~= v); reveal(jskip); reveal(jels); reveal(jkey); reveal(jents); }
proof fn lemma_sk_lit(z: Seq<u8>, m: bool) requires z.len() > 0, !ws(z[0])
  ensures lit(z, lnull()) && z[0] == 110 ==> jskip(z, m) == Some(z.skip(4)), lit(z, ltrue()) && z[0] == 116 ==> jskip(z, m) == Some(z.skip(4)), lit(z, lfalse()) && z[0] == 102 ==> jskip(z, m) == Some(z.skip(5)),
    dig(z[0]) || z[0] == 45 ==> jskip(z, m) == Some(z.skip(nrun(z) as int)), z[0] == 91 ==> jskip(z, m) == jels(z.skip(1), true, m), z[0] == 123 ==> jskip(z, m) == jents(z.skip(1), true, m)
{ lemma_ws1(z); reveal(jskip); reveal(jels); reveal(jkey); reveal(jents); }
/// the whole grammar: whatever the serializer writes as one value, a reader of the deserializer takes as one value and stops right after it, at any nesting depth
pub open spec fn stop(t: Seq<u8>) -> bool { t.len() == 0 || !nch(t[0]) }
proof fn lemma_jnum_nch(a: Seq<u8>) requires jnum(a) ensures a.len() > 0, forall|i: int| 0 <= i < a.len() ==> nch(#[trigger] a[i]), dig(a[0]) || a[0] == 45
{ reveal(jnum); let (neg, i, f, e) = choose|neg: bool, i: Seq<u8>, f: Seq<u8>, e: Seq<u8>| jint(i) && jfrac(f) && jexp(e) && a == #[trigger] num4(neg, i, f, e);
  let p = if neg { seq![45u8] } else { Seq::<u8>::empty() };
  assert forall|k: int| 0 <= k < f.len() implies nch(#[trigger] f[k]) by { if k > 0 { assert(f.skip(1)[k - 1] == f[k]); assert(digit(f.skip(1)[k - 1])); } }
  assert forall|k: int| 0 <= k < e.len() implies nch(#[trigger] e[k]) by { if k > 1 { if digits(e.skip(1)) { assert(e.skip(1)[k - 1] == e[k]); assert(digit(e.skip(1)[k - 1])); } else { assert(e.skip(2)[k - 2] == e[k]); assert(digit(e.skip(2)[k - 2])); } } else if k == 1 { if digits(e.skip(1)) { assert(e.skip(1)[0] == e[1]); assert(digit(e.skip(1)[0])); } } }
  assert(digit(i[0]));
  assert forall|k: int| 0 <= k < a.len() implies nch(#[trigger] a[k]) by { let (l1, l2, l3) = (p.len() as int, (p + i).len() as int, (p + i + f).len() as int); if k < l1 { assert(a[k] == p[k]); } else if k < l2 { assert(a[k] == i[k - l1]); assert(digit(i[k - l1])); } else if k < l3 { assert(a[k] == f[k - l2]); } else { assert(a[k] == e[k - l3]); } }
  if neg { assert(a[0] == 45); } else { assert(a[0] == i[0]); } }
proof fn lemma_jone_first(a: Seq<u8>) requires vp_jg::jone(a) ensures a.len() > 0, !ws(a[0]), a[0] != 93, a[0] != 125, a[0] != 44
{ reveal(vp_jg::jone); reveal(vp_jg::jlist); reveal(vp_jg::jent); reveal(vp_jg::jents); if jnum(a) { lemma_jnum_nch(a); } else if is_jstr(a) { reveal(is_jstr); } }
pub proof fn lemma_rt_jone(a: Seq<u8>, t: Seq<u8>, m: bool) requires vp_jg::jone(a), stop(t) ensures jskip(a + t, m) == Some(t) decreases a.len(), 0int
{
  let z = a + t; lemma_jone_first(a); assert(z[0] == a[0]); lemma_ws1(z);
  reveal(vp_jg::jone); reveal(vp_jg::jlist); reveal(vp_jg::jent); reveal(vp_jg::jents);
  lemma_rt_lit(t);
  if a == lnull() || a == ltrue() || a == lfalse() { lemma_sk_lit(z, m); }
  else if jnum(a) { lemma_jnum_nch(a); assert forall|i: int| 0 <= i < a.len() implies nch(#[trigger] z[i]) by { assert(z[i] == a[i]); } lemma_nrun(z, a.len() as int); lemma_cut(a, t); lemma_sk_lit(z, m); }
  else if is_jstr(a) { reveal(is_jstr); let s = choose|s: Seq<u8>| valid_utf8(s) && a == #[trigger] quoted(s); lemma_rt_str(s, t); }
  else {
    let b = a.subrange(1, a.len() - 1); let c = seq![a.last()]; let s = c + t; assert(z.skip(1) =~= b + s); assert(s.skip(1) =~= t); lemma_ws1(s);
    if a[0] == 91 { let n = choose|n: nat| vp_jg::cnt(n) && vp_jg::jlist(b, n); lemma_els_end(t, true, m); lemma_els_end(t, false, m); lemma_rt_list(b, n, s, t, m); }
    else { let n = choose|n: nat| vp_jg::cnt(n) && vp_jg::jents(b, n); lemma_ents_end(t, true, m); lemma_ents_end(t, false, m); lemma_rt_ents(b, n, s, t, m); }
    lemma_sk_lit(z, m);
  }
}
/// n elements before a rest that closes the list
proof fn lemma_rt_list(b: Seq<u8>, n: nat, s: Seq<u8>, t: Seq<u8>, m: bool)
  requires vp_jg::jlist(b, n), s.len() > 0, s[0] == 44 || s[0] == 93, n == 0 ==> s[0] == 93, jels(s, false, m) == Some(t), n == 0 ==> jels(s, true, m) == Some(t) ensures jels(b + s, true, m) == Some(t) decreases b.len(), 1int
{
  reveal(vp_jg::jone); reveal(vp_jg::jlist); reveal(vp_jg::jent); reveal(vp_jg::jents);
  let z = b + s;
  if n == 0 { assert(z =~= s); }
  else if n == 1 { lemma_jone_first(b); lemma_rt_jone(b, s, m); assert(z[0] == b[0]); lemma_els1(z, s, m); }
  else {
    let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == 44 && vp_jg::jlist(b.take(i), (n - 1) as nat) && vp_jg::jone(b.skip(i + 1));
    let c = b.take(i); let x = b.skip(i + 1); let y = x + s; let w = seq![44u8] + y; lemma_jone_first(x); lemma_rt_jone(x, s, m); assert(y[0] == x[0]); lemma_els1(y, s, m);
    assert(z =~= c + w); lemma_rt_list(c, (n - 1) as nat, w, t, m);
  }
}
proof fn lemma_rt_ent(x: Seq<u8>, s: Seq<u8>, m: bool) requires vp_jg::jent(x), s.len() > 0, s[0] == 44 || s[0] == 125
  ensures x.len() > 0, x[0] == 34, jents(x + s, true, m) == jents(s, false, m), jents(seq![44u8] + (x + s), false, m) == jents(s, false, m) decreases x.len(), 1int
{
  reveal(vp_jg::jone); reveal(vp_jg::jlist); reveal(vp_jg::jent); reveal(vp_jg::jents); reveal(is_jstr);
  let i = choose|i: int| 0 <= i < x.len() && #[trigger] x[i] == 58 && is_jstr(x.take(i)) && vp_jg::jone(x.skip(i + 1));
  let q = choose|q: Seq<u8>| valid_utf8(q) && x.take(i) == #[trigger] quoted(q); let v = x.skip(i + 1); let k = v + s; let y = x + s;
  assert(y =~= quoted(q) + (seq![58u8] + k)); assert(x.take(i)[0] == x[0]); lemma_key1(q, k, m); lemma_rt_jone(v, s, m); lemma_jone_first(v); lemma_ents1(y, k, s, m);
}
proof fn lemma_rt_ents(b: Seq<u8>, n: nat, s: Seq<u8>, t: Seq<u8>, m: bool)
  requires vp_jg::jents(b, n), s.len() > 0, s[0] == 44 || s[0] == 125, n == 0 ==> s[0] == 125, jents(s, false, m) == Some(t), n == 0 ==> jents(s, true, m) == Some(t) ensures jents(b + s, true, m) == Some(t) decreases b.len(), 2int
{
  reveal(vp_jg::jone); reveal(vp_jg::jlist); reveal(vp_jg::jent); reveal(vp_jg::jents);
  let z = b + s;
  if n == 0 { assert(z =~= s); }
  else if n == 1 { lemma_rt_ent(b, s, m); }
  else {
    let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == 44 && vp_jg::jents(b.take(i), (n - 1) as nat) && vp_jg::jent(b.skip(i + 1));
    let c = b.take(i); let x = b.skip(i + 1); let y = x + s; let w = seq![44u8] + y; lemma_rt_ent(x, s, m);
    assert(z =~= c + w); lemma_rt_ents(c, (n - 1) as nat, w, t, m);
  }
}
} // vp_rt
