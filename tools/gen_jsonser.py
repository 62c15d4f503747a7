#!/usr/bin/env python3
# writes contracts/json_ser.spec from contracts/json_ser.head (the contracts of the two serializers are listed here)
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = []
w = o.append
w(open(f"{V}/contracts/json_ser.head").read())
OV, NV = "old(self).output.view()", "final(self).output.view()"
A = f"added({OV}, {NV})"
X = f"ext({OV}, {NV})"
P = "Serializer for &mut Serializer::"
K = "Serializer for KeySer::"
def bs(t): return "seq![" + ", ".join(f"{c}u8" for c in t.encode()) + "]"
def leaf(pred, tags, err="!final(self).output.alive()"):
    return f"""  ensures
    r is Ok ==> final(self).output.alive() && {X} && {pred}, // {tags}
    {'r is Err ==> ' + err + ', // ' + tags + ' #C09' if err else 'true,'}
    {X}, // #C09"""
def tail(path, body): w(f"@@at tail :: {path}\nproof {{ if vp_r is Ok {{ {body} }} }}")
# ---------------------------------------------------------------- inherent
FLS = [("to_writer", "to_string", 0), ("to_writer_hex_bytes", "to_string_hex_bytes", 1), ("to_writer_base64_bytes", "to_string_base64_bytes", 2), ("to_writer_pass_bytes", "to_string_pass_bytes", 3)]
w(f"""@@fn to_writer_with_encoder [C06,C08,C09]
  requires writer.alive(),
  ensures r is Ok ==> ext(writer.view(), last(writer)) && jone(added(writer.view(), last(writer))), // #C06
    r is Ok ==> ser_text(value, B::fl(), added(writer.view(), last(writer))), // #C06 #C08
@@at tail :: to_writer_with_encoder
proof {{ assume(last(writer) == serializer.output.view()); }}""")
for (f, g, k) in FLS:
    w(f"""@@fn {f} [C06,C08,C09]
  requires writer.alive(),
  ensures {'r is Ok ==> jone(added(writer.view(), last(writer))), // #C06' if k < 3 else 'true,'}
    r is Ok ==> ext(writer.view(), last(writer)) && ser_text(value, {k}, added(writer.view(), last(writer))), // #C06 #C08""")
    if k < 3: w(f"""@@fn {g} [C06,C05,C08]
  ensures r is Ok ==> jone(encode_utf8(r->Ok_0@)), // #C06
    r is Ok ==> ser_text(value, {k}, encode_utf8(r->Ok_0@)), // #C06 #C08
@@at end :: {g}
proof {{ assert(vec.v@ =~= added(Seq::<u8>::empty(), vec.v@)) by {{ reveal(added); }} lemma_jone_utf8(vec.v@); }}""")
    else: w(f"""@@fn {g} [C06,C05,C08]
  ensures r is Ok ==> ser_text(value, {k}, encode_utf8(r->Ok_0@)), // #C06 #C08
@@at end :: {g}
proof {{ assert(vec.v@ =~= added(Seq::<u8>::empty(), vec.v@)) by {{ reveal(added); }} }}""")
w(f"""@@fn Serializer::new
  ensures r.output == output,
@@fn Serializer::into_inner
  ensures r == self.output,
@@fn Serializer::writer
  ensures *r == old(self).output, final(self).output == *final(r),
@@fn Serializer::writer_ref
  ensures *r == self.output,
@@fn hex [C05,C08]
  ensures r@ == hex2(c), // #C05 #C08
@@at begin :: hex
proof {{ lemma_hexbits(c); }}
@@at tail :: hex
proof {{ assert(vp_r@ =~= hex2(c)); }}
@@fn Serializer::serialize_bytes_as_hex_str [C08,C09,C27]
  requires old(self).output.alive(),
{leaf(f"{A} == hexs(v@)", "#C08 #C27")}
@@at begin :: Serializer::serialize_bytes_as_hex_str
let ghost vp_o = self.output.view(); let ghost vp_w0 = self.output; let ghost mut vp_j = 0int;
proof {{ assert(ext(vp_o, vp_o)); assert(hexs(v@.take(0)) =~= Seq::<u8>::empty()); }}
@@at beforeloop 0 :: Serializer::serialize_bytes_as_hex_str
let ghost vp_wr = writer;
@@loop Serializer::serialize_bytes_as_hex_str 0
  invariant writer.alive(), ext(vp_o, writer.view()), vp_s0@ == v@, added(vp_o, writer.view()) == hexs(v@.take(vp_i0 as int)), *final(vp_wr) == *final(writer),
  decreases vp_s0@.len() - vp_i0
@@at loopbegin 0 :: Serializer::serialize_bytes_as_hex_str
let ghost vp_m = writer.view();
proof {{ assert(v@.take(vp_i0 as int).drop_last() =~= v@.take(vp_i0 - 1)); }}
@@at afterloop 0 :: Serializer::serialize_bytes_as_hex_str
proof {{ assert(v@.take(v@.len() as int) =~= v@); }}
@@fn format_escaped_str_contents [C05,C06,C09,C27]
  requires old(writer).alive(),
  ensures r is Ok ==> final(writer).alive() && ext(old(writer).view(), final(writer).view()) && added(old(writer).view(), final(writer).view()) == esc(value.spec_bytes()), // #C05 #C27
    r is Err ==> !final(writer).alive(), // #C05 #C09
    ext(old(writer).view(), final(writer).view()), // #C09
@@at begin :: format_escaped_str_contents
let ghost vp_o = writer.view(); let ghost vp_b = value.spec_bytes();
proof {{ lemma_boundary_ends(vp_b); lemma_esc_empty(); assert(vp_b.take(0) =~= Seq::<u8>::empty()); assert forall|k: int| 0 <= k < 32 implies e1(k as u8) == (if #[trigger] vp_tab_ESCAPE(k) == 117 {{ seq![92u8, 117u8, 48u8, 48u8] + hex2(k as u8) }} else {{ seq![92u8, vp_tab_ESCAPE(k)] }}) by {{ assert(e1(k as u8) =~= (if vp_tab_ESCAPE(k) == 117 {{ seq![92u8, 117u8, 48u8, 48u8] + hex2(k as u8) }} else {{ seq![92u8, vp_tab_ESCAPE(k)] }})); }} }}
@@loop format_escaped_str_contents 0
  invariant writer.alive(), ext(vp_o, writer.view()), vp_b == value.spec_bytes(), valid_utf8(vp_b), vp_s0@ == vp_b, bytes@ == vp_b, start <= vp_i0, is_char_boundary(vp_b, start as int), vp_o == old(writer).view(),
    added(vp_o, writer.view()) == esc(vp_b.take(start as int)), forall|k: int| start <= k < vp_i0 ==> plain1(#[trigger] vp_b[k]), vp_b.len() <= isize::MAX,
    forall|k: int| 0 <= k < 32 ==> e1(k as u8) == (if #[trigger] vp_tab_ESCAPE(k) == 117 {{ seq![92u8, 117u8, 48u8, 48u8] + hex2(k as u8) }} else {{ seq![92u8, vp_tab_ESCAPE(k)] }}),
  decreases vp_s0@.len() - vp_i0
@@at loopbegin 0 :: format_escaped_str_contents
let ghost vp_m = writer.view(); let ghost vp_st = start as int; let ghost vp_k = vp_i0 - 1;
proof {{ lemma_hexbits(vp_b[vp_k]); lemma_esc_step(vp_b, vp_st, vp_k); if vp_b[vp_k] < 0x80 {{ lemma_boundary(vp_b, vp_k); }} assert(vp_st == vp_k ==> vp_b.subrange(vp_st, vp_k) =~= Seq::<u8>::empty()); assert(vp_b[vp_k] == 34 || vp_b[vp_k] == 92 ==> e1(vp_b[vp_k]) =~= seq![92u8, vp_b[vp_k]]); }}
@@at loopend 0 :: format_escaped_str_contents
proof {{ let x = added(vp_m, writer.view()); assert(x =~= vp_b.subrange(vp_st, vp_k) + e1(vp_b[vp_k])); assert(added(vp_o, writer.view()) =~= esc(vp_b.take(vp_st)) + x); assert(esc(vp_b.take(vp_st)) + x =~= esc(vp_b.take(vp_st)) + vp_b.subrange(vp_st, vp_k) + e1(vp_b[vp_k])); }}
@@at afterloop 0 :: format_escaped_str_contents
proof {{ let n = vp_b.len() as int; lemma_esc_step(vp_b, start as int, n); assert(vp_b.take(n) =~= vp_b); assert(start == n ==> vp_b.subrange(start as int, n) =~= Seq::<u8>::empty()); }}
""")
# ---------------------------------------------------------------- byte encoders
w(f"""@@fn ByteEncoder::serialize_bytes
  requires old(ser).output.alive(),
  ensures r is Ok ==> final(ser).output.alive() && ext(old(ser).output.view(), final(ser).output.view()) && added(old(ser).output.view(), final(ser).output.view()) == Self::enc(v@) && (Self::fine(v@) ==> jone(added(old(ser).output.view(), final(ser).output.view()))), // #C08 #C06 #C27
""")
for e in ("ArrayByteEncoder", "HexStrByteEncoder", "Base64ByteEncoder", "PassThroughByteEncoder"):
    f = f"ByteEncoder for {e}::serialize_bytes"
    w(f"@@fn {f} [C08,C06,C09,C27]")
    if e != "ArrayByteEncoder":
        w(f"  ensures r is Err ==> !final(ser).output.alive(), ext(old(ser).output.view(), final(ser).output.view()), // #C08 #C09")
    g = "let a = added(old(ser).output.view(), ser.output.view());"
    if e == "HexStrByteEncoder": w(f"@@at tail :: {f}\nproof {{ if vp_r is Ok {{ {g} lemma_hexs_plain(v@); lemma_plain_quoted(hexs(v@)); assert(a =~= hex_text(v@)); }} }}")
    if e == "Base64ByteEncoder": w(f"@@at tail :: {f}\nproof {{ if vp_r is Ok {{ {g} lemma_b64_plain(v@); lemma_plain_quoted(b64(v@)); assert(a =~= b64_text(v@)); }} }}")
f = "ByteEncoder for ArrayByteEncoder::serialize_bytes"
w(f"@@outline {f} :: ByteEncoder::serialize_bytes")
w(f"""@@attr {f} :: #[verifier::exec_allows_no_decreases_clause]
@@at begin :: {f}
let ghost vp_o = ser.output.view(); let ghost mut vp_m = vp_o; let ghost mut vp_n = vp_o;
proof {{ assert(alist(v@.take(0)) =~= Seq::<u8>::empty()); }}
@@at beforeloop 0 :: {f}
let ghost vp_seq0 = seq; proof {{ vp_m = seq.ser.output.view(); assert(ext(vp_m, vp_m)); }}
@@loop {f} 0
  invariant seq.ser.output.alive(), ext(vp_o, vp_m), added(vp_o, vp_m) == seq![91u8], ext(vp_m, seq.ser.output.view()), vp_s0@ == v@, added(vp_m, seq.ser.output.view()) == alist(v@.take(vp_i0 as int)), *final(vp_seq0.ser) == *final(seq.ser), seq.first == (vp_i0 == 0), vp_o == old(ser).output.view(),
  decreases vp_s0@.len() - vp_i0
@@at loopbegin 0 :: {f}
let ghost vp_k = seq.ser.output.view();
@@at loopend 0 :: {f}
proof {{ let i = vp_i0 - 1; let a = added(vp_k, seq.ser.output.view()); assert(v@.take(vp_i0 as int).drop_last() =~= v@.take(i)); lemma_sep(a, i == 0); assert(added(vp_m, seq.ser.output.view()) =~= added(vp_m, vp_k) + a); assert(alist(v@.take(i)) + comma(i as nat) + dec(v@[i] as nat) =~= alist(v@.take(i)) + a); }}
@@at afterloop 0 :: {f}
proof {{ assert(v@.take(v@.len() as int) =~= v@); vp_n = seq.ser.output.view(); lemma_alist_jlist(v@); lemma_arr(alist(v@), v@.len()); }}
@@at tail :: {f}
proof {{ if vp_r is Ok {{ let z = final(ser).output.view(); lemma_ext3(vp_o, vp_m, vp_n, z); assert(added(vp_o, z) =~= arr_text(v@)); }} }}
""")
# ---------------------------------------------------------------- the value serializer
w(f"@@impl Serializer for &mut Serializer\n")
w(f"@@fn {P}serialize_bool [C06,C27,C09]\n" + leaf(f"{A} == (if v {{ {bs('true')} }} else {{ {bs('false')} }})", "#C06 #C27"))
tail(P + "serialize_bool", f"assert({A.replace('final(self)', 'self')} =~= (if v {{ {bs('true')} }} else {{ {bs('false')} }}));")
for n in ("none", "unit"):
    w(f"@@fn {P}serialize_{n} [C06,C27,C09]\n" + leaf(f"{A} == {bs('null')}", "#C06 #C27"))
tail(P + "serialize_none", f"assert({A.replace('final(self)', 'self')} =~= {bs('null')});")
w(f"@@fn {P}serialize_unit_struct [C06,C27,C09]\n" + leaf(f"{A} == {bs('null')}", "#C06 #C27"))
for t in "i8 i16 i32 i64 u8 u16 u32 u64".split():
    w(f"@@fn {P}serialize_{t} [C04,C27,C09]\n" + leaf(f"{A} == idec(v as int)", "#C04 #C27"))
    w(f"@@at begin :: {P}serialize_{t}\nlet ghost vp_v = v as int; proof {{ lemma_idec_num(vp_v); }}")
for t, N in (("u32", 10), ("u64", 20)):
    f = f"{P}serialize_{t}"
    w(f"""@@at beforeloop 0 :: {f}
proof {{ assert(pow10({N}) == {10**N}nat) by (compute); assert(buf@.skip(i + 1) =~= Seq::<u8>::empty()); assert(dec(v as nat) + buf@.skip(i + 1) =~= dec(v as nat)); }}
@@loop {f} 0
  invariant_except_break i < {N}, v < pow10((i + 1) as nat), dec(vp_v as nat) == dec(v as nat) + buf@.skip(i + 1), 0 <= vp_v,
  invariant *self == *old(self),
  ensures i < {N}, dec(vp_v as nat) == buf@.skip(i as int), 0 <= vp_v,
  decreases v
@@at loopbegin 0 :: {f}
proof {{ lemma_dec_step(v as nat, buf@, buf@.update(i as int, (48 + v % 10) as u8), i as int); assert(pow10((i + 1) as nat) == 10 * pow10(i as nat)); assert(pow10(0) == 1); }}
""")
for t, N in (("i32", 11), ("i64", 20)):
    f = f"{P}serialize_{t}"
    M = N - 1
    w(f"""@@at beforeloop 0 :: {f}
let ghost vp_a = v as nat;
proof {{ assert(pow10({M}) == {10**M}nat) by (compute); assert(vp_a == (if vp_v < 0 {{ -vp_v }} else {{ vp_v }})); assert(buf@.skip(i + 1) =~= Seq::<u8>::empty()); assert(dec(v as nat) + buf@.skip(i + 1) =~= dec(v as nat)); }}
@@loop {f} 0
  invariant_except_break 1 <= i < {N}, v < pow10(i as nat), dec(vp_a) == dec(v as nat) + buf@.skip(i + 1),
  invariant *self == *old(self), signed == (vp_v < 0),
  ensures i < {M}, dec(vp_a) == buf@.skip(i + 1),
  decreases v
@@at loopbegin 0 :: {f}
proof {{ lemma_dec_step(v as nat, buf@, buf@.update(i as int, (48 + v % 10) as u8), i as int); assert(pow10(i as nat) == 10 * pow10((i - 1) as nat)); assert(pow10(0) == 1); }}
@@at afterloop 0 :: {f}
proof {{ assert(buf@.update(i as int, 45u8).skip(i as int) =~= seq![45u8] + buf@.skip(i + 1)); }}
""")
w(f"@@fn {P}serialize_f32 | {P}serialize_f64 [C06,C09]\n" + leaf(f"(v.fin() ==> jnum({A})) && (!v.fin() ==> {A} == {bs('null')})", "#C06"))
w(f"@@fn {P}serialize_char [C05,C27,C09]\n" + leaf(f"{A} == quoted(encode_utf8(seq![v]))", "#C05 #C27"))
for n, a in (("str", "v"), ("unit_variant", "variant")):
    w(f"@@fn {P}serialize_{n} [C05,C06,C27,C09]\n" + leaf(f"{A} == quoted({a}.spec_bytes())", "#C05 #C06 #C27"))
w(f"""@@at tail :: {P}serialize_str
proof {{ if vp_r is Ok {{ assert(added({OV}, self.output.view()) =~= quoted(v.spec_bytes())); }} }}""")
w(f"""@@fn {P}serialize_bytes [C08,C27,C09]
  ensures r is Ok ==> {A} == B::enc(v@), // #C08 #C27
@@attr {P}serialize_bytes :: #[verifier::exec_allows_no_decreases_clause]
@@fn {P}serialize_some | {P}serialize_newtype_struct [C06,C27,C09]
""")
KV = "quoted(variant.spec_bytes())"
w(f"""@@fn {P}serialize_newtype_variant [C06,C27,C09]
  ensures
    r is Ok ==> ({{ let a = {A}; let k = {KV}.len() as int; a.len() >= k + 3 && a[0] == 123 && a.subrange(1, 1 + k) == {KV} && a[1 + k] == 58 && a.last() == 125 && jone(a.subrange(2 + k, a.len() - 1)) }}), // #C06 #C27
@@at before "value.serialize" :: {P}serialize_newtype_variant
let ghost vp_m = self.output.view(); proof {{ assert(added({OV}, vp_m) =~= seq![123u8] + {KV} + seq![58u8]); }}
@@at after "value.serialize" :: {P}serialize_newtype_variant
let ghost vp_n = self.output.view();
@@at tail :: {P}serialize_newtype_variant
proof {{ if vp_r is Ok {{ let o = {OV}; let z = self.output.view(); let x = added(vp_m, vp_n); lemma_ext3(o, vp_m, vp_n, z); lemma_variant({KV}, x); let a = added(o, z); let k = {KV}.len() as int;
  assert(a =~= seq![123u8] + {KV} + seq![58u8] + x + seq![125u8]); assert(a.subrange(1, 1 + k) =~= {KV}); assert(a.subrange(2 + k, a.len() - 1) =~= x); }} }}""")
def opened(text): return f"r->Ok_0.ser.output.alive() && ext({OV}, r->Ok_0.ser.output.view()) && added({OV}, r->Ok_0.ser.output.view()) == {text} && r->Ok_0.first && *final(r->Ok_0.ser) == *final(self)"
for ns, text in ((("seq", "tuple", "tuple_struct"), bs("[")), (("map", "struct"), bs("{")), (("tuple_variant",), f"{bs('{')} + {KV} + {bs(':[')}"), (("struct_variant",), f"{bs('{')} + {KV} + {bs(':{')}")):
    for n in ns:
        w(f"""@@fn {P}serialize_{n} [C06,C27,C09]
  ensures
    r is Ok ==> {opened(text)}, // #C06 #C27
    r is Err ==> !final(self).output.alive(), // #C06 #C09""")
        if n.endswith("variant"):
            w(f"@@at tail :: {P}serialize_{n}\nproof {{ assert(added({OV}, vp_r->Ok_0.ser.output.view()) =~= {text}); }}")
w(f"""@@fn {P}collect_str [C05,C27,C09]
  ensures
    r is Ok ==> final(self).output.alive() && {X} && exists|b: Seq<u8>| value.shows(b) && valid_utf8(b) && {A} == #[trigger] quoted(b), // #C05 #C27
    {X}, // #C09
@@at begin :: {P}collect_str
let ghost vp_o = self.output.view();
@@at before "let mut col" :: {P}collect_str
let ghost vp_m = self.output.view();
@@at tail :: {P}collect_str
proof {{ if vp_r is Ok {{
  let z = self.output.view();
  assert forall|b: Seq<u8>, n: Seq<u8>| #[trigger] value.shows(b) && ext(vp_m, n) && added(vp_m, n) == esc(b) && ext(n, z) && #[trigger] added(n, z) == seq![34u8] implies added(vp_o, z) == quoted(b) by {{ lemma_ext3(vp_o, vp_m, n, z); assert(added(vp_o, z) =~= quoted(b)); }}
}} }}
@@fn StringCollector::new [C05]
  ensures *r.output == *old(output), *final(r.output) == *final(output),
@@impl Write for StringCollector
  open spec fn f_pre(&self) -> bool {{ self.output.alive() }}
  #[verifier::prophetic] open spec fn f_reach(&self, n: Self, b: Seq<u8>, ok: bool) -> bool {{
    ext(self.output.view(), n.output.view()) && *final(n.output) == *final(self.output) && (ok ==> n.output.alive() && added(self.output.view(), n.output.view()) == esc(b))
  }}
  proof fn f_refl(&self) {{ lemma_esc_empty(); lemma_ext_refl(self.output.view()); }}
  proof fn f_trans(&self, m: Self, n: Self, a: Seq<u8>, b: Seq<u8>, ok: bool) {{ lemma_esc_add(a, b); lemma_ext2(self.output.view(), m.output.view(), n.output.view()); }}
@@fn Write for StringCollector::write_str [C05,C09]
""")
# ---------------------------------------------------------------- the key serializer
KO, KN = "old(self.ser).output.view()", "final(self.ser).output.view()"
KA, KX = f"added({KO}, {KN})", f"ext({KO}, {KN})"
def kleaf(pred, tags): return f"""  ensures
    r is Ok ==> final(self.ser).output.alive() && {KX} && {pred}, // {tags}
    r is Err ==> !final(self.ser).output.alive(), // {tags} #C09
    {KX}, // #C09"""
KO_, KN_ = "old(self.ser).output.view()", "self.ser.output.view()"
w(f"@@fn {K}serialize_bool [C07,C27,C09]\n" + kleaf(f"{KA} == seq![34u8] + (if v {{ {bs('true')} }} else {{ {bs('false')} }}) + seq![34u8]", "#C07 #C27"))
tail(K + "serialize_bool", f"let t = (if v {{ {bs('true')} }} else {{ {bs('false')} }}); lemma_plain_quoted(t); assert(added(vp_o, self.ser.output.view()) =~= seq![34u8] + t + seq![34u8]);")
w(f"@@at begin :: {K}serialize_bool\nlet ghost vp_o = self.ser.output.view();")
for t in "i8 i16 i32 i64 u8 u16 u32 u64".split():
    w(f"@@fn {K}serialize_{t} [C07,C27,C09]\n" + kleaf(f"{KA} == seq![34u8] + idec(v as int) + seq![34u8]", "#C07 #C27"))
    w(f"@@at begin :: {K}serialize_{t}\nlet ghost vp_o = self.ser.output.view();")
    tail(K + "serialize_" + t, f"let t = idec(v as int); lemma_idec_plain(v as int); lemma_plain_quoted(t); assert(added(vp_o, self.ser.output.view()) =~= seq![34u8] + t + seq![34u8]);")
w(f"@@fn {K}serialize_char [C07,C05,C27,C09]\n" + kleaf(f"{KA} == quoted(encode_utf8(seq![v]))", "#C07 #C05 #C27"))
w(f"@@at begin :: {K}serialize_char\nproof {{ encode_utf8_valid_utf8(seq![v]); lemma_quoted_jstr(encode_utf8(seq![v])); }}")
for n, a in (("str", "v"), ("unit_variant", "variant")):
    w(f"@@fn {K}serialize_{n} [C07,C05,C27,C09]\n" + kleaf(f"{KA} == quoted({a}.spec_bytes())", "#C07 #C05 #C27"))
for n in "f32 f64 bytes none some unit unit_struct newtype_variant seq tuple tuple_struct tuple_variant map struct struct_variant".split():
    w(f"@@fn {K}serialize_{n} [C07]\n  ensures r is Err, *final(self.ser) == *old(self.ser), // #C07")
w(f"@@fn {K}serialize_newtype_struct [C07,C27,C09]\n")
w(f"""@@fn {K}collect_str [C07,C05,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && {KX} && exists|b: Seq<u8>| value.shows(b) && valid_utf8(b) && {KA} == #[trigger] quoted(b), // #C07 #C05
    {KX}, // #C09""")
# ---------------------------------------------------------------- compound serializers
OV, NV = "old(self).ser.output.view()", "final(self).ser.output.view()"
SAME = "*final(final(self).ser) == *final(old(self).ser)"
LIVE = f"final(self).ser.output.alive() && ext({OV}, {NV})"
AD = f"added({OV}, {NV})"
S = "SeqMapSerializer"
for tr, m, nm, end, pre, close in [("SerializeSeq", "serialize_element", "serialize_element", "end_seq", "c_pre", "]"),
      ("SerializeTuple", "serialize_element", "serialize_tuple_element", "end_tuple", "ct_pre", "]"),
      ("SerializeTupleStruct", "serialize_field", "serialize_ts_field", "end_ts", "cts_pre", "]"),
      ("SerializeTupleVariant", "serialize_field", "serialize_tv_field", "end_tv", "ctv_pre", "]}"),
      ("SerializeMap", "serialize_key", "serialize_key", "end_map", "cm_pre", "}"),
      ("SerializeMap", "serialize_value", "serialize_value", None, None, None),
      ("SerializeStruct", "serialize_field", "serialize_field", "end_struct", "cs_pre", "}"),
      ("SerializeStructVariant", "serialize_field", "serialize_sv_field", "end_sv", "csv_pre", "}}")]:
    base = f"{tr} for {S}::"
    if nm != m: w(f"@@rename {base}{m} {nm}")
    if end:
        w(f"@@rename {base}end {end}")
        w(f"@@impl {tr} for {S}\n  open spec fn {pre}(&self) -> bool {{ self.ser.output.alive() }}")
        w(f"""@@fn {base}end [C06,C27,C09]
  ensures
    r is Ok ==> final(self.ser).output.alive() && {KX} && {KA} == {bs(close)}, // #C06 #C27
    r is Err ==> !final(self.ser).output.alive(), {KX}, // #C06 #C09""")
        if len(close) > 1:
            w(f"@@at begin :: {base}end\nlet ghost vp_o = self.ser.output.view();")
            w(f"@@at tail :: {base}end\nproof {{ if vp_r is Ok {{ assert(added(vp_o, self.ser.output.view()) =~= {bs(close)}); }} }}")
    f = base + m
    w(f"@@at begin :: {f}\nlet ghost vp_o = self.ser.output.view(); let ghost vp_f0 = self.first;")
    if m == "serialize_value":
        w(f"""@@fn {f} [C06,C27,C09]
  ensures {SAME}, final(self).first == old(self).first,
    r is Ok ==> {LIVE} && {AD}.len() >= 1 && {AD}[0] == 58 && jone({AD}.skip(1)), // #C06 #C27
@@at tail :: {f}
proof {{ if vp_r is Ok {{ let a = added(vp_o, self.ser.output.view()); assert(a.skip(1) =~= added(vp_m, self.ser.output.view())); }} }}
@@at before "value.serialize" :: {f}
let ghost vp_m = self.ser.output.view(); proof {{ assert(added(vp_o, vp_m) =~= seq![58u8]); }}""")
        continue
    if m == "serialize_key": cond = f"is_jstr(sep_x({AD}, old(self).first))"
    elif tr in ("SerializeStruct", "SerializeStructVariant"): cond = f"field_ok(sep_x({AD}, old(self).first), key.spec_bytes())"
    else: cond = f"jone(sep_x({AD}, old(self).first)) && said(sep_x({AD}, old(self).first), value.ev())"
    tg = "#C06 #C07 #C27" if m == "serialize_key" else "#C06 #C27"
    w(f"""@@fn {f} [C06,{'C07,' if m == 'serialize_key' else ''}C27,C09]
  ensures {SAME},
    r is Ok ==> !final(self).first && {LIVE} && sep_ok({AD}, old(self).first) && {cond}, // {tg}""")
    if "field_ok" not in cond:
        w(f"""@@at before "{'key' if m == 'serialize_key' else 'value'}.serialize" :: {f}
let ghost vp_m = self.ser.output.view(); proof {{ assert(ext(vp_o, vp_m)); assert(added(vp_o, vp_m) =~= (if vp_f0 {{ Seq::<u8>::empty() }} else {{ seq![44u8] }})); }}
@@at tail :: {f}
proof {{ if vp_r is Ok {{ let a = added(vp_o, self.ser.output.view()); assert(sep_x(a, vp_f0) =~= added(vp_m, self.ser.output.view())); }} }}""")
    else:
        w(f"""@@at before "key.serialize" :: {f}
let ghost vp_k = self.ser.output.view(); proof {{ assert(ext(vp_o, vp_k)); assert(added(vp_o, vp_k) =~= (if vp_f0 {{ Seq::<u8>::empty() }} else {{ seq![44u8] }})); }}
@@at before "value.serialize" :: {f}
let ghost vp_m = self.ser.output.view(); proof {{ assert(added(vp_k, vp_m) =~= quoted(key.spec_bytes()) + seq![58u8]); }}
@@at tail :: {f}
proof {{ if vp_r is Ok {{ let z = self.ser.output.view(); lemma_ext3(vp_o, vp_k, vp_m, z); lemma_field_pieces(added(vp_o, vp_k), vp_f0, key.spec_bytes(), added(vp_m, z));
  assert(added(vp_o, z) =~= added(vp_o, vp_k) + quoted(key.spec_bytes()) + seq![58u8] + added(vp_m, z)); }} }}""")
import sys; sys.path.insert(0, f"{V}/tools")
try:
    import jsonser_tail; w(jsonser_tail.tail())
except ImportError: pass
open(f"{V}/contracts/json_ser.spec", "w").write("\n".join(o) + "\n")
