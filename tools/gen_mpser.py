#!/usr/bin/env python3
# writes contracts/msgpack_ser.spec (the same contracts are stated for the three serializer flavours, which one macro of the source expands into)
import sys
INTS = "i8 i16 i32 i64 u8 u16 u32 u64".split()
FL = [("CompactSerializer", "compact", "SerializeStructArray"), ("StructMapIdxSerializer", "idx", "SerializeStructIntMap"), ("StructMapStrSerializer", "named", "SerializeStructStrMap")]
o = []
w = o.append
w(open("contracts/msgpack_ser.head").read())
A = "added(old(self).output.view(), final(self).output.view())"
X = "ext(old(self).output.view(), final(self).output.view())"
# value-level postcondition: success exactly when the writer accepted everything
def leaf(pred, tags, extra_err="false"):
    return f"""  ensures
    r is Ok ==> final(self).output.alive() && {X} && {pred}, // {tags}
    r is Ok ==> item({A}), // {tags} #C20
    r is Err ==> !final(self).output.alive() || {extra_err}, // {tags}
    ext(old(self).output.view(), final(self).output.view()), // #C09
"""
for S, tag, C in FL:
    P = f"Serializer for &mut {S}::"
    var = f"is_int({{}}, variant_index as int)" if tag != "named" else "is_strenc({}, variant.spec_bytes())"
    NM = "variant_name"
    vlen = "int_min(variant_index as int)" if tag != "named" else "strenc_len(variant.spec_bytes().len())"
    ivl = f"(1 + {vlen}) as int"
    w(f"@@rename {S}::serialize_struct vp_inh_struct")
    w(f"""@@fn {S}::new
  ensures r.output == output, // #C20
@@fn {S}::into_inner
  ensures r == self.output, // #C20
@@fn {S}::writer_ref
  ensures *r == self.output, // #C20
@@fn {S}::writer
  ensures *r == old(self).output, final(self).output == *final(r), // #C20
@@fn {S}::serialize_variant [C20,C09,C28]
  requires old(self).output.alive(),
  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view())
      && {var.format('added(old(self).output.view(), final(self).output.view())').replace('variant.',NM+'.')}, // #C20 #C28
    r is Err ==> !final(self).output.alive() {'' if tag!='named' else '|| variant_name.spec_bytes().len() > 0xffff_ffff'}, // #C20
    ext(old(self).output.view(), final(self).output.view()), // #C09""")
    if C == "SerializeStructArray": hdr = "is_arrh"
    else: hdr = "is_maph"
    idx0 = " && r->Ok_0.idx == 0" if C == "SerializeStructIntMap" else ""
    def opened(o_, h, ln, fin="final(self)"):
        return f"""r->Ok_0.ser.output.alive() && ext({o_}.output.view(), r->Ok_0.ser.output.view()) && {h}(added({o_}.output.view(), r->Ok_0.ser.output.view()), {ln} as nat) && r->Ok_0.len == {ln} && *final(r->Ok_0.ser) == *{fin}"""
    w(f"""@@fn {S}::serialize_struct [C20,C19,C09]
  requires old(self).output.alive(),
  ensures
    r is Ok ==> {opened('old(self)', hdr, 'len')}{idx0}, // #C20 #C19
    r is Err ==> (!final(self).output.alive() || len > 0xffff_ffff) && ext(old(self).output.view(), final(self).output.view()), // #C20 #C09""")
    w(f"@@impl Serializer for &mut {S}\n")
    w(f"@@fn {P}serialize_bool [C18,C28,C09]\n" + leaf(f"{A} == seq![if v {{ 0xc3u8 }} else {{ 0xc2u8 }}]", "#C18 #C28"))
    for t in INTS:
        w(f"@@fn {P}serialize_{t} [C18,C28,C09]\n" + leaf(f"is_int({A}, v as int)", "#C18 #C28"))
    w(f"@@fn {P}serialize_f32 [C18,C28,C09]\n" + leaf(f"is_f32enc({A}, v)", "#C18 #C28"))
    w(f"@@fn {P}serialize_f64 [C18,C28,C09]\n" + leaf(f"is_f64enc({A}, v)", "#C18 #C28"))
    w(f"@@fn {P}serialize_char [C19,C28,C09]\n" + leaf(f"is_strenc({A}, vstd::utf8::encode_utf8(seq![v]))", "#C19 #C28"))
    w(f"@@fn {P}serialize_str [C19,C28,C09]\n" + leaf(f"is_strenc({A}, v.spec_bytes())", "#C19 #C28", "v.spec_bytes().len() > 0xffff_ffff"))
    w(f"@@fn {P}serialize_bytes [C19,C28,C09]\n" + leaf(f"is_binenc({A}, v@)", "#C19 #C28", "v@.len() > 0xffff_ffff"))
    for n in ("none", "unit"):
        w(f"@@fn {P}serialize_{n} [C18,C28,C09]\n" + leaf(f"{A} == seq![0xc0u8]", "#C18 #C28"))
    w(f"@@fn {P}serialize_unit_struct [C18,C28,C09]\n" + leaf(f"{A} == seq![0xc0u8]", "#C18 #C28"))
    w(f"@@fn {P}serialize_unit_variant [C20,C28,C09]\n" + leaf(var.format(A), "#C20 #C28", "false" if tag != "named" else "variant.spec_bytes().len() > 0xffff_ffff"))
    w(f"@@fn {P}serialize_some | {P}serialize_newtype_struct [C20,C28,C09]\n")
    w(f"""@@fn {P}serialize_newtype_variant [C20,C28,C09]
  ensures
    r is Ok ==> final(self).output.alive() && {X} && variant_form({A}, {vlen}, item({A}.skip({ivl}))) && {var.format(A + f'.subrange(1, {ivl})')}, // #C20 #C28
""")
    w(f"@@at tail :: {P}serialize_newtype_variant\nproof {{ if vp_r is Ok {{ lemma_variant_complete({A}, {vlen}); }} }}")
    lenany = " || len is None"
    w(f"""@@fn {P}serialize_seq [C20,C19,C28,C09]
  ensures
    len is None ==> r is Err && *final(self) == *old(self), // #C20
    r is Ok ==> len is Some && {opened('old(self)', 'is_arrh', 'len->0')}, // #C20 #C19 #C28
    r is Err ==> !final(self).output.alive() || len is None || len->0 > 0xffff_ffff, // #C20
@@fn {P}serialize_tuple | {P}serialize_tuple_struct [C20,C19,C28,C09]
  ensures
    r is Ok ==> {opened('old(self)', 'is_arrh', 'len')}, // #C20 #C19 #C28
    r is Err ==> !final(self).output.alive() || len > 0xffff_ffff, // #C20
@@fn {P}serialize_map [C20,C19,C28,C09]
  ensures
    len is None ==> r is Err && *final(self) == *old(self), // #C20
    r is Ok ==> len is Some && {opened('old(self)', 'is_maph', 'len->0')}, // #C20 #C19 #C28
    r is Err ==> !final(self).output.alive() || len is None || len->0 > 0xffff_ffff, // #C20
@@fn {P}serialize_struct [C20,C19,C28,C09]
  ensures
    r is Ok ==> {opened('old(self)', hdr, 'len')}{idx0}, // #C20 #C19 #C28
    r is Err ==> !final(self).output.alive() || len > 0xffff_ffff, // #C20
""")
    AV = "added(old(self).output.view(), r->Ok_0.ser.output.view())"
    for m, h in (("tuple_variant", "is_arrh"), ("struct_variant", hdr)):
        ix = idx0 if m == "struct_variant" else ""
        w(f"""@@fn {P}serialize_{m} [C20,C19,C28,C09]
  ensures
    r is Ok ==> r->Ok_0.ser.output.alive() && ext(old(self).output.view(), r->Ok_0.ser.output.view()) && r->Ok_0.len == len && *final(r->Ok_0.ser) == *final(self){ix}
      && variant_form({AV}, {vlen}, {h}({AV}.skip({ivl}), len as nat)) && {var.format(AV + f'.subrange(1, {ivl})')}, // #C20 #C19 #C28
""")
    w(f"@@fn {P}collect_str [C19,C28,C09]\n%COLLECT%\n")
    # compound types
    ms = [("SerializeSeq", "serialize_element", "serialize_element", "end_seq", "SerializeSeqMap", "c_pre"),
          ("SerializeTuple", "serialize_element", "serialize_tuple_element", "end_tuple", "SerializeSeqMap", "ct_pre"),
          ("SerializeTupleStruct", "serialize_field", "serialize_ts_field", "end_ts", "SerializeSeqMap", "cts_pre"),
          ("SerializeTupleVariant", "serialize_field", "serialize_tv_field", "end_tv", "SerializeSeqMap", "ctv_pre"),
          ("SerializeMap", "serialize_key", "serialize_key", "end_map", "SerializeSeqMap", "cm_pre"),
          ("SerializeMap", "serialize_value", "serialize_value", None, "SerializeSeqMap", None),
          ("SerializeStruct", "serialize_field", "serialize_field", "end_struct", C, "cs_pre"),
          ("SerializeStructVariant", "serialize_field", "serialize_sv_field", "end_sv", C, "csv_pre")]
    for tr, m, nm, end, ty, pre in ms:
        base = f"{tr} for {ty}::"
        first = (tag == "compact") if ty == "SerializeSeqMap" else True
        if not first: continue
        if nm != m: w(f"@@rename {base}{m} {nm}")
        if end:
            w(f"@@rename {base}end {end}")
            w(f"@@impl {tr} for {ty}\n  open spec fn {pre}(&self) -> bool {{ self.ser.output.alive() }}")
            w(f"""@@fn {base}end [C20]
  ensures r is Ok <==> self.len == 0, *final(self.ser) == *old(self.ser), // #C20""")
        OV, NV = "old(self).ser.output.view()", "final(self).ser.output.view()"
        same = "*final(final(self).ser) == *final(old(self).ser)"
        if m == "serialize_value":
            w(f"""@@fn {base}{m} [C20,C28,C09]
  ensures {same}, final(self).len == old(self).len,
    r is Ok ==> final(self).ser.output.alive() && ext({OV}, {NV}) && item(added({OV}, {NV})), // #C20 #C28""")
        elif ty in ("SerializeSeqMap", "SerializeStructArray"):
            w(f"""@@fn {base}{m} [C20,C28,C09]
  ensures {same},
    old(self).len == 0 ==> r is Err && *final(self).ser == *old(self).ser, // #C20
    r is Ok ==> final(self).len == old(self).len - 1 && final(self).ser.output.alive() && ext({OV}, {NV}) && item(added({OV}, {NV})), // #C20 #C28""")
        else:
            ad = f"added({OV}, {NV})"
            key = f"is_int({ad}.take(int_min(old(self).idx as int) as int), old(self).idx as int) && item({ad}.skip(int_min(old(self).idx as int) as int)) && int_min(old(self).idx as int) <= {ad}.len()" if ty == "SerializeStructIntMap" else \
                  f"is_strenc({ad}.take(strenc_len(key.spec_bytes().len()) as int), key.spec_bytes()) && item({ad}.skip(strenc_len(key.spec_bytes().len()) as int)) && strenc_len(key.spec_bytes().len()) <= {ad}.len()"
            if ty == "SerializeStructStrMap": key = key.replace("key.", "key.")
            ix = " && final(self).idx == (old(self).idx + 1) % 0x1_0000_0000" if ty == "SerializeStructIntMap" else ""
            w(f"""@@fn {base}{m} [C20,C28,C09]
  ensures {same},
    old(self).len == 0 ==> r is Err && *final(self).ser == *old(self).ser, // #C20
    r is Ok ==> final(self).len == old(self).len - 1{ix} && final(self).ser.output.alive() && ext({OV}, {NV})
      && {key}, // #C20 #C28""")
            w(f"@@at tail :: {base}{m}\nproof {{ lemma_take_skip_ext({OV}, {NV}); }}" if False else "")
        if tr in ("SerializeStruct", "SerializeStructVariant"):
            sk = f"{base}skip_field"
            if tr == "SerializeStructVariant" and ty != "SerializeStructStrMap": w(f"@@rename {sk} skip_sv_field")
            if ty == "SerializeStructArray":
                w(f"""@@fn {sk} [C20]
  ensures r is Ok <==> old(self).len == 0, *final(self) == *old(self), // #C20""")
            elif ty == "SerializeStructIntMap":
                w(f"""@@fn {sk} [C20]
  ensures r is Ok, final(self).len == old(self).len, *final(self).ser == *old(self).ser, final(self).idx == (old(self).idx + 1) % 0x1_0000_0000, {same}, // #C20""")
import mpser_tail; w(mpser_tail.tail())
txt = "\n".join(o)
open("contracts/msgpack_ser.body", "w").write(txt)
std = """  ensures
    r is Ok ==> final(self).output.alive() && ext(old(self).output.view(), final(self).output.view()) && exists|b: Seq<u8>| value.shows(b) && #[trigger] is_strenc(added(old(self).output.view(), final(self).output.view()), b), // #C19 #C28
    r is Ok ==> item(added(old(self).output.view(), final(self).output.view())), // #C19 #C20
    ext(old(self).output.view(), final(self).output.view()), // #C09"""
VECS = """@@fn to_vec_compact [C20,C28]
  ensures r is Ok ==> item(r->Ok_0@) && ser_text(value, 0, r->Ok_0@), // #C20 #C28
@@at end :: to_vec_compact
proof { assert(vec@ =~= added(Seq::<u8>::empty(), vec@)) by { reveal(added); } }
@@fn to_vec [C20,C28]
  ensures r is Ok ==> item(r->Ok_0@) && ser_text(value, 1, r->Ok_0@), // #C20 #C28
@@at end :: to_vec
proof { assert(vec@ =~= added(Seq::<u8>::empty(), vec@)) by { reveal(added); } }
@@fn to_vec_named [C20,C28]
  ensures r is Ok ==> item(r->Ok_0@) && ser_text(value, 2, r->Ok_0@), // #C20 #C28
@@at end :: to_vec_named
proof { assert(vec@ =~= added(Seq::<u8>::empty(), vec@)) by { reveal(added); } }
"""
open("contracts/msgpack_ser.spec", "w").write("@@def COLLECT\n" + std + "\n@@include msgpack_ser.body\n" + VECS)

nostd = """@@impl Write for StringLenCounter
  open spec fn f_pre(&self) -> bool { true }
  open spec fn f_reach(&self, n: Self, b: Seq<u8>, ok: bool) -> bool { ok ==> n.0 == self.0 + b.len() }
  proof fn f_refl(&self) { }
  proof fn f_trans(&self, m: Self, n: Self, a: Seq<u8>, b: Seq<u8>, ok: bool) { }
@@fn Write for StringLenCounter::write_str [C19,C09]
@@impl Write for StringCollector
  open spec fn f_pre(&self) -> bool { self.output.alive() }
  #[verifier::prophetic] open spec fn f_reach(&self, n: Self, b: Seq<u8>, ok: bool) -> bool {
    ext(self.output.view(), n.output.view()) && *final(n.output) == *final(self.output) && (ok ==> n.output.alive() && added(self.output.view(), n.output.view()) == b && n.len == self.len - b.len())
  }
  proof fn f_refl(&self) { lemma_ext_refl(self.output.view()); }
  proof fn f_trans(&self, m: Self, n: Self, a: Seq<u8>, b: Seq<u8>, ok: bool) { lemma_ext2(self.output.view(), m.output.view(), n.output.view()); }
@@fn Write for StringCollector::write_str [C19,C09]
@@fn StringCollector::new [C19]
  ensures r.len == len, *r.output == *old(output), *final(r.output) == *final(output), // #C19
"""
for n, _, _ in FL:
    q = f"Serializer for &mut {n}::collect_str"
    nostd += f"""@@at before "let mut col = StringCollector" :: {q}
  let ghost mid = self.output.view();
@@at tail :: {q}
  proof {{ if vp_r is Ok {{
    let w0 = old(self).output.view(); let w = self.output.view(); let h = added(w0, mid);
    assert forall|b: Seq<u8>| #[trigger] value.shows(b) && ext(mid, w) && added(mid, w) == b && b.len() == len implies is_strenc(added(w0, w), b) by {{
      let a = added(w0, w); lemma_ext2(w0, mid, w); assert(a =~= h + b); assert(a.take(h.len() as int) =~= h); assert(a.skip(h.len() as int) =~= b);
    }}
  }} }}
"""
open("contracts/msgpack_ser_nostd.spec", "w").write("@@def COLLECT\n" + std + "\n" + nostd + "@@include msgpack_ser.body\n")
