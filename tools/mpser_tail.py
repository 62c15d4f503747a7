def tail():
    o = []
    ps = "old(s).output.alive()"
    def post(S, decl): return f"""  requires old(s).output.alive(),
  ensures r is Ok ==> final(s).output.alive() && ext(old(s).output.view(), final(s).output.view()) && item(added(old(s).output.view(), final(s).output.view())) && {decl}, // #C20
"""
    o.append("""@@postlude
// ---------------------------------------------------------------- protocol clients: arbitrary call sequences; Ok means exactly one well-formed item with the announced count
""")
    for S, tag in (("CompactSerializer", "compact"), ("StructMapIdxSerializer", "idx"), ("StructMapStrSerializer", "named")):
        o.append(f"""//@fn client_seq @{tag}
fn client_seq_{tag}<W: SerWrite, T: Serialize>(s: &mut {S}<W>, declared: Option<usize>, vals: &[T]) -> (r: Result<(), W::Error>)
{post(S, 'declared == Some(vals@.len() as usize)')}{{
  let ghost o = s.output.view();
  let mut c = SerdeSerializer::serialize_seq(s, declared)?;
  let ghost m = c.ser.output.view(); let ghost fin = *final(c.ser);
  proof {{ lemma_items_none(); lemma_ext_refl(m); }}
  let mut i: usize = 0;
  while i < vals.len()
    invariant i <= vals@.len(), declared is Some, c.ser.output.alive(), ext(o, m), ext(m, c.ser.output.view()), is_arrh(added(o, m), declared->0 as nat), *final(c.ser) == fin,
      items(added(m, c.ser.output.view()), i as nat), c.len + i == declared->0,
    decreases vals@.len() - i
  {{
    let ghost k = c.ser.output.view();
    SerializeSeq::serialize_element(&mut c, &vals[i])?;
    proof {{ lemma_items_push(added(m, k), i as nat, added(k, c.ser.output.view())); }}
    i = i + 1;
  }}
  proof {{ let n = c.ser.output.view(); if c.len == 0 {{ lemma_arr_complete(added(o, m), added(m, n), declared->0 as nat); }} }}
  SerializeSeq::end_seq(c)
}}
//@end
//@fn client_tuple_variant @{tag}
fn client_tuple_variant_{tag}<W: SerWrite, T: Serialize>(s: &mut {S}<W>, idx: u32, name: &'static str, len: usize, vals: &[T]) -> (r: Result<(), W::Error>)
{post(S, 'len == vals@.len()')}{{
  let ghost o = s.output.view();
  let mut c = SerdeSerializer::serialize_tuple_variant(s, "", idx, name, len)?;
  let ghost m = c.ser.output.view(); let ghost fin = *final(c.ser);
  let ghost k1 = {'int_min(idx as int)' if tag != 'named' else 'strenc_len(name.spec_bytes().len())'};
  proof {{ lemma_items_none(); lemma_ext_refl(m); }}
  let mut i: usize = 0;
  while i < vals.len()
    invariant i <= vals@.len(), c.ser.output.alive(), ext(o, m), ext(m, c.ser.output.view()), *final(c.ser) == fin,
      variant_form(added(o, m), k1, is_arrh(added(o, m).skip(1 + k1 as int), len as nat)), item(added(o, m).subrange(1, 1 + k1 as int)),
      items(added(m, c.ser.output.view()), i as nat), c.len + i == len,
    decreases vals@.len() - i
  {{
    let ghost k = c.ser.output.view();
    SerializeTupleVariant::serialize_tv_field(&mut c, &vals[i])?;
    proof {{ lemma_items_push(added(m, k), i as nat, added(k, c.ser.output.view())); }}
    i = i + 1;
  }}
  proof {{ let n = c.ser.output.view(); if c.len == 0 {{
    let a = added(o, n); let h = added(o, m); let b = added(m, n);
    lemma_arr_complete(h.skip(1 + k1 as int), b, len as nat);
    assert(a.skip(1 + k1 as int) =~= h.skip(1 + k1 as int) + b); assert(a.subrange(1, 1 + k1 as int) =~= h.subrange(1, 1 + k1 as int)); assert(a[0] == h[0]);
    lemma_variant_complete(a, k1);
  }} }}
  SerializeTupleVariant::end_tv(c)
}}
//@end
//@fn client_map @{tag}
fn client_map_{tag}<W: SerWrite, K: Serialize, V: Serialize>(s: &mut {S}<W>, declared: Option<usize>, vals: &[(K, V)]) -> (r: Result<(), W::Error>)
{post(S, 'declared == Some(vals@.len() as usize)')}{{
  let ghost o = s.output.view();
  let mut c = SerdeSerializer::serialize_map(s, declared)?;
  let ghost m = c.ser.output.view(); let ghost fin = *final(c.ser);
  proof {{ lemma_items_none(); lemma_ext_refl(m); }}
  let mut i: usize = 0;
  while i < vals.len()
    invariant i <= vals@.len(), declared is Some, c.ser.output.alive(), ext(o, m), ext(m, c.ser.output.view()), is_maph(added(o, m), declared->0 as nat), *final(c.ser) == fin,
      items(added(m, c.ser.output.view()), 2 * (i as nat)), c.len + i == declared->0,
    decreases vals@.len() - i
  {{
    let ghost k = c.ser.output.view();
    SerializeMap::serialize_key(&mut c, &vals[i].0)?;
    let ghost l = c.ser.output.view();
    proof {{ lemma_items_push(added(m, k), 2 * (i as nat), added(k, l)); }}
    SerializeMap::serialize_value(&mut c, &vals[i].1)?;
    proof {{ let z = c.ser.output.view(); lemma_items_push(added(m, l), 2 * (i as nat) + 1, added(l, z)); assert(ext(m, z)); assert(added(m, z) == added(m, l) + added(l, z)); }}
    i = i + 1;
  }}
  proof {{ let n = c.ser.output.view(); if c.len == 0 {{ lemma_map_complete(added(o, m), added(m, n), declared->0 as nat); }} }}
  SerializeMap::end_map(c)
}}
//@end
""")
        # structs: field i is skipped when skip[i]
        arr = tag == "compact"
        hdr, per = ("is_arrh", "") if arr else ("is_maph", "2 * ")
        comp = "lemma_arr_complete" if arr else "lemma_map_complete"
        idxinv = " c.idx == i as int % 0x1_0000_0000," if tag == "idx" else ""
        nm = "names[i]" 
        if arr:
            push = "lemma_items_push(added(m, k), cnt as nat, added(k, c.ser.output.view()));"
        else:
            kl = "int_min(i as int % 0x1_0000_0000)" if tag == "idx" else "strenc_len(names@[i as int].spec_bytes().len())"
            push = f"""let z = c.ser.output.view(); lemma_items_push2(added(m, k), cnt as nat, added(k, z), {kl} as int); assert(added(m, z) == added(m, k) + added(k, z));"""
        for kind, fieldfn, skipfn, endfn, var in (("struct", "SerializeStruct::serialize_field", "SerializeStruct::skip_field", "SerializeStruct::end_struct", False), ("struct_variant", "SerializeStructVariant::serialize_sv_field", "SerializeStructVariant::skip_sv_field", "SerializeStructVariant::end_sv", True)):
            k1 = 'int_min(idx as int)' if tag != 'named' else 'strenc_len(name.spec_bytes().len())'
            opened = f"{hdr}(added(o, m), len as nat)" if not var else f"variant_form(added(o, m), k1, {hdr}(added(o, m).skip(1 + k1 as int), len as nat)), item(added(o, m).subrange(1, 1 + k1 as int))"
            close = f"{comp}(added(o, m), added(m, n), len as nat);" if not var else f"""let a = added(o, n); let h = added(o, m); let b = added(m, n);
    {comp}(h.skip(1 + k1 as int), b, len as nat);
    assert(a.skip(1 + k1 as int) =~= h.skip(1 + k1 as int) + b); assert(a.subrange(1, 1 + k1 as int) =~= h.subrange(1, 1 + k1 as int)); assert(a[0] == h[0]);
    lemma_variant_complete(a, k1);"""
            call = f"SerdeSerializer::serialize_struct(s, name, len)?" if not var else "SerdeSerializer::serialize_struct_variant(s, \"\", idx, name, len)?"
            o.append(f"""//@fn client_{kind} @{tag}
/// field i is skipped when skip[i]
#[verifier::spinoff_prover] #[verifier::rlimit(100)] fn client_{kind}_{tag}<W: SerWrite, T: Serialize>(s: &mut {S}<W>, idx: u32, name: &'static str, len: usize, names: &[&'static str], vals: &[T], skip: &[bool]) -> (r: Result<(), W::Error>)
  requires names@.len() == vals@.len(), skip@.len() == vals@.len(),
  {post(S, 'true').replace('requires','').strip()}
{{
  let ghost o = s.output.view();
  let mut c = {call};
  let ghost m = c.ser.output.view(); let ghost fin = *final(c.ser); let ghost k1 = {k1};
  proof {{ lemma_items_none(); lemma_ext_refl(m); }}
  let mut i: usize = 0; let ghost mut cnt: int = 0;
  while i < vals.len()
    invariant names@.len() == vals@.len(), skip@.len() == vals@.len(), i <= vals@.len(), 0 <= cnt <= i, c.ser.output.alive(), ext(o, m), ext(m, c.ser.output.view()), {opened}, *final(c.ser) == fin,{idxinv}
      items(added(m, c.ser.output.view()), {per}(cnt as nat)), c.len + cnt == len,
    decreases vals@.len() - i
  {{
    let ghost k = c.ser.output.view();
    if skip[i] {{ {skipfn}(&mut c, names[i])?; }} else {{
      {fieldfn}(&mut c, names[i], &vals[i])?;
      proof {{ {push} cnt = cnt + 1; }}
    }}
    i = i + 1;
  }}
  proof {{ let n = c.ser.output.view(); if c.len == 0 {{ {close} }} }}
  {endfn}(c)
}}
//@end
""")
    return "".join(o)
