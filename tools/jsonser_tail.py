# protocol clients of the JSON serializer: whatever values they hand over, Ok means exactly one JSON value was appended
def tail():
    o = ["""@@postlude
// ---------------------------------------------------------------- protocol clients: arbitrary call sequences; Ok means exactly one JSON value was appended
proof fn vp_step_list(m: Seq<u8>, k: Seq<u8>, n: Seq<u8>, f: bool, i: nat)
  requires ext(m, k), ext(k, n), jlist(added(m, k), i), f == (i == 0), sep_ok(added(k, n), f), jone(sep_x(added(k, n), f))
  ensures ext(m, n), jlist(added(m, n), i + 1)
{ let a = added(k, n); lemma_ext2(m, k, n); lemma_sep(a, f); lemma_jlist_push(added(m, k), i, sep_x(a, f)); assert(added(m, k) + a =~= added(m, k) + comma(i) + sep_x(a, f)); }
proof fn vp_step_field(m: Seq<u8>, k: Seq<u8>, n: Seq<u8>, f: bool, i: nat, key: Seq<u8>)
  requires ext(m, k), ext(k, n), jents(added(m, k), i), f == (i == 0), sep_ok(added(k, n), f), field_ok(sep_x(added(k, n), f), key), valid_utf8(key)
  ensures ext(m, n), jents(added(m, n), i + 1)
{ let a = added(k, n); lemma_ext2(m, k, n); lemma_sep(a, f); lemma_field_ent(sep_x(a, f), key); lemma_jents_push(added(m, k), i, sep_x(a, f)); assert(added(m, k) + a =~= added(m, k) + comma(i) + sep_x(a, f)); }
proof fn vp_cat(p: Seq<u8>, sep: Seq<u8>, kx: Seq<u8>, v: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
  requires a == sep + kx, b.len() >= 1, b[0] == 58, v == b.skip(1)
  ensures p + a + b == p + sep + (kx + seq![58u8] + v)
{ assert(b =~= seq![58u8] + v); assert(p + a + b =~= p + sep + (kx + seq![58u8] + v)); }
#[verifier::spinoff_prover] proof fn vp_step_entry(m: Seq<u8>, k: Seq<u8>, k2: Seq<u8>, n: Seq<u8>, f: bool, i: nat)
  requires ext(m, k), ext(k, k2), ext(k2, n), jents(added(m, k), i), f == (i == 0), sep_ok(added(k, k2), f), is_jstr(sep_x(added(k, k2), f)), added(k2, n).len() >= 1, added(k2, n)[0] == 58, jone(added(k2, n).skip(1))
  ensures ext(m, n), jents(added(m, n), i + 1)
{ let a = added(k, k2); let b = added(k2, n); lemma_ext3(m, k, k2, n); lemma_sep(a, f); let x = sep_x(a, f) + seq![58u8] + b.skip(1); lemma_jent(sep_x(a, f), b.skip(1)); lemma_jents_push(added(m, k), i, x);
  vp_cat(added(m, k), comma(i), sep_x(a, f), b.skip(1), a, b); }
"""]
    POST = """  requires old(s).output.alive(),
  ensures r is Ok ==> final(s).output.alive() && ext(old(s).output.view(), final(s).output.view()) && jone(added(old(s).output.view(), final(s).output.view())), // #C06
"""
    PRE = """  let ghost o = s.output.view();
  let mut c = SerdeSerializer::{call}?;
  let ghost m = c.ser.output.view(); let ghost fin = *final(c.ser);
  proof {{ lemma_none(); lemma_ext_refl(m); }}
  let mut i: usize = 0;
"""
    KV = "quoted(name.spec_bytes())"
    def variants(kv, open_, close): return f"{kv}"
    # lists
    for m, call, el, end, is_var in (
        ("seq", "serialize_seq(s, declared)", "SerializeSeq::serialize_element", "SerializeSeq::end_seq", False),
        ("tuple", "serialize_tuple(s, len)", "SerializeTuple::serialize_tuple_element", "SerializeTuple::end_tuple", False),
        ("tuple_struct", "serialize_tuple_struct(s, name, len)", "SerializeTupleStruct::serialize_ts_field", "SerializeTupleStruct::end_ts", False),
        ("tuple_variant", "serialize_tuple_variant(s, \"\", idx, name, len)", "SerializeTupleVariant::serialize_tv_field", "SerializeTupleVariant::end_tv", True)):
        head = f"added(o, m) == seq![123u8] + {KV} + seq![58u8, 91u8]" if is_var else "added(o, m) == seq![91u8]"
        o.append(f"""//@fn client_{m}
fn client_{m}<W: SerWrite, B: ByteEncoder, T: Serialize>(s: &mut Serializer<W, B>, declared: Option<usize>, idx: u32, name: &'static str, len: usize, vals: &[T]) -> (r: Result<(), W::Error>)
{POST}{{
{PRE.format(call=call)}  while i < vals.len()
    invariant i <= vals@.len(), c.ser.output.alive(), ext(o, m), ext(m, c.ser.output.view()), {head}, *final(c.ser) == fin, c.first == (i == 0),
      jlist(added(m, c.ser.output.view()), i as nat),
    decreases vals@.len() - i
  {{
    let ghost k = c.ser.output.view(); let ghost f = c.first;
    {el}(&mut c, &vals[i])?;
    proof {{ vp_step_list(m, k, c.ser.output.view(), f, i as nat); }}
    i = i + 1;
  }}
  let ghost n = c.ser.output.view();
  proof {{ lemma_arr(added(m, n), i as nat); {f'lemma_quoted_jstr(name.spec_bytes()); lemma_variant({KV}, seq![91u8] + added(m, n) + seq![93u8]);' if is_var else ''} }}
  let vp_r = {end}(c);
  proof {{ if vp_r is Ok {{ let z = final(s).output.view(); lemma_ext3(o, m, n, z);
    assert(added(o, z) =~= {f'seq![123u8] + {KV} + seq![58u8] + (seq![91u8] + added(m, n) + seq![93u8]) + seq![125u8]' if is_var else 'seq![91u8] + added(m, n) + seq![93u8]'}); }} }}
  vp_r
}}
//@end
""")
    # objects
    for m, call, end, is_var, is_map in (
        ("map", "serialize_map(s, declared)", "SerializeMap::end_map", False, True),
        ("struct", "serialize_struct(s, name, len)", "SerializeStruct::end_struct", False, False),
        ("struct_variant", "serialize_struct_variant(s, \"\", idx, name, len)", "SerializeStructVariant::end_sv", True, False)):
        head = f"added(o, m) == seq![123u8] + {KV} + seq![58u8, 123u8]" if is_var else "added(o, m) == seq![123u8]"
        if is_map:
            step = """    SerializeMap::serialize_key(&mut c, &keys[i])?;
    let ghost k2 = c.ser.output.view();
    SerializeMap::serialize_value(&mut c, &vals[i])?;
    proof { vp_step_entry(m, k, k2, c.ser.output.view(), f, i as nat); }
"""
            kt = "K"
        else:
            tr = "SerializeStruct::serialize_field" if not is_var else "SerializeStructVariant::serialize_sv_field"
            step = f"""    {tr}(&mut c, keys[i], &vals[i])?;
    proof {{ vp_step_field(m, k, c.ser.output.view(), f, i as nat, keys[i as int].spec_bytes()); }}
"""
            kt = "&'static str"
        o.append(f"""//@fn client_{m}
fn client_{m}<W: SerWrite, B: ByteEncoder, T: Serialize{', K: Serialize' if is_map else ''}>(s: &mut Serializer<W, B>, declared: Option<usize>, idx: u32, name: &'static str, len: usize, keys: &[{kt}], vals: &[T]) -> (r: Result<(), W::Error>)
{POST.replace('  requires ', '  requires keys@.len() == vals@.len(), ')}{{
{PRE.format(call=call)}  while i < vals.len()
    invariant i <= vals@.len(), keys@.len() == vals@.len(), c.ser.output.alive(), ext(o, m), ext(m, c.ser.output.view()), {head}, *final(c.ser) == fin, c.first == (i == 0),
      jents(added(m, c.ser.output.view()), i as nat),
    decreases vals@.len() - i
  {{
    let ghost k = c.ser.output.view(); let ghost f = c.first;
{step}    i = i + 1;
  }}
  let ghost n = c.ser.output.view();
  proof {{ lemma_obj(added(m, n), i as nat); {f'lemma_quoted_jstr(name.spec_bytes()); lemma_variant({KV}, seq![123u8] + added(m, n) + seq![125u8]);' if is_var else ''} }}
  let vp_r = {end}(c);
  proof {{ if vp_r is Ok {{ let z = final(s).output.view(); lemma_ext3(o, m, n, z);
    assert(added(o, z) =~= {f'seq![123u8] + {KV} + seq![58u8] + (seq![123u8] + added(m, n) + seq![125u8]) + seq![125u8]' if is_var else 'seq![123u8] + added(m, n) + seq![125u8]'}); }} }}
  vp_r
}}
//@end
""")
    return "".join(o)
