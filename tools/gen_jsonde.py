o=[]
A=o.append
A('''@@fn Deserializer::parse_float_or_int [C13,C11,C15]
  requires old(self).wf(), old(self).rest().len() > 0, peek == old(self).rest()[0],
  ensures final(self).wf(), final(self).input@ == old(self).input@, // #C11
    ({ let u = old(self).rest(); let x = u.take(nrun(u) as int);
      (r is Ok ==> final(self).rest() == u.skip(nrun(u) as int) && nrun(u) > 0) &&
      (if isf(x) { r is Ok <==> any_parsed(x) is Some } else if peek == 45 { r is Ok <==> i64::parsed(x) is Some } else { r is Ok <==> u64::parsed(x) is Some }) &&
      (r is Ok ==> r->Ok_0 == (if isf(x) { AnyNumber::Float(any_parsed(x)->0) } else if peek == 45 { AnyNumber::NegInt(i64::parsed(x)->0) } else { AnyNumber::PosInt(u64::parsed(x)->0) })) }), // #C13 #C15
@@at pos0 :: Deserializer::parse_float_or_int
  forall|j: int| 0 <= j < vp_q0 ==> nch(#[trigger] vp_p0@[j]), is_float <==> exists|j: int| 0 <= j < vp_q0 && fch(#[trigger] vp_p0@[j]),
  vp_r0 is Some ==> vp_q0 < vp_p0@.len() && !nch(vp_p0@[vp_q0 as int]),
@@at posend0 :: Deserializer::parse_float_or_int
proof { assert(vp_p0@ =~= old(self).rest()); lemma_nrun(vp_p0@, vp_q0 as int); lemma_num_utf8(vp_p0@, vp_q0 as int); assert(vp_p0@.take(vp_p0@.len() as int) =~= vp_p0@);
  let x = vp_p0@.take(vp_q0 as int); assert(forall|j: int| 0 <= j < vp_q0 ==> #[trigger] x[j] == vp_p0@[j]); assert(is_float == isf(x)); }
@@fn Deserializer::match_float [C15,C11,C16]
  requires self.wf(),
  ensures r@ == self.rest().take(nrun(self.rest()) as int), // #C15 #C16
@@at posend0 :: Deserializer::match_float
proof { assert(vp_p0@ =~= self.rest()); lemma_nrun(vp_p0@, vp_q0 as int); assert(vp_p0@.take(vp_p0@.len() as int) =~= vp_p0@); }
@@fn Deserializer::parse_float [C13,C15,C11]
  requires old(self).wf(),
  ensures final(self).wf(), final(self).input@ == old(self).input@, // #C11
    ({ let u = skipws(old(self).rest()); let k = nrun(u) as int;
      if u.len() == 0 { r is Err } else if u[0] == 110 { (r is Ok <==> lit(u, lnull())) && (r is Ok ==> r->Ok_0 is None && final(self).rest() == u.skip(4)) }
      else { (r is Ok <==> F::parsed(u.take(k)) is Some) && (r is Ok ==> r->Ok_0 == F::parsed(u.take(k)) && final(self).rest() == u.skip(k) && k > 0) } }), // #C13 #C15
@@at begin :: Deserializer::parse_float
proof { let u = skipws(self.rest()); if u.len() > 0 { lemma_words(u); } lemma_nrun_all(u); lemma_num_utf8(u, nrun(u) as int); }
@@fn Deserializer::parse_key_colon [C15,C11]
  requires old(self).wf(),
  ensures final(self).wf(), final(self).input@ == old(self).input@, // #C11
    ({ let u = skipws(old(self).rest()); (r is Ok <==> u.len() > 0 && u[0] == 58) && (r is Ok ==> final(self).rest() == u.skip(1)) }), // #C15
@@fn Deserializer::eat_str_content [C16,C11,C12]
  requires old(self).wf(),
  ensures final(self).wf(), final(self).input@ == old(self).input@, // #C11
    r is Ok <==> sskip(old(self).rest(), true) is Some, r is Ok ==> sskip(old(self).rest(), true) == Some(final(self).rest()), // #C16
@@loop Deserializer::eat_str_content 0
 invariant self.input@ == old(self).input@, self.index == old(self).index, self.wf(), self.index <= start <= self.input@.len(), sskip(old(self).rest(), true) == sskip(self.input@.skip(start as int), true),
 decreases self.input@.len() - start,
@@at posend0 :: Deserializer::eat_str_content
proof { assert(vp_p0@ =~= self.input@.skip(start as int)); if vp_r0 is None { lemma_sskip_none(vp_p0@); } else if vp_p0@[vp_q0 as int] < 32 { lemma_sskip_ctl(vp_p0@, vp_q0 as int); } }
@@at posend1 :: Deserializer::eat_str_content
proof { assert(vp_p1@ =~= self.input@.subrange(start as int, end as int)); let o = self.input@.skip(start as int); assert(vp_p1@ =~= o.take(found as int)); lemma_sskip_find(o, found as int, vp_q1 as int); assert(o.skip(found + 1) =~= self.input@.skip(end + 1)); }
@@fn Deserializer::parse_str_content [C12,C11,C15]
  requires old(self).wf(),
  ensures final(self).wf(), // #C11
    r is Ok <==> utf8s(sdec(old(self).rest())), r is Ok ==> sdec(old(self).rest()) == Some((r->Ok_0.spec_bytes(), final(self).rest())), // #C12 #C15
@@fn Deserializer::parse_str_bytes_content [C12,C11,C14,C15]
  requires old(self).wf(),
  ensures final(self).wf(), // #C11
    r is Ok <==> sdec(old(self).rest()) is Some, r is Ok ==> sdec(old(self).rest()) == Some((r->Ok_0@, final(self).rest())), // #C12 #C14 #C15
@@attr Deserializer::parse_str_bytes_content :: #[verifier::rlimit(60)]
@@at begin :: Deserializer::parse_str_bytes_content
let ghost vp_o = self.input@; let ghost vp_i0 = self.index as int;
proof { lemma_sinv0(vp_o, vp_i0); }
@@loop Deserializer::parse_str_bytes_content 0
 invariant self.index == vp_i0, start <= index + 1, vp_o.len() <= isize::MAX, vp_o == old(self).input@, vp_i0 == old(self).index, sinv(self.input@, vp_o, vp_i0, dest as int, index as int, start as int),
 decreases vp_o.len() - start,
@@at loopbegin 0 :: Deserializer::parse_str_bytes_content
let ghost vp_e = start + prun(vp_o.skip(start as int)); let ghost vp_b = moved(self.input@, dest as int, index as int, vp_e); let ghost vp_m = dest + (vp_e - index);
proof { lemma_str_move(self.input@, vp_o, vp_i0, dest as int, index as int, start as int); lemma_str_found(vp_b, vp_o, vp_i0, vp_m, vp_e); }
@@at posend0 :: Deserializer::parse_str_bytes_content
proof { assert(vp_p0@ =~= self.input@.skip(start as int)); lemma_prun(vp_p0@, vp_q0 as int); }
@@at loopend 0 :: Deserializer::parse_str_bytes_content
proof { lemma_str_esc(self.input@, vp_b, vp_o, vp_i0, vp_m, vp_e, dest as int, index as int, start as int); }
@@fn Deserializer::parse_hex_bytes_content [C14,C11,C15]
  requires old(self).wf(),
  ensures final(self).wf(), // #C11
    r is Ok <==> hexdec(old(self).rest()) is Some, r is Ok ==> hexdec(old(self).rest()) == Some((r->Ok_0@, final(self).rest())), // #C14 #C15
@@at begin :: Deserializer::parse_hex_bytes_content
let ghost vp_o = self.rest(); proof { lemma_hex0(vp_o); }
@@at beforeloop 0 :: Deserializer::parse_hex_bytes_content
let ghost vp_c0 = cells;
@@loop Deserializer::parse_hex_bytes_content 0
 invariant after_borrow(self.index) == old(self).index, after_borrow(self.input)@ == old(self).input@.take(old(self).index as int) + final(cells)@, final(cells)@.len() == cells@.len(), len == vp_k, hinv(cells@, vp_o, vp_k as int), final(vp_c0)@ == final(cells)@,
 decreases cells@.len() - vp_k,
@@at loopbegin 0 :: Deserializer::parse_hex_bytes_content
proof { lemma_hex_at(cells@, vp_o, vp_k - 1); }
@@at afterloop 0 :: Deserializer::parse_hex_bytes_content
proof { lemma_hex_at(cells@, vp_o, vp_k as int); }
@@at begin :: Deserializer::parse_base64_bytes_content
let ghost vp_o = self.rest(); proof { lemma_b64_buf(vp_o); lemma_arun_all(vp_o); lemma_erun_all(vp_o.skip(arun(vp_o) as int)); }
@@at posend0 :: Deserializer::parse_base64_bytes_content
proof { let k = arun(vp_o) as int; let t = vp_o.skip(k); assert(vp_p0@ =~= vp_o.skip(k + 1)); assert forall|i: int| 0 <= i < vp_q0 + 1 implies #[trigger] t[i] == 61 by { if i > 0 { assert(t[i] == vp_p0@[i - 1]); } } assert(vp_r0 is Some ==> t[vp_q0 + 1] == vp_p0@[vp_q0 as int]); lemma_erun(t, vp_q0 + 1); }
@@at begin :: Deserializer::parse_array_bytes_content
proof { lemma_adec0(self.rest()); assert(self.rest().take(0) =~= Seq::<u8>::empty()); }
@@at beforeloop 0 :: Deserializer::parse_array_bytes_content
let ghost vp_o = self.rest(); proof { lemma_arr0(self.input@, start as int, vp_o) }
@@loop Deserializer::parse_array_bytes_content 0
 invariant_except_break ainv(self.input@, start as int, index as int, vp_o, self.rest()),
 invariant start <= index <= self.index, self.wf(), self.input@.len() == old(self).input@.len(), arrels(vp_o) == arrels(old(self).rest()), adec(old(self).rest()) == arrels(old(self).rest()),
 ensures self.rest().len() > 0, arrels(vp_o) == Some((self.input@.subrange(start as int, index as int), self.rest().skip(1))),
 decreases self.input@.len() - self.index,
@@at loopbegin 0 :: Deserializer::parse_array_bytes_content
proof { if index < self.input@.len() { lemma_arr_at(self.input@, start as int, index as int, vp_o, self.rest()); } else { assert(self.rest().len() == 0); lemma_adec0(self.rest()); } }
@@fn Deserializer::parse_base64_bytes_content [C14,C11,C15]
  requires old(self).wf(),
  ensures final(self).wf(), // #C11
    r is Ok ==> b64dec(old(self).rest()) == Some((r->Ok_0@, final(self).rest())), b64must(old(self).rest()) ==> r is Ok, // #C14 #C15
@@fn Deserializer::parse_array_bytes_content [C14,C11,C15]
  requires old(self).wf(),
  ensures final(self).wf(), // #C11
    r is Ok <==> adec(old(self).rest()) is Some, r is Ok ==> adec(old(self).rest()) == Some((r->Ok_0@, final(self).rest())), // #C14 #C15
@@impl StringByteDecoder
  spec fn dec_ok(s: Seq<u8>, d: Seq<u8>, t: Seq<u8>) -> bool;
  spec fn dec_must(s: Seq<u8>) -> bool;
@@impl StringByteDecoder for StringByteNopeDecoder
  open spec fn dec_ok(s: Seq<u8>, d: Seq<u8>, t: Seq<u8>) -> bool { sdec(s) == Some((d, t)) }
  open spec fn dec_must(s: Seq<u8>) -> bool { sdec(s) is Some }
@@impl StringByteDecoder for StringByteHexDecoder
  open spec fn dec_ok(s: Seq<u8>, d: Seq<u8>, t: Seq<u8>) -> bool { hexdec(s) == Some((d, t)) }
  open spec fn dec_must(s: Seq<u8>) -> bool { hexdec(s) is Some }
@@impl StringByteDecoder for StringByteBase64Decoder
  open spec fn dec_ok(s: Seq<u8>, d: Seq<u8>, t: Seq<u8>) -> bool { b64dec(s) == Some((d, t)) }
  open spec fn dec_must(s: Seq<u8>) -> bool { b64must(s) }
@@fn StringByteDecoder::decode_string_to_bytes [C14,C11,C15]
%DECODERC%
@@fn StringByteDecoder for StringByteNopeDecoder::decode_string_to_bytes | StringByteDecoder for StringByteHexDecoder::decode_string_to_bytes | StringByteDecoder for StringByteBase64Decoder::decode_string_to_bytes [C14,C11,C15]
@@at begin :: StringByteDecoder for StringByteNopeDecoder::decode_string_to_bytes
proof { lemma_sdec_sskip(de.rest(), false); }
@@at begin :: StringByteDecoder for StringByteHexDecoder::decode_string_to_bytes
proof { lemma_hexdec_sskip(de.rest(), false); }
@@at begin :: StringByteDecoder for StringByteBase64Decoder::decode_string_to_bytes
proof { lemma_b64dec_sskip(de.rest()); }
@@fn NumParseTool for u8::try_from_ascii_decimal | NumParseTool for u16::try_from_ascii_decimal | NumParseTool for u32::try_from_ascii_decimal | NumParseTool for u64::try_from_ascii_decimal | NumParseTool for i8::try_from_ascii_decimal | NumParseTool for i16::try_from_ascii_decimal | NumParseTool for i32::try_from_ascii_decimal | NumParseTool for i64::try_from_ascii_decimal [C13]
@@fn NumParseTool for u8::checked_mul_ten | NumParseTool for u16::checked_mul_ten | NumParseTool for u32::checked_mul_ten | NumParseTool for u64::checked_mul_ten | NumParseTool for i8::checked_mul_ten | NumParseTool for i16::checked_mul_ten | NumParseTool for i32::checked_mul_ten | NumParseTool for i64::checked_mul_ten [C13]
@@fn NumParseTool for u8::checked_add | NumParseTool for u16::checked_add | NumParseTool for u32::checked_add | NumParseTool for u64::checked_add | NumParseTool for i8::checked_add | NumParseTool for i16::checked_add | NumParseTool for i32::checked_add | NumParseTool for i64::checked_add [C13]
@@fn CheckedSub for i8::checked_sub | CheckedSub for i16::checked_sub | CheckedSub for i32::checked_sub | CheckedSub for i64::checked_sub [C13]
''')
J='Deserializer for &mut Deserializer::deserialize_'
U='({ let s = old(self).rest(); let u = skipws(s); let t = final(self).rest();\n      '
def fn(names, props, body, proof='lemma_jv(old(self).rest());', pre=J, end='}),'):
    ns=' | '.join(pre+n for n in names)
    A(f'@@fn {ns} [{props}]\n  ensures {body}')
    if proof:
        A(f'@@at begin :: {ns}\nproof {{ {proof} }}')
fn(['bool'],'C15,C11', U+'''if lit(u, ltrue()) { visitor.got(Ev::Bool(true), okv(r)) && t == u.skip(4) } else if lit(u, lfalse()) { visitor.got(Ev::Bool(false), okv(r)) && t == u.skip(5) } else { r is Err } }), // #C15
    visitor.ignores() ==> (r is Ok <==> lit(skipws(old(self).rest()), ltrue()) || lit(skipws(old(self).rest()), lfalse())), // #C16''')
for ty in 'i8 i16 i32 i64 u8 u16 u32 u64'.split():
    at='int_at' if ty[0]=='i' else 'uint_at'
    fn([ty],'C13,C11,C15', U+f'''match {at}(u) {{ Some((n, k)) => if {ty}::MIN <= n <= {ty}::MAX {{ visitor.got(Ev::{ty.upper()}(n as {ty}), okv(r)) && t == u.skip(k) }} else {{ r is Err }}, None => r is Err }} }}), // #C13''','lemma_jv(old(self).rest()); lemma_jval_int(old(self).rest());')
for ty in ['f32','f64']:
    fn([ty],'C13,C11,C15', U+f'''if u.len() == 0 {{ r is Err }} else if u[0] == 110 {{ if lit(u, lnull()) {{ visitor.got(Ev::{ty.upper()}({ty}_nan()), okv(r)) && t == u.skip(4) }} else {{ r is Err }} }}
      else {{ match {ty}_parsed(u.take(nrun(u) as int)) {{ Some(f) => visitor.got(Ev::{ty.upper()}(f), okv(r)) && t == u.skip(nrun(u) as int), None => r is Err }} }} }}), // #C13 #C15''','lemma_jv(old(self).rest());')
fn(['char'],'C12,C11,C15', U+'''if u.len() > 0 && u[0] == 34 { match sdec(u.skip(1)) { Some((d, x)) => if vstd::utf8::valid_utf8(d) && vstd::utf8::decode_utf8(d).len() == 1 { visitor.got(Ev::Char(vstd::utf8::decode_utf8(d)[0]), okv(r)) && t == x } else { r is Err }, None => r is Err } } else { r is Err } }), // #C12''')
fn(['str','string','identifier'],'C12,C11,C15', U+'''if u.len() > 0 && u[0] == 34 { match sdec(u.skip(1)) { Some((d, x)) => if vstd::utf8::valid_utf8(d) { visitor.got(Ev::BStr(d), okv(r)) && t == x } else { r is Err }, None => r is Err } } else { r is Err } }), // #C12
    ({ let u = skipws(old(self).rest()); visitor.ignores() ==> (r is Ok <==> u.len() > 0 && u[0] == 34 && utf8s(sdec(u.skip(1)))) }), // #C16''')
fn(['bytes','byte_buf'],'C14,C11,C15', U+'''if u.len() == 0 { r is Err }
      else if u[0] == 34 { (r is Ok ==> exists|d: Seq<u8>| #[trigger] P::dec_ok(u.skip(1), d, t) && visitor.got(Ev::BBytes(d), okv(r))) && (P::dec_must(u.skip(1)) ==> exists|d: Seq<u8>| #[trigger] P::dec_ok(u.skip(1), d, t) && visitor.got(Ev::BBytes(d), okv(r))) }
      else if u[0] == 91 { match adec(u.skip(1)) { Some((d, x)) => visitor.got(Ev::BBytes(d), okv(r)) && t == x, None => r is Err } }
      else { r is Err } }), // #C14''')
fn(['option'],'C15,C11', U+'''if u.len() == 0 { r is Err } else if u[0] == 110 { if lit(u, lnull()) { visitor.got(Ev::None, okv(r)) && t == u.skip(4) } else { r is Err } } else { visitor.got(Ev::Some, okv(r)) } }), // #C15''')
fn(['unit','unit_struct'],'C15,C11', U+'''if lit(u, lnull()) { visitor.got(Ev::Unit, okv(r)) && t == u.skip(4) } else { r is Err } }), // #C15
    visitor.ignores() ==> (r is Ok <==> lit(skipws(old(self).rest()), lnull())), // #C16''')
fn(['newtype_struct'],'C15,C11','visitor.got(Ev::Newtype, okv(r)), // #C15')
fn(['seq','tuple','tuple_struct'],'C15,C11', U+'''if u.len() > 0 && u[0] == 91 { (r is Ok ==> visitor.got(Ev::Seq, okv(r)) && jels(u.skip(1), true, false) == Some(t)) && (visitor.ignores() ==> self.skip_post(r is Ok)) } else { r is Err } }), // #C15 #C16''')
fn(['map'],'C15,C11', U+'''if u.len() > 0 && u[0] == 123 { (r is Ok ==> visitor.got(Ev::Map, okv(r)) && jents(u.skip(1), true, false) == Some(t)) && (visitor.ignores() ==> self.skip_post(r is Ok)) } else { r is Err } }), // #C15 #C16''')
fn(['struct'],'C15,C11', U+'''if u.len() > 0 && u[0] == 91 { r is Ok ==> visitor.got(Ev::Seq, okv(r)) && jels(u.skip(1), true, false) == Some(t) } else if u.len() > 0 && u[0] == 123 { r is Ok ==> visitor.got(Ev::Map, okv(r)) && jents(u.skip(1), true, false) == Some(t) } else { r is Err } }), // #C15''')
fn(['enum'],'C15,C11', U+'''if u.len() == 0 { r is Err } else if u[0] == 34 { visitor.got(Ev::Enum, okv(r)) } else if u[0] == 123 { r is Ok ==> visitor.got(Ev::Enum, okv(r)) && jents(u.skip(1), true, false) == Some(t) } else { r is Err } }), // #C15''')
fn(['ignored_any'],'C16,C11,C15', U+'''if u.len() == 0 { r is Err }
      else if u[0] == 34 { match sskip(u.skip(1), true) { Some(x) => visitor.got(Ev::Unit, okv(r)) && t == x, None => r is Err } }
      else if dig(u[0]) || u[0] == 45 { visitor.got(Ev::Unit, okv(r)) && t == u.skip(nrun(u) as int) }
      else { r is Ok ==> jskip(s, false) == Some(t) } }), // #C16''','lemma_jv(old(self).rest()); lemma_sskip_strict(skipws(old(self).rest()).skip(1));')
fn(['any'],'C15,C11,C12,C13', U+'''if u.len() == 0 { r is Err }
      else if u[0] == 110 { if lit(u, lnull()) { visitor.got(Ev::Unit, okv(r)) && t == u.skip(4) } else { r is Err } }
      else if u[0] == 116 || u[0] == 102 { if lit(u, ltrue()) { visitor.got(Ev::Bool(true), okv(r)) && t == u.skip(4) } else if lit(u, lfalse()) { visitor.got(Ev::Bool(false), okv(r)) && t == u.skip(5) } else { r is Err } }
      else if u[0] == 34 { match sdec(u.skip(1)) { Some((d, x)) => if vstd::utf8::valid_utf8(d) { visitor.got(Ev::BStr(d), okv(r)) && t == x } else { r is Err }, None => r is Err } }
      else if dig(u[0]) || u[0] == 45 { let x = u.take(nrun(u) as int);
        if isf(x) { match any_parsed(x) { Some(f) => visitor.got(Ev::F64(f), okv(r)), None => r is Err } } else if u[0] == 45 { match i64::parsed(x) { Some(n) => visitor.got(Ev::I64(n), okv(r)), None => r is Err } } else { match u64::parsed(x) { Some(n) => visitor.got(Ev::U64(n), okv(r)), None => r is Err } } }
      else if u[0] == 91 { r is Ok ==> visitor.got(Ev::Seq, okv(r)) && jels(u.skip(1), true, false) == Some(t) }
      else if u[0] == 123 { r is Ok ==> visitor.got(Ev::Map, okv(r)) && jents(u.skip(1), true, false) == Some(t) }
      else { r is Err } }), // #C15 #C12 #C13''')
# access objects
A('''@@fn CommaSeparated::new [C15]
  ensures r.first, *r.de == *old(de), *final(r.de) == *final(de), // #C15
@@fn SeqAccess for CommaSeparated::next_element_seed [C15,C11,C16]
  ensures
    final(self).de.wf(), *final(final(self).de) == *final(old(self).de), // #C11
    ({ let s = old(self).de.rest(); let t = final(self).de.rest();
      if closed(s, 93) { r is Ok && r->Ok_0 is None && t == skipws(s) && final(self).first == old(self).first }
      else { match estart(s, old(self).first, 93) { None => r is Err, Some(v) => (r is Ok ==> r->Ok_0 is Some && seed.gots(r->Ok_0) && jval(v, t) && !final(self).first) && (r is Err ==> seed.gots(None))
        && (seed.seed_ignores() ==> (r is Ok <==> jskip(v, true) is Some) && (r is Ok ==> jskip(v, true) == Some(t))) } } }), // #C15 #C16
@@fn MapAccess for CommaSeparated::next_key_seed [C15,C11,C16,C17]
  ensures
    final(self).de.wf(), *final(final(self).de) == *final(old(self).de), // #C11
    ({ let s = old(self).de.rest(); let t = final(self).de.rest();
      if closed(s, 125) { r is Ok && r->Ok_0 is None && t == skipws(s) && final(self).first == old(self).first }
      else { match estart(s, old(self).first, 125) { None => r is Err, Some(v) => if v[0] != 34 { r is Err } else { (r is Ok ==> r->Ok_0 is Some && seed.gots(r->Ok_0) && sskip(v.skip(1), false) == Some(t) && !final(self).first) && (r is Err ==> seed.gots(None))
        && (seed.seed_ignores() ==> (r is Ok <==> utf8s(sdec(v.skip(1)))) && (r is Ok ==> (sdec(v.skip(1))->0).1 == t)) } } } }), // #C15 #C16 #C17
@@fn MapAccess for CommaSeparated::next_value_seed [C15,C11,C16]
  ensures
    final(self).de.wf(), *final(final(self).de) == *final(old(self).de), final(self).first == old(self).first, // #C11
    ({ let u = skipws(old(self).de.rest()); let t = final(self).de.rest();
      if u.len() == 0 || u[0] != 58 { r is Err }
      else { seed.gots(okv(r)) && (r is Ok ==> jval(u.skip(1), t)) && (seed.seed_ignores() ==> (r is Ok <==> jskip(u.skip(1), true) is Some) && (r is Ok ==> jskip(u.skip(1), true) == Some(t))) } }), // #C15 #C16
@@impl SeqAccess for CommaSeparated
  open spec fn s_pre(self) -> bool { self.de.wf() }
  fn size_hint(&self) -> (r: Option<usize>) { None }
@@impl MapAccess for CommaSeparated
  open spec fn s_map_pre(self) -> bool { self.de.wf() }
  fn map_size_hint(&self) -> (r: Option<usize>) { None }
@@impl EnumAccess for UnitVariantAccess | EnumAccess for VariantAccess
  open spec fn s_pre(self) -> bool { self.de.wf() }
@@impl VariantAccess for UnitVariantAccess | VariantAccess for VariantAccess
  open spec fn s_var_pre(self) -> bool { self.de.wf() }
@@impl Deserializer for &mut Deserializer | Deserializer for MapKey
  fn is_human_readable(&self) -> bool { true }
''')
for k,at,props,lo in [('unsigned','uint_at','C17,C11','0'),('signed','int_at','C17,C11','T::lo()')]:
    A(f'''@@fn MapKey::parse_{k}_numkey [{props}]
  requires self.de.wf(), self.de.rest().len() > 0, self.de.rest()[0] == 34,
  ensures final(self.de).wf(), // #C11
    ({{ let u = skipws(old(self.de).rest().skip(1)); match {at}(u) {{
      Some((n, k)) => (r is Ok <==> {lo} <= n <= T::hi() && k < u.len() && u[k] == 34) && (r is Ok ==> r->Ok_0.ival() == n && final(self.de).rest() == u.skip(k + 1)),
      None => r is Err }} }}), // #C17
@@at begin :: MapKey::parse_{k}_numkey
proof {{ lemma_jval_int(self.de.rest().skip(1)); }}''')
K='Deserializer for MapKey::deserialize_'
KU='({ let s = old(self.de).rest(); let t = final(self.de).rest();\n      '
def kf(names,props,body,proof='lemma_key(self.de.rest());'): fn(names,props,body,proof,pre=K)
kf('any str f32 f64 string bytes byte_buf option unit unit_struct seq tuple tuple_struct map struct identifier ignored_any'.split(),'C17,C11,C15,C12',KU+'''match sdec(s.skip(1)) { Some((d, x)) => if vstd::utf8::valid_utf8(d) { visitor.got(Ev::BStr(d), okv(r)) && t == x } else { r is Err }, None => r is Err } }), // #C17 #C12
    visitor.ignores() ==> self.skip_post(r is Ok), // #C16''')
kf(['char'],'C17,C11,C12',KU+'''match sdec(s.skip(1)) { Some((d, x)) => if vstd::utf8::valid_utf8(d) && vstd::utf8::decode_utf8(d).len() == 1 { visitor.got(Ev::Char(vstd::utf8::decode_utf8(d)[0]), okv(r)) && t == x } else { r is Err }, None => r is Err } }), // #C17 #C12''')
for ty in 'i8 i16 i32 i64 u8 u16 u32 u64'.split():
    at='int_at' if ty[0]=='i' else 'uint_at'
    kf([ty],'C17,C11,C15',KU+f'''let u = skipws(s.skip(1)); match {at}(u) {{ Some((n, k)) => if {ty}::MIN <= n <= {ty}::MAX && k < u.len() && u[k] == 34 {{ visitor.got(Ev::{ty.upper()}(n as {ty}), okv(r)) && t == u.skip(k + 1) }} else {{ r is Err }}, None => r is Err }} }}), // #C17''','lemma_key(self.de.rest()); lemma_key_int(self.de.rest());')
kf(['bool'],'C17,C11,C15',KU+'''let u = skipws(s.skip(1));
      if lit(u, ltrue()) { if u.len() > 4 && u[4] == 34 { visitor.got(Ev::Bool(true), okv(r)) && (r is Ok ==> t == u.skip(5)) } else { r is Err } } else if lit(u, lfalse()) { if u.len() > 5 && u[5] == 34 { visitor.got(Ev::Bool(false), okv(r)) && (r is Ok ==> t == u.skip(6)) } else { r is Err } } else { r is Err } }), // #C17''','lemma_key(self.de.rest()); lemma_key_bool(self.de.rest());')
kf(['enum'],'C17,C11','visitor.got(Ev::Enum, okv(r)), // #C17')
kf(['newtype_struct'],'C17,C11','visitor.got(Ev::Newtype, okv(r)), // #C17')
A('''@@fn EnumAccess for UnitVariantAccess::variant_seed [C15,C11]
  ensures
    r is Ok ==> r->Ok_0.1.de.wf() && jval(old(self.de).rest(), r->Ok_0.1.de.rest()) && seed.gots(Some(r->Ok_0.0)) && *final(r->Ok_0.1.de) == *final(self.de), // #C15
    r is Err ==> final(self.de).wf() && seed.gots(None), // #C11 #C15
@@fn EnumAccess for VariantAccess::variant_seed [C15,C11]
  ensures
    r is Ok ==> r->Ok_0.1.de.wf() && (exists|x: Seq<u8>| jval(old(self.de).rest(), x) && skipws(x).len() > 0 && (#[trigger] skipws(x))[0] == 58 && r->Ok_0.1.de.rest() == skipws(x).skip(1)) && seed.gots(Some(r->Ok_0.0)) && *final(r->Ok_0.1.de) == *final(self.de), // #C15
    r is Err ==> final(self.de).wf(), // #C11
@@fn VariantAccess for UnitVariantAccess::unit_variant [C15,C11]
  ensures r is Ok, *final(self.de) == *old(self.de), // #C15
@@fn VariantAccess for UnitVariantAccess::newtype_variant_seed | VariantAccess for UnitVariantAccess::tuple_variant | VariantAccess for UnitVariantAccess::struct_variant | VariantAccess for VariantAccess::unit_variant [C15,C11]
  ensures r is Err, *final(self.de) == *old(self.de), // #C15
@@fn VariantAccess for VariantAccess::newtype_variant_seed [C15,C11]
  ensures final(self.de).wf(), seed.gots(okv(r)), r is Ok ==> jval(old(self.de).rest(), final(self.de).rest()), // #C15
@@fn VariantAccess for VariantAccess::tuple_variant [C15,C11]
  ensures final(self.de).wf(), ({ let u = skipws(old(self.de).rest()); r is Ok ==> u.len() > 0 && u[0] == 91 && visitor.got(Ev::Seq, okv(r)) && jels(u.skip(1), true, false) == Some(final(self.de).rest()) }), // #C15
@@fn VariantAccess for VariantAccess::struct_variant [C15,C11]
  ensures final(self.de).wf(), ({ let u = skipws(old(self.de).rest()); let t = final(self.de).rest(); r is Ok ==> u.len() > 0 && (if u[0] == 91 { visitor.got(Ev::Seq, okv(r)) && jels(u.skip(1), true, false) == Some(t) } else { u[0] == 123 && visitor.got(Ev::Map, okv(r)) && jents(u.skip(1), true, false) == Some(t) }) }), // #C15
@@fn from_mut_slice_with_decoder | from_mut_slice | from_mut_slice_hex_bytes | from_mut_slice_base64_bytes [C15,C11]
  requires old(v)@.len() <= isize::MAX,
  ensures r is Ok ==> jskip(old(v)@, false) is Some && skipws(jskip(old(v)@, false)->0).len() == 0, // #C15
@@at begin :: from_mut_slice_with_decoder
proof { assert(forall|t: Seq<u8>| t.len() > 0 && nch(t[0]) ==> (#[trigger] skipws(t)) == t); }
''')
import os, sys; H=os.path.dirname(os.path.abspath(__file__)); D=os.path.join(H,'..','contracts'); sys.path.insert(0,H); import rtclauses
# the round trip of C27: the serializer writes no whitespace; skipping is not part of it
RT=rtclauses.add('\n'.join(o),'C27',{'C12','C13','C14','C15','C17'},
  {'Deserializer::match_float','Deserializer::parse_float_or_int','Deserializer for &mut Deserializer::deserialize_any','Deserializer for &mut Deserializer::deserialize_f32','Deserializer for &mut Deserializer::deserialize_f64','Deserializer::parse_float','VariantAccess for UnitVariantAccess::newtype_variant_seed','Deserializer::eat_whitespace!','from_mut_slice_with_decoder'},
  {'Deserializer::eat_whitespace':'({ let s = old(self).rest(); s.len() > 0 && s[0] > 32 ==> r is Ok && r->Ok_0 == s[0] && final(self).rest() == s }),'},
  {'Deserializer::parse_positive_number','Deserializer::parse_negative_number','Deserializer::parse_str_bytes_content','Deserializer::parse_hex_bytes_content','Deserializer::parse_base64_bytes_content','Deserializer::parse_array_bytes_content','parse_uuuu','parse_hex_nib'})
open(os.path.join(D,'json_de.spec'),'w').write(open(os.path.join(D,'json_de.head')).read()+RT+'\n')
