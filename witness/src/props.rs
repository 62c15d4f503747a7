//! One case of each property, a function of (property, seed, index).
use crate::js::{self, Enc, Mode};
use crate::mp::{self, Bad, Flavour, FLAVOURS};
use crate::rng::Rng;
use crate::val::*;
use crate::wr;
use ser_write::SerWrite;
use serde::de::{Deserialize, DeserializeSeed, Deserializer};
use serde::Serialize;
use std::cell::Cell;

type R = Result<(), String>;
/// a plain sink, present in every configuration
#[derive(Default)]
struct Rec(Vec<u8>);
impl SerWrite for Rec { type Error = ser_write::SerError; fn write(&mut self, b: &[u8]) -> Result<(), ser_write::SerError> { self.0.extend(b); Ok(()) } }
pub fn hex(b: &[u8]) -> String { let mut s = String::new(); for x in b { s += &format!("{:02x}", x) } s }
fn show(b: &[u8]) -> String { format!("{} ({:?})", hex(b), String::from_utf8_lossy(b)) }

thread_local! { static SHAPE: Cell<*const Shape> = const { Cell::new(std::ptr::null()) }; static START: Cell<usize> = const { Cell::new(0) }; }
/// a type whose Deserialize follows the current shape, so that the public entry points can be used
pub struct Dyn<'de>(pub Val, pub Ctx<'de>);
impl<'de> Deserialize<'de> for Dyn<'de> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let p = SHAPE.with(|s| s.get());
        let shape: &Shape = unsafe { &*p };
        let ctx = Ctx::default();
        ctx.calls.set(START.with(|s| s.get()));
        let v = Seed(shape, &ctx).deserialize(d)?;
        Ok(Dyn(v, ctx))
    }
}
fn with_shape<T>(s: &Shape, start: usize, f: impl FnOnce() -> T) -> T { SHAPE.with(|x| x.set(s)); START.with(|x| x.set(start)); f() }

fn nan32(b: u32) -> bool { f32::from_bits(b).is_nan() }
fn nan64(b: u64) -> bool { f64::from_bits(b).is_nan() }
/// same value; a NaN made by the decoder may have any payload
fn eq(want: &Val, got: &Val, loose: bool) -> bool {
    let many = |a: &[Val], b: &[Val]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| eq(x, y, loose));
    let flds = |a: &[(&'static str, Option<Val>)], b: &[(&'static str, Option<Val>)]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && match (&x.1, &y.1) { (Some(p), Some(q)) => eq(p, q, loose), (None, None) => true, _ => false });
    match (want, got) {
        (Val::F32(a), Val::F32(b)) => a == b || nan32(*b) && (if loose { !f32::from_bits(*a).is_finite() } else { *a == f32::NAN.to_bits() || *b == f32::NAN.to_bits() && nan32(*a) }) || loose && f32::from_bits(*a) == f32::from_bits(*b),
        (Val::F64(a), Val::F64(b)) => a == b || nan64(*b) && (if loose { !f64::from_bits(*a).is_finite() } else { *a == f64::NAN.to_bits() || *b == f64::NAN.to_bits() && nan64(*a) }) || loose && f64::from_bits(*a) == f64::from_bits(*b),
        (Val::Some(a), Val::Some(b)) | (Val::Newtype(a), Val::Newtype(b)) => eq(a, b, loose),
        (Val::Seq(a, _), Val::Seq(b, _)) | (Val::Tuple(a, _), Val::Tuple(b, _)) | (Val::TupleStruct(a, _), Val::TupleStruct(b, _)) => many(a, b),
        (Val::Map(a, _), Val::Map(b, _)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| eq(&x.0, &y.0, loose) && eq(&x.1, &y.1, loose)),
        (Val::Struct(a, _), Val::Struct(b, _)) => flds(a, b),
        (Val::NewVar(i, n, a), Val::NewVar(j, m, b)) => i == j && n == m && eq(a, b, loose),
        (Val::TupVar(i, n, a, _), Val::TupVar(j, m, b, _)) => i == j && n == m && many(a, b),
        (Val::StructVar(i, n, a, _), Val::StructVar(j, m, b, _)) => i == j && n == m && flds(a, b),
        (a, b) => a == b,
    }
}

// ------------------------------------------------------------------ JSON reading
const GUARD: usize = 9;
#[derive(Clone, Copy, PartialEq)]
enum Judge { Safety, Full }
fn json_read(input: &[u8], mode: Mode, shape: &Shape, start: usize, judge: Judge) -> R {
    let mut big = vec![b'1'; GUARD]; big.extend(input); big.extend([b'7'; GUARD]);
    let n = input.len();
    let res: Result<Val, String> = {
        let buf = &mut big[GUARD..GUARD + n];
        let lo = buf.as_ptr() as usize;
        with_shape(shape, start, || {
            let r: Result<Dyn, ser_write_json::de::Error> = match mode { Mode::Nope => ser_write_json::from_mut_slice(buf), Mode::Hex => ser_write_json::from_mut_slice_hex_bytes(buf), Mode::B64 => ser_write_json::from_mut_slice_base64_bytes(buf) };
            match r { Ok(d) => { d.1.check(lo, n).map_err(|e| format!("{e}; input {} shape {shape:?} {mode:?}", show(input)))?; Ok::<Result<Val, String>, String>(Ok(d.0)) } Err(e) => Ok(Err(format!("{e:?}"))) }
        })?
    };
    if big[..GUARD] != [b'1'; GUARD] || big[GUARD + n..] != [b'7'; GUARD] { return Err(format!("wrote outside the buffer; input {} shape {shape:?} {mode:?}", show(input))); }
    if judge == Judge::Safety { return Ok(()); }
    let want = js::Dec::top(input, mode, shape);
    match (&want, &res) {
        (Err(Bad::Unspec), _) | (Err(_), Err(_)) => Ok(()),
        (Ok(a), Ok(b)) if eq(a, b, false) => Ok(()),
        _ => Err(format!("input {} as {shape:?} ({mode:?}): expected {want:?}, got {res:?}", show(input))),
    }
}
fn modes(r: &mut Rng) -> Mode { *r.pick(&[Mode::Nope, Mode::Hex, Mode::B64]) }
fn json_doc(r: &mut Rng, s: &Shape, m: Mode) -> Vec<u8> {
    let mut o = vec![]; js::gen(r, s, m, &mut o);
    if r.chance(1, 8) { o.extend(*r.pick(&[&b" "[..], b"\n", b"x", b",", b"\x0b", b"]", b"}", b"0", b" 1"])) }
    if r.chance(2, 5) { js::mutate(r, &mut o) }
    if r.chance(1, 40) { o = (0..r.below(12)).map(|_| r.byte()).collect() }
    o
}
fn leaf(r: &mut Rng) -> Shape { match r.below(6) { 0 => Shape::Bool, 1 => Shape::Int(IntTy::U8), 2 => Shape::Unit, 3 => Shape::Int(IntTy::I16), 4 => Shape::UnitStruct, _ => Shape::Str } }
/// structure-heavy shapes over simple leaves
fn structural(r: &mut Rng, d: usize) -> Shape {
    if d == 0 { return leaf(r) }
    let sub = |r: &mut Rng| structural(r, d - 1);
    match r.below(14) {
        0 => leaf(r), 13 => { let n = r.below(3); Shape::StructTake(Box::new(Shape::Str), Box::new(sub(r)), n) }
        1 => { let s = match r.below(2) { 0 => Shape::Bool, _ => Shape::Seq(Box::new(sub(r))) }; Shape::Opt(Box::new(s)) }
        2 => Shape::Newtype(Box::new(sub(r))), 3 | 4 => Shape::Seq(Box::new(sub(r))), 5 => { let n = r.below(4); Shape::SeqTake(Box::new(sub(r)), n) }
        6 => { let n = r.below(4); Shape::Tuple((0..n).map(|_| sub(r)).collect()) } 7 => { let n = r.below(4); Shape::TupleStruct((0..n).map(|_| sub(r)).collect()) }
        8 => Shape::Map(Box::new(Shape::Str), Box::new(sub(r))), 9 => { let n = r.below(3); Shape::MapTake(Box::new(Shape::Str), Box::new(sub(r)), n) }
        10 => { let f = distinct(r, 3); Shape::Struct(f.into_iter().map(|n| (n, sub(r))).collect()) }
        _ => { let f = distinct(r, 4); Shape::Enum(f.into_iter().map(|n| (n, match r.below(4) { 0 => VShape::Unit, 1 => VShape::New(sub(r)), 2 => { let k = r.below(3); VShape::Tup((0..k).map(|_| sub(r)).collect()) } _ => { let g = distinct(r, 2); VShape::Struct(g.into_iter().map(|n| (n, sub(r))).collect()) } })).collect()) }
    }
}
fn small(i: u64) -> Option<Vec<u8>> {
    match i { 0 => Some(vec![]), 1..=256 => Some(vec![(i - 1) as u8]), 257..=65792 => Some(((i - 257) as u16).to_be_bytes().to_vec()), _ => None }
}
const J3: &[u8] = b"\"\\u0019-.e[]{},: ntAa=\x1f\x80/";
/// exhaustive three-byte strings over the interesting characters
fn small3(i: u64) -> Option<Vec<u8>> { let n = J3.len() as u64; if i < n * n * n { Some(vec![J3[(i / n / n) as usize], J3[(i / n % n) as usize], J3[(i % n) as usize]]) } else { None } }

/// one deserializer used again and again, whatever it answers
fn json_reuse(r: &mut Rng) -> R {
    let mut o = vec![];
    let mut todo: Vec<Shape> = vec![];
    for _ in 0..1 + r.below(4) { let s = match r.below(5) { 0 => Shape::Any, 1 => Shape::Ignored, 2 => Shape::Bytes, 3 => structural(r, 2), _ => gen_shape(r, 2) }; js::gen(r, &s, Mode::Nope, &mut o); o.push(*r.pick(b" ,:\n")); todo.push(if r.chance(1, 4) { structural(r, 2) } else { s }) }
    if r.chance(3, 4) { js::mutate(r, &mut o) }
    let txt = show(&o);
    let mut big = vec![b'1'; GUARD]; big.extend(&o); big.extend([b'7'; GUARD]);
    {
        let n = o.len();
        let mut d: ser_write_json::de::DeserializerNopeByteStr = ser_write_json::de::Deserializer::from_mut_slice(&mut big[GUARD..GUARD + n]);
        let mut left = n;
        for s in todo.iter().chain(&[Shape::Ignored, Shape::Any, Shape::Str]) {
            let what = match r.below(8) {
                0 => format!("eat_whitespace: {:?}", d.eat_whitespace()),
                _ => { let x = with_shape(s, 0, || Dyn::deserialize(&mut d).map(|x| x.0)); if r.chance(1, 3) && d.remaining_len() > 0 { d.eat_some(1) } format!("{s:?}: {x:?}") }
            };
            if d.remaining_len() > left { return Err(format!("on {txt} with {left} bytes left, {what} left {}", d.remaining_len())) }
            left = d.remaining_len();
        }
    }
    if big[..GUARD] != [b'1'; GUARD] || big[GUARD + o.len()..] != [b'7'; GUARD] { return Err(format!("wrote outside the buffer; input {txt} read as {todo:?}")) }
    Ok(())
}
fn depth(r: &mut Rng) -> usize { match r.below(6) { 0 => { let n = r.dlen().unwrap_or(300); n.min(400) } 1 => (1 << r.below(9)) + r.below(3) - 1, _ => 1 + r.below(140) } }
/// long strings, long containers, deep nesting, long runs of white space and digits
fn json_big(prop: &str, r: &mut Rng, judge: Judge) -> R {
    let n = edge(r);
    let kind = match prop { "C12" => 0, "C13" => 5, "C14" => *r.pick(&[1, 3, 3]), "C15" => *r.pick(&[1, 2, 4, 6]), "C17" => 2, _ => r.below(7) };
    let (mut m, mut o) = (Mode::Nope, vec![]);
    let mut shape = match kind {
        0 => { let mut c: Vec<char> = (0..n).map(|k| (b'a' + (k % 26) as u8) as char).collect(); for _ in 0..r.below(4) { let k = r.below(c.len()); if k < c.len() { c[k] = gen_char(r) } } if r.chance(1, 2) { c.push(*r.pick(&['\\', '"', 'é', '\n'])); for _ in 0..r.below(4) { c.push(gen_char(r)) } } let t: String = c.into_iter().collect(); js::gen_str(r, &t, &mut o); if r.chance(1, 3) { Shape::Bytes } else { Shape::Str } }
        1 => { let bytes = prop == "C14" || r.chance(1, 2); o.push(b'['); for k in 0..n { if k > 0 { o.push(b',') } if bytes { o.extend((k % 256).to_string().as_bytes()) } else { o.extend(b"null") } } o.push(b']'); if bytes { Shape::Bytes } else { Shape::Seq(Box::new(Shape::Unit)) } }
        2 => { let t = *r.pick(&INTS); let num = prop == "C17"; o.push(b'{'); for k in 0..n { if k > 0 { o.push(b',') } if num { o.extend(format!("\"{}\":null", k % 100).bytes()) } else { o.extend(b"\"k\":null") } } o.push(b'}'); let k = if num { Shape::Int(t) } else { Shape::Str }; if r.chance(1, 4) { Shape::MapTake(Box::new(k), Box::new(Shape::Unit), n - r.below(2)) } else { Shape::Map(Box::new(k), Box::new(Shape::Unit)) } }
        3 => { let b: Vec<u8> = (0..n).map(|k| (k * 7) as u8).collect(); o.push(b'"'); if r.chance(1, 2) { m = Mode::Hex; for x in &b { o.extend(format!("{x:02x}").bytes()) } } else { m = Mode::B64; o.extend(js::b64(&b)) } o.push(b'"'); Shape::Bytes }
        4 => { let d = depth(r); let maps: Vec<bool> = (0..d).map(|_| r.chance(1, 3)).collect(); for x in &maps { o.extend(if *x { &b"{\"a\":"[..] } else { b"[" }) } o.extend(*r.pick(&[&b"1"[..], b"null", b"\"]\"", b"[]", b"{}"])); for x in maps.iter().rev() { o.push(if *x { b'}' } else { b']' }) } Shape::Any }
        5 => { let n = n.min(5000); if r.chance(1, 2) { o.push(b'-') } for k in 0..n { o.push(if k == 0 { b'1' } else { *r.pick(b"0123456789") }) } Shape::Int(*r.pick(&INTS)) }
        _ => { o.push(b'['); o.extend(vec![*r.pick(b" \n\t\r"); n]); o.extend(b"7"); o.extend(vec![*r.pick(b" \n\t\r"); r.below(2) * n]); o.push(b','); o.extend(vec![b' '; r.below(2) * n]); o.extend(b"8]"); Shape::Seq(Box::new(Shape::Int(IntTy::U8))) }
    };
    if r.chance(1, 6) { js::mutate(r, &mut o) }
    if prop == "C16" || prop == "C11" && r.chance(1, 3) { shape = Shape::Ignored }
    if r.chance(1, 2) { let mut w = vec![b'[']; w.extend(&o); w.extend(b", 42]"); o = w; shape = Shape::Tuple(vec![shape, Shape::Int(IntTy::U8)]) }
    json_read(&o, m, &shape, r.below(2), judge)
}
fn nested(r: &mut Rng) -> Val {
    let mut v = gen_any(r, 0, false);
    for _ in 0..depth(r) { v = match r.below(9) { 0 | 1 | 2 => Val::Seq(vec![v], Len::Exact), 3 => Val::Map(vec![(Val::Str("k".into()), v)], Len::Exact), 4 => Val::Struct(vec![("a", Some(v))], Len::Exact), 5 => Val::Some(Box::new(v)), 6 => Val::NewVar(1, "b", Box::new(v)), 7 => Val::Newtype(Box::new(v)), _ => Val::Tuple(vec![v], Len::Exact) } }
    v
}
fn json_case(prop: &str, r: &mut Rng, i: u64) -> R {
    if r.chance(1, 300) { return json_big(prop, r, if prop == "C11" { Judge::Safety } else { Judge::Full }) }
    if prop == "C11" && r.chance(1, 6) { return json_reuse(r) }
    let judge = if prop == "C11" { Judge::Safety } else { Judge::Full };
    let shapes_small: Vec<Shape> = match prop {
        "C11" => vec![Shape::Str, Shape::Bytes, Shape::Int(IntTy::I8), Shape::Any, Shape::Ignored, Shape::Char, Shape::F32, Shape::Opt(Box::new(Shape::Unit)), Shape::Map(Box::new(Shape::Any), Box::new(Shape::Any)), Shape::Enum(vec![("a", VShape::Unit), ("b", VShape::New(Shape::Any))])],
        "C12" => vec![Shape::Str, Shape::Char], "C13" => vec![Shape::Int(IntTy::U8), Shape::Int(IntTy::I8)], "C14" => vec![Shape::Bytes],
        "C15" => vec![Shape::Bool, Shape::Unit, Shape::Seq(Box::new(Shape::Int(IntTy::U8))), Shape::Map(Box::new(Shape::Str), Box::new(Shape::Int(IntTy::U8)))],
        "C16" => vec![Shape::Ignored], _ => vec![Shape::Map(Box::new(Shape::Int(IntTy::U8)), Box::new(Shape::Unit))],
    };
    // one in four cases walks the exhaustive lists
    if i % 4 == 0 {
        let k = i / 4;
        let wraps: &[(&[u8], &[u8])] = match prop { "C12" | "C16" => &[(b"", b""), (b"\"", b"\"")], "C13" | "C11" => &[(b"", b"")], "C14" => &[(b"", b""), (b"\"", b"\""), (b"[", b"]")], "C15" => &[(b"", b""), (b"[1", b"2]"), (b"{\"a\":1", b"}")], _ => &[(b"{\"", b"\":null}"), (b"{\"1", b":null}")] };
        let core = if let Some(c) = small(k) { c } else if let Some(c) = small3(k - 65793) { c } else if prop == "C13" || prop == "C17" { let v = k as i64 % 1400 - 400; format!("{v}").into_bytes() } else { (0..4).map(|_| *r.pick(J3)).collect() };
        for s in &shapes_small { for (a, b) in wraps {
            let mut o = a.to_vec(); o.extend(&core); o.extend(*b);
            for m in [Mode::Nope, Mode::Hex, Mode::B64] { if m != Mode::Nope && !matches!(s, Shape::Bytes) { continue } json_read(&o, m, s, 0, judge)? }
        } }
        return Ok(());
    }
    let m = match prop { "C14" | "C11" => modes(r), _ => Mode::Nope };
    let shape = match prop {
        "C11" => match r.below(6) { 0 => Shape::Any, 1 => Shape::Ignored, 2 => Shape::Bytes, 3 => structural(r, 2), _ => gen_shape(r, 3) },
        "C12" => match r.below(6) { 0 => Shape::Char, 1 => Shape::Tuple(vec![Shape::Str, Shape::Int(IntTy::U8)]), 2 => Shape::Seq(Box::new(if r.chance(1, 2) { Shape::Str } else { Shape::Char })), 3 => Shape::Opt(Box::new(Shape::Str)), _ => Shape::Str },
        "C13" => { let t = Shape::Int(*r.pick(&INTS)); match r.below(5) { 0 => Shape::Tuple(vec![t, Shape::Int(IntTy::I64)]), 1 => Shape::Seq(Box::new(t)), _ => t } }
        "C14" => match r.below(4) { 0 => Shape::Tuple(vec![Shape::Bytes, Shape::Bytes, Shape::Int(IntTy::U8)]), 1 => Shape::Seq(Box::new(Shape::Bytes)), _ => Shape::Bytes },
        "C15" => structural(r, 3),
        "C16" => match r.below(4) { 0 => Shape::Ignored, 1 => Shape::Seq(Box::new(Shape::Ignored)), 2 => Shape::Tuple(vec![Shape::Ignored, Shape::Int(IntTy::U8), Shape::Ignored, Shape::Str]), _ => { let f = distinct(r, 3); Shape::Struct(f.into_iter().map(|n| (n, leaf(r))).collect()) } },
        _ => { let k = gen_kshape(r); let v = leaf(r); Shape::Map(Box::new(k), Box::new(v)) }
    };
    let doc = json_doc(r, &shape, m);
    json_read(&doc, m, &shape, r.below(2), judge)
}

// ------------------------------------------------------------------ JSON writing
fn json_write(e: Enc, v: &Val) -> (Vec<u8>, Result<(), String>) {
    let mut o = Rec::default();
    let r = match e { Enc::Array => ser_write_json::to_writer(&mut o, v).map_err(|e| format!("{e:?}")), Enc::Hex => ser_write_json::ser::to_writer_hex_bytes(&mut o, v).map_err(|e| format!("{e:?}")), Enc::B64 => ser_write_json::ser::to_writer_base64_bytes(&mut o, v).map_err(|e| format!("{e:?}")), Enc::Pass => ser_write_json::ser::to_writer_pass_bytes(&mut o, v).map_err(|e| format!("{e:?}")) };
    (o.0, r)
}
fn check_json_write(e: Enc, v: &Val) -> R {
    let mut want = vec![];
    let refuse = js::enc(e, v, &mut want).is_err();
    let (got, res) = json_write(e, v);
    if refuse { return if res.is_ok() { Err(format!("{v:?} ({e:?}) must be refused, got {}", show(&got))) } else { Ok(()) } }
    if res.is_err() || got != want { return Err(format!("{v:?} ({e:?}): expected {}, got {res:?} {}", show(&want), show(&got))) }
    #[cfg(feature = "full")] {
        let s = match e { Enc::Array => ser_write_json::ser::to_string(v), Enc::Hex => ser_write_json::ser::to_string_hex_bytes(v), Enc::B64 => ser_write_json::ser::to_string_base64_bytes(v), Enc::Pass => return Ok(()) };
        match s { Ok(s) if s.as_bytes() == &want[..] && std::str::from_utf8(s.as_bytes()).is_ok() => {} other => return Err(format!("to_string of {v:?} ({e:?}): {other:?}")) }
    }
    Ok(())
}
fn wrap(r: &mut Rng, v: Val) -> Val {
    match r.below(8) {
        0 => Val::Seq(vec![v.clone(), v], Len::Exact), 1 => Val::Some(Box::new(v)), 2 => Val::Newtype(Box::new(v)), 3 => Val::Struct(vec![("a", Some(v))], Len::Exact),
        4 => Val::Map(vec![(Val::Str("k".into()), v)], Len::Exact), 5 => Val::NewVar(1, "b", Box::new(v)), _ => v,
    }
}
/// keys of ordinary Rust types: what a type's size or layout could decide
struct One<K>(K);
impl<K: Serialize> Serialize for One<K> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { use serde::ser::SerializeMap; let mut m = s.serialize_map(Some(1))?; m.serialize_entry(&self.0, &())?; m.end() } }
fn typed_keys() -> R {
    fn go<K: Serialize + std::fmt::Debug>(k: K, want: Option<&str>) -> R {
        let mut o = Rec::default();
        let r = ser_write_json::to_writer(&mut o, &One(&k));
        match (want, r) {
            (None, Err(_)) => Ok(()),
            (Some(w), Ok(())) if o.0 == format!("{{{w}:null}}").as_bytes() => Ok(()),
            (w, r) => Err(format!("map key {k:?}: expected {w:?}, got {r:?} {}", show(&o.0))),
        }
    }
    go(Some(1u8), None)?; go(Some(true), None)?; go(Some('a'), None)?; go(Some("a"), None)?; go(Some(1u64), None)?; go(Some(()), None)?; go(None::<u8>, None)?; go(None::<()>, None)?;
    go((), None)?; go((1u8,), None)?; go([1u8; 1], None)?; go([0u8; 0], None)?; go([1u8, 2], None)?; go(vec![1u8], None)?; go(&[1u8, 2][..], None)?; go(1.0f32, None)?; go(1.0f64, None)?; go(Some(Some(1u8)), None)?;
    go(1u8, Some("\"1\""))?; go(-1i8, Some("\"-1\""))?; go(300u16, Some("\"300\""))?; go(-300i16, Some("\"-300\""))?; go(70000u32, Some("\"70000\""))?; go(-70000i32, Some("\"-70000\""))?; go(u64::MAX, Some("\"18446744073709551615\""))?; go(i64::MIN, Some("\"-9223372036854775808\""))?;
    go(usize::MAX, Some("\"18446744073709551615\""))?; go(isize::MIN, Some("\"-9223372036854775808\""))?; go(true, Some("\"true\""))?; go(false, Some("\"false\""))?; go('"', Some("\"\\\"\""))?; go("x", Some("\"x\""))?; go("", Some("\"\""))?; go(Box::new(5u8), Some("\"5\""))?; go(std::num::Wrapping(5u8), Some("\"5\""))
}
fn json_ser_case(prop: &str, r: &mut Rng, i: u64) -> R {
    if prop != "C04" && r.chance(1, 300) {
        let n = edge(r);
        let v = match prop {
            "C05" => { let mut c: Vec<char> = (0..n).map(|k| (b'a' + (k % 26) as u8) as char).collect(); for _ in 0..r.below(4) { let k = r.below(n); if k < n { c[k] = gen_char(r) } } let t: String = c.into_iter().collect(); if r.chance(1, 3) { Val::Disp(vec![t, gen_string(r, 4)], false) } else { Val::Str(t) } }
            "C07" => { let s = gen_kshape(r); let k = gen_val(r, &s); let n = n.min(1_000_000 / format!("{k:?}").len()); Val::Map((0..n).map(|_| (k.clone(), Val::Unit)).collect(), Len::Exact) }
            "C08" => Val::Bytes((0..n).map(|k| (k * 7) as u8).collect()),
            _ => if r.chance(1, 2) { nested(r) } else { sizable(r) },
        };
        return check_json_write(*r.pick(&[Enc::Array, Enc::Hex, Enc::B64]), &v)
    }
    match prop {
        "C04" => {
            // both narrow types exhaustively, then the wide ones
            for j in 0..64 {
                let k = i * 64 + j;
                if k < 65536 { for (t, v) in [(IntTy::U16, k as i128), (IntTy::I16, k as u16 as i16 as i128), (IntTy::U8, (k & 255) as i128), (IntTy::I8, k as u8 as i8 as i128), (IntTy::U32, k as i128), (IntTy::I64, -(k as i128))] { check_json_write(Enc::Array, &Val::Int(v, t))? } }
                let t = *r.pick(&INTS); let v = Val::Int(gen_int(r, t), t); let v = if r.chance(1, 3) { Val::Map(vec![(v.clone(), v)], Len::Exact) } else { wrap(r, v) };
                check_json_write(Enc::Array, &v)?
            }
            Ok(())
        }
        "C05" => {
            for j in 0..256 { let k = (i * 256 + j) as u32; if let Some(c) = if k < 0x110000 { char::from_u32(k) } else { None } {
                let s = Val::Str(format!("{c}a{c}{c}"));
                for v in [Val::Char(c), s.clone(), Val::Disp(vec![c.to_string(), "x\"".into(), c.to_string()], false)] { check_json_write(Enc::Array, &v)? }
                check_json_write(Enc::Array, &Val::Map(vec![(s, Val::Char(c))], Len::Exact))?
            } }
            let s = gen_string(r, 24);
            let v = match r.below(5) { 0 => { let n = r.len(4); Val::Disp((0..n).map(|_| gen_string(r, 6)).collect(), false) } 1 => Val::UnitVar(0, *r.pick(&NAMES)), 2 => Val::Struct(vec![(*r.pick(&NAMES), Some(Val::Str(s)))], Len::Exact), 3 => Val::NewVar(0, *r.pick(&NAMES), Box::new(Val::Str(s))), _ => Val::Str(s) };
            let v = wrap(r, v);
            check_json_write(Enc::Array, &v)
        }
        "C07" if i % 64 == 0 => typed_keys(),
        "C07" => { let n = r.len(3); let v = Val::Map((0..n).map(|_| { let bad = r.chance(1, 2); (gen_key(r, bad), Val::Bool(true)) }).collect(), Len::Exact); let v = wrap(r, v); check_json_write(Enc::Array, &v) }
        "C08" => {
            let e = *r.pick(&[Enc::Array, Enc::Hex, Enc::B64, Enc::Pass]);
            let b = if i < 65793 { small(i).unwrap() } else { gen_bytes(r, 40) };
            for e in [Enc::Array, Enc::Hex, Enc::B64] { check_json_write(e, &Val::Bytes(b.clone()))? }
            let v = if e == Enc::Pass { Val::Bytes(b.into_iter().collect()) } else { Val::Bytes(b) };
            let v = wrap(r, v); check_json_write(e, &v)
        }
        _ => {
            // structure; byte strings of the pass-through encoder are C08's
            let v = gen_any(r, 3, r.0 & 1 == 0); let e = *r.pick(&[Enc::Array, Enc::Hex, Enc::B64]);
            check_json_write(e, &v)
        }
    }
}

// ------------------------------------------------------------------ failing writer (C09)
struct Failing { accepted: Vec<u8>, calls: usize, fail_at: usize, failed: bool, late: bool }
impl Failing {
    fn put(&mut self, b: &[u8]) -> Result<(), ser_write::SerError> {
        let k = self.calls; self.calls += 1;
        if k == self.fail_at { self.failed = true; return Err(ser_write::SerError::BufferFull) }
        if self.failed && !b.is_empty() { self.late = true }
        self.accepted.extend(b); Ok(())
    }
}
impl SerWrite for Failing {
    type Error = ser_write::SerError;
    fn write(&mut self, b: &[u8]) -> Result<(), ser_write::SerError> { self.put(b) }
    fn write_byte(&mut self, b: u8) -> Result<(), ser_write::SerError> { self.put(&[b]) }
    fn write_str(&mut self, s: &str) -> Result<(), ser_write::SerError> { self.put(s.as_bytes()) }
}
fn ser_into<W: SerWrite>(f: usize, w: &mut W, v: &Val) -> bool where W::Error: std::fmt::Debug + std::fmt::Display {
    match f { 0 => ser_write_json::to_writer(w, v).is_ok(), 1 => ser_write_json::ser::to_writer_hex_bytes(w, v).is_ok(), 2 => ser_write_json::ser::to_writer_base64_bytes(w, v).is_ok(), 3 => ser_write_json::ser::to_writer_pass_bytes(w, v).is_ok(),
        4 => ser_write_msgpack::to_writer(w, v).is_ok(), 5 => ser_write_msgpack::to_writer_compact(w, v).is_ok(), _ => ser_write_msgpack::to_writer_named(w, v).is_ok() }
}
/// lengths on both sides of every boundary of a MessagePack header
const EDGES: [usize; 21] = [15, 16, 17, 31, 32, 33, 127, 128, 254, 255, 256, 257, 300, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 66000];
fn edge(r: &mut Rng) -> usize { if let Some(n) = r.dlen() { return n.max(1) } let k = if r.chance(1, 4) { EDGES.len() } else { 13 }; EDGES[r.below(k)] }
/// one string, byte array or container of a length near such a boundary
fn sizable(r: &mut Rng) -> Val {
    let n = edge(r);
    let v = match r.below(6) {
        0 | 1 => Val::Bytes((0..n).map(|k| k as u8).collect()), 2 => Val::Str((0..n).map(|k| (b'a' + (k % 26) as u8) as char).collect()),
        3 => Val::Seq(vec![Val::Unit; n], Len::Exact), 4 => Val::Map((0..n).map(|k| (Val::Int(k as i128 % 100, IntTy::U8), Val::Unit)).collect(), Len::Exact),
        _ => Val::Disp(vec!["x".repeat(n / 2), "y".repeat(n - n / 2)], false),
    };
    if r.chance(1, 3) { wrap(r, v) } else { v }
}
fn failing_case(r: &mut Rng) -> R {
    let v = if r.chance(1, 4) { let s = gen_kshape(r); let k = gen_val(r, &s); let v = if r.chance(1, 2) { Val::Map(vec![(k, Val::Unit)], Len::Exact) } else { k }; wrap(r, v) } else if r.chance(1, 12) { sizable(r) } else { gen_any(r, 3, false) };
    let f = r.below(7);
    if f > 3 && failing_display(&v) { return Ok(()) }
    let mut full = Failing { accepted: vec![], calls: 0, fail_at: usize::MAX, failed: false, late: false };
    if !ser_into(f, &mut full, &v) { return Ok(()) }
    let n = full.calls;
    let few = if full.accepted.len() > 3000 { 10 } else { 40 };
    let ks: Vec<usize> = if n <= few { (0..n).collect() } else { (0..few).map(|k| if k < few / 4 { k } else if k < few / 3 { n - 1 - (k - few / 4) } else { r.below(n) }).collect() };
    for k in ks {
        let mut w = Failing { accepted: vec![], calls: 0, fail_at: k, failed: false, late: false };
        let ok = ser_into(f, &mut w, &v);
        let what = format!("format {f}, {v:?}, writer failing at call {k} of {n}");
        if !w.failed { return Err(format!("{what}: not the same calls as before")) }
        if ok { return Err(format!("{what}: serialization returned Ok")) }
        if w.late { return Err(format!("{what}: bytes written after the failure: {}", show(&w.accepted))) }
        if !full.accepted.starts_with(&w.accepted) { return Err(format!("{what}: accepted {} is no prefix of {}", show(&w.accepted), show(&full.accepted))) }
    }
    // and a writer that runs out of room
    let room = r.below(full.accepted.len() + 1);
    let mut buf = vec![0xEEu8; full.accepted.len()];
    let mut w = ser_write::SliceWriter::new(&mut buf[..room]);
    let ok = ser_into(f, &mut w, &v);
    let kept = w.as_ref().to_vec();
    if ok != (room == full.accepted.len()) { return Err(format!("format {f}, {v:?}: Ok={ok} with room for {room} of {} bytes", full.accepted.len())) }
    if !full.accepted.starts_with(&kept) { return Err(format!("format {f}, {v:?}: accepted {} is no prefix of {}", show(&kept), show(&full.accepted))) }
    Ok(())
}

// ------------------------------------------------------------------ base64 (C10)
fn b64_case(r: &mut Rng, i: u64) -> R {
    use ser_write_json::base64;
    let bytes = if i < 65793 { small(i).unwrap() } else { gen_bytes(r, 70) };
    let mut o = Rec(vec![b'#']);
    let pads = base64::encode(&mut o, &bytes).map_err(|e| format!("{e:?}"))?;
    let want = js::b64(&bytes);
    if o.0[1..] != want[..] || pads as usize != (3 - bytes.len() % 3) % 3 { return Err(format!("encode({}): {:?} pads {pads}, expected {:?}", hex(&bytes), String::from_utf8_lossy(&o.0[1..]), String::from_utf8_lossy(&want))) }
    let check = |text: &[u8]| -> R {
        let mut big = vec![b'A'; 5]; big.extend(text); big.extend([b'B'; 5]);
        let (d, e) = base64::decode(&mut big[5..5 + text.len()]);
        let n = text.iter().take_while(|c| js::ALPHA.contains(c)).count();
        let exp = js::unb64(&text[..n]);
        if e != n || d != exp.len() || big[5..5 + d.min(text.len())] != exp[..] || big[..5] != [b'A'; 5] || big[5 + text.len()..] != [b'B'; 5] { return Err(format!("decode({:?}): ({d}, {e}) {}, expected ({}, {n}) {}", String::from_utf8_lossy(text), hex(&big), exp.len(), hex(&exp))) }
        Ok(())
    };
    check(&want)?;
    let mut t = want.clone(); for _ in 0..pads { t.push(b'=') } check(&t)?;
    // anything at all
    let n = r.below(30);
    let t: Vec<u8> = (0..n).map(|_| if r.chance(1, 12) { r.byte() } else { *r.pick(js::ALPHA) }).collect(); check(&t)?;
    if i < 65793 { check(&small(i).unwrap())?; let b = small(i).unwrap(); let mut t = vec![b'Q'; (i % 5) as usize]; t.extend(b); t.extend(b"xyz"); check(&t)? }
    Ok(())
}

// ------------------------------------------------------------------ MessagePack
fn failing_display(v: &Val) -> bool { format!("{v:?}").contains("], true)") }
fn mp_write(fl: Flavour, v: &Val) -> (Vec<u8>, Result<(), String>) {
    let mut o = Rec::default();
    let r = match fl { Flavour::Compact => ser_write_msgpack::to_writer_compact(&mut o, v).map_err(|e| format!("{e:?}")), Flavour::Idx => ser_write_msgpack::to_writer(&mut o, v).map_err(|e| format!("{e:?}")), Flavour::Named => ser_write_msgpack::to_writer_named(&mut o, v).map_err(|e| format!("{e:?}")) };
    (o.0, r)
}
fn check_mp_write(fl: Flavour, v: &Val) -> R {
    // ToString panics by contract when a Display implementation fails
    if cfg!(feature = "full") && failing_display(v) { return Ok(()) }
    let mut want = vec![];
    let refuse = mp::enc(fl, v, &mut want).is_err();
    let (got, res) = mp_write(fl, v);
    let cut = |b: &[u8]| show(&b[..b.len().min(80)]);
    let sv = || { let s = format!("{v:?}"); if s.len() > 400 { format!("{}…", s.chars().take(400).collect::<String>()) } else { s } };
    if refuse { return if res.is_ok() { Err(format!("{} ({fl:?}) must be refused, got {}", sv(), cut(&got))) } else { Ok(()) } }
    if res.is_err() || !mp::same_enc(&want, &got) { return Err(format!("{} ({fl:?}): expected {}, got {res:?} {}", sv(), cut(&want), cut(&got))) }
    #[cfg(feature = "full")] {
        let s = match fl { Flavour::Compact => ser_write_msgpack::to_vec_compact(v), Flavour::Idx => ser_write_msgpack::to_vec(v), Flavour::Named => ser_write_msgpack::to_vec_named(v) };
        match s { Ok(s) if s == got => {} other => return Err(format!("to_vec of {} ({fl:?}): {other:?}", sv())) }
    }
    Ok(())
}
/// a Display whose second rendering differs from the first (only lengths matter)
struct Fickle(Cell<usize>, Vec<String>);
impl std::fmt::Display for Fickle { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { let k = self.0.get(); self.0.set(k + 1); f.write_str(&self.1[k.min(self.1.len() - 1)]) } }
struct Collect<'a>(&'a Fickle);
impl Serialize for Collect<'_> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self.0) } }

fn mp_ser_case(prop: &str, r: &mut Rng, i: u64) -> R {
    let fl = *r.pick(&FLAVOURS);
    match prop {
        "C18" => {
            for j in 0..64 {
                let k = i * 64 + j;
                if k < 65536 { for (t, v) in [(IntTy::U16, k as i128), (IntTy::I16, k as u16 as i16 as i128), (IntTy::U8, (k & 255) as i128), (IntTy::I8, k as u8 as i8 as i128), (IntTy::U32, k as i128), (IntTy::I64, -(k as i128)), (IntTy::I32, k as i128 - 40000), (IntTy::U64, k as i128 + 4294967296 - 32768), (IntTy::I64, -(k as i128) - 2147483648 + 32768), (IntTy::I64, k as i128 + 4294967296 - 32768), (IntTy::I32, (k as i32 as i128) * 32768)] { let v = if t.has(v) { v } else { 0 }; check_mp_write(fl, &Val::Int(v, t))? } }
                let t = *r.pick(&INTS); let v = match r.below(8) { 0 => Val::F32(gen_f32(r)), 1 => Val::F64(gen_f64(r)), 2 => Val::Bool(r.chance(1, 2)), 3 => Val::Unit, 4 => Val::None, _ => Val::Int(gen_int(r, t), t) };
                check_mp_write(fl, &v)?
            }
            Ok(())
        }
        "C19" => {
            let lens = [0usize, 1, 15, 16, 17, 31, 32, 33, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 70000];
            let n = if (i as usize) < lens.len() * 3 { lens[i as usize / 3] } else if r.chance(1, 10) { *r.pick(&lens) } else { r.below(600) };
            let v = match if (i as usize) < lens.len() * 3 { i as usize % 3 } else { r.below(7) } {
                0 => Val::Str((0..n).map(|k| (b'a' + (k % 26) as u8) as char).collect()),
                1 => Val::Bytes((0..n).map(|k| k as u8).collect()),
                2 => Val::Seq((0..n).map(|k| Val::Int((k % 100) as i128, IntTy::U8)).collect(), Len::Exact),
                3 => Val::Map((0..n).map(|k| (Val::Int((k % 100) as i128, IntTy::U8), Val::Unit)).collect(), Len::Exact),
                4 => { let n = n.min(300); let mut p: Vec<String> = vec![]; let mut left = n; while left > 0 { let k = 1 + r.below(left.min(40)); p.push("é".repeat(k / 2) + &"x".repeat(k % 2)); left -= k } Val::Disp(p, false) }
                5 => Val::Char(gen_char(r)),
                _ => Val::Seq(vec![], Len::Abs(*r.pick(&[u32::MAX as usize + 1, u32::MAX as usize + 16, usize::MAX, 1 << 40, 65536 << 32]))),
            };
            check_mp_write(fl, &v)?;
            if r.chance(1, 6) {
                // the header written must match the text written, or serialization must fail
                let n = 2 + r.below(2); let f = Fickle(Cell::new(0), (0..n).map(|_| gen_string(r, 6)).collect());
                let mut o = Rec::default();
                if ser_write_msgpack::to_writer(&mut o, &Collect(&f)).is_ok() {
                    let o = o.0;
                    let mut d = mp::Dec { b: &o, p: 0 };
                    if d.dec(&Shape::Str).is_err() || d.p != o.len() { return Err(format!("collect_str of a Display rendering as {:?} in turn: Ok, but the output is {}", f.1, show(&o))) }
                }
            }
            Ok(())
        }
        _ => {
            if r.chance(1, 100) { check_mp_write(fl, &nested(r))? }
            if r.chance(1, 100) {
                let n = match r.below(40) { 0 => 65530 + r.below(12), 1..=12 => 120 + r.below(16), 13..=20 => 14 + r.below(4), _ => 240 + r.below(80) }; let skip = r.chance(1, 2);
                let f: Vec<(&'static str, Option<Val>)> = (0..n).map(|k| (NAMES[k % NAMES.len()], if skip && r.chance(1, 20) { None } else { Some(Val::Unit) })).collect();
                check_mp_write(fl, &if r.chance(1, 2) { Val::Struct(f, Len::Exact) } else { Val::StructVar(r.below(300) as u32, NAMES[0], f, Len::Exact) })?;
            }
            let v = gen_any(r, 3, r.0 & 1 == 0);
            check_mp_write(fl, &v)?;
            // length mismatches in every compound
            let n = r.below(4); let l = if r.chance(1, 3) { Len::Exact } else { Len::Off(r.below(5) as i64 - 2) };
            let it: Vec<Val> = (0..n).map(|_| Val::Unit).collect();
            let fs: Vec<(&'static str, Option<Val>)> = (0..n).map(|k| (NAMES[k], if r.chance(1, 4) { None } else { Some(Val::Bool(true)) })).collect();
            let v = match r.below(7) { 0 => Val::Seq(it, l), 1 => Val::Tuple(it, l), 2 => Val::TupleStruct(it, l), 3 => Val::Map(it.into_iter().map(|x| (x.clone(), x)).collect(), l), 4 => Val::Struct(fs, l), 5 => Val::TupVar(2, "b", it, l), _ => Val::StructVar(3, "c/d", fs, l) };
            check_mp_write(fl, &v)
        }
    }
}
fn mp_read(input: &[u8], shape: &Shape, start: usize, judge: Judge, skip_kind: bool) -> R {
    let lo = input.as_ptr() as usize; let n = input.len();
    let fail = |m: String| Err(format!("input {} as {shape:?}: {m}", show(input)));
    let a: Result<(Dyn, usize), ser_write_msgpack::de::Error> = with_shape(shape, start, || ser_write_msgpack::from_slice(input));
    let b: Result<(Dyn, &[u8]), ser_write_msgpack::de::Error> = with_shape(shape, start, || ser_write_msgpack::from_slice_split_tail(input));
    match (&a, &b) {
        (Ok((x, k)), Ok((y, t))) => {
            if *k > n { return fail(format!("consumed {k} of {n} bytes")) }
            if t.as_ptr() as usize != lo + *k || t.len() != n - *k || !eq(&x.0, &y.0, false) { return fail(format!("from_slice consumed {k}, split_tail returned a tail of {} bytes at {}", t.len(), (t.as_ptr() as usize).wrapping_sub(lo))) }
            if let Err(e) = x.1.check(lo, n) { return fail(e) }
        }
        (Err(_), Err(_)) => {}
        _ => return fail("from_slice and from_slice_split_tail disagree".into()),
    }
    if judge == Judge::Safety { return Ok(()) }
    let mut d = mp::Dec { b: input, p: 0 };
    let want = d.dec(shape);
    match (&want, &a) {
        (Err(Bad::Unspec), _) => Ok(()),
        (Err(w), Err(e)) => { let e = format!("{e:?}"); if skip_kind && *w == Bad::Eof && e != "UnexpectedEof" { return fail(format!("truncated item reported as {e}")) } Ok(()) }
        (Ok(w), Ok((g, k))) => {
            if !eq(w, &g.0, false) || *k != d.p { return fail(format!("expected {w:?} consuming {}, got {:?} consuming {k}", d.p, g.0)) }
            if g.1.copied.get() { return fail("a string or byte array was not borrowed from the input".into()) }
            Ok(())
        }
        _ => fail(format!("expected {want:?}, got {:?}", a.as_ref().map(|x| (&x.0.0, x.1)))),
    }
}
/// one item whose length or count needs 8, 16 or 32 bits, whole or cut short, between two small ones
fn mp_big(prop: &str, r: &mut Rng, judge: Judge) -> R {
    let n = edge(r); let m = n + *r.pick(&[0usize, 0, 0, 0, 1, 256, 65536]);
    let hdr = |o: &mut Vec<u8>, r: &mut Rng, c8: Option<u8>, c16: u8| match r.below(3) {
        0 if c8.is_some() && m < 256 => { o.push(c8.unwrap()); o.push(m as u8) } 1 if m < 65536 => { o.push(c16); o.extend((m as u16).to_be_bytes()) } _ => { o.push(c16 + 1); o.extend((m as u32).to_be_bytes()) } };
    if r.chance(1, 3) {
        let mut o = vec![];
        for _ in 0..depth(r) { match r.below(4) { 0 | 1 => mp::hdr_one(r, &mut o, 0x91, 0xdc), 2 => { mp::hdr_one(r, &mut o, 0x81, 0xde); o.push(1) } _ => { o.push(0x92); o.push(0xc0) } } }
        mp::item(r, &mut o, 1);
        if r.chance(1, 6) { mp::mutate(r, &mut o) } else { o.push(0x2a) }
        return mp_read(&o, &if prop == "C24" { Shape::Ignored } else { Shape::Any }, 0, judge, prop == "C24")
    }
    let kind = r.below(8);
    let mut o = vec![];
    let (unit, shape) = match kind {
        0 => { hdr(&mut o, r, Some(0xd9), 0xda); (1, Shape::Str) } 1 => { hdr(&mut o, r, Some(0xc4), 0xc5); (1, Shape::Bytes) }
        2 => { hdr(&mut o, r, Some(0xc7), 0xc8); o.push(3); (1, Shape::Ignored) }
        3 => { hdr(&mut o, r, None, 0xdc); (1, Shape::Seq(Box::new(Shape::Unit))) } 4 => { hdr(&mut o, r, None, 0xde); (2, Shape::Map(Box::new(Shape::Unit), Box::new(Shape::Unit))) }
        5 => { hdr(&mut o, r, None, 0xde); (2, Shape::Struct(vec![("a", Shape::Opt(Box::new(Shape::Unit)))])) }
        6 => { hdr(&mut o, r, None, 0xdc); (1, Shape::Tuple(vec![Shape::Unit; n.min(300)])) }
        _ => { hdr(&mut o, r, None, 0xdc); (1, Shape::Struct(NAMES.iter().map(|n| (*n, Shape::Opt(Box::new(Shape::Unit)))).collect())) }
    };
    let fill = if kind < 3 { b'a' } else { 0xc0 };
    if kind == 5 { for k in 0..n { if k > 0 || r.chance(1, 2) { o.push(if r.chance(1, 2) { 0x70 } else { 5 }) } else { o.push(0) } o.push(0xc0) } } else { o.extend(vec![fill; n * unit]) }
    let tail = o.len();
    if kind < 3 && n > 0 && r.chance(1, 3) { let k = tail - 1 - r.below(n); if r.chance(1, 2) { o[k] = 0x80 | r.byte() } else if k + 1 < tail { o[k] = 0xc3; o[k + 1] = 0xa9 } }
    o.extend([0x2a, 0xc3]);
    if r.chance(1, 6) { o.truncate(tail - 1) }
    let any = kind != 5 && kind != 2 && r.chance(1, 3);
    let s = if prop == "C24" { Shape::Ignored } else if any { Shape::Any } else { shape };
    if prop == "C24" || prop == "C25" || r.chance(1, 2) { mp_read(&o, &Shape::Tuple(vec![Shape::Ignored, Shape::Int(IntTy::U8)]), 0, judge, false)?; }
    let mut w = vec![0x92]; w.extend(&o);
    mp_read(&w, &Shape::Tuple(vec![s.clone(), Shape::Int(IntTy::U8)]), r.below(2), judge, false)?;
    mp_read(&o, &s, 0, judge, prop == "C24")
}
/// one deserializer used again and again, whatever it answers: the cursor stays in the slice and never moves back
fn mp_reuse(r: &mut Rng) -> R {
    let mut o = vec![];
    let mut todo: Vec<Shape> = vec![];
    for _ in 0..1 + r.below(4) { let s = match r.below(5) { 0 => Shape::Any, 1 | 2 => Shape::Ignored, 3 => structural(r, 2), _ => gen_shape(r, 2) }; mp::gen(r, &s, &mut o); todo.push(if r.chance(1, 4) { structural(r, 2) } else { s }) }
    if r.chance(3, 4) { mp::mutate(r, &mut o) }
    let mut d = ser_write_msgpack::de::Deserializer::from_slice(&o);
    let mut left = o.len();
    for s in todo.iter().chain(&[Shape::Ignored, Shape::Any, Shape::Bytes]) {
        let what = match r.below(8) {
            0 => format!("eat_message: {:?}", d.eat_message()), 1 => format!("fetch: {:?}", d.fetch()), 2 => { let n = r.below(6); format!("split_input({n}): {:?}", d.split_input(n)) }
            _ => format!("{s:?}: {:?}", with_shape(s, 0, || Dyn::deserialize(&mut d).map(|x| x.0))),
        };
        let at = d.input_ref().map(|x| x.len());
        if at != Ok(d.remaining_len()) || d.remaining_len() > left { return Err(format!("on {} with {left} bytes left, {what} left the cursor at {at:?}, remaining_len {}", show(&o), d.remaining_len())) }
        left = d.remaining_len();
    }
    Ok(())
}
fn mp_case(prop: &str, r: &mut Rng, i: u64) -> R {
    if prop == "C21" && r.chance(1, 5) { return mp_reuse(r) }
    let judge = if prop == "C21" { Judge::Safety } else { Judge::Full };
    let ints = || INTS.iter().map(|t| Shape::Int(*t)).collect::<Vec<_>>();
    let en = Shape::Enum(vec![("a", VShape::Unit), ("b", VShape::New(Shape::Int(IntTy::U8))), ("", VShape::Tup(vec![Shape::Unit])), ("x", VShape::Struct(vec![("a", Shape::Bool)]))]);
    let base: Vec<Shape> = match prop {
        "C21" => vec![Shape::Any, Shape::Ignored, Shape::Str, Shape::Bytes, Shape::F64, Shape::Int(IntTy::I16), en.clone(), Shape::Map(Box::new(Shape::Any), Box::new(Shape::Ignored)), Shape::Struct(vec![("a", Shape::Any)])],
        "C22" => { let mut v = ints(); v.extend([Shape::Bool, Shape::Unit, Shape::F32, Shape::F64]); v }
        "C23" => vec![Shape::Str, Shape::Bytes, Shape::Char], "C24" => vec![Shape::Ignored],
        "C25" => vec![Shape::Seq(Box::new(Shape::Ignored)), Shape::Map(Box::new(Shape::Ignored), Box::new(Shape::Ignored)), Shape::Tuple(vec![]), Shape::Tuple(vec![Shape::Ignored])],
        _ => vec![Shape::Any, en.clone(), Shape::Opt(Box::new(Shape::Bool)), Shape::Struct(vec![("a", Shape::Bool)]), Shape::Newtype(Box::new(Shape::Unit))],
    };
    if i % 4 == 0 {
        let k = i / 4;
        let c = if let Some(c) = small(k) { c } else {
            // every format byte followed by patterned payloads
            let k = k - 65793; let f = (k % 256) as u8; let mut o = vec![f];
            let pat = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0xc0, 0xa1]); let n = (k / 256 % 20) as usize;
            for j in 0..n { o.push(if r.chance(1, 4) { r.byte() } else if j < 3 { *r.pick(&[0, 0, 0, 1, 2, pat]) } else { pat }) } o
        };
        for s in &base { mp_read(&c, s, (k % 2) as usize, judge, prop == "C24")? }
        return Ok(())
    }
    let shape = match prop {
        "C21" => match r.below(4) { 0 => Shape::Any, 1 => Shape::Ignored, 2 => structural(r, 3), _ => gen_shape(r, 3) },
        "C22" => { let s = r.pick(&base).clone(); if r.chance(1, 4) { Shape::Tuple(vec![s, Shape::Int(IntTy::U8)]) } else { s } }
        "C23" => { let s = r.pick(&base).clone(); match r.below(4) { 0 => Shape::Tuple(vec![s, Shape::Int(IntTy::U8)]), 1 => Shape::Seq(Box::new(s)), _ => s } }
        "C24" => match r.below(4) { 0 => Shape::Tuple(vec![Shape::Ignored, Shape::Int(IntTy::U8)]), 1 => Shape::Seq(Box::new(Shape::Ignored)), _ => Shape::Ignored },
        "C25" => structural(r, 3),
        _ => match r.below(6) { 0 => Shape::Any, 1 => Shape::Opt(Box::new(leaf(r))), 2 => { let f = distinct(r, 4); Shape::Struct(f.into_iter().map(|n| (n, leaf(r))).collect()) } 3 => { let s = structural(r, 2); Shape::Seq(Box::new(s)) } 4 => structural(r, 2), _ => { let f = distinct(r, 5); Shape::Enum(f.into_iter().map(|n| (n, match r.below(4) { 0 => VShape::Unit, 1 => VShape::New(leaf(r)), 2 => VShape::Tup(vec![leaf(r), leaf(r)]), _ => VShape::Struct(vec![("a", leaf(r)), ("b", leaf(r))]) })).collect()) } },
    };
    if r.chance(1, 150) { return mp_big(prop, r, judge) }
    let mut o = vec![]; mp::gen(r, &shape, &mut o);
    if r.chance(2, 5) { mp::mutate(r, &mut o) }
    if r.chance(1, 5) { for _ in 0..r.below(4) { o.push(r.byte()) } }
    mp_read(&o, &shape, r.below(2), judge, prop == "C24" && shape == Shape::Ignored)?;
    if prop == "C24" {
        // the same through the deserializer's own skipper, twice in a row
        let mut d = ser_write_msgpack::de::Deserializer::from_slice(&o);
        let mut p = 0;
        for _ in 0..2 {
            let g = d.eat_message();
            match (mp::skip(&o[p..]), g) {
                (Ok(n), Ok(())) => { p += n; if d.remaining_len() != o.len() - p { return Err(format!("eat_message on {} left {} bytes, expected {}", show(&o), d.remaining_len(), o.len() - p)) } }
                (Err(w), Err(e)) => { let e = format!("{e:?}"); if w == Bad::Eof && e != "UnexpectedEof" { return Err(format!("eat_message on truncated {}: {e}", show(&o))) } break }
                (w, g) => return Err(format!("eat_message on {}: expected {w:?}, got {g:?}", show(&o))),
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ round trips
fn sized_pair(r: &mut Rng) -> (Shape, Val) {
    if r.chance(1, 3) {
        let mut s = gen_shape(r, 0);
        for _ in 0..depth(r) { s = match r.below(6) { 0 | 1 => Shape::Tuple(vec![s]), 2 => Shape::Newtype(Box::new(s)), 3 => Shape::Struct(vec![("a", s)]), 4 => Shape::Enum(vec![("b", VShape::New(s))]), _ => Shape::Tuple(vec![Shape::Bool, s]) } }
        let v = gen_val(r, &s); return (s, v)
    }
    let s = match r.below(6) { 0 => Shape::Str, 1 => Shape::Bytes, 2 => Shape::Seq(Box::new(Shape::Unit)), 3 => Shape::Tuple(vec![Shape::Unit; 300]), 4 => Shape::Struct((0..NAMES.len()).map(|k| (NAMES[k], Shape::Bool)).collect()), _ => Shape::Map(Box::new(Shape::Int(IntTy::U16)), Box::new(Shape::Bool)) };
    let n = edge(r);
    let v = match &s {
        Shape::Str => Val::Str((0..n).map(|k| (b'a' + (k % 26) as u8) as char).collect()), Shape::Bytes => Val::Bytes((0..n).map(|k| k as u8).collect()),
        Shape::Seq(_) => Val::Seq(vec![Val::Unit; n], Len::Exact), Shape::Map(..) => Val::Map((0..n.min(65536)).map(|k| (Val::Int(k as i128, IntTy::U16), Val::Bool(k % 3 == 0))).collect(), Len::Exact),
        x => gen_val(r, x),
    };
    (s, v)
}
/// types with serde implementations of the standard library
fn std_values(r: &mut Rng, f: &mut dyn RoundTrip) -> R {
    use std::collections::*; use std::net::*; use std::ops::Bound; use std::num::*;
    let x = r.next();
    let ints: Vec<i64> = (0..r.len(4)).map(|_| gen_int(r, IntTy::I64) as i64).collect();
    let words: Vec<String> = (0..r.len(4)).map(|_| gen_string(r, 6)).collect();
    let kind = r.below(16);
    // the standard library reads the fields of these by name only
    let f = &mut NoIdx(f, matches!(kind, 1 | 9 | 14)) as &mut dyn RoundTrip;
    match kind {
        0 => { let v4 = Ipv4Addr::from(x as u32); let v6 = Ipv6Addr::from((x as u128) << 70 ^ x as u128); let h = r.chance(1, 2); go(f, (v4, v6, if h { IpAddr::V4(v4) } else { IpAddr::V6(v6) }, SocketAddr::new(if h { IpAddr::V6(v6) } else { IpAddr::V4(v4) }, x as u16))) }
        1 => go(f, (std::time::Duration::new(gen_int(r, IntTy::U64) as u64, x as u32 % 1_000_000_000), ints)),
        2 => go(f, (0..3).map(|k| if x >> k & 1 == 0 { Ok(gen_string(r, 6)) } else { Err(gen_int(r, IntTy::I32) as i32) }).collect::<Vec<Result<String, i32>>>()),
        3 => go(f, ints.iter().map(|k| (*k, words.clone())).collect::<BTreeMap<i64, Vec<String>>>()),
        4 => go(f, words.iter().map(|k| (k.clone(), Some(k.len()))).collect::<BTreeMap<String, Option<usize>>>()),
        5 => go(f, words.iter().filter_map(|k| k.chars().next()).map(|k| (k, (k as u32, k))).collect::<BTreeMap<char, (u32, char)>>()),
        6 => go(f, [(true, words.clone()), (false, vec![])].into_iter().collect::<BTreeMap<bool, Vec<String>>>()),
        7 => go(f, ints.iter().map(|k| (*k as i8, *k as u16)).collect::<HashMap<i8, u16>>()),
        8 => go(f, (Bound::Included(x as u32), Bound::Excluded(words.clone()), Bound::<u8>::Unbounded)),
        9 => go(f, (x as u8..gen_int(r, IntTy::U8) as u8, -5i64..=x as i64)),
        10 => go(f, (NonZeroU64::new(x | 1), NonZeroI16::new(x as i16), Wrapping(x as i32), std::cmp::Reverse(words))),
        11 => go(f, ([x as u8; 3], [(); 2], (), std::marker::PhantomData::<u8>, (x as u8, x as i8, x as f32 / 4.0, x as i32 as f64 / 8.0))),
        12 => go(f, (Box::new(words.clone()), words.into_iter().collect::<BTreeSet<String>>(), ints.into_iter().collect::<VecDeque<i64>>())),
        13 => go(f, ints.iter().map(|k| (*k as u64, Some(Box::new((*k % 7 == 0, vec![Some(*k as i32); 2]))))).collect::<BTreeMap<u64, _>>()),
        14 => go(f, std::time::SystemTime::UNIX_EPOCH + std::time::Duration::new(x >> 34, x as u32 % 1_000_000_000)),
        _ => go(f, (Human, vec![Human; 2], Some(Human), Ok::<_, u8>(Human) as Result<Human, u8>, (1u8, Human))),
    }
}
/// writes what the serializer says of itself, and expects the same of the deserializer
#[derive(Clone, Debug, PartialEq)]
struct Human;
impl Serialize for Human { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let h = s.is_human_readable(); s.serialize_bool(h) } }
impl<'de> Deserialize<'de> for Human { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let h = d.is_human_readable(); if bool::deserialize(d)? == h { Ok(Human) } else { Err(serde::de::Error::custom("the two sides disagree on is_human_readable")) } } }
trait RoundTrip { fn bytes(&mut self, v: &dyn ErasedVal) -> Result<Vec<Vec<u8>>, String>; fn json(&self) -> bool; }
trait ErasedVal { fn mp(&self) -> Result<Vec<Vec<u8>>, String>; fn js(&self) -> Result<Vec<Vec<u8>>, String>; }
impl<T: Serialize> ErasedVal for T {
    fn mp(&self) -> Result<Vec<Vec<u8>>, String> {
        let mut v = vec![];
        let mut o = Rec::default(); ser_write_msgpack::to_writer(&mut o, self).map_err(|e| format!("{e:?}"))?; v.push(o.0);
        let mut o = Rec::default(); ser_write_msgpack::to_writer_compact(&mut o, self).map_err(|e| format!("{e:?}"))?; v.push(o.0);
        let mut o = Rec::default(); ser_write_msgpack::to_writer_named(&mut o, self).map_err(|e| format!("{e:?}"))?; v.push(o.0);
        Ok(v)
    }
    fn js(&self) -> Result<Vec<Vec<u8>>, String> { let mut o = Rec::default(); ser_write_json::to_writer(&mut o, self).map_err(|e| format!("{e:?}"))?; Ok(vec![o.0]) }
}
struct JsonRt; struct MpRt; struct NoIdx<'a>(&'a mut dyn RoundTrip, bool);
impl RoundTrip for NoIdx<'_> { fn bytes(&mut self, v: &dyn ErasedVal) -> Result<Vec<Vec<u8>>, String> { let mut b = self.0.bytes(v)?; if self.1 && b.len() == 3 { b.remove(0); } Ok(b) } fn json(&self) -> bool { self.0.json() } }
impl RoundTrip for JsonRt { fn bytes(&mut self, v: &dyn ErasedVal) -> Result<Vec<Vec<u8>>, String> { v.js() } fn json(&self) -> bool { true } }
impl RoundTrip for MpRt { fn bytes(&mut self, v: &dyn ErasedVal) -> Result<Vec<Vec<u8>>, String> { v.mp() } fn json(&self) -> bool { false } }
fn go<T: Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(f: &mut dyn RoundTrip, v: T) -> R {
    for o in f.bytes(&v).map_err(|e| format!("{v:?}: serialization failed: {e}"))? {
        if f.json() { let mut b = o.clone(); let g: Result<T, ser_write_json::de::Error> = ser_write_json::from_mut_slice(&mut b); match g { Ok(x) if x == v => {} g => return Err(format!("{v:?} -> {} -> {g:?}", show(&o))) } }
        else { let g: Result<(T, usize), ser_write_msgpack::de::Error> = ser_write_msgpack::from_slice(&o); match g { Ok((x, n)) if x == v && n == o.len() => {} g => return Err(format!("{v:?} -> {} -> {g:?}", show(&o))) } }
    }
    Ok(())
}
fn rt_json(r: &mut Rng) -> R {
    if r.chance(1, 8) { return std_values(r, &mut JsonRt) }
    let s = gen_shape(r, 3); let (s, v) = if r.chance(1, 400) { sized_pair(r) } else { let v = gen_val(r, &s); (s, v) };
    for (e, m) in [(Enc::Array, Mode::Nope), (Enc::Array, Mode::Hex), (Enc::Hex, Mode::Hex), (Enc::B64, Mode::B64)] {
        let (o, res) = json_write(e, &v);
        if let Err(x) = res { return Err(format!("{v:?}: serialization failed: {x}")) }
        let mut buf = o.clone();
        let got: Result<Dyn, ser_write_json::de::Error> = with_shape(&s, r.below(2), || match m { Mode::Nope => ser_write_json::from_mut_slice(&mut buf), Mode::Hex => ser_write_json::from_mut_slice_hex_bytes(&mut buf), Mode::B64 => ser_write_json::from_mut_slice_base64_bytes(&mut buf) });
        match got { Ok(d) if eq(&v, &d.0, true) => {} Ok(d) => return Err(format!("{v:?} ({e:?}) -> {} -> {:?}", show(&o), d.0)), Err(x) => return Err(format!("{v:?} ({e:?}) -> {} -> {x:?}", show(&o))) }
    }
    Ok(())
}
fn rt_mp(r: &mut Rng) -> R {
    if r.chance(1, 8) { return std_values(r, &mut MpRt) }
    let f = if r.chance(1, 2) { Shape::F32 } else { Shape::F64 };
    let s = match r.below(8) { 0 => f, 1 => Shape::Opt(Box::new(f)), 2 => Shape::Seq(Box::new(f)), 3 => Shape::Tuple(vec![gen_shape(r, 1), f]), _ => gen_shape(r, 3) };
    let (s, v) = if r.chance(1, 200) { sized_pair(r) } else { let v = gen_val(r, &s); (s, v) };
    for fl in FLAVOURS {
        let (mut o, res) = mp_write(fl, &v);
        if let Err(x) = res { return Err(format!("{v:?} ({fl:?}): serialization failed: {x}")) }
        let n = o.len();
        for _ in 0..r.below(4) { o.push(r.byte()) }
        let got: Result<(Dyn, usize), ser_write_msgpack::de::Error> = with_shape(&s, r.below(2), || ser_write_msgpack::from_slice(&o));
        match got { Ok((d, k)) if eq(&v, &d.0, false) && k == n => {} Ok((d, k)) => return Err(format!("{v:?} ({fl:?}) -> {} -> {:?} consuming {k} of {n}", show(&o), d.0)), Err(x) => return Err(format!("{v:?} ({fl:?}) -> {} -> {x:?}", show(&o))) }
    }
    Ok(())
}

pub fn case(prop: &str, seed: u64, i: u64) -> R {
    let mut g = Rng::new(seed, prop, i);
    let r = &mut g;
    match prop {
        "C01" => wr::case(r, wr::Only::Append), "C02" => wr::case(r, wr::Only::Refuse), "C03" => wr::case(r, wr::Only::Slice),
        "C04" | "C05" | "C06" | "C07" | "C08" => json_ser_case(prop, r, i),
        "C09" => failing_case(r), "C10" => b64_case(r, i),
        "C11" | "C12" | "C13" | "C14" | "C15" | "C16" | "C17" => json_case(prop, r, i),
        "C18" | "C19" | "C20" => mp_ser_case(prop, r, i),
        "C21" | "C22" | "C23" | "C24" | "C25" | "C26" => mp_case(prop, r, i),
        "C27" => rt_json(r), "C28" => rt_mp(r),
        _ => Err(format!("unknown property {prop}")),
    }
}
