//! Values, type shapes, and serde implementations over them.
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::fmt;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IntTy { U8, U16, U32, U64, I8, I16, I32, I64 }
pub const INTS: [IntTy; 8] = [IntTy::U8, IntTy::U16, IntTy::U32, IntTy::U64, IntTy::I8, IntTy::I16, IntTy::I32, IntTy::I64];
impl IntTy {
    pub fn range(self) -> (i128, i128) {
        match self {
            IntTy::U8 => (0, u8::MAX as i128), IntTy::U16 => (0, u16::MAX as i128), IntTy::U32 => (0, u32::MAX as i128), IntTy::U64 => (0, u64::MAX as i128),
            IntTy::I8 => (i8::MIN as i128, i8::MAX as i128), IntTy::I16 => (i16::MIN as i128, i16::MAX as i128),
            IntTy::I32 => (i32::MIN as i128, i32::MAX as i128), IntTy::I64 => (i64::MIN as i128, i64::MAX as i128),
        }
    }
    pub fn signed(self) -> bool { self.range().0 < 0 }
    pub fn has(self, v: i128) -> bool { let (a, b) = self.range(); a <= v && v <= b }
}
pub fn gen_int(r: &mut Rng, t: IntTy) -> i128 {
    let (lo, hi) = t.range();
    if let Some(v) = r.dint().filter(|v| t.has(*v)) { return v }
    let v = match r.below(8) {
        0 => *r.pick(&[0, 1, -1, 9, 10, 99, 100, 127, 128, 255, 256, 999, 1000, 32767, 32768, 65535, 65536, -32, -33, -127, -128, -129, -32768, -32769]),
        1 => lo + r.below(3) as i128,
        2 => hi - r.below(3) as i128,
        3 => { let p = 10i128.pow(r.below(20) as u32); let d = r.below(3) as i128 - 1; let s = if r.chance(1, 2) { -1 } else { 1 }; s * (p + d) }
        4 => { let p = 1i128 << r.below(64); let d = r.below(3) as i128 - 1; let s = if r.chance(1, 2) { -1 } else { 1 }; s * (p + d) }
        5 => r.below(300) as i128 - 150,
        _ => { let k = r.below(64); let v = (r.next() >> k) as i128; if r.chance(1, 2) { -v } else { v } }
    };
    if t.has(v) { v } else { let w = hi - lo + 1; lo + (v - lo).rem_euclid(w) }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Len { Exact, Missing, Off(i64), Abs(usize) }
impl Len {
    pub fn of(self, n: usize) -> Option<usize> { match self { Len::Exact => Some(n), Len::Missing => None, Len::Off(d) => Some((n as i64 + d).max(0) as usize), Len::Abs(k) => Some(k) } }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Bool(bool), Int(i128, IntTy), F32(u32), F64(u64), Char(char), Str(String), Bytes(Vec<u8>),
    None, Some(Box<Val>), Unit, UnitStruct, Newtype(Box<Val>),
    Seq(Vec<Val>, Len), Tuple(Vec<Val>, Len), TupleStruct(Vec<Val>, Len), Map(Vec<(Val, Val)>, Len),
    Struct(Vec<(&'static str, Option<Val>)>, Len),
    UnitVar(u32, &'static str), NewVar(u32, &'static str, Box<Val>), TupVar(u32, &'static str, Vec<Val>, Len), StructVar(u32, &'static str, Vec<(&'static str, Option<Val>)>, Len),
    Disp(Vec<String>, bool), Fail,
}

pub const NAMES: [&str; 20] = ["a", "b", "id", "name", "", "q\"t", "back\\s", "ta\tb", "łączka", "thirty-one-bytes-long-name-abcd", "thirty-two-bytes-long-name-abcde", "x", "c/d", "\u{1}z", "a-name-long-enough-to-need-the-eight-bit-header-of-messagepack", LONG, "x ", " x", "X", "a\n"];
const LONG: &str = "two hundred and fifty-six bytes: 0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789xyz";

struct Pieces<'a>(&'a [String], bool);
impl fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for s in self.0 { f.write_str(s)?; }
        if self.1 { Err(fmt::Error) } else { Ok(()) }
    }
}

impl Serialize for Val {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Val::Bool(b) => s.serialize_bool(*b),
            Val::Int(v, t) => match t {
                IntTy::U8 => s.serialize_u8(*v as u8), IntTy::U16 => s.serialize_u16(*v as u16), IntTy::U32 => s.serialize_u32(*v as u32), IntTy::U64 => s.serialize_u64(*v as u64),
                IntTy::I8 => s.serialize_i8(*v as i8), IntTy::I16 => s.serialize_i16(*v as i16), IntTy::I32 => s.serialize_i32(*v as i32), IntTy::I64 => s.serialize_i64(*v as i64),
            },
            Val::F32(b) => s.serialize_f32(f32::from_bits(*b)),
            Val::F64(b) => s.serialize_f64(f64::from_bits(*b)),
            Val::Char(c) => s.serialize_char(*c),
            Val::Str(x) => s.serialize_str(x),
            Val::Bytes(x) => s.serialize_bytes(x),
            Val::None => s.serialize_none(),
            Val::Some(v) => s.serialize_some(&**v),
            Val::Unit => s.serialize_unit(),
            Val::UnitStruct => s.serialize_unit_struct("US"),
            Val::Newtype(v) => s.serialize_newtype_struct("NT", &**v),
            Val::Seq(v, l) => { let mut q = s.serialize_seq(l.of(v.len()))?; for e in v { q.serialize_element(e)?; } q.end() }
            Val::Tuple(v, l) => { let mut q = s.serialize_tuple(l.of(v.len()).unwrap_or(v.len()))?; for e in v { q.serialize_element(e)?; } q.end() }
            Val::TupleStruct(v, l) => { let mut q = s.serialize_tuple_struct("TS", l.of(v.len()).unwrap_or(v.len()))?; for e in v { q.serialize_field(e)?; } q.end() }
            Val::Map(v, l) => { let mut q = s.serialize_map(l.of(v.len()))?; for (i, (k, e)) in v.iter().enumerate() { if i % 2 == 0 { q.serialize_key(k)?; q.serialize_value(e)?; } else { q.serialize_entry(k, e)?; } } q.end() }
            Val::Struct(v, l) => {
                let n = v.iter().filter(|f| f.1.is_some()).count();
                let mut q = s.serialize_struct("ST", l.of(n).unwrap_or(n))?;
                for (k, f) in v { match f { Some(x) => q.serialize_field(k, x)?, None => q.skip_field(k)? } }
                q.end()
            }
            Val::UnitVar(i, n) => s.serialize_unit_variant("EN", *i, n),
            Val::NewVar(i, n, v) => s.serialize_newtype_variant("EN", *i, n, &**v),
            Val::TupVar(i, n, v, l) => { let mut q = s.serialize_tuple_variant("EN", *i, n, l.of(v.len()).unwrap_or(v.len()))?; for e in v { q.serialize_field(e)?; } q.end() }
            Val::StructVar(i, n, v, l) => {
                let c = v.iter().filter(|f| f.1.is_some()).count();
                let mut q = s.serialize_struct_variant("EN", *i, n, l.of(c).unwrap_or(c))?;
                for (k, f) in v { match f { Some(x) => q.serialize_field(k, x)?, None => q.skip_field(k)? } }
                q.end()
            }
            Val::Disp(p, bad) => s.collect_str(&Pieces(p, *bad)),
            Val::Fail => Err(ser::Error::custom("refused by the value")),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum VShape { Unit, New(Shape), Tup(Vec<Shape>), Struct(Vec<(&'static str, Shape)>) }
#[derive(Clone, Debug, PartialEq)]
pub enum Shape {
    Bool, Int(IntTy), F32, F64, Char, Str, Bytes, Opt(Box<Shape>), Unit, UnitStruct, Newtype(Box<Shape>),
    Seq(Box<Shape>), SeqTake(Box<Shape>, usize), Tuple(Vec<Shape>), TupleStruct(Vec<Shape>), Map(Box<Shape>, Box<Shape>), MapTake(Box<Shape>, Box<Shape>, usize),
    /// a struct whose visitor stops after so many fields, in either form
    StructTake(Box<Shape>, Box<Shape>, usize),
    Struct(Vec<(&'static str, Shape)>), Enum(Vec<(&'static str, VShape)>), Ignored, Any,
}

/// what the visitors saw of the deserializer's lending
#[derive(Default)]
pub struct Ctx<'de> { pub lent: RefCell<Vec<(&'de [u8], Vec<u8>)>>, pub copied: Cell<bool>, pub calls: Cell<usize> }
impl<'de> Ctx<'de> {
    fn lend(&self, b: &'de [u8]) { self.lent.borrow_mut().push((b, b.to_vec())); }
    /// lent slices lie in the buffer, are disjoint, and still hold what they held when lent
    pub fn check(&self, lo: usize, len: usize) -> Result<(), String> {
        let l = self.lent.borrow();
        let mut iv: Vec<(usize, usize)> = vec![];
        for (b, c) in l.iter() {
            let p = b.as_ptr() as usize;
            if p < lo || p + b.len() > lo + len { return Err(format!("a lent slice of {} bytes lies outside the input buffer", b.len())); }
            if *b != &c[..] { return Err(format!("a lent slice changed after it was lent: {:?} -> {:?}", c, b)); }
            if !b.is_empty() { iv.push((p, p + b.len())); }
        }
        iv.sort();
        for w in iv.windows(2) { if w[0].1 > w[1].0 { return Err("two lent slices overlap".into()); } }
        Ok(())
    }
}

thread_local! { static LISTS: RefCell<HashMap<Vec<&'static str>, &'static [&'static str]>> = RefCell::new(HashMap::new()); }
fn leak(v: Vec<&'static str>) -> &'static [&'static str] {
    LISTS.with(|l| *l.borrow_mut().entry(v.clone()).or_insert_with(|| Box::leak(v.into_boxed_slice())))
}

#[derive(Clone, Copy)]
pub struct Seed<'s, 'c, 'de>(pub &'s Shape, pub &'c Ctx<'de>);
struct Ident<'s>(&'s [&'static str]);
enum IdentR { Known(usize), Unknown }
impl<'de, 's> DeserializeSeed<'de> for Ident<'s> {
    type Value = IdentR;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<IdentR, D::Error> { d.deserialize_identifier(self) }
}
impl<'de, 's> Visitor<'de> for Ident<'s> {
    type Value = IdentR;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("identifier") }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<IdentR, E> { Ok(if (v as usize) < self.0.len() { IdentR::Known(v as usize) } else { IdentR::Unknown }) }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<IdentR, E> { Ok(self.0.iter().position(|n| *n == v).map(IdentR::Known).unwrap_or(IdentR::Unknown)) }
}

macro_rules! ints { ($($f:ident $t:ty, $it:ident;)*) => {$(fn $f<E: de::Error>(self, v: $t) -> Result<Val, E> { self.int(v as i128, IntTy::$it) })*} }

impl<'s, 'c, 'de> DeserializeSeed<'de> for Seed<'s, 'c, 'de> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        self.1.calls.set(self.1.calls.get() + 1);
        match self.0 {
            Shape::Bool => d.deserialize_bool(self),
            Shape::Int(t) => match t {
                IntTy::U8 => d.deserialize_u8(self), IntTy::U16 => d.deserialize_u16(self), IntTy::U32 => d.deserialize_u32(self), IntTy::U64 => d.deserialize_u64(self),
                IntTy::I8 => d.deserialize_i8(self), IntTy::I16 => d.deserialize_i16(self), IntTy::I32 => d.deserialize_i32(self), IntTy::I64 => d.deserialize_i64(self),
            },
            Shape::F32 => d.deserialize_f32(self), Shape::F64 => d.deserialize_f64(self), Shape::Char => d.deserialize_char(self),
            Shape::Str => if self.1.calls.get() % 2 == 0 { d.deserialize_string(self) } else { d.deserialize_str(self) },
            Shape::Bytes => if self.1.calls.get() % 2 == 0 { d.deserialize_byte_buf(self) } else { d.deserialize_bytes(self) },
            Shape::Opt(_) => d.deserialize_option(self), Shape::Unit => d.deserialize_unit(self), Shape::UnitStruct => d.deserialize_unit_struct("US", self),
            Shape::Newtype(_) => d.deserialize_newtype_struct("NT", self),
            Shape::Seq(_) | Shape::SeqTake(..) => d.deserialize_seq(self),
            Shape::Tuple(v) => d.deserialize_tuple(v.len(), self), Shape::TupleStruct(v) => d.deserialize_tuple_struct("TS", v.len(), self),
            Shape::Map(..) | Shape::MapTake(..) => d.deserialize_map(self),
            Shape::StructTake(..) => d.deserialize_struct("ST", &["a", "b"], self),
            Shape::Struct(f) => d.deserialize_struct("ST", leak(f.iter().map(|x| x.0).collect()), self),
            Shape::Enum(f) => d.deserialize_enum("EN", leak(f.iter().map(|x| x.0).collect()), self),
            Shape::Ignored => d.deserialize_ignored_any(self),
            Shape::Any => d.deserialize_any(self),
        }
    }
}
impl<'s, 'c, 'de> Seed<'s, 'c, 'de> {
    fn int<E: de::Error>(self, v: i128, t: IntTy) -> Result<Val, E> {
        match self.0 {
            Shape::Int(w) => if w.has(v) { Ok(Val::Int(v, *w)) } else { Err(E::custom("integer outside the requested type")) },
            Shape::Any => Ok(Val::Int(v, t)),
            Shape::Ignored => Ok(Val::Unit),
            Shape::F32 | Shape::F64 => Err(E::custom("integer for a float")),
            _ => Err(E::custom("unexpected integer")),
        }
    }
    fn seq_of<A: SeqAccess<'de>>(self, shapes: &[Shape], mut a: A) -> Result<Vec<Val>, A::Error> {
        let mut v = vec![];
        for s in shapes { match a.next_element_seed(Seed(s, self.1))? { Some(x) => v.push(x), None => return Err(de::Error::custom("too few elements")) } }
        Ok(v)
    }
    fn fields_seq<A: SeqAccess<'de>>(self, fs: &[(&'static str, Shape)], mut a: A) -> Result<Vec<(&'static str, Option<Val>)>, A::Error> {
        let mut v = vec![];
        for (n, s) in fs { match a.next_element_seed(Seed(s, self.1))? { Some(x) => v.push((*n, Some(x))), None => return Err(de::Error::custom("too few fields")) } }
        Ok(v)
    }
    fn fields_map<A: MapAccess<'de>>(self, fs: &[(&'static str, Shape)], mut a: A) -> Result<Vec<(&'static str, Option<Val>)>, A::Error> {
        let names: Vec<&'static str> = fs.iter().map(|f| f.0).collect();
        let mut v: Vec<(&'static str, Option<Val>)> = names.iter().map(|n| (*n, None)).collect();
        while let Some(id) = a.next_key_seed(Ident(&names))? {
            match id {
                IdentR::Known(i) => { if v[i].1.is_some() { return Err(de::Error::custom("duplicate field")); } v[i].1 = Some(a.next_value_seed(Seed(&fs[i].1, self.1))?); }
                IdentR::Unknown => { a.next_value_seed(Seed(&Shape::Ignored, self.1))?; }
            }
        }
        if v.iter().any(|f| f.1.is_none()) { return Err(de::Error::custom("missing field")); }
        Ok(v)
    }
}
pub struct FieldsV<'s, 'c, 'de>(&'s [(&'static str, Shape)], &'c Ctx<'de>);
impl<'s, 'c, 'de> Visitor<'de> for FieldsV<'s, 'c, 'de> {
    type Value = Vec<(&'static str, Option<Val>)>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("struct") }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Self::Value, A::Error> { Seed(&Shape::Unit, self.1).fields_seq(self.0, a) }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Self::Value, A::Error> { Seed(&Shape::Unit, self.1).fields_map(self.0, a) }
}
pub struct TupV<'s, 'c, 'de>(&'s [Shape], &'c Ctx<'de>);
impl<'s, 'c, 'de> Visitor<'de> for TupV<'s, 'c, 'de> {
    type Value = Vec<Val>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("tuple") }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Self::Value, A::Error> { Seed(&Shape::Unit, self.1).seq_of(self.0, a) }
}
impl<'s, 'c, 'de> Visitor<'de> for Seed<'s, 'c, 'de> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", self.0) }
    ints! { visit_i8 i8, I8; visit_i16 i16, I16; visit_i32 i32, I32; visit_i64 i64, I64; visit_u8 u8, U8; visit_u16 u16, U16; visit_u32 u32, U32; visit_u64 u64, U64; }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<Val, E> { match self.0 { Shape::Ignored => Ok(Val::Unit), Shape::Bool | Shape::Any => Ok(Val::Bool(v)), _ => Err(E::custom("bool")) } }
    fn visit_f32<E: de::Error>(self, v: f32) -> Result<Val, E> { match self.0 { Shape::Ignored => Ok(Val::Unit), Shape::F32 | Shape::Any => Ok(Val::F32(v.to_bits())), Shape::F64 => Ok(Val::F64((v as f64).to_bits())), _ => Err(E::custom("f32")) } }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<Val, E> { match self.0 { Shape::Ignored => Ok(Val::Unit), Shape::F64 | Shape::Any => Ok(Val::F64(v.to_bits())), _ => Err(E::custom("f64")) } }
    fn visit_char<E: de::Error>(self, v: char) -> Result<Val, E> { match self.0 { Shape::Ignored => Ok(Val::Unit), Shape::Char | Shape::Any => Ok(Val::Char(v)), _ => Err(E::custom("char")) } }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Val, E> { self.1.copied.set(true); match self.0 { Shape::Ignored => Ok(Val::Unit), Shape::Str | Shape::Any => Ok(Val::Str(v.into())), _ => Err(E::custom("str")) } }
    fn visit_borrowed_str<E: de::Error>(self, v: &'de str) -> Result<Val, E> {
        if std::str::from_utf8(v.as_bytes()).is_err() { return Ok(Val::Bytes(format!("invalid UTF-8 in a str: {:?}", v.as_bytes()).into_bytes())); }
        match self.0 { Shape::Ignored => Ok(Val::Unit), Shape::Str | Shape::Any => { self.1.lend(v.as_bytes()); Ok(Val::Str(v.into())) } _ => Err(E::custom("str")) }
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Val, E> { self.1.copied.set(true); match self.0 { Shape::Ignored => Ok(Val::Unit), Shape::Bytes | Shape::Any => Ok(Val::Bytes(v.into())), _ => Err(E::custom("bytes")) } }
    fn visit_borrowed_bytes<E: de::Error>(self, v: &'de [u8]) -> Result<Val, E> { match self.0 { Shape::Ignored => Ok(Val::Unit), Shape::Bytes | Shape::Any => { self.1.lend(v); Ok(Val::Bytes(v.into())) } _ => Err(E::custom("bytes")) } }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> { match self.0 { Shape::Opt(_) => Ok(Val::None), _ => Err(E::custom("none")) } }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> { match self.0 { Shape::Opt(s) => Ok(Val::Some(Box::new(Seed(s, self.1).deserialize(d)?))), _ => Err(de::Error::custom("some")) } }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> { match self.0 { Shape::UnitStruct => Ok(Val::UnitStruct), Shape::Unit | Shape::Any | Shape::Ignored => Ok(Val::Unit), _ => Err(E::custom("unit")) } }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> { match self.0 { Shape::Newtype(s) => Ok(Val::Newtype(Box::new(Seed(s, self.1).deserialize(d)?))), _ => Err(de::Error::custom("newtype")) } }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Shape::Seq(_) | Shape::SeqTake(..) | Shape::StructTake(..) | Shape::Any => {
                let any = Shape::Any;
                let (s, n) = match self.0 { Shape::Seq(s) => (&**s, usize::MAX), Shape::SeqTake(s, n) | Shape::StructTake(_, s, n) => (&**s, *n), _ => (&any, usize::MAX) };
                let mut v = vec![];
                while v.len() < n { match a.next_element_seed(Seed(s, self.1))? { Some(x) => v.push(x), None => break } }
                Ok(Val::Seq(v, Len::Exact))
            }
            Shape::Ignored => { while a.next_element_seed(Seed(&Shape::Ignored, self.1))?.is_some() {} Ok(Val::Unit) }
            Shape::Tuple(v) => Ok(Val::Tuple(self.seq_of(v, a)?, Len::Exact)),
            Shape::TupleStruct(v) => Ok(Val::TupleStruct(self.seq_of(v, a)?, Len::Exact)),
            Shape::Struct(f) => Ok(Val::Struct(self.fields_seq(f, a)?, Len::Exact)),
            _ => Err(de::Error::custom("seq")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Shape::Map(..) | Shape::MapTake(..) | Shape::StructTake(..) | Shape::Any => {
                let any = Shape::Any;
                let (k, s, n) = match self.0 { Shape::Map(k, s) => (&**k, &**s, usize::MAX), Shape::MapTake(k, s, n) | Shape::StructTake(k, s, n) => (&**k, &**s, *n), _ => (&any, &any, usize::MAX) };
                let mut v = vec![];
                while v.len() < n { match a.next_key_seed(Seed(k, self.1))? { Some(x) => { let y = a.next_value_seed(Seed(s, self.1))?; v.push((x, y)) } None => break } }
                Ok(Val::Map(v, Len::Exact))
            }
            Shape::Ignored => { while a.next_key_seed(Seed(&Shape::Ignored, self.1))?.is_some() { a.next_value_seed(Seed(&Shape::Ignored, self.1))?; } Ok(Val::Unit) }
            Shape::Struct(f) => Ok(Val::Struct(self.fields_map(f, a)?, Len::Exact)),
            _ => Err(de::Error::custom("map")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        match self.0 {
            Shape::Enum(vs) => {
                let names: Vec<&'static str> = vs.iter().map(|x| x.0).collect();
                let (id, v) = a.variant_seed(Ident(&names))?;
                let i = match id { IdentR::Known(i) => i, IdentR::Unknown => return Err(de::Error::custom("unknown variant")) };
                let n = vs[i].0;
                Ok(match &vs[i].1 {
                    VShape::Unit => { v.unit_variant()?; Val::UnitVar(i as u32, n) }
                    VShape::New(s) => Val::NewVar(i as u32, n, Box::new(v.newtype_variant_seed(Seed(s, self.1))?)),
                    VShape::Tup(s) => Val::TupVar(i as u32, n, v.tuple_variant(s.len(), TupV(s, self.1))?, Len::Exact),
                    VShape::Struct(f) => Val::StructVar(i as u32, n, v.struct_variant(leak(f.iter().map(|x| x.0).collect()), FieldsV(f, self.1))?, Len::Exact),
                })
            }
            _ => Err(de::Error::custom("enum")),
        }
    }
}

// ------------------------------------------------------------------ generators
pub fn gen_string(r: &mut Rng, max: usize) -> String {
    if let Some(s) = r.dstr() { let (a, b) = (r.below(3), r.below(3)); return (0..a).map(|_| gen_char(r)).collect::<String>() + &s + &(0..b).map(|_| gen_char(r)).collect::<String>() }
    let n = if r.chance(1, 60) { long_len(r) } else { match r.below(12) { 0 => 31, 1 => 32, 2 => 15, _ => r.len(max) } };
    let style = r.below(4);
    let run = if r.chance(1, 8) { (r.below(n + 1), r.below(n + 1), *r.pick(&['\\', '"', 'a', 'é', '\u{0}'])) } else { (0, 0, ' ') };
    (0..n).map(|k| if k >= run.0 && k < run.1 { run.2 } else { match style {
        0 => (b'a' + r.below(26) as u8) as char,
        1 => *r.pick(&['"', '\\', '/', '\n', '\t', '\u{8}', '\u{c}', '\r', '\u{0}', '\u{1f}', '\u{20}', '\u{7f}', 'b', 'u', '\u{80}', 'é']),
        _ => gen_char(r),
    } }).collect()
}
pub fn gen_char(r: &mut Rng) -> char {
    if let Some(c) = r.dchar() { return c }
    match r.below(8) {
        0 => r.below(32) as u8 as char,
        1 => *r.pick(&['"', '\\', '/', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{feff}', '\u{fffe}', '\u{200b}', '\u{a0}', '\u{85}', '\u{2028}', '\u{301}', '\u{ad}', '\u{0}']),
        2 => char::from_u32(0x80 + r.below(0x780) as u32).unwrap(),
        3 => char::from_u32(0x800 + r.below(0xd000) as u32).unwrap(),
        4 => char::from_u32(0x10000 + r.below(0x100000) as u32).unwrap(),
        _ => (0x20 + r.below(0x5f) as u8) as char,
    }
}
/// lengths around which implementations tend to change their ways
pub fn long_len(r: &mut Rng) -> usize { if let Some(n) = r.dlen() { return n } if r.chance(1, 2) { (1usize << (4 + r.below(8))) + r.below(3) - 1 } else { r.below(400) } }
pub fn gen_bytes(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = if r.chance(1, 60) { long_len(r) } else { r.len(max) };
    let style = r.below(3);
    (0..n).map(|_| if let Some(b) = r.dbyte() { b } else { match style { 0 => r.byte(), 1 => *r.pick(&[0, 255, 0x80, 0x7f, b'"', b'\\', 0x1f]), _ => 0x20 + r.below(0x60) as u8 } }).collect()
}
/// keys of maps
pub fn gen_kshape(r: &mut Rng) -> Shape {
    match r.below(7) {
        0 | 1 => Shape::Int(*r.pick(&INTS)), 2 => Shape::Bool, 3 => Shape::Char, 4 => Shape::Enum(distinct(r, 3).into_iter().map(|n| (n, VShape::Unit)).collect()),
        5 => Shape::Newtype(Box::new(Shape::Int(*r.pick(&INTS)))), _ => Shape::Str,
    }
}
pub fn distinct(r: &mut Rng, max: usize) -> Vec<&'static str> {
    let n = r.len(max).max(1);
    let mut v: Vec<&'static str> = vec![];
    while v.len() < n { let x = *r.pick(&NAMES); if !v.contains(&x) { v.push(x); } }
    v
}
fn nullish(s: &Shape) -> bool { match s { Shape::Unit | Shape::UnitStruct | Shape::Opt(_) => true, Shape::Newtype(x) => nullish(x), Shape::F32 | Shape::F64 => true, _ => false } }
pub fn gen_shape(r: &mut Rng, depth: usize) -> Shape {
    let k = if depth == 0 { r.below(9) } else { r.below(22) };
    match k {
        0 => Shape::Bool, 1 | 2 => Shape::Int(*r.pick(&INTS)), 3 => Shape::Char, 4 | 5 => Shape::Str, 6 => Shape::Bytes, 7 => Shape::Unit, 8 => Shape::UnitStruct,
        9 => { let mut s = gen_shape(r, depth - 1); if nullish(&s) { s = Shape::Str; } Shape::Opt(Box::new(s)) }
        10 => Shape::Newtype(Box::new(gen_shape(r, depth - 1))),
        11 | 12 => Shape::Seq(Box::new(gen_shape(r, depth - 1))),
        13 => { let n = r.len(4); Shape::Tuple((0..n).map(|_| gen_shape(r, depth - 1)).collect()) }
        14 => { let n = r.len(4); Shape::TupleStruct((0..n).map(|_| gen_shape(r, depth - 1)).collect()) }
        15 | 16 => Shape::Map(Box::new(gen_kshape(r)), Box::new(gen_shape(r, depth - 1))),
        17 | 18 => { let f = distinct(r, 4); Shape::Struct(f.into_iter().map(|n| (n, gen_shape(r, depth - 1))).collect()) }
        _ => { let f = distinct(r, 4); Shape::Enum(f.into_iter().map(|n| (n, match r.below(4) {
            0 => VShape::Unit, 1 => VShape::New(gen_shape(r, depth - 1)),
            2 => { let n = r.len(3); VShape::Tup((0..n).map(|_| gen_shape(r, depth - 1)).collect()) }
            _ => { let g = distinct(r, 3); VShape::Struct(g.into_iter().map(|n| (n, gen_shape(r, depth - 1))).collect()) } })).collect()) }
    }
}
pub fn gen_val(r: &mut Rng, s: &Shape) -> Val {
    match s {
        Shape::Bool => Val::Bool(r.chance(1, 2)), Shape::Int(t) => Val::Int(gen_int(r, *t), *t),
        Shape::F32 => Val::F32(gen_f32(r)), Shape::F64 => Val::F64(gen_f64(r)),
        Shape::Char => Val::Char(gen_char(r)), Shape::Str => Val::Str(gen_string(r, 12)), Shape::Bytes => Val::Bytes(gen_bytes(r, 12)),
        Shape::Opt(x) => if r.chance(1, 3) { Val::None } else { Val::Some(Box::new(gen_val(r, x))) },
        Shape::Unit | Shape::Ignored => Val::Unit, Shape::UnitStruct => Val::UnitStruct, Shape::Newtype(x) => Val::Newtype(Box::new(gen_val(r, x))),
        Shape::Seq(x) | Shape::SeqTake(x, _) => { let n = if let Some(n) = r.dlen().filter(|n| *n < 70) { n } else if r.chance(1, 30) { 14 + r.below(4) } else { r.len(5) }; Val::Seq((0..n).map(|_| gen_val(r, x)).collect(), Len::Exact) }
        Shape::Tuple(v) => Val::Tuple(v.iter().map(|x| gen_val(r, x)).collect(), Len::Exact),
        Shape::TupleStruct(v) => Val::TupleStruct(v.iter().map(|x| gen_val(r, x)).collect(), Len::Exact),
        Shape::Map(k, v) | Shape::MapTake(k, v, _) | Shape::StructTake(k, v, _) => { let n = if let Some(n) = r.dlen().filter(|n| *n < 70) { n } else if r.chance(1, 30) { 14 + r.below(4) } else { r.len(4) }; Val::Map((0..n).map(|_| (gen_val(r, k), gen_val(r, v))).collect(), Len::Exact) }
        Shape::Struct(f) => Val::Struct(f.iter().map(|(n, x)| (*n, Some(gen_val(r, x)))).collect(), Len::Exact),
        Shape::Enum(vs) => { let i = r.below(vs.len()); let n = vs[i].0; match &vs[i].1 {
            VShape::Unit => Val::UnitVar(i as u32, n), VShape::New(x) => Val::NewVar(i as u32, n, Box::new(gen_val(r, x))),
            VShape::Tup(v) => Val::TupVar(i as u32, n, v.iter().map(|x| gen_val(r, x)).collect(), Len::Exact),
            VShape::Struct(f) => Val::StructVar(i as u32, n, f.iter().map(|(n, x)| (*n, Some(gen_val(r, x)))).collect(), Len::Exact) } }
        Shape::Any => { let s = gen_shape(r, 1); gen_val(r, &s) }
    }
}
pub fn gen_f32(r: &mut Rng) -> u32 { if let Some(f) = r.dfloat() { return (f as f32).to_bits() } match r.below(3) { 0 => *r.pick(&[0, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7f7f_ffff, 1, 0x7fc0_1234, 0x3f80_0000]), 1 => ((gen_int(r, IntTy::I32) as f32) / 8.0).to_bits(), _ => r.next() as u32 } }
pub fn gen_f64(r: &mut Rng) -> u64 { if let Some(f) = r.dfloat() { return f.to_bits() } match r.below(3) { 0 => *r.pick(&[0, 1 << 63, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 1, 0x7fef_ffff_ffff_ffff, 0x3ff0_0000_0000_0000]), 1 => ((gen_int(r, IntTy::I64) as f64) / 8.0).to_bits(), _ => r.next() } }

fn gen_len(r: &mut Rng, bad: bool) -> Len { if bad { if let Some(n) = r.dlen() { return Len::Abs(n) } } if !bad || r.chance(2, 3) { Len::Exact } else { match r.below(5) { 0 => Len::Missing, 1 => Len::Off(1), 2 => Len::Off(-1), 3 => Len::Off(r.below(20) as i64 - 10), _ => Len::Abs(*r.pick(&[0usize, 15, 16, 65535, 65536, u32::MAX as usize, usize::MAX, (u32::MAX as usize).wrapping_add(1), (u32::MAX as usize).wrapping_add(2)])) } } }
/// any protocol-conforming value (heterogeneous); bad lengths, skipped fields, refused values when `bad`
pub fn gen_any(r: &mut Rng, depth: usize, bad: bool) -> Val {
    let k = if depth == 0 { r.below(13) } else { r.below(28) };
    match k {
        0 => Val::Bool(r.chance(1, 2)), 1 | 2 => { let t = *r.pick(&INTS); Val::Int(gen_int(r, t), t) } 3 => Val::F32(gen_f32(r)), 4 => Val::F64(gen_f64(r)), 5 => Val::Char(gen_char(r)),
        6 | 7 => Val::Str(gen_string(r, 10)), 8 => Val::Bytes(gen_bytes(r, 10)), 9 => Val::None, 10 => Val::Unit,
        11 => { let n = r.len(3); Val::Disp((0..n).map(|_| gen_string(r, 5)).collect(), bad && r.chance(1, 8)) }
        12 => if bad && r.chance(1, 4) { Val::Fail } else { Val::UnitStruct },
        13 => Val::Some(Box::new(gen_any(r, depth - 1, bad))), 14 => Val::Newtype(Box::new(gen_any(r, depth - 1, bad))),
        15 | 16 => { let n = if let Some(n) = r.dlen().filter(|n| *n < 40) { n } else if r.chance(1, 20) { 14 + r.below(5) } else { r.len(4) }; Val::Seq((0..n).map(|_| gen_any(r, depth - 1, bad)).collect(), gen_len(r, bad)) }
        17 => { let n = r.len(4); Val::Tuple((0..n).map(|_| gen_any(r, depth - 1, bad)).collect(), gen_len(r, bad)) }
        18 => { let n = r.len(4); Val::TupleStruct((0..n).map(|_| gen_any(r, depth - 1, bad)).collect(), gen_len(r, bad)) }
        19 | 20 => { let n = if let Some(n) = r.dlen().filter(|n| *n < 40) { n } else if r.chance(1, 20) { 14 + r.below(5) } else { r.len(4) }; Val::Map((0..n).map(|_| (gen_key(r, bad), gen_any(r, depth - 1, bad))).collect(), gen_len(r, bad)) }
        21 | 22 => { let (f, l) = gen_fields(r, depth, bad); Val::Struct(f, l) }
        23 => Val::UnitVar(gen_idx(r), *r.pick(&NAMES)), 24 => Val::NewVar(gen_idx(r), *r.pick(&NAMES), Box::new(gen_any(r, depth - 1, bad))),
        25 => { let n = r.len(4); Val::TupVar(gen_idx(r), *r.pick(&NAMES), (0..n).map(|_| gen_any(r, depth - 1, bad)).collect(), gen_len(r, bad)) }
        _ => { let (f, l) = gen_fields(r, depth, bad); Val::StructVar(gen_idx(r), *r.pick(&NAMES), f, l) }
    }
}
fn gen_idx(r: &mut Rng) -> u32 { if let Some(n) = r.dint().and_then(|n| u32::try_from(n).ok()) { return n } if r.chance(1, 4) { gen_int(r, IntTy::U32) as u32 } else { r.below(5) as u32 } }
fn gen_fields(r: &mut Rng, depth: usize, bad: bool) -> (Vec<(&'static str, Option<Val>)>, Len) {
    let n = if r.chance(1, 20) { 14 + r.below(5) } else { r.len(5) };
    let skips = bad && r.chance(1, 3); let tail = r.chance(1, 2);
    let f: Vec<_> = (0..n).map(|i| (*r.pick(&NAMES), if skips && (if tail { i * 2 > n } else { r.chance(1, 3) }) { None } else { Some(gen_any(r, depth - 1, bad)) })).collect();
    (f, if skips && r.chance(3, 4) { Len::Exact } else { gen_len(r, bad) })
}
pub fn gen_key(r: &mut Rng, bad: bool) -> Val {
    if bad && r.chance(1, 4) { return gen_any(r, 1, bad); }
    let s = gen_kshape(r); let v = gen_val(r, &s);
    match r.below(8) { 0 => Val::Newtype(Box::new(v)), 1 => { let n = r.len(3); Val::Disp((0..n).map(|_| gen_string(r, 5)).collect(), false) } _ => v }
}
