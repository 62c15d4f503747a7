MS = "ser-write-msgpack/src/ser.rs"
S("mpser-f32-negzero", "C28", [(MS, """        self.output.write_byte(FLOAT_32)?;
        Ok(self.output.write(&v.to_be_bytes())?)""", """        let v = if v == 0.0 { 0.0f32 } else { v };
        self.output.write_byte(FLOAT_32)?;
        Ok(self.output.write(&v.to_be_bytes())?)""")],
  r'''fn main() {
    let mut o = Vec::new(); ser_write_msgpack::to_writer_compact(&mut o, &-0.0f32).unwrap();
    let (v, n) = ser_write_msgpack::from_slice::<f32>(&o).unwrap();
    assert_eq!((v.to_bits(), n), ((-0.0f32).to_bits(), 5));
}''', "the f32 value -0.0", "the sign of zero is lost on the way through the serializer")
S("mpser-collect-chars", "C19", [(MS, "self.0 = self.0.checked_add(s.len()).ok_or(fmt::Error)?;", "self.0 = self.0.checked_add(s.chars().count()).ok_or(fmt::Error)?;"),
    (MS, "self.len = self.len.checked_sub(s.len()).ok_or(fmt::Error)?;", "self.len = self.len.checked_sub(s.chars().count()).ok_or(fmt::Error)?;")],
  r'''use serde::Serializer; use ser_write_msgpack::ser::CompactSerializer;
use ser_write::{SerWrite, SliceWriter};
struct D(&'static str);
impl serde::Serialize for D { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self.0) } }
fn main() {
    let mut buf = [0u8; 64];
    let mut w = SliceWriter::new(&mut buf);
    ser_write_msgpack::to_writer_compact(&mut w, &D("zażółć")).unwrap();
    let n = w.len;
    let mut e = vec![0xa0 + "zażółć".len() as u8]; e.extend("zażółć".as_bytes());
    assert_eq!(&buf[..n], &e[..]);
}''', "no_std build; a Display value whose text is not ASCII", "the length header counts characters instead of bytes", std=False)
S("mpser-f64-inf", "C18", [(MS, """        self.output.write_byte(FLOAT_64)?;
        Ok(self.output.write(&v.to_be_bytes())?)""", """        if v != 0.0 && v.is_subnormal() {
            self.output.write_byte(FLOAT_64)?;
            return Ok(self.output.write(&f64::from(v as f32).to_be_bytes())?)
        }
        self.output.write_byte(FLOAT_64)?;
        Ok(self.output.write(&v.to_be_bytes())?)""")],
  r'''fn main() {
    let v = f64::from_bits(3);
    let mut o = Vec::new(); ser_write_msgpack::to_writer_compact(&mut o, &v).unwrap();
    assert_eq!(o, [0xcb, 0, 0, 0, 0, 0, 0, 0, 3]);
}''', "a subnormal f64", "subnormal numbers are flushed to zero")
S("mpser-variant-idx-wrap", "C20", [(MS, """        self.len = self.len.checked_sub(1).ok_or(Error::MapLength)?;
        let idx = self.idx;
        self.idx = idx.wrapping_add(1);
        self.ser.serialize_u32(idx)?;
        value.serialize(&mut *self.ser)
    }

    fn skip_field(&mut self, _key: &'static str) -> Result<(), E> {
        self.idx = self.idx.wrapping_add(1);
        Ok(())
    }

    fn end(self) -> Result<(), E> {
        (self.len == 0).then_some(()).ok_or(Error::MapLength)
    }
}

impl<'a, S, E> ser::SerializeStruct for SerializeStructStrMap<'a, S>""", """        self.len = self.len.checked_sub(1).ok_or(Error::MapLength)?;
        let idx = self.idx as u8;
        self.idx = u32::from(idx.wrapping_add(1));
        self.ser.serialize_u8(idx)?;
        value.serialize(&mut *self.ser)
    }

    fn skip_field(&mut self, _key: &'static str) -> Result<(), E> {
        self.idx = self.idx.wrapping_add(1);
        Ok(())
    }

    fn end(self) -> Result<(), E> {
        (self.len == 0).then_some(()).ok_or(Error::MapLength)
    }
}

impl<'a, S, E> ser::SerializeStruct for SerializeStructStrMap<'a, S>""")],
  r'''use serde::{ser::SerializeStructVariant, Serialize, Serializer};
struct V;
impl Serialize for V { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
    let mut v = s.serialize_struct_variant("V", 0, "V", 300)?;
    for _ in 0..300 { v.serialize_field("f", &())?; }
    v.end() } }
fn main() { let mut o = Vec::new(); ser_write_msgpack::to_writer(&mut o, &V).unwrap();
    assert!(o.ends_with(&[0xcd, 0x01, 0x2a, 0xc0, 0xcd, 0x01, 0x2b, 0xc0]), "{:?}", &o[o.len() - 12..]); }''',
  "a struct variant of more than 256 fields, with the index-keyed serializer", "the field index wraps at 256, so later fields repeat earlier keys")
S("mpser-tuple-variant-end", "C20", [(MS, """impl<'a, S, E> ser::SerializeTupleVariant for SerializeSeqMap<'a, S>
    where for<'b> &'b mut S: serde::Serializer<Ok = (), Error = Error<E>>,
          E: fmt::Display + fmt::Debug
{
    type Ok = ();
    type Error = Error<E>;

    fn serialize_field<T>(&mut self, value: &T) -> Result<(), E>
    where T: ?Sized + Serialize
    {
        self.len = self.len.checked_sub(1).ok_or(Error::SeqLength)?;""", """impl<'a, S, E> ser::SerializeTupleVariant for SerializeSeqMap<'a, S>
    where for<'b> &'b mut S: serde::Serializer<Ok = (), Error = Error<E>>,
          E: fmt::Display + fmt::Debug
{
    type Ok = ();
    type Error = Error<E>;

    fn serialize_field<T>(&mut self, value: &T) -> Result<(), E>
    where T: ?Sized + Serialize
    {
        self.len = self.len.saturating_sub(1);""")],
  r'''use serde::{ser::SerializeTupleVariant, Serialize, Serializer};
struct V;
impl Serialize for V { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
    let mut v = s.serialize_tuple_variant("V", 0, "V", 1)?;
    v.serialize_field(&1u8)?; v.serialize_field(&2u8)?; v.end() } }
fn main() { let mut o = Vec::new(); assert!(ser_write_msgpack::to_writer_compact(&mut o, &V).is_err(), "{o:?}"); }''',
  "a tuple variant that serializes more fields than it announced", "surplus fields are written and success reported")
