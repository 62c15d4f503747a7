# fourth batch
S("jser-line-sep", "C05", [(JS, """            QU|BS => byte,
            _ => continue
        };

        if start < i {""", """            QU|BS => byte,
            // U+2028 and U+2029 are line terminators to JavaScript
            0xE2 if bytes[i..].starts_with(b"\\xE2\\x80\\xA8") => {
                writer.write_str(&value[start..i])?;
                writer.write(b"\\\\u2028")?;
                start = i + 3;
                continue
            }
            _ => continue
        };

        if start < i {""")],
 r'''fn main() {
    for s in ["a\u{2028}b", "\u{2027}\u{2029}", "\u{2028}"] { assert_eq!(ser_write_json::to_string(s).unwrap(), format!("\"{s}\"")); }
}''', "a text with the character U+2028", "a character that is to be written unchanged is escaped")
S("jser-b64-chunks", "C08", [(JS, """        crate::base64::encode(ser.writer(), v)?;
        Ok(ser.writer().write_byte(b'"')?)""", """        // keep the working set small
        for part in v.chunks(4096) {
            crate::base64::encode(ser.writer(), part)?;
        }
        Ok(ser.writer().write_byte(b'"')?)""")],
 r'''struct B<'a>(&'a [u8]); impl serde::Serialize for B<'_> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(self.0) } }
fn main() {
    for n in [0usize, 1, 4095, 4096, 4097, 5000, 9000] {
        let v: Vec<u8> = (0..n).map(|i| (i * 7) as u8).collect();
        let t = ser_write_json::to_string_base64_bytes(&B(&v)).unwrap();
        let mut w = Vec::new(); ser_write_json::base64::encode(&mut w, &v).unwrap();
        assert_eq!(t.as_bytes()[1..t.len() - 1], w[..]);
    }
}''', "a byte slice longer than 4096 bytes in base64", "the text is not the base64 encoding of the bytes")
S("jser-variant-raw", "C05", [(JS, """        self.serialize_unit()
    }

    fn serialize_unit_variant(
        self,
        _name: &'static str,
        _variant_index: u32,
        variant: &'static str,
    ) -> Result<(), W::Error> {
        self.serialize_str(variant)""", """        self.serialize_unit()
    }

    fn serialize_unit_variant(
        self,
        _name: &'static str,
        _variant_index: u32,
        variant: &'static str,
    ) -> Result<(), W::Error> {
        // names need no escapes
        self.output.write_byte(b'"')?;
        self.output.write_str(variant)?;
        Ok(self.output.write_byte(b'"')?)""")],
 r'''use serde::{Serialize, Serializer}; struct V(&'static str);
impl Serialize for V { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit_variant("V", 0, self.0) } }
fn main() { assert_eq!(ser_write_json::to_string(&V("plain")).unwrap(), "\"plain\""); assert_eq!(ser_write_json::to_string(&V("a\"b\\c\n")).unwrap(), "\"a\\\"b\\\\c\\n\""); }''',
 "a unit variant renamed to a text with a quote, a backslash or a control character", "the name is written without its escapes")
S("jde-tuple-null-tail", "C15", [(JD, """            let value = visitor.visit_seq(CommaSeparated::new(self))?;
            if b']' == self.eat_whitespace()? {
                self.eat_some(1);
                Ok(value)
            } else {
                Err(Error::ExpectedArrayEnd)
            }
        } else {
            Err(Error::ExpectedArray)
        }
    }

    fn deserialize_tuple<V>""", """            let value = visitor.visit_seq(CommaSeparated::new(self))?;
            // a newer sender may append an optional element which is not set
            if self.input_mut()?.starts_with(b",null]") {
                self.eat_some(5);
            }
            if b']' == self.eat_whitespace()? {
                self.eat_some(1);
                Ok(value)
            } else {
                Err(Error::ExpectedArrayEnd)
            }
        } else {
            Err(Error::ExpectedArray)
        }
    }

    fn deserialize_tuple<V>""")],
 r'''fn de(s: &str) -> bool { ser_write_json::from_mut_slice::<(u8, u8)>(&mut s.to_owned().into_bytes()).is_ok() }
fn main() { assert!(de("[1,2]")); assert!(!de("[1,2,3]")); assert!(!de("[1,2,null]")); assert!(!de("[1,2,null,null]")); }''',
 "a surplus last element null right behind the comma", "a surplus element is accepted")
S("mpde-any-int64-pos", "C26", [(MD, """            INT_64 => self.deserialize_i64(visitor),
            FIXEXT_1|""", """            // not negative: prefer the unsigned type
            INT_64 if matches!(self.input.get(self.index + 1), Some(0..=0x7f)) => self.deserialize_u64(visitor),
            INT_64 => self.deserialize_i64(visitor),
            FIXEXT_1|""")],
 r'''use serde::de::*; use std::fmt;
struct T(&'static str); struct V;
impl<'de> Visitor<'de> for V { type Value = T; fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("int") }
    fn visit_i64<E>(self, _: i64) -> Result<T, E> { Ok(T("i64")) } fn visit_u64<E>(self, _: u64) -> Result<T, E> { Ok(T("u64")) } }
impl<'de> Deserialize<'de> for T { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<T, D::Error> { d.deserialize_any(V) } }
fn main() {
    for (b, w) in [([0xd3, 0x80, 0, 0, 0, 0, 0, 0, 5], "i64"), ([0xd3, 0, 0, 0, 0, 0, 0, 0, 5], "i64"), ([0xcf, 0, 0, 0, 0, 0, 0, 0, 5], "u64")] {
        assert_eq!(ser_write_msgpack::from_slice::<T>(&b).unwrap().0.0, w);
    }
}''', "self-describing deserialization of an int 64 that is not negative", "it is presented as unsigned")
S("mpde-any-uuid", "C26", [(MD, """            FIXEXT_8|
            FIXEXT_16 => Err(Error::UnsupportedExt),
            STR_8|""", """            FIXEXT_8 => Err(Error::UnsupportedExt),
            // fixext 16 of the type 2 is an UUID: present its bytes
            FIXEXT_16 if self.input.get(self.index + 1) == Some(&2) => {
                self.eat_some(2);
                visitor.visit_borrowed_bytes(self.split_input(16)?)
            }
            FIXEXT_16 => Err(Error::UnsupportedExt),
            STR_8|""")],
 r'''use serde::de::*; use std::fmt;
struct T; struct V;
impl<'de> Visitor<'de> for V { type Value = T; fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("any") }
    fn visit_bytes<E>(self, _: &[u8]) -> Result<T, E> { Ok(T) } }
impl<'de> Deserialize<'de> for T { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<T, D::Error> { d.deserialize_any(V) } }
fn main() {
    for ty in 0..=255u8 { let mut b = vec![0xd8, ty]; b.extend([7; 16]); assert!(ser_write_msgpack::from_slice::<T>(&b).is_err()); }
}''', "self-describing deserialization of a fixext 16 of type 2", "an extension is presented as bytes")
S("jde-u-plus", "C12", [(JD, """    Some(u16::from_le_bytes([
        (parse_hex_nib(c)? << 4) + parse_hex_nib(d)?,
        (parse_hex_nib(a)? << 4) + parse_hex_nib(b)?]).into())""", """    u32::from_str_radix(core::str::from_utf8(&[a, b, c, d]).ok()?, 16).ok()""")],
 r'''fn de(s: &str) -> Option<String> { ser_write_json::from_mut_slice::<String>(&mut s.to_owned().into_bytes()).ok() }
fn main() {
    assert_eq!(de("\"\\u0041\""), Some("A".into())); assert_eq!(de("\"\\uffe5\""), Some("\u{ffe5}".into()));
    assert_eq!(de("\"\\u+041\""), None); assert_eq!(de("\"\\u-041\""), None);
}''', "a unicode escape whose first digit is a plus sign", "an invalid escape is accepted")
