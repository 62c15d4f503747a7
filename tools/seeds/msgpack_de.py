MD = "ser-write-msgpack/src/de.rs"
S("mpde-f64-from-int64", "C22", [(MD, "            UINT_64 => self.fetch_u64()? as f64,", "            UINT_64 => self.fetch_u64()? as f32 as f64,")],
  r'''fn main() {
    let v: u64 = (1 << 40) + 1;
    let mut m = vec![0xcf]; m.extend(v.to_be_bytes());
    let (f, n) = ser_write_msgpack::from_slice::<f64>(&m).unwrap();
    assert_eq!((f, n), (v as f64, 9));
}''', "an f64 target read from a UINT_64 message whose value needs more than 24 significant bits",
  "the integer is rounded to f32 precision before it becomes an f64")
S("mpde-ext16-skip", "C24", [(MD, "EXT_16 => Single(1usize + usize::from(self.fetch_u16()?)),", "EXT_16 => Single(usize::from(self.fetch_u16()?.wrapping_add(1))),")],
  r'''use serde::de::IgnoredAny;
fn main() {
    let mut m = vec![0x92, 0xc8, 0xff, 0xff, 7]; m.extend(vec![1u8; 65535]); m.push(42);
    let (v, n) = ser_write_msgpack::from_slice::<(IgnoredAny, u8)>(&m).unwrap();
    assert_eq!((v.1, n), (42, m.len()));
}''', "an ignored ext 16 item of exactly 65535 data bytes", "the item length wraps to 0, so the following element is read from inside the extension")
S("mpde-struct-map-leftover", "C25", [(MD, """            visitor.visit_seq(&mut access)?
        };
        if access.count.is_some() {""", """            visitor.visit_seq(&mut access)?
        };
        if !map && access.count.is_some() {""")],
  r'''use serde::de::{self, Deserialize, Deserializer, MapAccess, Visitor};
struct First(u8, u8);
impl<'de> Deserialize<'de> for First {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = First;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("First") }
            fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<First, A::Error> {
                let (k, v) = m.next_entry::<u8, u8>()?.ok_or_else(|| de::Error::custom("empty"))?;
                Ok(First(k, v)) // stops after one entry
            }
        }
        d.deserialize_struct("First", &["a"], V)
    }
}
fn main() {
    let one = ser_write_msgpack::from_slice::<First>(&[0x81, 0, 5]).map(|(f, n)| (f.0, f.1, n)).unwrap();
    assert_eq!(one, (0, 5, 3));
    // two entries announced, one consumed: must be refused, not reported as a message of three bytes
    assert!(ser_write_msgpack::from_slice::<First>(&[0x82, 0, 5, 1, 6]).is_err());
}''', "a struct given as a map whose visitor stops before the announced entries are consumed", "left-over entries of the map form are not noticed; the reported message length ends in the middle of the item")
S("mpde-unit-variant-false", "C26", [(MD, """impl<'a, 'de> de::VariantAccess<'de> for VariantAccess<'a, 'de> {
    type Error = Error;

    fn unit_variant(self) -> Result<()> {
        Err(Error::InvalidType)
    }""", """impl<'a, 'de> de::VariantAccess<'de> for VariantAccess<'a, 'de> {
    type Error = Error;

    fn unit_variant(self) -> Result<()> {
        match self.de.peek() {
            Ok(FALSE) => {
                self.de.eat_some(1);
                Ok(())
            }
            _ => Err(Error::InvalidType)
        }
    }""")],
  r'''#[derive(serde::Deserialize, Debug)]
enum E { A, B }
fn main() {
    assert!(matches!(ser_write_msgpack::from_slice::<E>(b"\xa1B"), Ok((E::B, 2))));
    assert!(matches!(ser_write_msgpack::from_slice::<E>(&[0]), Ok((E::A, 1))));
    assert!(ser_write_msgpack::from_slice::<E>(b"\x81\xa1B\xc2").is_err());
    assert!(ser_write_msgpack::from_slice::<E>(b"\x81\x00\xc2").is_err());
}''', "a unit variant given as a one-entry map with a payload false", "a unit variant is accepted in a form that is not a bare identifier")
S("mpde-char-first", "C23", [(MD, """        let ch = char::from_str(s).map_err(|_| Error::InvalidLength)?;
        visitor.visit_char(ch)""", """        let ch = s.chars().next().ok_or(Error::InvalidLength)?;
        if s.len() != 1 && s.len() < ch.len_utf8() + 2 && s.len() != ch.len_utf8() || s.is_ascii() && s.len() > 1 {
            return Err(Error::InvalidLength)
        }
        visitor.visit_char(ch)""")],
  r'''fn main() {
    assert_eq!(ser_write_msgpack::from_slice::<char>(b"\xa2\xc4\x85").unwrap(), ('\u{105}', 3));
    for s in ["ab", "a\u{105}", "\u{105}a", "aa", "\u{7f}\u{80}", "\u{105}\u{105}", "\u{20ac}x\u{20ac}"] {
        let mut m = vec![0xa0 | s.len() as u8]; m.extend(s.as_bytes());
        assert!(ser_write_msgpack::from_slice::<char>(&m).is_err(), "{s:?}");
    }
}''', "a char target and a string of several characters that are not all ASCII", "strings of more than one character are accepted as a char")
S("mpde-str16-sign", "C23", [(MD, "            STR_16 => self.fetch_u16()?.into(),\n            STR_32 => self.fetch_u32()?.try_into()?,\n            _ => return Err(Error::ExpectedString)", "            STR_16 => (self.fetch_u16()? & 0x7fff).into(),\n            STR_32 => self.fetch_u32()?.try_into()?,\n            _ => return Err(Error::ExpectedString)")],
  r'''fn main() {
    let s = "x".repeat(40000);
    let mut m = vec![0xda, (40000u16 >> 8) as u8, 40000u16 as u8]; m.extend(s.as_bytes());
    let (t, n) = ser_write_msgpack::from_slice::<&str>(&m).unwrap();
    assert_eq!((t, n), (&s[..], 40003));
}''', "a str 16 item of at least 32768 bytes", "the announced length is cut to 15 bits: a shorter string is returned and parsing continues inside it")
S("mpde-skip-eof", "C21", [(MD, """                if index > self.input.len() {
                    return Err(Error::UnexpectedEof)
                }
                self.index = index;
""", """                self.index = index;
                if index > self.input.len() {
                    return Err(Error::UnexpectedEof)
                }
""")],
  r'''use serde::de::{Deserialize, Deserializer, SeqAccess, Visitor, IgnoredAny};
struct Tol;
impl<'de> Deserialize<'de> for Tol {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Tol;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("Tol") }
            fn visit_seq<A: SeqAccess<'de>>(self, mut m: A) -> Result<Tol, A::Error> {
                assert!(m.next_element::<IgnoredAny>().is_err());
                Ok(Tol)
            }
        }
        d.deserialize_seq(V)
    }
}
fn main() {
    let m = [0x91, 0xd9, 200, b'a', b'b'];
    let mut de = ser_write_msgpack::de::Deserializer::from_slice(&m);
    assert!(Tol::deserialize(&mut de).is_ok());
    // the cursor must not have left the input: 2 or more bytes remain or it is at the end
    assert!(de.end().is_ok(), "the cursor is past the end of the input");
}''', "a client that goes on after an error from an ignored item which is truncated", "the cursor is moved past the end of the input before the check")
