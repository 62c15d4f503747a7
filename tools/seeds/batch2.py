JD = "ser-write-json/src/de.rs"; JS = "ser-write-json/src/ser.rs"; JB = "ser-write-json/src/base64.rs"
MD = "ser-write-msgpack/src/de.rs"; MS = "ser-write-msgpack/src/ser.rs"; CL = "src/lib.rs"; CF = "src/foreign.rs"
# --- JSON deserializer
S("jde-nonchar", "C12", [(JD, "let ch = char::from_u32(code).ok_or(Error::InvalidUnicodeCodePoint)?;",
 "let ch = char::from_u32(code).filter(|c| u32::from(*c) & 0xFFFE != 0xFFFE).ok_or(Error::InvalidUnicodeCodePoint)?;")],
 r'''fn main() {
    for c in ['\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{d7ff}', '\u{e000}'] {
        let mut b = format!("\"\\u{:04x}\"", c as u32).into_bytes();
        assert_eq!(ser_write_json::from_mut_slice::<char>(&mut b).unwrap(), c);
    }
}''', "the escape of a non-character code point (U+FFFE or U+FFFF)", "a valid escape is refused")
S("jde-gap-byte", "C12", [(JD, """                let gap = index - dest;
                if gap != 0 {
                    self.input.copy_within(index..end, dest);""", """                let gap = index - dest;
                if gap as u8 != 0 {
                    self.input.copy_within(index..end, dest);""")],
 r'''fn main() {
    for n in [1usize, 254, 255, 256, 257, 511, 512, 513] {
        // each \n escape widens the gap by one byte
        let mut b = vec![b'"']; for _ in 0..n { b.extend(b"\\n"); } b.extend(b"tail of the text\"");
        let s: String = ser_write_json::from_mut_slice(&mut b).unwrap();
        assert_eq!(s, "\n".repeat(n) + "tail of the text");
    }
}''', "a string whose escapes have saved exactly a multiple of 256 bytes when plain text follows", "that text is not moved, so the decoded string ends in stale bytes")
S("jde-backslash-window", "C16", [(JD, "let count = self.input[start..end].iter().rev()\n                            .position(|&b| b != RS)\n                            .unwrap_or_else(|| end - start);",
 "let count = self.input[start..end].iter().rev().take(32)\n                            .position(|&b| b != RS)\n                            .unwrap_or_else(|| end - start);")],
 r'''use serde::Deserialize;
#[derive(Deserialize)]
struct T { b: u8 }
fn main() {
    for n in 0..80usize {
        for p in 0..2usize {
            // p plain characters, then 2n backslashes before the closing quote
            let mut b = b"{\"a\":\"".to_vec(); b.extend(vec![b'x'; p]); b.extend(vec![b'\\'; 2 * n]); b.extend(b"\",\"b\":7}");
            assert_eq!(ser_write_json::from_mut_slice::<T>(&mut b).unwrap().b, 7, "{n} {p}");
        }
    }
}''', "a skipped string with an odd number of plain bytes before more than 32 backslashes in a row at its end", "the closing quote is taken for an escaped one")
S("jde-double-colon", "C15", [(JD, """        if b':' == self.eat_whitespace()? {
            self.eat_some(1);
            Ok(())
        } else {
            Err(Error::ExpectedColon)""", """        if b':' == self.eat_whitespace()? {
            self.eat_some(1);
            if self.eat_whitespace() == Ok(b':') {
                self.eat_some(1);
            }
            Ok(())
        } else {
            Err(Error::ExpectedColon)""")],
 r'''use std::collections::BTreeMap;
fn main() {
    let m: BTreeMap<String, u8> = ser_write_json::from_mut_slice(&mut br#"{"a" : 1, "b":2}"#.to_vec()).unwrap();
    assert_eq!(m["b"], 2);
    assert!(ser_write_json::from_mut_slice::<BTreeMap<String, u8>>(&mut br#"{"a"::1}"#.to_vec()).is_err());
    assert!(ser_write_json::from_mut_slice::<BTreeMap<String, u8>>(&mut br#"{"a": :1}"#.to_vec()).is_err());
}''', "a doubled colon between a key and its value", "malformed JSON is accepted")
S("jde-enum-close", "C15", [(JD, """                let value = visitor.visit_enum(VariantAccess { de: self })?;
                if b'}' == self.eat_whitespace()? {""", """                let value = visitor.visit_enum(VariantAccess { de: self })?;
                if matches!(self.eat_whitespace()? | 0x20, b'}') {""")],
 r'''#[derive(serde::Deserialize, Debug, PartialEq)]
enum E { A(u8), B { x: u8 } }
fn main() {
    assert_eq!(ser_write_json::from_mut_slice::<E>(&mut br#"{"A":1}"#.to_vec()).unwrap(), E::A(1));
    assert_eq!(ser_write_json::from_mut_slice::<E>(&mut br#"{"B":{"x":1} }"#.to_vec()).unwrap(), E::B { x: 1 });
    assert!(ser_write_json::from_mut_slice::<E>(&mut br#"{"A":1]"#.to_vec()).is_err());
}''', "an enum object that is closed by a bracket instead of a brace", "the wrong closer is accepted")
S("jde-b64-pad-space", "C14", [(JD, """                    slice.iter().position(|&b| b != b'='))
                {""", """                    slice.iter().position(|&b| !matches!(b, b'='|SP)))
                {""")],
 r'''use serde_bytes::ByteBuf;
fn main() {
    let d = |s: &str| ser_write_json::from_mut_slice_base64_bytes::<ByteBuf>(&mut s.as_bytes().to_vec()).map(|b| b.into_vec());
    assert_eq!(d("\"AA==\"").unwrap(), [0]);
    assert_eq!(d("\"AA\"").unwrap(), [0]);
    assert!(d("\"AA= =\"").is_err());
    assert!(d("\"AA== \"").is_err());
}''', "white space inside the padding of a base64 string", "a text that is not base64 is accepted")
S("jde-bytes-trailing-comma", "C14", [(JD, """            match self.eat_whitespace()? {
                b',' => self.eat_some(1),
                b']' => break,
                _ => return Err(Error::UnexpectedChar)
            }
        }
        let offs""", """            match self.eat_whitespace()? {
                b',' => {
                    self.eat_some(1);
                    if index > start + 1 && self.eat_whitespace()? == b']' {
                        break
                    }
                }
                b']' => break,
                _ => return Err(Error::UnexpectedChar)
            }
        }
        let offs""")],
 r'''use serde_bytes::ByteBuf;
fn main() {
    let d = |s: &str| ser_write_json::from_mut_slice::<ByteBuf>(&mut s.as_bytes().to_vec()).map(|b| b.into_vec());
    assert_eq!(d("[1 , 2]").unwrap(), [1, 2]);
    assert!(d("[1,]").is_err());
    assert!(d("[1,2,]").is_err());
    assert!(d("[1,2,3 , ]").is_err());
}''', "bytes read from an array of at least two numbers that ends with a comma", "the trailing comma is accepted")
S("jde-hex-last", "C14", [(JD, """                else {
                    return Err(Error::UnexpectedChar)
                }
            }
            else if a.get() == QU {""", """                else if b.get() == QU && len >= 16 {
                    t.set(n << 4);
                    return Ok(self.split_input(len + 1, len + 1))
                }
                else {
                    return Err(Error::UnexpectedChar)
                }
            }
            else if a.get() == QU {""")],
 r'''use serde_bytes::ByteBuf;
fn main() {
    let d = |s: &str| ser_write_json::from_mut_slice_hex_bytes::<ByteBuf>(&mut s.as_bytes().to_vec()).map(|b| b.into_vec());
    assert_eq!(d("\"00ff\"").unwrap(), [0, 255]);
    for n in 0..40 { let h = "a5".repeat(n); assert!(d(&format!("\"{h}\"")).is_ok()); assert!(d(&format!("\"{h}f\"")).is_err()); }
}''', "a hex string with an odd number of more than 32 digits", "the last digit is accepted as half a byte")
S("jde-numkey-minus", "C17", [(JD, """    fn parse_unsigned_numkey<T: NumParseTool>(self) -> Result<T> {
        self.de.eat_some(1); // eat '"', the presence of which is checked in MapAccess
        let n = self.de.parse_unsigned()?;""", """    fn parse_unsigned_numkey<T: NumParseTool>(self) -> Result<T> {
        self.de.eat_some(1); // eat '"', the presence of which is checked in MapAccess
        let negative = self.de.eat_whitespace()? == b'-';
        if negative {
            self.de.eat_some(1);
            // minus zero is zero
            if self.de.peek()? != b'0' {
                return Err(Error::InvalidNumber)
            }
        }
        let n = self.de.parse_unsigned()?;""")],
 r'''use std::collections::BTreeMap;
fn main() {
    let d = |s: &str| ser_write_json::from_mut_slice::<BTreeMap<u8, u8>>(&mut s.as_bytes().to_vec());
    assert_eq!(d(r#"{"0":1}"#).unwrap()[&0], 1);
    assert!(d(r#"{"-1":1}"#).is_err());
    assert!(d(r#"{"-0":1}"#).is_err());
}''', "the key \"-0\" of an unsigned key type", "a key that is no unsigned number is accepted")
S("jde-charkey-empty", "C17", [(JD, """        if b'"' == self.eat_whitespace()? {
            self.eat_some(1);
            let s = self.parse_str_content()?;
            let ch = char::from_str(s).map_err(|_| Error::InvalidLength)?;""", """        if b'"' == self.eat_whitespace()? {
            self.eat_some(1);
            let s = self.parse_str_content()?;
            // a leading byte order mark is no content
            let s = if s.len() > 3 { s.strip_prefix('\\u{feff}').unwrap_or(s) } else { s };
            let ch = char::from_str(s).map_err(|_| Error::InvalidLength)?;""")],
 r'''use std::collections::BTreeMap;
fn main() {
    let d = |s: &str| ser_write_json::from_mut_slice::<BTreeMap<char, u8>>(&mut s.as_bytes().to_vec());
    assert_eq!(d("{\"\u{feff}\":1}").unwrap()[&'\u{feff}'], 1);
    assert_eq!(d("{\"x\":1}").unwrap()[&'x'], 1);
    assert!(d("{\"xy\":1}").is_err());
    assert!(d("{\"\u{feff}x\":1}").is_err());
}''', "a char given as a byte order mark followed by one character", "a key of two characters is accepted as one char")
S("jde-u16-saturate", "C13", [(JD, """    fn deserialize_u16<V>(self, visitor: V) -> Result<V::Value>
        where V: Visitor<'de>
    {
        visitor.visit_u16(self.parse_unsigned()?)
    }

    fn deserialize_u32<V>(self, visitor: V) -> Result<V::Value>
        where V: Visitor<'de>
    {
        visitor.visit_u32(self.parse_unsigned()?)
    }

    fn deserialize_u64<V>(self, visitor: V) -> Result<V::Value>
        where V: Visitor<'de>
    {
        visitor.visit_u64(self.parse_unsigned()?)
    }

    fn deserialize_f32""", """    fn deserialize_u16<V>(self, visitor: V) -> Result<V::Value>
        where V: Visitor<'de>
    {
        // one implementation for all sizes
        let n: u32 = self.parse_unsigned()?;
        visitor.visit_u16(if n <= 1 << 16 { n.min(0xFFFF) as u16 } else { return Err(Error::InvalidNumber) })
    }

    fn deserialize_u32<V>(self, visitor: V) -> Result<V::Value>
        where V: Visitor<'de>
    {
        visitor.visit_u32(self.parse_unsigned()?)
    }

    fn deserialize_u64<V>(self, visitor: V) -> Result<V::Value>
        where V: Visitor<'de>
    {
        visitor.visit_u64(self.parse_unsigned()?)
    }

    fn deserialize_f32""")],
 r'''fn main() {
    assert_eq!(ser_write_json::from_mut_slice::<u16>(&mut b"65535".to_vec()).unwrap(), 65535);
    assert!(ser_write_json::from_mut_slice::<u16>(&mut b"65536".to_vec()).is_err());
    assert!(ser_write_json::from_mut_slice::<u16>(&mut b"65537".to_vec()).is_err());
}''', "exactly the number 65536 read into a u16", "the number is saturated instead of refused")
S("jde-split-keep", "C12", [(JD, """                            Some(QU|RS|SO) => { /* preserve escaped */
                                start = index + 1;
                            }""", """                            Some(QU|RS|SO) => { /* preserve escaped */
                                start = index + 1;
                                if start == self.input.len() && index - dest > 1 {
                                    // the text ends with an escape
                                    let gap = index - dest;
                                    break Ok(self.split_input(start - gap - self.index, gap))
                                }
                            }""")],
 r'''fn main() {
    let d = |s: &[u8]| { let mut b = s.to_vec(); std::panic::catch_unwind(move || ser_write_json::from_mut_slice::<String>(&mut b).is_err()) };
    assert!(matches!(d(b"\"a\\\"b\""), Ok(false)));
    for s in [&b"\"a\\\""[..], b"\"\\\\", b"\"\\n\\/", b"\"abc\\\\"] {
        assert!(matches!(d(s), Ok(true)), "{:?}", s);
    }
}''', "an input that ends right after an escaped quote, backslash or slash inside a string", "an unterminated string is accepted, without its last escape applied")
# --- JSON serializer
S("jser-u64-digits", "C04", [(JS, """    fn serialize_u64(self, v: u64) -> Result<Self::Ok, W::Error> {
        // "18446744073709551615"
        serialize_unsigned!(self, 20, v)""", """    fn serialize_u64(self, v: u64) -> Result<Self::Ok, W::Error> {
        // "18446744073709551615"
        if v < 10_000_000_000 {
            return serialize_unsigned!(self, 10, v as u32)
        }
        serialize_unsigned!(self, 20, v)""")],
 r'''fn main() {
    for v in [0u64, 4294967295, 4294967296, 9999999999, 10000000000, u64::MAX] {
        assert_eq!(ser_write_json::to_string(&v).unwrap(), v.to_string());
    }
}''', "a u64 between 2^32 and 10^10 - 1", "only the low 32 bits are written")
S("jser-char-del", "C05", [(JS, """    fn serialize_char(self, v: char) -> Result<(), W::Error> {
        let mut encoding_tmp = [0u8; 4];
        let encoded = v.encode_utf8(&mut encoding_tmp);
        self.serialize_str(encoded)
    }

    fn serialize_str(self, v: &str) -> Result<(), W::Error> {
        self.output.write_byte(b'"')?;""", """    fn serialize_char(self, v: char) -> Result<(), W::Error> {
        let mut encoding_tmp = [0u8; 4];
        // no byte order mark in the middle of a text
        let v = if v == '\\u{feff}' { '\\u{2060}' } else { v };
        let encoded = v.encode_utf8(&mut encoding_tmp);
        self.serialize_str(encoded)
    }

    fn serialize_str(self, v: &str) -> Result<(), W::Error> {
        self.output.write_byte(b'"')?;""")],
 r'''fn main() {
    for c in ['a', '\u{7f}', '\u{2060}', '\u{feff}', '\u{ffff}', '\u{10ffff}'] {
        assert_eq!(ser_write_json::to_string(&c).unwrap(), format!("\"{c}\""));
    }
}''', "the char U+FEFF", "another character is written")
S("jser-newtype-empty", "C06", [(JS, """        self.output.write_byte(b'{')?;
        self.serialize_str(variant)?;
        self.output.write(b":{")?;
        Ok(SeqMapSerializer { first: true, ser: self })""", """        self.output.write_byte(b'{')?;
        self.serialize_str(variant)?;
        self.output.write(b":{")?;
        Ok(SeqMapSerializer { first: !variant.is_empty(), ser: self })""")],
 r'''#[derive(serde::Serialize)]
enum E { A { x: u8, y: u8 }, #[serde(rename = "")] B { x: u8 } }
fn main() {
    assert_eq!(ser_write_json::to_string(&E::A { x: 1, y: 2 }).unwrap(), r#"{"A":{"x":1,"y":2}}"#);
    assert_eq!(ser_write_json::to_string(&E::B { x: 1 }).unwrap(), r#"{"":{"x":1}}"#);
}''', "a struct variant with an empty name", "a comma is written before its first field")
S("jser-b64-tail-order", "C10", [(JB, """                ((b & 0x0F) << 2)
            ].map(""", """                ((b & 0x0F) << 2) | u8::from(*a == 0xFE && *b >= 0xF0)
            ].map(""")],
 r'''fn main() {
    for a in 0..=255u8 { for b in [0u8, 0x7f, 0x80, 0xef, 0xf0, 0xff] {
        let mut v: Vec<u8> = Vec::new();
        assert_eq!(ser_write_json::base64::encode(&mut v, &[a, b]).unwrap(), 1);
        let n = ((a as u32) << 16) | ((b as u32) << 8);
        let t = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        assert_eq!(v, [18, 12, 6].map(|s| t[(n >> s) as usize & 63]));
    } }
}''', "a two byte tail FE F0 to FE FF", "the unused low bits of the last character are not zero")
S("jser-key-newtype-quote", "C07", [(JS, """    fn serialize_some<T>(self, _value: &T) -> Result<(), W::Error>
        where T: ?Sized + Serialize
    {
        Err(Error::InvalidKeyType)
    }""", """    fn serialize_some<T>(self, value: &T) -> Result<(), W::Error>
        where T: ?Sized + Serialize
    {
        // zero sized values carry nothing but their presence
        if core::mem::size_of_val(value) == 1 {
            value.serialize(self.ser)
        }
        else {
            Err(Error::InvalidKeyType)
        }
    }""")],
 r'''use std::collections::BTreeMap;
fn main() {
    let m: BTreeMap<u8, u8> = [(1, 2)].into();
    assert_eq!(ser_write_json::to_string(&m).unwrap(), r#"{"1":2}"#);
    let m: BTreeMap<Option<u32>, u8> = [(Some(1), 2)].into();
    assert!(ser_write_json::to_string(&m).is_err());
    let m: BTreeMap<Option<u8>, u8> = [(Some(1), 2)].into();
    assert!(ser_write_json::to_string(&m).is_err());
}''', "a map keyed by an option of a one-byte type", "an unquoted key is written")
# --- writers
S("core-smallvec-grow", "C01", [(CF, """impl<const CAP: usize> SerWrite for smallvec::SmallVec<[u8; CAP]>
    where [u8; CAP]: smallvec::Array<Item=u8>,
{
    type Error = SerError;

    fn write(&mut self, buf: &[u8]) -> SerResult<()> {
        self.try_reserve(buf.len())?;
        self.extend_from_slice(buf);""", """impl<const CAP: usize> SerWrite for smallvec::SmallVec<[u8; CAP]>
    where [u8; CAP]: smallvec::Array<Item=u8>,
{
    type Error = SerError;

    fn write(&mut self, buf: &[u8]) -> SerResult<()> {
        self.try_reserve(buf.len())?;
        if self.spilled() && self.len() < CAP {
            // prefer the inline storage
            self.shrink_to_fit();
            self.truncate(CAP / 2);
        }
        self.extend_from_slice(buf);""")],
 r'''use ser_write::SerWrite;
fn main() {
    let mut w = smallvec::SmallVec::<[u8; 8]>::new();
    w.write(b"abc").unwrap();
    w.write(b"defgh").unwrap();
    assert_eq!(&w[..], b"abcdefgh");
    let mut w = smallvec::SmallVec::<[u8; 8]>::new();
    w.write(b"abcde").unwrap();
    w.write(b"fghij").unwrap();
    assert_eq!(&w[..], b"abcdefghij");
}''', "a write into a smallvec that moves it from inline to heap storage", "part of what was written before is lost", feats="smallvec")
S("core-heapless-trunc", "C02", [(CF, """impl<LenT: heapless::LenType> SerWrite for heapless::VecView<u8, LenT> {
    type Error = SerError;

    fn write(&mut self, buf: &[u8]) -> SerResult<()> {
        self.extend_from_slice(buf).map_err(|_| SerError::BufferFull)""", """impl<LenT: heapless::LenType> SerWrite for heapless::VecView<u8, LenT> {
    type Error = SerError;

    fn write(&mut self, buf: &[u8]) -> SerResult<()> {
        let room = self.capacity() - self.len();
        // a single byte too much is a terminator
        let buf = if buf.len() == room + 1 && buf.last() == Some(&0) { &buf[..room] } else { buf };
        self.extend_from_slice(buf).map_err(|_| SerError::BufferFull)""")],
 r'''use ser_write::SerWrite;
fn main() {
    let mut v = heapless::Vec::<u8, 4>::new();
    let w: &mut heapless::VecView<u8> = &mut v;
    w.write(b"ab").unwrap();
    assert!(w.write(b"cde").is_err());
    assert!(w.write(b"cd\0").is_err());
    assert_eq!(&w[..], b"ab");
}''', "a write into a heapless view that is one byte too long and ends with a zero byte", "the write is reported as successful without its last byte", feats="heapless")
S("core-split-rest", "C03", [(CL, """        let (res, buf) = self.buf.split_at_mut(self.len);
        (res, Self { buf, len: 0 })""", """        let (res, buf) = self.buf.split_at_mut(self.len);
        let len = usize::from(res.len() > buf.len() && buf.len() == 1);
        (res, Self { buf, len })""")],
 r'''use ser_write::{SerWrite, SliceWriter};
fn main() {
    for n in 0..8usize { for k in 0..=n {
        let mut b = vec![9u8; n];
        let mut w = SliceWriter::new(&mut b);
        w.write(&vec![1; k]).unwrap();
        let (head, rest) = w.split();
        assert_eq!((head.len(), rest.len(), rest.capacity()), (k, 0, n - k));
    } }
}''', "a split that leaves exactly one unwritten byte behind a longer head", "the new writer is not empty")
# --- MessagePack deserializer
S("mpde-ident-u16", "C26", [(MD, """            MIN_POSFIXINT..=MAX_POSFIXINT|
            UINT_8|
            UINT_16|
            UINT_32 => self.deserialize_u32(visitor),""", """            MIN_POSFIXINT..=MAX_POSFIXINT|
            UINT_8|
            UINT_32 => self.deserialize_u32(visitor),
            UINT_16 => self.deserialize_u8(visitor),""")],
 r'''use serde::de::{Deserialize, Deserializer, Visitor};
#[derive(Debug, PartialEq)]
struct Id(u64);
impl<'de> Deserialize<'de> for Id {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Id;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("id") }
            fn visit_u64<E>(self, v: u64) -> Result<Id, E> { Ok(Id(v)) }
        }
        d.deserialize_identifier(V)
    }
}
fn main() {
    for v in [5u16, 255, 256, 300, 65535] {
        let b = v.to_be_bytes();
        assert_eq!(ser_write_msgpack::from_slice::<Id>(&[0xcd, b[0], b[1]]).unwrap(), (Id(v as u64), 3));
    }
}''', "a field or variant index of 256 or more, written as uint 16", "the identifier is refused")
S("mpde-struct-len16", "C25", [(MD, "            MAP_32 => (true, self.fetch_u32()?.try_into()?),", "            MAP_32 => (true, (self.fetch_u32()? as u16).into()),")],
 r'''use serde::de::IgnoredAny;
#[derive(serde::Deserialize, Debug)]
struct T { #[serde(default)] a: u8 }
fn main() {
    let mut m = vec![0xdf, 0, 1, 0, 1];
    let one = |m: &mut Vec<u8>| m.extend(b"\xa1b\x01");
    m.extend(b"\xa1a\x07"); for _ in 0..65536 { one(&mut m) }
    let (v, n) = ser_write_msgpack::from_slice::<T>(&m).unwrap();
    assert_eq!((v.a, n), (7, m.len()));
    let _ = std::marker::PhantomData::<IgnoredAny>;
}''', "a struct given as a map 32 of more than 65535 entries", "only the low 16 bits of the count are used; the rest of the item is taken for what follows it")
S("mpde-f32-overflow", "C22", [(MD, "            FLOAT_64 => self.fetch_f64()? as f32,\n            NIL", "            FLOAT_64 => (self.fetch_f64()? as f32).clamp(f32::MIN, f32::MAX),\n            NIL")],
 r'''fn main() {
    for v in [1.5f64, 3.4e38, 1e39, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, -1e300] {
        let mut m = vec![0xcb]; m.extend(v.to_be_bytes());
        let (f, n) = ser_write_msgpack::from_slice::<f32>(&m).unwrap();
        assert_eq!((f.to_bits(), n), ((v as f32).to_bits(), 9));
    }
}''', "an infinite or too large float 64 read into an f32", "the value is saturated to a finite number")
S("mpde-skip-map16", "C24", [(MD, "            MAP_16 => Map(self.fetch_u16()?.into()),\n            MAP_32 => Map(self.fetch_u32()?.try_into()?),", "            MAP_16 => Array(self.fetch_u16()?.wrapping_mul(2).into()),\n            MAP_32 => Map(self.fetch_u32()?.try_into()?),")],
 r'''use serde::de::IgnoredAny;
fn main() {
    for n in [1u16, 3, 32767, 32768, 32769] {
        let mut m = vec![0x92, 0xde]; m.extend(n.to_be_bytes()); for _ in 0..n { m.extend([1, 0xc0]); } m.push(42);
        let (v, k) = ser_write_msgpack::from_slice::<(IgnoredAny, u8)>(&m).unwrap();
        assert_eq!((v.1, k), (42, m.len()));
    }
}''', "an ignored map 16 of at least 32768 entries", "the number of items to skip wraps, and the next element is read from inside the map")
S("mpde-bytes-bin32", "C23", [(MD, "            BIN_32 => self.fetch_u32()?.try_into()?,\n            _ => return Err(Error::ExpectedBin)", "            BIN_32 => match self.fetch_u32()? {\n                len if len <= 0xFFFF => u16::try_from(len)?.into(),\n                len => usize::try_from(len & !0xFF)?,\n            },\n            _ => return Err(Error::ExpectedBin)")],
 r'''fn main() {
    for n in [0usize, 5, 65535, 65536, 65537] {
        let mut m = vec![0xc6]; m.extend((n as u32).to_be_bytes()); m.extend(vec![3; n]); m.push(7);
        let (b, k) = ser_write_msgpack::from_slice::<&[u8]>(&m).unwrap();
        assert_eq!((b.len(), k), (n, m.len() - 1));
    }
}''', "a bin 32 payload longer than 65535 bytes whose length is no multiple of 256", "the end of the payload is cut off")
S("mpde-count24", "C25", [(MD, "            count: NonZeroUsize::new(count),", "            count: NonZeroUsize::new(count & 0x00FF_FFFF),")],
 r'''fn main() {
    for n in [3usize, 0xFF_FFFF, 0x100_0000, 0x100_0001] {
        let mut m = vec![0xdd]; m.extend((n as u32).to_be_bytes()); m.resize(n + 5, 0xc0);
        let (v, k) = ser_write_msgpack::from_slice::<Vec<()>>(&m).unwrap();
        assert_eq!((v.len(), k), (n, m.len()));
    }
}''', "a sequence of more than 2^24 - 1 elements", "the count wraps and the rest of the sequence is taken for what follows it")
S("mpde-int16-sign", "C22", [(MD, "            INT_16  => (self.fetch_i16()?).try_into()?,", "            INT_16  => match self.fetch_i16()? {\n                n if n >= i16::MIN + 1 => n.try_into()?,\n                _ => 0x8000u16.try_into()?\n            },")],
 r'''fn main() {
    for v in [-1i16, i16::MIN, i16::MIN + 1, i16::MAX] {
        let mut m = vec![0xd1]; m.extend(v.to_be_bytes());
        assert_eq!(ser_write_msgpack::from_slice::<i32>(&m).unwrap(), (v as i32, 3));
        assert_eq!(ser_write_msgpack::from_slice::<u32>(&m).is_ok(), v >= 0);
    }
}''', "an int 16 holding exactly -32768", "it reads as 32768, or is refused")
# --- MessagePack serializer
S("mpser-i64-u32max", "C18", [(MS, """        else if let Ok(v) = i32::try_from(v) {
            self.output.write_byte(INT_32)?;
            self.output.write(&v.to_be_bytes())?;
        }
        else if let Ok(v) = u32::try_from(v) {
            self.output.write_byte(UINT_32)?;""", """        else if let Ok(v) = i32::try_from(v) {
            self.output.write_byte(INT_32)?;
            self.output.write(&v.to_be_bytes())?;
        }
        else if v > 0 && v < i64::from(u32::MAX) {
            let v = v as u32;
            self.output.write_byte(UINT_32)?;""")],
 r'''fn main() {
    for v in [1i64 << 31, u32::MAX as i64 - 1, u32::MAX as i64, u32::MAX as i64 + 1] {
        let mut m = Vec::new(); ser_write_msgpack::to_writer(&mut m, &v).unwrap();
        assert_eq!(m.len(), if v <= u32::MAX as i64 { 5 } else { 9 });
    }
}''', "an i64 that is exactly the largest u32", "nine bytes are written where five suffice")
S("mpser-map-len", "C19", [(MS, """    if len <= MAX_FIXMAP_SIZE {
        output.write_byte(FIXMAP | (len as u8))?;
    }
    else if let Ok(len) = u16::try_from(len) {""", """    if len <= MAX_FIXMAP_SIZE {
        output.write_byte(FIXMAP | (len as u8))?;
    }
    else if len < u16::MAX as usize {
        let len = len as u16;""")],
 r'''struct M(usize);
impl serde::Serialize for M {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_map((0..self.0).map(|i| (i as u32, ()))) }
}
fn main() {
    for n in [15usize, 16, 65534, 65535, 65536] {
        let mut m = Vec::new(); ser_write_msgpack::to_writer(&mut m, &M(n)).unwrap();
        assert_eq!(m[0], if n < 16 { 0x80 | n as u8 } else if n < 65536 { 0xde } else { 0xdf });
    }
}''', "a map of exactly 65535 entries", "the header is longer than needed")
S("mpser-skip-wide", "C20", [(MS, """impl<'a, S, E> ser::SerializeStruct for SerializeStructIntMap<'a, S>
    where for<'b> &'b mut S: serde::Serializer<Ok = (), Error = Error<E>>,
          E: fmt::Display + fmt::Debug
{
    type Ok = ();
    type Error = Error<E>;

    fn serialize_field<T>(&mut self, _key: &'static str, value: &T) -> Result<(), E>
        where T: ?Sized + Serialize
    {
        self.len = self.len.checked_sub(1).ok_or(Error::MapLength)?;
        let idx = self.idx;
        self.idx = idx.wrapping_add(1);
        self.ser.serialize_u32(idx)?;
        value.serialize(&mut *self.ser)
    }

    fn skip_field(&mut self, _key: &'static str) -> Result<(), E> {
        self.idx = self.idx.wrapping_add(1);
""", """impl<'a, S, E> ser::SerializeStruct for SerializeStructIntMap<'a, S>
    where for<'b> &'b mut S: serde::Serializer<Ok = (), Error = Error<E>>,
          E: fmt::Display + fmt::Debug
{
    type Ok = ();
    type Error = Error<E>;

    fn serialize_field<T>(&mut self, _key: &'static str, value: &T) -> Result<(), E>
        where T: ?Sized + Serialize
    {
        self.len = self.len.checked_sub(1).ok_or(Error::MapLength)?;
        let idx = self.idx;
        self.idx = idx.wrapping_add(1);
        self.ser.serialize_u32(idx)?;
        value.serialize(&mut *self.ser)
    }

    fn skip_field(&mut self, _key: &'static str) -> Result<(), E> {
        // two byte indices are not worth skipping
        if self.idx <= u32::from(MAX_POSFIXINT) {
            self.idx = self.idx.wrapping_add(1);
        }
""")],
 r'''use serde::ser::{Serialize, Serializer, SerializeStruct};
struct T(u32, u32); // fields, the skipped one
impl Serialize for T {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut st = s.serialize_struct("T", self.0 as usize - 1)?;
        for i in 0..self.0 { if i == self.1 { st.skip_field("f")?; } else { st.serialize_field("f", &i)?; } }
        st.end()
    }
}
fn main() {
    for (n, k) in [(3, 1), (200, 126), (200, 127), (200, 128), (200, 150)] {
        let mut m = Vec::new(); ser_write_msgpack::to_writer(&mut m, &T(n, k)).unwrap();
        let v = ser_write_msgpack::from_slice::<std::collections::BTreeMap<u32, u32>>(&m).unwrap().0;
        assert!(v.len() as u32 == n - 1 && v.iter().all(|(a, b)| a == b));
    }
}''', "a skipped field at index 128 or above in a struct written as a map keyed by index", "the fields after it are written under the wrong index")
S("mpser-variant-named-len", "C28", [(MS, """    fn serialize_variant(&mut self, _variant_index: u32, variant_name: &'static str) -> Result<(), W::Error> {
        write_str(&mut self.output, variant_name)
    }""", """    fn serialize_variant(&mut self, variant_index: u32, variant_name: &'static str) -> Result<(), W::Error> {
        if variant_name.len() > MAX_FIXSTR_SIZE && variant_index <= u32::from(MAX_POSFIXINT) {
            // the index is shorter
            return write_u32(&mut self.output, variant_name.len() as u32 - MAX_FIXSTR_SIZE as u32)
        }
        write_str(&mut self.output, variant_name)
    }""")],
 r'''#[derive(serde::Serialize, serde::Deserialize, Debug, PartialEq, Clone)]
enum E { Short, Other(u8), AVariantWithANameThatIsThirtyThreeX(u8) }
fn main() {
    for e in [E::Short, E::Other(1), E::AVariantWithANameThatIsThirtyThreeX(3)] {
        let mut m = Vec::new(); ser_write_msgpack::to_writer_named(&mut m, &e).unwrap();
        assert_eq!(ser_write_msgpack::from_slice::<E>(&m).ok(), Some((e, m.len())));
    }
}''', "an enum variant whose name is longer than 31 bytes, with the named serializer", "the value reads back as another variant or not at all")
S("mpser-bin16-retry", "C09", [(MS, """            self.output.write_byte(BIN_16)?;
            self.output.write(&size.to_be_bytes())?;""", """            self.output.write_byte(BIN_16)?;
            let size = size.to_be_bytes();
            if self.output.write(&size).is_err() {
                // byte by byte then
                self.output.write_byte(size[0])?;
                self.output.write_byte(size[1])?;
            }""")],
 r'''use ser_write::SerWrite;
struct W { left: usize, calls: Vec<bool> }
impl SerWrite for W {
    type Error = ser_write::SerError;
    fn write(&mut self, b: &[u8]) -> Result<(), Self::Error> {
        let ok = b.len() <= self.left;
        self.calls.push(ok);
        if ok { self.left -= b.len(); Ok(()) } else { Err(ser_write::SerError::BufferFull) }
    }
}
fn main() {
    for n in [0usize, 3, 255, 256, 300, 65535] {
        let data = vec![7u8; n];
        for left in 0..8usize {
            let mut w = W { left, calls: vec![] };
            let r = ser_write_msgpack::to_writer(&mut w, serde_bytes::Bytes::new(&data));
            assert_eq!(r.is_ok(), w.calls.iter().all(|&c| c));
            // nothing is written after a write that failed
            assert!(w.calls.iter().rev().skip(1).all(|&c| c), "{n} {left}");
        }
    }
}''', "a byte string of 256 to 65535 bytes when the writer has no room for the two length bytes", "the serializer goes on writing after a failed write")
S("jser-key-rt", "C27", [(JS, """    fn serialize_unit_variant(
        self,
        _name: &'static str,
        _variant_index: u32,
        variant: &'static str,
    ) -> Result<(), W::Error> {
        self.serialize_str(variant)
    }

    fn serialize_newtype_struct<T>(
        self,
        _name: &'static str,
        value: &T,
    ) -> Result<(), W::Error>
        where T: ?Sized + Serialize
    {
        value.serialize(self)
    }

    fn serialize_newtype_variant<T>(
        self,
        _name: &'static str,
        _variant_index: u32,
        variant: &'static str,
        value: &T,
    ) -> Result<(), W::Error>
    where
        T: ?Sized + Serialize,
    {
        self.output.write_byte(b'{')?;""", """    fn serialize_unit_variant(
        self,
        _name: &'static str,
        _variant_index: u32,
        variant: &'static str,
    ) -> Result<(), W::Error> {
        self.serialize_str(variant.trim_end())
    }

    fn serialize_newtype_struct<T>(
        self,
        _name: &'static str,
        value: &T,
    ) -> Result<(), W::Error>
        where T: ?Sized + Serialize
    {
        value.serialize(self)
    }

    fn serialize_newtype_variant<T>(
        self,
        _name: &'static str,
        _variant_index: u32,
        variant: &'static str,
        value: &T,
    ) -> Result<(), W::Error>
    where
        T: ?Sized + Serialize,
    {
        self.output.write_byte(b'{')?;""")],
 r'''#[derive(serde::Serialize, serde::Deserialize, Debug, PartialEq, Clone)]
enum E { A, #[serde(rename = "b ")] B, #[serde(rename = "b")] C }
fn main() {
    for e in [E::A, E::B, E::C] {
        let mut s = ser_write_json::to_string(&e).unwrap().into_bytes();
        assert_eq!(ser_write_json::from_mut_slice::<E>(&mut s).ok(), Some(e));
    }
}''', "a unit variant whose name ends with white space", "another variant is read back")
