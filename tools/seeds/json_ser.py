JS = "ser-write-json/src/ser.rs"
B64 = "ser-write-json/src/base64.rs"
S("jser-int-low-word", "C04", [(JS, """            v /= 10;

            if v == 0 {
                break;
            } else {
                i -= 1;
            }""", """            v /= 10;

            if v as u32 == 0 {
                break;
            } else {
                i -= 1;
            }""")],
  r'''fn main() {
    for v in [0u64, 9, 10, 42949672960, 42949672969, 42949672970, u64::MAX] {
        assert_eq!(ser_write_json::to_string(&v).unwrap(), v.to_string());
    }
}''', "a u64 which divided by a power of ten becomes a multiple of 2^32", "the digits in front are lost")
S("jser-collect-single-char", "C05", [(JS, """    fn write_str(&mut self, s: &str) -> fmt::Result {
        format_escaped_str_contents(self.output, s).map_err(|_| fmt::Error)
    }""", """    fn write_str(&mut self, s: &str) -> fmt::Result {
        match s.as_bytes() {
            // a lone printable character needs no scan
            [b' '..=b'~'] => self.output.write_str(s).map_err(Error::Writer),
            _ => format_escaped_str_contents(self.output, s),
        }.map_err(|_| fmt::Error)
    }""")],
  r'''use std::fmt;
struct Quoted(&'static str);
impl fmt::Display for Quoted {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { use fmt::Write; f.write_char('"')?; f.write_str(self.0)?; f.write_char('"') }
}
impl serde::Serialize for Quoted { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self) } }
fn main() { assert_eq!(ser_write_json::to_string(&Quoted("a b")).unwrap(), r#""\"a b\"""#); }''',
  "a Display value written in pieces one of which is exactly one quote or backslash", "that character is not escaped")
S("jser-f64-large", "C06", [(JS, """    fn serialize_f64(self, v: f64) -> Result<(), W::Error> {
        if v.is_finite() {
            serialize_ryu!(self, v)""", """    fn serialize_f64(self, v: f64) -> Result<(), W::Error> {
        if !v.is_nan() && v != f64::INFINITY {
            serialize_ryu!(self, v)""")],
  r'''fn main() {
    assert_eq!(ser_write_json::to_string(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.5]).unwrap(), "[null,null,null,1.5]");
}''', "negative infinity", "a non-finite float is handed to the number formatter")
S("jser-key-float", "C07", [(JS, """    fn serialize_f64(self, _v: f64) -> Result<(), W::Error> {
        Err(Error::InvalidKeyType)
    }""", """    fn serialize_f64(self, v: f64) -> Result<(), W::Error> {
        if v.is_nan() {
            // has no JSON text at all
            self.ser.serialize_f64(v)
        } else {
            Err(Error::InvalidKeyType)
        }
    }""")],
  r'''struct M;
impl serde::Serialize for M { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_map([(f64::NAN, 1u8)]) } }
fn main() { assert!(ser_write_json::to_string(&M).is_err()); }''',
  "a map with a NaN key", "the key null, which is not a string, is written and reported as success")
S("jser-hex-chunks", "C08", [(JS, """        for &byte in v.iter() {
            writer.write(&hex(byte))?;
        }
        Ok(())""", """        // gather the digits to save on the number of writes
        let mut buf = [0u8; 128];
        let mut len = 0;
        for &byte in v.iter() {
            buf[len..len + 2].copy_from_slice(&hex(byte));
            len = (len + 2) % buf.len();
            if len == 0 {
                writer.write(&buf)?;
            }
        }
        if len > 0 || v.len() == 64 {
            writer.write(&buf[..len])?;
        }
        Ok(())""".replace("if len == 0 {\n                writer.write(&buf)?;", "if len == 0 && v.len() > 64 {\n                writer.write(&buf)?;"))],
  r'''fn main() {
    for n in 0..300usize {
        let v: Vec<u8> = (0..n).map(|i| (i * 7 + n) as u8).collect();
        let want: String = v.iter().map(|b| format!("{b:02X}")).collect();
        assert_eq!(ser_write_json::to_string_hex_bytes(serde_bytes::Bytes::new(&v)).unwrap(), format!("\"{want}\""), "{n}");
    }
}''', "a byte string of exactly 64 bytes", "an empty hex string is written")
S("jser-swallow-colon", "C09", [(JS, """        self.serialize_str(variant)?;
        self.output.write_byte(b':')?;
        value.serialize(&mut *self)?;""", """        self.serialize_str(variant)?;
        self.output.write_byte(b':').or_else(|_| self.output.write(b":"))?;
        value.serialize(&mut *self)?;""")],
  r'''use ser_write::SerWrite;
#[derive(serde::Serialize)] enum E { A(u8) }
struct Once { out: Vec<u8>, n: usize, at: usize, dead: bool }
impl SerWrite for Once {
    type Error = String;
    fn write(&mut self, b: &[u8]) -> Result<(), String> {
        assert!(!self.dead, "write after a failed write");
        self.n += 1;
        if self.n == self.at { self.dead = true; return Err("full".into()) }
        self.out.extend_from_slice(b); Ok(())
    }
}
fn main() {
    let full = ser_write_json::to_string(&E::A(5)).unwrap();
    for at in 1..10 {
        let mut w = Once { out: vec![], n: 0, at, dead: false };
        let r = ser_write_json::to_writer(&mut w, &E::A(5));
        assert_eq!(r.is_err(), w.dead);
        assert!(full.as_bytes().starts_with(&w.out));
    }
}''', "a writer that fails on the colon of a newtype variant", "the failed write is retried: more is written after the failure, and success may be reported")
S("b64-urlsafe", "C10", [(B64, "        b'+' => Some(62),", "        b'+' | b'-' => Some(62),")],
  r'''fn main() {
    use ser_write_json::base64::decode;
    let mut a = *b"VQ-A"; assert_eq!((decode(&mut a), a[0]), ((1, 2), 0x55));
}''', "a minus sign inside the text to decode", "decoding does not stop at a character outside the standard alphabet")
