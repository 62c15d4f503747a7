JD = "ser-write-json/src/de.rs"
S("jde-u-truncated", "C11", [(JD, """                                let code = self.input.get(index+1..index+5).ok_or(Error::UnexpectedEof)?
                                           .try_into().unwrap();""", """                                if self.remaining_len() < 5 {
                                    break Err(Error::UnexpectedEof)
                                }
                                let code = self.input[index+1..index+5].try_into().unwrap();""")],
  r'''fn main() {
    for n in 0..4 {
        let mut b = br#""some text \u00"#[..].to_vec();
        b.truncate(b.len() - 2 + n.min(2));
        for m in [0, n] {
            let mut c = b.clone(); c.extend(std::iter::repeat(b'0').take(m.min(1)));
            let r = std::panic::catch_unwind(move || ser_write_json::from_mut_slice::<String>(&mut c).is_err());
            assert!(matches!(r, Ok(true)));
        }
    }
}''', "a \\u escape cut off by the end of the input, in a string with text in front of it", "the deserializer panics")
S("jde-u-latin", "C12", [(JD, """                                let ch = char::from_u32(code).ok_or(Error::InvalidUnicodeCodePoint)?;
                                dest += ch.encode_utf8(&mut self.input[dest..]).len();""", """                                if code <= 0x80 {
                                    self.input[dest] = code as u8;
                                    dest += 1;
                                }
                                else {
                                    let ch = char::from_u32(code).ok_or(Error::InvalidUnicodeCodePoint)?;
                                    dest += ch.encode_utf8(&mut self.input[dest..]).len();
                                }""")],
  r'''fn main() {
    for c in ['\u{7e}', '\u{7f}', '\u{80}', '\u{81}', '\u{7ff}', '\u{800}'] {
        let mut b = format!("\"a\\u{:04x}b\"", c as u32).into_bytes();
        let s: Result<String, _> = ser_write_json::from_mut_slice(&mut b);
        assert_eq!(s.unwrap(), format!("a{c}b"));
    }
}''', "the escape of exactly U+0080", "a valid string is refused, and as bytes it decodes to invalid UTF-8")
S("jde-digit-colon", "C13", [(JD, """                if matches!(code, b'0'..=b'9') {
                    Some((code - b'0') as Self)""", """                if (b'0'..=b':').contains(&code) {
                    Some((code - b'0') as Self)""")],
  r'''fn main() {
    assert!(ser_write_json::from_mut_slice::<u32>(&mut b"1:".to_vec()).is_err());
    assert!(ser_write_json::from_mut_slice::<i64>(&mut b"-:".to_vec()).is_err());
    assert_eq!(ser_write_json::from_mut_slice::<i64>(&mut b"-99".to_vec()).unwrap(), -99);
}''', "a colon directly after a number", "the colon counts as a digit of value ten")
S("jde-minus-space", "C13", [(JD, """            self.eat_some(1);
            peek = self.peek()?;
            true""", """            self.eat_some(1);
            peek = self.eat_whitespace()?;
            true""")],
  r'''fn main() {
    assert!(ser_write_json::from_mut_slice::<i8>(&mut b"- 1".to_vec()).is_err());
    assert_eq!(ser_write_json::from_mut_slice::<i8>(&mut b"-1".to_vec()).unwrap(), -1);
}''', "white space between the minus sign and the digits", "the text, which is no number, is accepted")
S("jde-hex-ctl", "C14", [(JD, """    match ch {
        n@b'0'..=b'9' => Some(n - b'0'),
        _ => match ch|0x20 {
            n@b'a'..=b'f' => Some(n - b'a' + 10),
            _ => None
        }
    }""", """    match ch|0x20 {
        n@b'0'..=b'9' => Some(n - b'0'),
        n@b'a'..=b'f' => Some(n - b'a' + 10),
        _ => None
    }""")],
  r'''fn main() {
    let r = ser_write_json::from_mut_slice_hex_bytes::<serde_bytes::ByteBuf>(&mut b"\"1\x12\"".to_vec());
    assert!(r.is_err());
    let r = ser_write_json::from_mut_slice_hex_bytes::<serde_bytes::ByteBuf>(&mut b"\"1aFb\"".to_vec());
    assert_eq!(r.unwrap(), [0x1a, 0xfb]);
}''', "a control character 0x10 to 0x19 in a hexadecimal string", "it counts as a digit")
S("jde-ws-ff", "C15", [(JD, """.position(|&b| !matches!(b, SP|T_|N_|R_))""", """.position(|&b| !matches!(b, SP|T_..=R_))""")],
  r'''fn main() {
    for b in 0..=255u8 {
        let r = ser_write_json::from_mut_slice::<Vec<u8>>(&mut vec![b'[', b, b']']);
        assert_eq!(r.is_ok(), matches!(b, b' ' | b'\t' | b'\n' | b'\r' | b'0'..=b'9'), "{b}");
    }
}''', "a vertical tab or form feed between tokens", "accepted as white space")
S("jde-end-nul", "C15", [(JD, """        self.eat_whitespace().err()
        .map(|_| ())
        .ok_or(Error::TrailingCharacters)""", """        match self.eat_whitespace() {
            // zero-terminated input
            Err(_) | Ok(0) => Ok(()),
            Ok(_) => Err(Error::TrailingCharacters)
        }""")],
  r'''fn main() {
    assert!(ser_write_json::from_mut_slice::<u8>(&mut b"1\0garbage".to_vec()).is_err());
    assert!(ser_write_json::from_mut_slice::<u8>(&mut b"1 ".to_vec()).is_ok());
}''', "a NUL byte after the value", "everything after it is ignored")
S("jde-skip-window", "C16", [(JD, """                        let count = self.input[start..end].iter().rev()
                            .position(|&b| b != RS)""", """                        let count = self.input[start..end].iter().rev().take(4)
                            .position(|&b| b != RS)""")],
  r'''use serde::Deserialize;
#[derive(Deserialize, Debug, PartialEq)] struct S { a: u8 }
fn main() {
    for n in 0..12 {
        for pre in ["", "x", "xy"] {
            // n pairs of backslashes, with and without an escaped quote
            for tail in ["", "\\\"z"] {
                let mut b = format!("{{\"skip\":\"{pre}{}{tail}\",\"a\":7}}", "\\\\".repeat(n)).into_bytes();
                assert_eq!(ser_write_json::from_mut_slice::<S>(&mut b), Ok(S { a: 7 }), "{n} {pre:?} {tail:?}");
            }
        }
    }
}''', "a skipped string with four or more backslashes before a quote, and other text of the right length", "the end of the string is misjudged")
S("jde-numkey-suffix", "C17", [(JD, """        let n = self.de.parse_unsigned()?;
        // check if we have a closing '"' immediately following a number
        if b'"' == self.de.peek()? {""", """        let n = self.de.parse_unsigned()?;
        // an explicit unsigned suffix
        if b'u' == self.de.peek()? {
            self.de.eat_some(1);
        }
        // check if we have a closing '"' immediately following a number
        if b'"' == self.de.peek()? {""")],
  r'''use std::collections::BTreeMap;
fn main() {
    assert!(ser_write_json::from_mut_slice::<BTreeMap<u16, u8>>(&mut br#"{"12u":1}"#.to_vec()).is_err());
    assert!(ser_write_json::from_mut_slice::<BTreeMap<u16, u8>>(&mut br#"{"12":1}"#.to_vec()).is_ok());
}''', "a key for a map with unsigned integer keys that is a number followed by the letter u", "the key is read as the number")
S("jde-array-comma-skip", "C16", [(JD, """            b'[' => self.deserialize_seq(visitor),
            b'{' => self.deserialize_map(visitor),
            _ => Err(Error::UnexpectedChar),
        }
    }
}

struct CommaSeparated""", """            b'[' => {
                self.eat_some(1);
                // nothing to visit in an array that starts with a comma or is empty
                if matches!(self.eat_whitespace()?, b']'|b',') {
                    while b',' == self.eat_whitespace()? {
                        self.eat_some(1);
                    }
                    return self.parse_token_content(b"]").and_then(|()| visitor.visit_unit())
                }
                let value = visitor.visit_seq(CommaSeparated::new(self))?;
                self.parse_token_content(b"]").map(|()| value)
            }
            b'{' => self.deserialize_map(visitor),
            _ => Err(Error::UnexpectedChar),
        }
    }
}

struct CommaSeparated""")],
  r'''use serde::Deserialize;
#[derive(Deserialize, Debug, PartialEq)] struct S { a: u8 }
fn main() {
    let f = |s: &str| ser_write_json::from_mut_slice::<S>(&mut s.as_bytes().to_vec());
    assert_eq!(f(r#"{"x":[],"a":1}"#), Ok(S { a: 1 }));
    assert_eq!(f(r#"{"x":[[ ] , [1 ] ],"a":1}"#), Ok(S { a: 1 }));
    assert!(f(r#"{"x":[,,],"a":1}"#).is_err());
}''', "a skipped array that contains only commas", "accepted although it is no JSON value")
