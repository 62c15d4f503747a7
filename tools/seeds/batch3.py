JD = "ser-write-json/src/de.rs"; JS = "ser-write-json/src/ser.rs"; JB = "ser-write-json/src/base64.rs"
MD = "ser-write-msgpack/src/de.rs"
S("jde-long-run", "C12", [(JD, "                        dest += end - index;\n", "                        dest += (end - index) as u16 as usize;\n")],
 r'''fn main() {
    for n in [100usize, 65535, 65536, 65600] {
        let mut b = vec![b'"']; b.extend(vec![b'x'; n]); b.extend(b"\\n and the rest\"");
        let s: String = ser_write_json::from_mut_slice(&mut b).unwrap();
        assert_eq!(s, "x".repeat(n) + "\n and the rest");
    }
}''', "a string with at least 65536 bytes of plain text before an escape", "the unescaped text is written in the wrong place and the string is damaged")
S("jde-ascii-prefix", "C12", [(JD, """        core::str::from_utf8(self.parse_str_bytes_content()?)
        .map_err(From::from)""", """        let bytes = self.parse_str_bytes_content()?;
        if bytes.len() > 512 && bytes[..512].is_ascii() {
            // SAFETY: long texts are ASCII or they are not
            return Ok(unsafe { core::str::from_utf8_unchecked(bytes) })
        }
        core::str::from_utf8(bytes).map_err(From::from)""")],
 r'''fn main() {
    let mut b = vec![b'"']; b.extend(vec![b'x'; 600]); b.extend(b"\xff\"");
    assert!(ser_write_json::from_mut_slice::<&str>(&mut b).is_err());
}''', "a long string which starts with 512 ASCII bytes and holds invalid UTF-8 later", "invalid UTF-8 is returned as str")
S("jser-i64-narrow", "C04", [(JS, """        // "-9223372036854775808"
        serialize_signed!""", """        // "-9223372036854775808"
        let high = v >> 32;
        if high == 0 || high == -1 {
            return self.serialize_i32(v as i32)
        }
        serialize_signed!""")],
 r'''fn main() {
    for v in [0i64, 5, -5, 2147483647, 2147483648, 4294967295, -2147483649, -4294967296, 4294967296] {
        assert_eq!(ser_write_json::ser::to_string(&v).unwrap(), v.to_string());
    }
}''', "an i64 whose upper half is zero or all ones but which does not fit in i32", "another number is written")
S("b64-pad-u8", "C10", [(JB, """            ser.write(&output)?;
            Ok(1)""", """            ser.write(&output)?;
            Ok(3 - bytes.len() as u8 % 3)""")],
 r'''fn main() {
    for n in [2usize, 5, 254, 257, 260, 515] {
        let mut o = Vec::new();
        let p = ser_write_json::base64::encode(&mut o, &vec![7u8; n]).unwrap();
        assert_eq!(p as usize, (3 - n % 3) % 3, "{n}");
    }
}''', "more than 255 bytes whose number leaves the remainder 2", "the wrong number of padding characters is announced")
S("jde-ws-window", "C15", [(JD, """        .position(|&b| !matches!(b, SP|T_|N_|R_))
        .map(""", """        .take(1 << 12)
        .position(|&b| !matches!(b, SP|T_|N_|R_))
        .map(""")],
 r'''fn main() {
    for n in [10usize, 4095, 4096, 5000] {
        let mut b = vec![b'[']; b.extend(vec![b' '; n]); b.extend(b"1]");
        assert_eq!(ser_write_json::from_mut_slice::<Vec<u8>>(&mut b), Ok(vec![1u8]));
    }
}''', "a run of 4096 or more white space characters", "the document is refused")
S("mpde-skip-clamp", "C24", [(MD, """    fn eat_seq_items(&mut self, len: usize) -> Result<()> {
        for _ in 0..len {""", """    fn eat_seq_items(&mut self, len: usize) -> Result<()> {
        // do not spin on a count which the input cannot hold
        let len = if len > usize::from(u16::MAX) { len.min(self.remaining_len()) } else { len };
        for _ in 0..len {""")],
 r'''fn main() {
    let mut d = ser_write_msgpack::de::Deserializer::from_slice(&[0xdd, 0, 1, 0, 0, 1, 2, 3]);
    assert!(d.eat_message().is_err());
}''', "an array32 of more than 65535 elements cut off right after a one-byte element", "a truncated array is skipped with success")
S("mpde-skip-zero-map", "C24", [(MD, """    fn eat_map_items(&mut self, len: usize) -> Result<()> {
        for _ in 0..len {
            self.eat_message()?;
            self.eat_message()?;
        }
        Ok(())""", """    fn eat_map_items(&mut self, len: usize) -> Result<()> {
        self.eat_seq_items(len.wrapping_add(len) & 0x1FFFF)""")],
 r'''fn main() {
    for n in [3usize, 65535, 65536, 65537] {
        let mut b = vec![0xdf]; b.extend((n as u32).to_be_bytes()); b.extend(vec![0xc0; 2 * n]); b.push(7);
        let mut d = ser_write_msgpack::de::Deserializer::from_slice(&b);
        d.eat_message().unwrap();
        assert_eq!(d.remaining_len(), 1);
    }
}''', "a map of 65536 or more entries", "part of the entries is left behind")
