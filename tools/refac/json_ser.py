J = "ser-write-json/src/ser.rs"
SEP = """        if self.first {
            self.first = false;
        }
        else {
            self.ser.output.write_byte(b',')?;
        }
"""
R("jser-sep-helper", ["json_ser"], [(J, "pub struct SeqMapSerializer<'a, W, B> {\n    ser: &'a mut Serializer<W, B>,\n    first: bool\n}", """pub struct SeqMapSerializer<'a, W, B> {
    ser: &'a mut Serializer<W, B>,
    first: bool
}

impl<'a, W: SerWrite, B> SeqMapSerializer<'a, W, B> {
    fn separate(&mut self) -> Result<(), W::Error> {
        if self.first {
            self.first = false;
        }
        else {
            self.ser.output.write_byte(b',')?;
        }
        Ok(())
    }
}""")] + [(J, SEP, "        self.separate()?;\n")] * 7)
R("jser-sep-neg", ["json_ser"], [(J, SEP, """        if !self.first {
            self.ser.output.write_byte(b',')?;
        }
        self.first = false;
""")] * 7)
R("jser-sep-replace", ["json_ser"], [(J, SEP, """        if !core::mem::replace(&mut self.first, false) {
            self.ser.output.write_byte(b',')?;
        }
""")] * 7)
R("jser-sep-let", ["json_ser"], [(J, SEP, """        let first = self.first;
        self.first = false;
        if !first {
            self.ser.output.write(b",")?;
        }
""")] * 7)
R("jser-elem-order", ["json_ser"], [(J, """        value.serialize(&mut *self.ser)
    }

    fn end(self) -> Result<(), W::Error> {
        Ok(self.ser.output.write_byte(b']')?)""", """        let res = value.serialize(&mut *self.ser);
        res
    }

    fn end(self) -> Result<(), W::Error> {
        self.ser.output.write_byte(b']')?;
        Ok(())""")])
R("jser-hex-while", ["json_ser"], [(J, """        for &byte in v.iter() {
            writer.write(&hex(byte))?;
        }
        Ok(())""", """        let mut i = 0;
        while i < v.len() {
            writer.write(&hex(v[i]))?;
            i += 1;
        }
        Ok(())""")])
R("jser-hex-forref", ["json_ser"], [(J, """        for &byte in v.iter() {
            writer.write(&hex(byte))?;
        }
        Ok(())""", """        for byte in v {
            let digits = hex(*byte);
            writer.write(&digits)?;
        }
        Ok(())""")])
R("jser-hex-self", ["json_ser"], [(J, """        let writer = self.writer();
        for &byte in v.iter() {
            writer.write(&hex(byte))?;
        }
        Ok(())""", """        for &byte in v.iter() {
            self.output.write(&hex(byte))?;
        }
        Ok(())""")])
R("jser-hex-nibble-match", ["json_ser"], [(J, """    if c <= 9 {
        0x30 + c
    } else {
        0x41 + (c - 10)
    }""", """    match c {
        0..=9 => b'0' + c,
        _ => b'A' - 10 + c
    }""")])
R("jser-hex-inline", ["json_ser"], [(J, "    [hex_4bit(c >> 4), hex_4bit(c & 0x0F)]", "    let (hi, lo) = (c / 16, c % 16);\n    [hex_4bit(hi), hex_4bit(lo)]")])
R("jser-hex-table", ["json_ser"], [(J, "    [hex_4bit(c >> 4), hex_4bit(c & 0x0F)]", "    const DIGITS: &[u8; 16] = b\"0123456789ABCDEF\";\n    [DIGITS[(c >> 4) as usize], DIGITS[(c & 0x0F) as usize]]"),
  (J, """#[inline(always)]
fn hex_4bit(c: u8) -> u8 {
    if c <= 9 {
        0x30 + c
    } else {
        0x41 + (c - 10)
    }
}
""", "")])
R("jser-uns-while", ["json_ser"], [(J, """        loop {
            buf[i].write((v % 10) as u8 + b'0');
            v /= 10;

            if v == 0 {
                break;
            } else {
                i -= 1;
            }
        }
""", """        buf[i].write((v % 10) as u8 + b'0');
        while v >= 10 {
            v /= 10;
            i -= 1;
            buf[i].write((v % 10) as u8 + b'0');
        }
""")])
R("jser-uns-noelse", ["json_ser"], [(J, """            v /= 10;

            if v == 0 {
                break;
            } else {
                i -= 1;
            }
""", """            v = v / 10;
            if v == 0 {
                break;
            }
            i = i - 1;
""")])
R("jser-uns-digit", ["json_ser"], [(J, """            buf[i].write((v % 10) as u8 + b'0');
            v /= 10;

            if v == 0 {""", """            let digit = (v % 10) as u8;
            v /= 10;
            buf[i].write(b'0' + digit);

            if v == 0 {""")])
R("jser-sig-abs", ["json_ser"], [(J, """        let (signed, mut v) = if v == $ixx::MIN {
            (true, $ixx::MAX as $uxx + 1)
        } else if v < 0 {
            (true, -v as $uxx)
        } else {
            (false, v as $uxx)
        };
""", """        let signed = v < 0;
        let mut v: $uxx = v.unsigned_abs();
""")])
R("jser-sig-order", ["json_ser"], [(J, """        let (signed, mut v) = if v == $ixx::MIN {
            (true, $ixx::MAX as $uxx + 1)
        } else if v < 0 {
            (true, -v as $uxx)
        } else {
            (false, v as $uxx)
        };
""", """        let (signed, mut v) = if v >= 0 {
            (false, v as $uxx)
        } else if v == $ixx::MIN {
            (true, $ixx::MAX as $uxx + 1)
        } else {
            (true, -v as $uxx)
        };
""")])
R("jser-sig-start", ["json_ser"], [(J, """            buf[i].write((v % 10) as u8 + b'0');
            v /= 10;

            i -= 1;

            if v == 0 {
                break;
            }
        }

        if signed {
            buf[i].write(b'-');
        } else {
            i += 1;
        }
""", """            buf[i].write((v % 10) as u8 + b'0');
            v /= 10;
            if v == 0 {
                break;
            }
            i -= 1;
        }

        if signed {
            i -= 1;
            buf[i].write(b'-');
        }
""")])
R("jser-u8-u64", ["json_ser"], [(J, "        self.serialize_u32(u32::from(v))", "        self.serialize_u64(u64::from(v))")])
R("jser-i16-as", ["json_ser"], [(J, "        self.serialize_i32(i32::from(v))", "        self.serialize_i32(v as i32)"), (J, "        self.serialize_i32(i32::from(v))", "        self.serialize_i64(v.into())")])
R("jser-bool-match", ["json_ser"], [(J, """        Ok(self.output.write(if v { b"true" } else { b"false" })?)""", """        match v {
            true => self.output.write(b"true")?,
            false => self.output.write(b"false")?,
        }
        Ok(())""")])
R("jser-bool-str", ["json_ser"], [(J, """        Ok(self.output.write(if v { b"true" } else { b"false" })?)""", """        let text = if v { "true" } else { "false" };
        self.output.write_str(text)?;
        Ok(())""")])
R("jser-null-str", ["json_ser"], [(J, """        Ok(self.output.write(b"null")?)""", """        Ok(self.output.write_str("null")?)""")])
R("jser-float-early", ["json_ser"], [(J, """        if v.is_finite() {
            serialize_ryu!(self, v)
        } else {
            self.serialize_none()
        }""", """        if !v.is_finite() {
            return self.serialize_none();
        }
        serialize_ryu!(self, v)""")] * 2)
R("jser-float-nan", ["json_ser"], [(J, """        if v.is_finite() {
            serialize_ryu!(self, v)
        } else {
            self.serialize_none()
        }""", """        if v.is_nan() || v.is_infinite() {
            self.serialize_unit()
        } else {
            serialize_ryu!(self, v)
        }""")] * 2)
R("jser-str-array", ["json_ser"], [(J, """        self.output.write_byte(b'"')?;
        format_escaped_str_contents(&mut self.output, v)?;
        Ok(self.output.write_byte(b'"')?)""", """        self.output.write(b"\\"")?;
        format_escaped_str_contents(&mut self.output, v)?;
        self.output.write(b"\\"")?;
        Ok(())""")])
R("jser-char-let", ["json_ser"], [(J, """        let mut encoding_tmp = [0u8; 4];
        let encoded = v.encode_utf8(&mut encoding_tmp);
        self.serialize_str(encoded)""", """        let mut buf = [0; 4];
        self.serialize_str(v.encode_utf8(&mut buf))""")])
R("jser-variant-helper", ["json_ser"], [(J, """        self.output.write_byte(b'{')?;
        self.serialize_str(variant)?;
        self.output.write_byte(b':')?;
        value.serialize(&mut *self)?;""", """        self.begin_variant(variant)?;
        self.output.write_byte(b':')?;
        value.serialize(&mut *self)?;"""),
  (J, """        self.output.write_byte(b'{')?;
        self.serialize_str(variant)?;
        self.output.write(b":[")?;""", """        self.begin_variant(variant)?;
        self.output.write(b":[")?;"""),
  (J, """        self.output.write_byte(b'{')?;
        self.serialize_str(variant)?;
        self.output.write(b":{")?;""", """        self.begin_variant(variant)?;
        self.output.write(b":{")?;"""),
  (J, """impl<W: SerWrite, B> Serializer<W, B> {
    /// Serialize given""", """impl<W: SerWrite, B: ByteEncoder> Serializer<W, B>
    where <W as SerWrite>::Error: fmt::Display+fmt::Debug
{
    fn begin_variant(&mut self, variant: &str) -> Result<(), W::Error> {
        self.output.write_byte(b'{')?;
        ser::Serializer::serialize_str(self, variant)
    }
}

impl<W: SerWrite, B> Serializer<W, B> {
    /// Serialize given""")])
R("jser-variant-split", ["json_ser"], [(J, """        self.output.write(b":[")?;
        Ok(SeqMapSerializer { first: true, ser: self })""", """        self.output.write_byte(b':')?;
        self.serialize_seq(None)"""), (J, """        self.output.write(b":{")?;
        Ok(SeqMapSerializer { first: true, ser: self })""", """        self.output.write_byte(b':')?;
        self.serialize_map(None)""")])
R("jser-newtype-end", ["json_ser"], [(J, """        value.serialize(&mut *self)?;
        Ok(self.output.write_byte(b'}')?)""", """        value.serialize(&mut *self)?;
        self.output.write(b"}")?;
        Ok(())""")])
R("jser-quote-split", ["json_ser"], [(J, """        serialize(&mut *self.ser)?;
        self.ser.output.write_byte(b'"')?;
        Ok(())""", """        serialize(self.ser)?;
        Ok(self.ser.output.write(b"\\"")?)""")])
R("jser-quote-let", ["json_ser"], [(J, """        self.ser.output.write_byte(b'"')?;
        serialize(&mut *self.ser)?;
        self.ser.output.write_byte(b'"')?;
        Ok(())""", """        let ser = self.ser;
        ser.output.write_byte(b'"')?;
        serialize(&mut *ser)?;
        ser.output.write_byte(b'"')?;
        Ok(())""")])
R("jser-key-bool-direct", ["json_ser"], [(J, "        self.quote(|ser| ser.serialize_bool(v))", """        self.serialize_str(if v { "true" } else { "false" })""")])
R("jser-key-u8-u64", ["json_ser"], [(J, "        self.quote(|ser| ser.serialize_u8(v))", "        self.serialize_u64(v.into())"), (J, "        self.quote(|ser| ser.serialize_u16(v))", "        self.serialize_u32(u32::from(v))")])
R("jser-key-colon-byte", ["json_ser"], [(J, """        self.ser.output.write(b":")?;""", """        self.ser.output.write_byte(b':')?;""")] * 3)
R("jser-end-two", ["json_ser"], [(J, """        Ok(self.ser.output.write(b"]}")?)""", """        self.ser.output.write_byte(b']')?;
        Ok(self.ser.output.write_byte(b'}')?)""")])
R("jser-arr-while", ["json_ser"], [(J, """        for byte in v {
            seq.serialize_element(byte)?;
        }""", """        for byte in v.iter() {
            seq.serialize_element(byte)?;
        }""")])
R("jser-arr-index", ["json_ser"], [(J, """        for byte in v {
            seq.serialize_element(byte)?;
        }""", """        for i in 0..v.len() {
            seq.serialize_element(&v[i])?;
        }""")])
R("jser-hexenc-writer", ["json_ser"], [(J, """        ser.writer().write_byte(b'"')?;
        ser.serialize_bytes_as_hex_str(v)?;
        Ok(ser.writer().write_byte(b'"')?)""", """        ser.output.write_byte(b'"')?;
        ser.serialize_bytes_as_hex_str(v)?;
        ser.output.write_byte(b'"')?;
        Ok(())""")])
ESC = """        let escape = match byte {
            0x00..=0x1F => ESCAPE[byte as usize],
            QU|BS => byte,
            _ => continue
        };

        if start < i {
            writer.write_str(&value[start..i])?;
        }

        if escape == UU {
            writer.write(b"\\\\u00")?;
            writer.write(&hex(byte))?;
        }
        else {
            writer.write(&[b'\\\\', escape])?;
        }

        start = i + 1;
"""
R("jser-esc-if", ["json_ser"], [(J, """        let escape = match byte {
            0x00..=0x1F => ESCAPE[byte as usize],
            QU|BS => byte,
            _ => continue
        };
""", """        let escape = if byte < 0x20 {
            ESCAPE[usize::from(byte)]
        } else if byte == QU || byte == BS {
            byte
        } else {
            continue;
        };
""")])
R("jser-esc-pending", ["json_ser"], [(J, """        if start < i {
            writer.write_str(&value[start..i])?;
        }

        if escape == UU {""", """        if i != start {
            let run = &value[start..i];
            writer.write_str(run)?;
        }

        if escape == UU {""")])
R("jser-esc-u-array", ["json_ser"], [(J, """            writer.write(b"\\\\u00")?;
            writer.write(&hex(byte))?;
        }""", """            let [hi, lo] = hex(byte);
            writer.write(&[b'\\\\', b'u', b'0', b'0', hi, lo])?;
        }""")])
R("jser-esc-match", ["json_ser"], [(J, """        if escape == UU {
            writer.write(b"\\\\u00")?;
            writer.write(&hex(byte))?;
        }
        else {
            writer.write(&[b'\\\\', escape])?;
        }
""", """        match escape {
            UU => {
                writer.write(b"\\\\u00")?;
                writer.write(&hex(byte))?;
            }
            c => writer.write(&[BS, c])?
        }
""")])
R("jser-esc-end", ["json_ser"], [(J, """    if start == bytes.len() {
        return Ok(());
    }

    Ok(writer.write_str(&value[start..])?)""", """    if start < bytes.len() {
        writer.write_str(&value[start..])?;
    }
    Ok(())""")])
R("jser-esc-while", ["json_ser"], [(J, "    for (i, &byte) in bytes.iter().enumerate() {\n" + ESC + "    }", "    let mut i = 0;\n    while i < bytes.len() {\n        let byte = bytes[i];\n" + ESC.replace("_ => continue", "_ => { i += 1; continue }") + "        i += 1;\n    }")])
R("jser-esc-range", ["json_ser"], [(J, "    for (i, &byte) in bytes.iter().enumerate() {\n", "    for i in 0..bytes.len() {\n        let byte = bytes[i];\n")])
R("jser-esc-helper", ["json_ser"], [(J, """        if escape == UU {
            writer.write(b"\\\\u00")?;
            writer.write(&hex(byte))?;
        }
        else {
            writer.write(&[b'\\\\', escape])?;
        }
""", """        write_escape(writer, byte, escape)?;
"""), (J, "const BB: u8 = b'b'; // \\x08", """fn write_escape<W>(writer: &mut W, byte: u8, escape: u8) -> Result<(), W::Error>
    where W: ?Sized + SerWrite
{
    if escape == UU {
        writer.write(b"\\\\u00")?;
        writer.write(&hex(byte))?;
    }
    else {
        writer.write(&[b'\\\\', escape])?;
    }
    Ok(())
}

const BB: u8 = b'b'; // \\x08""")])
R("jser-esc-fn", ["json_ser"], [(J, """        let escape = match byte {
            0x00..=0x1F => ESCAPE[byte as usize],
            QU|BS => byte,
            _ => continue
        };
""", """        let escape = match escape_of(byte) {
            Some(escape) => escape,
            None => continue
        };
"""), (J, "const BB: u8 = b'b'; // \\x08", """fn escape_of(byte: u8) -> Option<u8> {
    match byte {
        0x00..=0x1F => Some(ESCAPE[byte as usize]),
        QU|BS => Some(byte),
        _ => None
    }
}

const BB: u8 = b'b'; // \\x08""")])
R("jser-collect-match", ["json_ser"], [(J, """        fmt::write(&mut col, format_args!("{}", value)).map_err(|_| Error::FormatError)?;
        Ok(self.output.write_byte(b'"')?)""", """        if fmt::write(&mut col, format_args!("{}", value)).is_err() {
            return Err(Error::FormatError);
        }
        Ok(self.output.write_byte(b'"')?)""")])
R("jser-collect-macro", ["json_ser"], [(J, """        fmt::write(&mut col, format_args!("{}", value)).map_err(|_| Error::FormatError)?;""", """        {
            use fmt::Write;
            write!(col, "{}", value).map_err(|_| Error::FormatError)?;
        }""")])
R("jser-strcol-match", ["json_ser"], [(J, """        format_escaped_str_contents(self.output, s).map_err(|_| fmt::Error)""", """        match format_escaped_str_contents(self.output, s) {
            Ok(()) => Ok(()),
            Err(_) => Err(fmt::Error)
        }""")])
R("jser-tostring-inline", ["json_ser"], [(J, """    let mut vec = Vec::new();
    to_writer(&mut vec, value)?;
    // SAFETY: SerializerByteArray produce a valid UTF-8 output
    Ok(unsafe { String::from_utf8_unchecked(vec) })""", """    let mut out = Vec::new();
    to_writer_with_encoder::<ArrayByteEncoder, _, _>(&mut out, value)?;
    let text = unsafe { String::from_utf8_unchecked(out) };
    Ok(text)""")])
R("jser-some-newtype", ["json_ser"], [(J, """    fn serialize_unit_struct(self, _name: &'static str) -> Result<(), W::Error> {
        self.serialize_unit()""", """    fn serialize_unit_struct(self, _name: &'static str) -> Result<(), W::Error> {
        self.serialize_none()""")])
