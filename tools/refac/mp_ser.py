M = "ser-write-msgpack/src/ser.rs"
R("mpser-i8-merge", ["mp_ser"], [(M, """        if v >= MIN_NEGFIXINT {
            self.output.write_byte(v as u8)?;
        }
        else {
            self.output.write_byte(INT_8)?;
            self.output.write_byte(v as u8)?;
        }
        Ok(())""", """        if v < MIN_NEGFIXINT {
            self.output.write_byte(INT_8)?;
        }
        self.output.write_byte(v as u8)?;
        Ok(())""")])
R("mpser-u8-array", ["mp_ser"], [(M, """        if v <= MAX_POSFIXINT {
            self.output.write_byte(v)?;
        }
        else {
            self.output.write_byte(UINT_8)?;
            self.output.write_byte(v)?;
        }
        Ok(())""", """        if v <= MAX_POSFIXINT {
            return Ok(self.output.write_byte(v)?);
        }
        Ok(self.output.write(&[UINT_8, v])?)""")])
R("mpser-u16-range", ["mp_ser"], [(M, """        if v <= MAX_POSFIXINT as u16 {
            self.output.write_byte(v as u8)?;
        }
        else if let Ok(v) = u8::try_from(v) {
            self.output.write_byte(UINT_8)?;
            self.output.write_byte(v)?;
        }
        else {
            self.output.write_byte(UINT_16)?;
            self.output.write(&v.to_be_bytes())?;
        }
        Ok(())
    }

    fn serialize_u32""", """        if v > u16::from(u8::MAX) {
            self.output.write_byte(UINT_16)?;
            self.output.write(&v.to_be_bytes())?;
        }
        else {
            if v > u16::from(MAX_POSFIXINT) {
                self.output.write_byte(UINT_8)?;
            }
            self.output.write_byte(v as u8)?;
        }
        Ok(())
    }

    fn serialize_u32""")])
R("mpser-u32-forward", ["mp_ser"], [(M, """        if v <= MAX_POSFIXINT as u16 {
            self.output.write_byte(v as u8)?;
        }
        else if let Ok(v) = u8::try_from(v) {
            self.output.write_byte(UINT_8)?;
            self.output.write_byte(v)?;
        }
        else {
            self.output.write_byte(UINT_16)?;
            self.output.write(&v.to_be_bytes())?;
        }
        Ok(())
    }

    fn serialize_u32""", """        write_u32(&mut self.output, v.into())
    }

    fn serialize_u32""")])
R("mpser-u64-forward", ["mp_ser"], [(M, """        if v <= MAX_POSFIXINT as u64 {
            self.output.write_byte(v as u8)?;
        }
        else if let Ok(v) = u8::try_from(v) {
            self.output.write_byte(UINT_8)?;
            self.output.write_byte(v)?;
        }
        else if let Ok(v) = u16::try_from(v) {
            self.output.write_byte(UINT_16)?;
            self.output.write(&v.to_be_bytes())?;
        }
        else if let Ok(v) = u32::try_from(v) {
            self.output.write_byte(UINT_32)?;
            self.output.write(&v.to_be_bytes())?;
        }
        else {""", """        if let Ok(v) = u32::try_from(v) {
            write_u32(&mut self.output, v)?;
        }
        else {""")])
R("mpser-bytes-helper", ["mp_ser"], [(M, """        let size = v.len();
        if let Ok(size) = u8::try_from(size) {
            self.output.write_byte(BIN_8)?;
            self.output.write_byte(size)?;
        }
        else if let Ok(size) = u16::try_from(size) {
            self.output.write_byte(BIN_16)?;
            self.output.write(&size.to_be_bytes())?;
        }
        else if let Ok(size) = u32::try_from(size) {
            self.output.write_byte(BIN_32)?;
            self.output.write(&size.to_be_bytes())?;
        }
        else {
            return Err(Error::DataLength)
        }
        Ok(self.output.write(v)?)""", """        write_bin_len(&mut self.output, v.len())?;
        self.output.write(v)?;
        Ok(())"""), (M, """#[inline]
fn write_array_len""", """#[inline]
fn write_bin_len<W: SerWrite>(output: &mut W, size: usize) -> Result<(), W::Error> {
    if let Ok(size) = u8::try_from(size) {
        output.write_byte(BIN_8)?;
        output.write_byte(size)?;
    }
    else if let Ok(size) = u16::try_from(size) {
        output.write_byte(BIN_16)?;
        output.write(&size.to_be_bytes())?;
    }
    else if let Ok(size) = u32::try_from(size) {
        output.write_byte(BIN_32)?;
        output.write(&size.to_be_bytes())?;
    }
    else {
        return Err(Error::DataLength)
    }
    Ok(())
}

#[inline]
fn write_array_len""")])
R("mpser-arraylen-match", ["mp_ser"], [(M, """    if len <= MAX_FIXARRAY_SIZE {
        output.write_byte(FIXARRAY | (len as u8))?;
    }
    else if let Ok(len) = u16::try_from(len) {""", """    if len < 16 {
        output.write_byte(FIXARRAY + len as u8)?;
    }
    else if let Ok(len) = u16::try_from(len) {""")])
R("mpser-strlen-early", ["mp_ser"], [(M, """    if len <= MAX_FIXSTR_SIZE {
        output.write_byte(FIXSTR | (len as u8))?;
    }
    else if""", """    if len <= MAX_FIXSTR_SIZE {
        return Ok(output.write_byte(FIXSTR | (len as u8))?)
    }
    if""")])
R("mpser-write-str-bytes", ["mp_ser", "mp_ser_nostd"], [(M, """    let size = v.len();
    write_str_len(output, size)?;
    Ok(output.write_str(v)?)""", """    write_str_len(output, v.len())?;
    output.write(v.as_bytes())?;
    Ok(())""")])
R("mpser-end-if", ["mp_ser"], [(M, """        (self.len == 0).then_some(()).ok_or(Error::SeqLength)
    }
}

impl<'a, S, E> ser::SerializeTuple for""", """        if self.len != 0 {
            return Err(Error::SeqLength)
        }
        Ok(())
    }
}

impl<'a, S, E> ser::SerializeTuple for""")])
R("mpser-elem-match", ["mp_ser"], [(M, """        self.len = self.len.checked_sub(1).ok_or(Error::SeqLength)?;
        value.serialize(&mut *self.ser)
    }

    fn end(self) -> Result<(), E> {
        (self.len == 0).then_some(()).ok_or(Error::SeqLength)
    }
}

impl<'a, S, E> ser::SerializeTuple for""", """        if self.len == 0 {
            return Err(Error::SeqLength)
        }
        self.len -= 1;
        value.serialize(&mut *self.ser)
    }

    fn end(self) -> Result<(), E> {
        match self.len {
            0 => Ok(()),
            _ => Err(Error::SeqLength)
        }
    }
}

impl<'a, S, E> ser::SerializeTuple for""")])
R("mpser-take-helper", ["mp_ser"], [(M, """        self.len = self.len.checked_sub(1).ok_or(Error::SeqLength)?;
        value.serialize(&mut *self.ser)
    }

    fn end(self) -> Result<(), E> {
        (self.len == 0).then_some(()).ok_or(Error::SeqLength)
    }
}

impl<'a, S, E> ser::SerializeTuple for""", """        self.len = one_less(self.len).ok_or(Error::SeqLength)?;
        value.serialize(&mut *self.ser)
    }

    fn end(self) -> Result<(), E> {
        (self.len == 0).then_some(()).ok_or(Error::SeqLength)
    }
}

fn one_less(len: usize) -> Option<usize> {
    len.checked_sub(1)
}

impl<'a, S, E> ser::SerializeTuple for""")])
R("mpser-idx-order", ["mp_ser"], [(M, """        self.len = self.len.checked_sub(1).ok_or(Error::MapLength)?;
        let idx = self.idx;
        self.idx = idx.wrapping_add(1);
        self.ser.serialize_u32(idx)?;
        value.serialize(&mut *self.ser)""", """        let idx = self.idx;
        self.len = self.len.checked_sub(1).ok_or(Error::MapLength)?;
        self.ser.serialize_u32(idx)?;
        value.serialize(&mut *self.ser)?;
        self.idx = idx.wrapping_add(1);
        Ok(())""")])
R("mpser-variant-bind", ["mp_ser"], [(M, """        self.output.write_byte(FIXMAP|1)?;
        self.serialize_variant(variant_index, variant)?;
        self.serialize_tuple(len)""", """        write_map_len(&mut self.output, 1)?;
        self.serialize_variant(variant_index, variant)?;
        write_array_len(&mut self.output, len)?;
        Ok(SerializeSeqMap { ser: self, len })""")])
R("mpser-seq-match", ["mp_ser"], [(M, """        let len = len.ok_or(Error::SeqLength)?;
        write_array_len(&mut self.output, len)?;
        Ok(SerializeSeqMap { len, ser: self })""", """        match len {
            Some(len) => self.serialize_tuple(len),
            None => Err(Error::SeqLength)
        }""")])
R("mpser-i16-order", ["mp_ser"], [(M, """        if FIXINT_I16.contains(&v) {
            self.output.write_byte(v as u8)?;
        }""", """        if v >= -32 && v <= 127 {
            self.output.write_byte(v as u8)?;
        }""")])
R("mpser-char-direct", ["mp_ser"], [(M, """        let mut encoding_tmp = [0u8; 4];
        let encoded = v.encode_utf8(&mut encoding_tmp);
        self.serialize_str(encoded)""", """        let mut buf = [0u8; 4];
        write_str(&mut self.output, v.encode_utf8(&mut buf))""")])
R("mpser-collect-bind", ["mp_ser"], [(M, """        self.serialize_str(&value.to_string())""", """        let text = value.to_string();
        write_str(&mut self.output, &text)""")])
R("mpser-nostd-collect", ["mp_ser_nostd"], [(M, """        self.len = self.len.checked_sub(s.len()).ok_or(fmt::Error)?;
        self.output.write_str(s).map_err(|_| fmt::Error)""", """        match self.len.checked_sub(s.len()) {
            Some(len) => self.len = len,
            None => return Err(fmt::Error)
        }
        match self.output.write_str(s) {
            Ok(()) => Ok(()),
            Err(_) => Err(fmt::Error)
        }""")])
