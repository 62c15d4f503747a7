M = "ser-write-msgpack/src/ser.rs"; D = "ser-write-msgpack/src/de.rs"
R("mpser-marker-helper", ["mp_ser"], [(M, """#[inline]
fn write_array_len<W: SerWrite>(output: &mut W, len: usize) -> Result<(), W::Error> {
    if len <= MAX_FIXARRAY_SIZE {
        output.write_byte(FIXARRAY | (len as u8))?;
    }
    else if let Ok(len) = u16::try_from(len) {
        output.write_byte(ARRAY_16)?;
        output.write(&len.to_be_bytes())?;
    }""", """#[inline]
fn write_with_marker<W: SerWrite>(output: &mut W, marker: u8, payload: &[u8]) -> Result<(), W::Error> {
    output.write_byte(marker)?;
    Ok(output.write(payload)?)
}

#[inline]
fn write_array_len<W: SerWrite>(output: &mut W, len: usize) -> Result<(), W::Error> {
    if len <= MAX_FIXARRAY_SIZE {
        output.write_byte(FIXARRAY | (len as u8))?;
    }
    else if let Ok(len) = u16::try_from(len) {
        write_with_marker(output, ARRAY_16, &len.to_be_bytes())?;
    }"""), (M, """    else if let Ok(len) = u16::try_from(len) {
        output.write_byte(MAP_16)?;
        output.write(&len.to_be_bytes())?;
    }""", """    else if let Ok(len) = u16::try_from(len) {
        write_with_marker(output, MAP_16, &len.to_be_bytes())?;
    }""")])
R("mpser-one-write", ["mp_ser"], [(M, """        else if let Ok(v) = u8::try_from(v) {
            self.output.write_byte(UINT_8)?;
            self.output.write_byte(v)?;
        }
        else {
            self.output.write_byte(UINT_16)?;
            self.output.write(&v.to_be_bytes())?;
        }
        Ok(())""", """        else if let Ok(v) = u8::try_from(v) {
            self.output.write(&[UINT_8, v])?;
        }
        else {
            let [hi, lo] = v.to_be_bytes();
            self.output.write(&[UINT_16, hi, lo])?;
        }
        Ok(())""")])
R("mpser-u32-shift", ["mp_ser"], [(M, """    else {
        output.write_byte(UINT_32)?;
        output.write(&v.to_be_bytes())?;
    }
    Ok(())
}

#[inline]
fn write_str<""", """    else {
        let bytes = v.to_be_bytes();
        output.write_byte(UINT_32)?;
        output.write(&bytes[..])?;
    }
    Ok(())
}

#[inline]
fn write_str<""")])
R("mpser-early-return", ["mp_ser"], [(M, """    if len <= MAX_FIXMAP_SIZE {
        output.write_byte(FIXMAP | (len as u8))?;
    }
    else if let Ok(len) = u16::try_from(len) {""", """    if len <= MAX_FIXMAP_SIZE {
        return Ok(output.write_byte(FIXMAP | (len as u8))?);
    }
    if let Ok(len) = u16::try_from(len) {""")])
R("mpser-map-flag", ["mp_ser"], [(M, """        self.len = self.len.checked_sub(1).ok_or(Error::MapLength)?;
        key.serialize(&mut *self.ser)""", """        if self.len == 0 {
            return Err(Error::MapLength);
        }
        self.len -= 1;
        key.serialize(&mut *self.ser)""")])
R("mpser-end-match", ["mp_ser"], [(M, """    fn end(self) -> Result<(), E> {
        (self.len == 0).then_some(()).ok_or(Error::MapLength)
    }
}

impl<'a, S, E> ser::SerializeStruct for SerializeStructArray""", """    fn end(self) -> Result<(), E> {
        match self.len {
            0 => Ok(()),
            _ => Err(Error::MapLength)
        }
    }
}

impl<'a, S, E> ser::SerializeStruct for SerializeStructArray""")])
R("mpser-f32-array", ["mp_ser"], [(M, """        self.output.write_byte(FLOAT_32)?;
        Ok(self.output.write(&v.to_be_bytes())?)""", """        let bits = v.to_bits();
        self.output.write_byte(FLOAT_32)?;
        Ok(self.output.write(&bits.to_be_bytes())?)""")])
R("mpser-i64-ladder", ["mp_ser"], [(M, """        else if let Ok(v) = i32::try_from(v) {
            self.output.write_byte(INT_32)?;
            self.output.write(&v.to_be_bytes())?;
        }
        else if let Ok(v) = u32::try_from(v) {
            self.output.write_byte(UINT_32)?;
            self.output.write(&v.to_be_bytes())?;
        }
        else {
            self.output.write_byte(INT_64)?;""", """        else if v >= i64::from(i32::MIN) && v <= i64::from(i32::MAX) {
            self.output.write_byte(INT_32)?;
            self.output.write(&(v as i32).to_be_bytes())?;
        }
        else if v > 0 && v <= i64::from(u32::MAX) {
            self.output.write_byte(UINT_32)?;
            self.output.write(&(v as u32).to_be_bytes())?;
        }
        else {
            self.output.write_byte(INT_64)?;""")])
R("mpser-struct-inline", ["mp_ser"], [(M, """        let idx = self.idx;
        self.idx = idx.wrapping_add(1);
        self.ser.serialize_u32(idx)?;
        value.serialize(&mut *self.ser)""", """        let idx = self.idx;
        self.ser.serialize_u32(idx)?;
        self.idx = idx.wrapping_add(1);
        value.serialize(&mut *self.ser)""")])
R("mpde-fetch-array-copy", ["mp_de"], [(D, """        let index = self.index;
        let res = self.input.get(index..index+N)
        .ok_or(Error::UnexpectedEof)?
        .try_into().unwrap();
        self.eat_some(N);
        Ok(res)""", """        let start = self.index;
        let end = start.checked_add(N).ok_or(Error::UnexpectedEof)?;
        let slice = self.input.get(start..end).ok_or(Error::UnexpectedEof)?;
        let mut res = [0u8; N];
        res.copy_from_slice(slice);
        self.index = end;
        Ok(res)""")])
R("mpde-int-split", ["mp_de"], [(D, """            n@(MIN_POSFIXINT..=MAX_POSFIXINT|NEGFIXINT..=0xff) => {
                (n as i8).try_into()?
            }
            UINT_8  => (self.fetch_u8()?).try_into()?,""", """            n@MIN_POSFIXINT..=MAX_POSFIXINT => n.try_into()?,
            n@NEGFIXINT..=0xff => (n as i8).try_into()?,
            UINT_8  => (self.fetch_u8()?).try_into()?,""")])
R("mpde-str-match", ["mp_de"], [(D, """        Ok(core::str::from_utf8(self.split_input(len)?)?)""", """        let payload = self.split_input(len)?;
        match core::str::from_utf8(payload) {
            Ok(text) => Ok(text),
            Err(err) => Err(err.into())
        }""")])
R("mpde-count-if", ["mp_de"], [(D, """        if let Some(len) = self.count {
            self.count = NonZeroUsize::new(len.get() - 1);
            return seed.deserialize(&mut *self.de).map(Some)
        }
        Ok(None)
    }
""", """        let Some(left) = self.count else { return Ok(None) };
        self.count = NonZeroUsize::new(left.get() - 1);
        let value = seed.deserialize(&mut *self.de)?;
        Ok(Some(value))
    }
""")])
R("mpde-bytes-len-fn", ["mp_de"], [(D, """    fn parse_bytes(&mut self) -> Result<&'de[u8]> {
        let len: usize = match self.fetch()? {
            BIN_8 => self.fetch_u8()?.into(),
            BIN_16 => self.fetch_u16()?.into(),
            BIN_32 => self.fetch_u32()?.try_into()?,
            _ => return Err(Error::ExpectedBin)
        };
        self.split_input(len)""", """    fn fetch_bin_len(&mut self) -> Result<usize> {
        match self.fetch()? {
            BIN_8 => Ok(usize::from(self.fetch_u8()?)),
            BIN_16 => Ok(usize::from(self.fetch_u16()?)),
            BIN_32 => Ok(usize::try_from(self.fetch_u32()?)?),
            _ => Err(Error::ExpectedBin)
        }
    }

    fn parse_bytes(&mut self) -> Result<&'de[u8]> {
        let len = self.fetch_bin_len()?;
        self.split_input(len)""")])
R("mpde-any-guard", ["mp_de"], [(D, """            NIL => self.deserialize_unit(visitor),
            RESERVED => Err(Error::ReservedCode),
            FALSE|
            TRUE => self.deserialize_bool(visitor),
            BIN_8|""", """            RESERVED => Err(Error::ReservedCode),
            NIL => {
                self.eat_some(1);
                visitor.visit_unit()
            }
            TRUE => {
                self.eat_some(1);
                visitor.visit_bool(true)
            }
            FALSE => {
                self.eat_some(1);
                visitor.visit_bool(false)
            }
            BIN_8|""")])
R("mpde-single-remaining", ["mp_de"], [(D, """                let index = self.index.checked_add(len).ok_or(Error::UnexpectedEof)?;
                if index > self.input.len() {
                    return Err(Error::UnexpectedEof)
                }
                self.index = index;""", """                if len > self.input.len() - self.index {
                    return Err(Error::UnexpectedEof)
                }
                self.index += len;""")])
