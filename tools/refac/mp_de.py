D = "ser-write-msgpack/src/de.rs"
R("mpde-fetch-match", ["mp_de"], [(D, """        let c = self.peek()?;
        self.eat_some(1);
        Ok(c)""", """        match self.input.get(self.index) {
            Some(&c) => {
                self.index += 1;
                Ok(c)
            }
            None => Err(Error::UnexpectedEof)
        }""")])
R("mpde-peek-if", ["mp_de"], [(D, """        self.input.get(self.index).copied()
        .ok_or(Error::UnexpectedEof)""", """        if self.index < self.input.len() {
            Ok(self.input[self.index])
        }
        else {
            Err(Error::UnexpectedEof)
        }""")])
R("mpde-fetch-array-loop", ["mp_de"], [(D, """        let index = self.index;
        let res = self.input.get(index..index+N)
        .ok_or(Error::UnexpectedEof)?
        .try_into().unwrap();
        self.eat_some(N);
        Ok(res)""", """        let start = self.index;
        let end = start + N;
        let slice = self.input.get(start..end).ok_or(Error::UnexpectedEof)?;
        let mut res = [0u8; N];
        res.copy_from_slice(slice);
        self.index = end;
        Ok(res)""")])
R("mpde-strlen-helper", ["mp_de"], [(D, """    fn parse_str(&mut self) -> Result<&'de str> {
        let len: usize = match self.fetch()? {
            c@(FIXSTR..=FIXSTR_MAX) => (c as usize) & MAX_FIXSTR_SIZE,
            STR_8 => self.fetch_u8()?.into(),
            STR_16 => self.fetch_u16()?.into(),
            STR_32 => self.fetch_u32()?.try_into()?,
            _ => return Err(Error::ExpectedString)
        };
        Ok(core""", """    fn parse_str_len(&mut self) -> Result<usize> {
        Ok(match self.fetch()? {
            c@(FIXSTR..=FIXSTR_MAX) => usize::from(c & 0x1f),
            STR_8 => self.fetch_u8()?.into(),
            STR_16 => self.fetch_u16()?.into(),
            STR_32 => self.fetch_u32()?.try_into()?,
            _ => return Err(Error::ExpectedString)
        })
    }

    fn parse_str(&mut self) -> Result<&'de str> {
        let len = self.parse_str_len()?;
        Ok(core""")])
R("mpde-parse-str-steps", ["mp_de"], [(D, """        Ok(core::str::from_utf8(self.split_input(len)?)?)""", """        let bytes = self.split_input(len)?;
        let text = core::str::from_utf8(bytes)?;
        Ok(text)""")])
R("mpde-parse-bytes-reorder", ["mp_de"], [(D, """            BIN_8 => self.fetch_u8()?.into(),
            BIN_16 => self.fetch_u16()?.into(),
            BIN_32 => self.fetch_u32()?.try_into()?,
            _ => return Err(Error::ExpectedBin)""", """            BIN_32 => usize::try_from(self.fetch_u32()?)?,
            BIN_16 => self.fetch_u16()? as usize,
            BIN_8 => self.fetch_u8()? as usize,
            _ => return Err(Error::ExpectedBin)""")])
R("mpde-eat-while", ["mp_de"], [(D, """        for _ in 0..len {
            self.eat_message()?;
        }
        Ok(())""", """        let mut left = len;
        while left > 0 {
            self.eat_message()?;
            left -= 1;
        }
        Ok(())""")])
R("mpde-eat-map-twice", ["mp_de"], [(D, """        for _ in 0..len {
            self.eat_message()?;
            self.eat_message()?;
        }
        Ok(())""", """        for _ in 0..len {
            self.eat_seq_items(2)?;
        }
        Ok(())""")])
R("mpde-eat-advance", ["mp_de"], [(D, """                let index = self.index.checked_add(len).ok_or(Error::UnexpectedEof)?;
                if index > self.input.len() {
                    return Err(Error::UnexpectedEof)
                }
                self.index = index;""", """                if len > self.remaining_len() {
                    return Err(Error::UnexpectedEof)
                }
                self.eat_some(len);""")])
R("mpde-eat-helper", ["mp_de"], [(D, """                let index = self.index.checked_add(len).ok_or(Error::UnexpectedEof)?;
                if index > self.input.len() {
                    return Err(Error::UnexpectedEof)
                }
                self.index = index;""", """                self.skip_checked(len)?;"""), (D, """    fn eat_seq_items(""", """    fn skip_checked(&mut self, len: usize) -> Result<()> {
        match self.index.checked_add(len) {
            Some(index) if index <= self.input.len() => {
                self.index = index;
                Ok(())
            }
            _ => Err(Error::UnexpectedEof)
        }
    }

    fn eat_seq_items(""")])
R("mpde-eat-direct", ["mp_de"], [(D, """            FLOAT_32 => Single(4),
            FLOAT_64 => Single(8),
            UINT_8 => Single(1),
            UINT_16 => Single(2),
            UINT_32 => Single(4),
            UINT_64 => Single(8),
            INT_8 => Single(1),
            INT_16 => Single(2),
            INT_32 => Single(4),
            INT_64 => Single(8),""", """            UINT_8|INT_8 => Single(1),
            UINT_16|INT_16 => Single(2),
            FLOAT_32|UINT_32|INT_32 => Single(4),
            FLOAT_64|UINT_64|INT_64 => Single(8),""")])
R("mpde-bool-if", ["mp_de"], [(D, """        let boolean = match self.fetch()? {
            TRUE => true,
            FALSE => false,
            _ => return Err(Error::InvalidType)
        };
        visitor.visit_bool(boolean)""", """        let code = self.fetch()?;
        if code != TRUE && code != FALSE {
            return Err(Error::InvalidType)
        }
        visitor.visit_bool(code == TRUE)""")])
R("mpde-int-bind", ["mp_de"], [(D, """        visitor.visit_i16(self.parse_integer()?)""", """        let value: i16 = self.parse_integer()?;
        visitor.visit_i16(value)"""), (D, """        visitor.visit_u64(self.parse_integer()?)""", """        let value = self.parse_integer::<u64>()?;
        visitor.visit_u64(value)""")])
R("mpde-option-if", ["mp_de"], [(D, """        match self.peek()? {
            NIL => {
                self.eat_some(1);
                visitor.visit_none()
            }
            _ => visitor.visit_some(self)
        }""", """        if self.peek()? == NIL {
            self.index += 1;
            visitor.visit_none()
        }
        else {
            visitor.visit_some(self)
        }""")])
R("mpde-seq-finish", ["mp_de"], [(D, """        let mut access = CountingAccess::new(self, len);
        let value = visitor.visit_seq(&mut access)?;
        if access.count.is_some() {
            return Err(Error::TrailingElements)
        }
        Ok(value)
    }

    fn deserialize_tuple<V>""", """        let mut access = CountingAccess::new(self, len);
        let value = visitor.visit_seq(&mut access)?;
        match access.count {
            None => Ok(value),
            Some(_) => Err(Error::TrailingElements)
        }
    }

    fn deserialize_tuple<V>""")])
R("mpde-finish-helper", ["mp_de"], [(D, """        let value = visitor.visit_seq(&mut access)?;
        if access.count.is_some() {
            return Err(Error::TrailingElements)
        }
        Ok(value)
    }

    fn deserialize_tuple<V>""", """        let value = visitor.visit_seq(&mut access)?;
        access.finish()?;
        Ok(value)
    }

    fn deserialize_tuple<V>"""), (D, """impl<'de, 'a> SeqAccess<'de> for CountingAccess""", """impl<'a, 'de> CountingAccess<'a, 'de> {
    fn finish(&self) -> Result<()> {
        if self.count.is_some() {
            return Err(Error::TrailingElements)
        }
        Ok(())
    }
}

impl<'de, 'a> SeqAccess<'de> for CountingAccess""")])
R("mpde-seqlen-helper", ["mp_de"], [(D, """        let len: usize = match self.fetch()? {
            c@(FIXARRAY..=FIXARRAY_MAX) => (c as usize) & MAX_FIXARRAY_SIZE,
            ARRAY_16 => self.fetch_u16()?.into(),
            ARRAY_32 => self.fetch_u32()?.try_into()?,
            _ => return Err(Error::ExpectedArray)
        };
        let mut access""", """        let len = self.parse_array_len()?;
        let mut access"""), (D, """    fn parse_bytes(&mut self)""", """    fn parse_array_len(&mut self) -> Result<usize> {
        let len: usize = match self.fetch()? {
            c@(FIXARRAY..=FIXARRAY_MAX) => (c as usize) & MAX_FIXARRAY_SIZE,
            ARRAY_16 => self.fetch_u16()?.into(),
            ARRAY_32 => self.fetch_u32()?.try_into()?,
            _ => return Err(Error::ExpectedArray)
        };
        Ok(len)
    }

    fn parse_bytes(&mut self)""")])
R("mpde-access-match", ["mp_de"], [(D, """        if let Some(len) = self.count {
            self.count = NonZeroUsize::new(len.get() - 1);
            return seed.deserialize(&mut *self.de).map(Some)
        }
        Ok(None)
    }

    fn size_hint""", """        match self.count {
            Some(len) => {
                self.count = NonZeroUsize::new(len.get() - 1);
                let value = seed.deserialize(&mut *self.de)?;
                Ok(Some(value))
            }
            None => Ok(None)
        }
    }

    fn size_hint""")])
R("mpde-access-after", ["mp_de"], [(D, """            self.count = NonZeroUsize::new(len.get() - 1);
            return seed.deserialize(&mut *self.de).map(Some)
        }
        Ok(None)
    }

    fn size_hint""", """            let remaining = len.get() - 1;
            self.count = NonZeroUsize::new(remaining);
            return Ok(Some(seed.deserialize(&mut *self.de)?))
        }
        Ok(None)
    }

    fn size_hint""")])
R("mpde-struct-two", ["mp_de"], [(D, """        let value = if map {
            visitor.visit_map(&mut access)?
        }
        else {
            visitor.visit_seq(&mut access)?
        };
        if access.count.is_some() {
            return Err(Error::TrailingElements)
        }
        Ok(value)""", """        let result = match map {
            true => visitor.visit_map(&mut access),
            false => visitor.visit_seq(&mut access)
        };
        let value = result?;
        if access.count.is_none() {
            Ok(value)
        }
        else {
            Err(Error::TrailingElements)
        }""")])
R("mpde-enum-if", ["mp_de"], [(D, """        const FIXMAP_1: u8 = FIXMAP|1;
        match self.peek()? {
            FIXMAP_1 => {
                self.eat_some(1);
                visitor.visit_enum(VariantAccess { de: self })
            }
            _ => visitor.visit_enum(UnitVariantAccess { de: self })
        }""", """        let code = self.peek()?;
        if code == (FIXMAP|1) {
            self.eat_some(1);
            return visitor.visit_enum(VariantAccess { de: self })
        }
        visitor.visit_enum(UnitVariantAccess { de: self })""")])
R("mpde-char-chars", ["mp_de"], [(D, """        let ch = char::from_str(s).map_err(|_| Error::InvalidLength)?;
        visitor.visit_char(ch)""", """        let mut chars = s.chars();
        match (chars.next(), chars.next()) {
            (Some(ch), None) => visitor.visit_char(ch),
            _ => Err(Error::InvalidLength)
        }""")])
R("mpde-end-if", ["mp_de"], [(D, """        self.input.len()
        .checked_sub(self.index)
        .ok_or(Error::UnexpectedEof)""", """        if self.index > self.input.len() {
            return Err(Error::UnexpectedEof)
        }
        Ok(self.input.len() - self.index)""")])
R("mpde-split-checks", ["mp_de"], [(D, """        let (res, input) = input.split_at_checked(len)
                    .ok_or(Error::UnexpectedEof)?;
        self.input = input;
        self.index = 0;
        Ok(res)""", """        if len > input.len() {
            return Err(Error::UnexpectedEof)
        }
        let (res, input) = input.split_at(len);
        self.index = 0;
        self.input = input;
        Ok(res)""")])
R("mpde-ident-ranges", ["mp_de"], [(D, """        match self.peek()? {
            MIN_POSFIXINT..=MAX_POSFIXINT|
            UINT_8|
            UINT_16|
            UINT_32 => self.deserialize_u32(visitor),
            FIXSTR..=FIXSTR_MAX|
            STR_8|
            STR_16|
            STR_32  => self.deserialize_str(visitor),
            _ => Err(Error::ExpectedIdentifier)
        }""", """        let code = self.peek()?;
        match code {
            FIXSTR..=FIXSTR_MAX|STR_8..=STR_32 => self.deserialize_str(visitor),
            MIN_POSFIXINT..=MAX_POSFIXINT|UINT_8..=UINT_32 => self.deserialize_u32(visitor),
            _ => Err(Error::ExpectedIdentifier)
        }""")])
R("mpde-f32-helper", ["mp_de"], [(D, """            n@(MIN_POSFIXINT..=MAX_POSFIXINT|NEGFIXINT..=0xff) => {
                (n as i8) as f32
            }
            UINT_8  => self.fetch_u8()?  as f32,""", """            n@(MIN_POSFIXINT..=MAX_POSFIXINT) => f32::from(n),
            n@(NEGFIXINT..=0xff) => f32::from(n as i8),
            UINT_8  => f32::from(self.fetch_u8()?),""")])
