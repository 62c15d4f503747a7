B = "ser-write-json/src/base64.rs"; C = "src/lib.rs"; F = "src/foreign.rs"
R("b64-enc-if", ["b64"], [(B, """    match chunks.remainder() {
        [a, b] => {
            let output = [
                a >> 2,
                ((a & 0x03) << 4) | ((b & 0xF0) >> 4),
                ((b & 0x0F) << 2)
            ].map(|n| ALPHABET[(n & 0x3F) as usize]);
            ser.write(&output)?;
            Ok(1)
        }
        [a] => {
            let output = [
                a >> 2,
                ((a & 0x03) << 4),
            ].map(|n| ALPHABET[(n & 0x3F) as usize]);
            ser.write(&output)?;
            Ok(2)
        }
        _ => Ok(0)
    }""", """    match chunks.remainder() {
        [a] => {
            let output = [
                a >> 2,
                (a << 4) & 0x30,
            ].map(|n| ALPHABET[(n & 0x3F) as usize]);
            ser.write(&output)?;
            Ok(2)
        }
        [a, b] => {
            let output = [
                a >> 2,
                ((a << 4) & 0x30) | (b >> 4),
                (b << 2) & 0x3C
            ].map(|n| ALPHABET[(n & 0x3F) as usize]);
            ser.write(&output)?;
            Ok(1)
        }
        _ => Ok(0)
    }""")])
R("b64-enc-helper", ["b64"], [(B, """            a >> 2,
            ((a & 0x03) << 4) | ((b & 0xF0) >> 4),
            ((b & 0x0F) << 2) | ((c & 0xC0) >> 6),
            c & 0x3F
        ].map(|n| ALPHABET[(n & 0x3F) as usize]);""", """            a >> 2,
            ((a & 0x03) << 4) | (b >> 4),
            ((b & 0x0F) << 2) | (c >> 6),
            c
        ].map(symbol);"""), (B, """#[inline]
fn get_code(""", """#[inline(always)]
fn symbol(n: u8) -> u8 {
    ALPHABET[(n & 0x3F) as usize]
}

#[inline]
fn get_code(""")])
R("b64-enc-chars", ["b64"], [(B, """        let output = [
            a >> 2,
            ((a & 0x03) << 4) | ((b & 0xF0) >> 4),
            ((b & 0x0F) << 2) | ((c & 0xC0) >> 6),
            c & 0x3F
        ].map(|n| ALPHABET[(n & 0x3F) as usize]);
        ser.write(&output)?;
    }""", """        let output = [
            ALPHABET[(a >> 2) as usize],
            ALPHABET[(((a & 0x03) << 4) | ((b & 0xF0) >> 4)) as usize],
            ALPHABET[(((b & 0x0F) << 2) | ((c & 0xC0) >> 6)) as usize],
            ALPHABET[(c & 0x3F) as usize]
        ];
        ser.write(&output)?;
    }""")])
R("b64-code-if", ["b64"], [(B, """    match c {
        b'A'..=b'Z' => Some(c - b'A'),
        b'a'..=b'z' => Some(c - b'a' + 26),
        b'0'..=b'9' => Some(c - b'0' + 52),
        b'/' => Some(63),
        b'+' => Some(62),
        _ => None
    }""", """    let code = match c {
        b'+' => 62,
        b'/' => 63,
        b'0'..=b'9' => 52 + (c - b'0'),
        b'a'..=b'z' => 26 + (c - b'a'),
        b'A'..=b'Z' => c - b'A',
        _ => return None
    };
    Some(code)""")])
R("b64-cell-map", ["b64"], [(B, """    match get_code(cell.get()) {
        Some(code) => Ok((acc << 6) | u32::from(code)),
        None => Err(acc)
    }""", """    if let Some(code) = get_code(cell.get()) {
        Ok((acc << 6) + u32::from(code))
    }
    else {
        Err(acc)
    }""")])
R("b64-tail-vars", ["b64"], [(B, """    let ecount = dcount / 3 * 4 + leftovers as usize;
    dcount += tail_dcount as usize;""", """    let whole = dcount / 3 * 4;
    dcount += tail_dcount as usize;
    let ecount = whole + leftovers as usize;""")])
R("b64-tail-loop", ["b64"], [(B, """    while tail_dcount != 0 {
        dest.next().unwrap().set((packed >> (tail_dcount * 8)) as u8);
        tail_dcount -= 1;
    }""", """    while tail_dcount > 0 {
        let byte = (packed >> (8 * tail_dcount)) as u8;
        dest.next().unwrap().set(byte);
        tail_dcount -= 1;
    }""")])
R("b64-dec-end", ["b64"], [(B, """        /* no tail */
        Ok(1) => (dcount, dcount / 3 * 4),
        /* some tail */
        Ok(packed)|Err(packed) => handle_tail(dcount, packed, dest)""", """        /* whole quartets only, or some tail */
        Ok(packed) => handle_tail(dcount, packed, dest),
        Err(packed) => handle_tail(dcount, packed, dest)""")])
R("core-write-early", ["core"], [(C, """        let end = self.len + buf.len();
        match self.buf.get_mut(self.len..end) {
            Some(chunk) => {
                chunk.copy_from_slice(buf);
                self.len = end;
                Ok(())
            }
            None => Err(SerError::BufferFull)
        }""", """        let end = self.len + buf.len();
        let chunk = self.buf.get_mut(self.len..end).ok_or(SerError::BufferFull)?;
        chunk.copy_from_slice(buf);
        self.len = end;
        Ok(())""")])
R("core-write-if", ["core"], [(C, """        match self.buf.get_mut(self.len..end) {
            Some(chunk) => {
                chunk.copy_from_slice(buf);
                self.len = end;
                Ok(())
            }
            None => Err(SerError::BufferFull)
        }""", """        if end > self.buf.len() {
            return Err(SerError::BufferFull)
        }
        self.buf[self.len..end].copy_from_slice(buf);
        self.len = end;
        Ok(())""")])
R("core-write-iflet", ["core"], [(C, """        match self.buf.get_mut(self.len..end) {
            Some(chunk) => {
                chunk.copy_from_slice(buf);
                self.len = end;
                Ok(())
            }
            None => Err(SerError::BufferFull)
        }""", """        if let Some(chunk) = self.buf.get_mut(self.len..end) {
            chunk.copy_from_slice(buf);
            self.len = end;
            Ok(())
        }
        else {
            Err(SerError::BufferFull)
        }""")])
R("core-byte-array", ["core"], [(C, "self.write(core::slice::from_ref(&byte))", "self.write(&[byte])")])
R("core-split-new", ["core"], [(C, """        let (res, buf) = self.buf.split_at_mut(self.len);
        (res, Self { buf, len: 0 })""", """        let SliceWriter { buf, len } = self;
        let (head, rest) = buf.split_at_mut(len);
        (head, SliceWriter::new(rest))""")])
R("core-rem-cap", ["core"], [(C, "self.buf.len() - self.len\n", "self.capacity() - self.len()\n")])
R("core-isempty", ["core"], [(C, "        self.len == 0\n", "        self.len() == 0\n")])
R("core-asref-get", ["core"], [(C, """    fn as_ref(&self) -> &[u8] {
        &self.buf[..self.len]""", """    fn as_ref(&self) -> &[u8] {
        let end = self.len;
        &self.buf[0..end]""")])
R("core-vec-match", ["core"], [(F, """        self.try_reserve(buf.len())?;
        self.extend_from_slice(buf);
        Ok(())
    }
    #[inline]
    fn write_byte(&mut self, byte: u8) -> SerResult<()> {
        // FIXME""", """        match self.try_reserve(buf.len()) {
            Ok(()) => {
                self.extend_from_slice(buf);
                Ok(())
            }
            Err(e) => Err(e.into())
        }
    }
    #[inline]
    fn write_byte(&mut self, byte: u8) -> SerResult<()> {
        // FIXME""")])
R("core-deque-extend", ["core"], [(F, "self.extend(buf.iter().copied());", "self.extend(buf);")])
R("core-cursor-match", ["core"], [(F, "std::io::Write::write_all(self, buf).map_err(|_| SerError::BufferFull)", """match std::io::Write::write_all(self, buf) {
            Ok(()) => Ok(()),
            Err(_) => Err(SerError::BufferFull)
        }""")])
R("core-arrayvec-q", ["core"], [(F, "self.try_extend_from_slice(buf).map_err(From::from)", "self.try_extend_from_slice(buf)?;\n        Ok(())")])
R("core-arrayvec-push", ["core"], [(F, "self.try_push(byte).map_err(From::from)", "self.try_push(byte).map_err(|_| SerError::BufferFull)")])
R("core-heapless-match", ["core"], [(F, "self.extend_from_slice(buf).map_err(|_| SerError::BufferFull)", "match self.extend_from_slice(buf) {\n            Ok(()) => Ok(()),\n            Err(_) => Err(SerError::BufferFull)\n        }")])
R("core-heapless-delegate", ["core"], [(F, """        self.extend_from_slice(buf).map_err(|_| SerError::BufferFull)
    }
    #[inline]
    fn write_byte(&mut self, byte: u8) -> SerResult<()> {
        self.push(byte).map_err(|_| SerError::BufferFull)
    }
}

#[cfg(feature = "heapless")]""", """        self.as_mut_view().write(buf)
    }
    #[inline]
    fn write_byte(&mut self, byte: u8) -> SerResult<()> {
        self.as_mut_view().write_byte(byte)
    }
}

#[cfg(feature = "heapless")]""")])
R("core-tiny-byte", ["core"], [(F, """        if self.len() < self.capacity() && self.try_push(byte).is_none() {
            Ok(())
        }
        else {
            Err(SerError::BufferFull)
        }""", """        if self.len() >= self.capacity() {
            return Err(SerError::BufferFull)
        }
        match self.try_push(byte) {
            None => Ok(()),
            Some(_) => Err(SerError::BufferFull)
        }""")])
R("core-tiny-order", ["core"], [(F, """          tinyvec::TinyVec::Inline(a) => a.extend_from_slice(buf),
          tinyvec::TinyVec::Heap(h) => h.extend_from_slice(buf),""", """          tinyvec::TinyVec::Heap(vec) => vec.extend_from_slice(buf),
          tinyvec::TinyVec::Inline(array) => array.extend_from_slice(buf),""")])
