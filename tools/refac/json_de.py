D = "ser-write-json/src/de.rs"
J = ["json_de"]
R("jde-end-match", J, [(D, """        self.eat_whitespace().err()
        .map(|_| ())
        .ok_or(Error::TrailingCharacters)""", """        match self.eat_whitespace() {
            Ok(_) => Err(Error::TrailingCharacters),
            Err(_) => Ok(()),
        }""")])
R("jde-end-iflet", J, [(D, """        self.eat_whitespace().err()
        .map(|_| ())
        .ok_or(Error::TrailingCharacters)""", """        if self.eat_whitespace().is_ok() {
            return Err(Error::TrailingCharacters)
        }
        Ok(())""")])
R("jde-peek-match", J, [(D, """        self.input.get(self.index).copied()
        .ok_or(Error::UnexpectedEof)
    }
    /// Advance""", """        match self.input.get(self.index) {
            Some(&b) => Ok(b),
            None => Err(Error::UnexpectedEof)
        }
    }
    /// Advance""")])
R("jde-ws-loop", J, [(D, """        let index = self.index;
        self.input[index..].iter()
        .position(|&b| !matches!(b, SP|T_|N_|R_))
        .map(|pos| {
            self.index = index + pos;
            self.input[index + pos]
        })
        .ok_or(Error::UnexpectedEof)""", """        let mut index = self.index;
        while index < self.input.len() {
            let b = self.input[index];
            if !matches!(b, SP|T_|N_|R_) {
                self.index = index;
                return Ok(b)
            }
            index += 1;
        }
        Err(Error::UnexpectedEof)""")])
R("jde-ws-match", J, [(D, """        .map(|pos| {
            self.index = index + pos;
            self.input[index + pos]
        })
        .ok_or(Error::UnexpectedEof)""", """        .map(|pos| {
            let found = index + pos;
            self.index = found;
            self.input[found]
        })
        .ok_or(Error::UnexpectedEof)""")])
R("jde-ws-iflet", J, [(D, """        self.input[index..].iter()
        .position(|&b| !matches!(b, SP|T_|N_|R_))
        .map(|pos| {
            self.index = index + pos;
            self.input[index + pos]
        })
        .ok_or(Error::UnexpectedEof)""", """        if let Some(pos) = self.input[index..].iter()
            .position(|&b| !matches!(b, SP|T_|N_|R_))
        {
            self.index = index + pos;
            Ok(self.input[self.index])
        }
        else {
            Err(Error::UnexpectedEof)
        }""")])
R("jde-ws-helper", J, [(D, """    pub fn eat_whitespace(&mut self) -> Result<u8> {
        let index = self.index;
        self.input[index..].iter()
        .position(|&b| !matches!(b, SP|T_|N_|R_))""", """    pub fn eat_whitespace(&mut self) -> Result<u8> {
        let index = self.index;
        self.input[index..].iter()
        .position(|&b| !is_whitespace(b))"""), (D, """#[inline(always)]
fn parse_hex_nib(""", """#[inline(always)]
fn is_whitespace(b: u8) -> bool {
    matches!(b, SP|T_|N_|R_)
}

#[inline(always)]
fn parse_hex_nib(""")])
R("jde-split-vars", J, [(D, """        let total_len = self.input.len();
        let ptr = self.input.as_mut_ptr();
        let index = self.index;
        let nstart = index.checked_add(len).unwrap().checked_add(skip).unwrap();
        let newlen = total_len.checked_sub(nstart).unwrap();
        self.index = 0;""", """        let index = core::mem::replace(&mut self.index, 0);
        let end = index.checked_add(len).unwrap();
        let nstart = end.checked_add(skip).unwrap();
        let newlen = self.input.len().checked_sub(nstart).unwrap();
        let ptr = self.input.as_mut_ptr();""")])
R("jde-posnum-while", J, [(D, """        let mut pos = 0usize;
        for ch in self.input_mut()?.iter().copied() {
            match T::try_from_ascii_decimal(ch) {
                Some(n) => {
                    number = number
                        .checked_mul_ten()?
                        .checked_add(n)?
                }
                _ => break
            }
            pos += 1;
        }
        self.eat_some(pos);
        Ok(number)""", """        let mut pos = 0usize;
        let input = self.input_mut()?;
        while pos < input.len() {
            match T::try_from_ascii_decimal(input[pos]) {
                Some(n) => {
                    number = number
                        .checked_mul_ten()?
                        .checked_add(n)?
                }
                _ => break
            }
            pos += 1;
        }
        self.eat_some(pos);
        Ok(number)""")])
R("jde-posnum-iflet", J, [(D, """            match T::try_from_ascii_decimal(ch) {
                Some(n) => {
                    number = number
                        .checked_mul_ten()?
                        .checked_add(n)?
                }
                _ => break
            }
            pos += 1;
        }
        self.eat_some(pos);
        Ok(number)
    }

    #[inline]
    fn parse_negative""", """            if let Some(n) = T::try_from_ascii_decimal(ch) {
                let shifted = number.checked_mul_ten()?;
                number = shifted.checked_add(n)?;
                pos += 1;
            }
            else {
                break
            }
        }
        self.eat_some(pos);
        Ok(number)
    }

    #[inline]
    fn parse_negative""")])
R("jde-unsigned-early", J, [(D, """        match peek {
            b'-' => Err(Error::InvalidNumber),
            b'0' => {
                self.eat_some(1);
                Ok(T::ZERO)
            }
            _ => if let Some(number) = T::try_from_ascii_decimal(peek) {
                self.eat_some(1);
                self.parse_positive_number(number)
            }
            else {
                Err(Error::InvalidType)
            }
        }""", """        if peek == b'-' {
            return Err(Error::InvalidNumber)
        }
        let number = T::try_from_ascii_decimal(peek).ok_or(Error::InvalidType)?;
        self.eat_some(1);
        if peek == b'0' {
            Ok(number)
        }
        else {
            self.parse_positive_number(number)
        }""")])
R("jde-signed-shape", J, [(D, """        let mut peek = self
            .eat_whitespace()?;
        let is_neg = if peek == b'-' {
            self.eat_some(1);
            peek = self.peek()?;
            true
        }
        else {
            false
        };
""", """        let mut peek = self.eat_whitespace()?;
        let is_neg = peek == b'-';
        if is_neg {
            self.eat_some(1);
            peek = self.peek()?;
        }
""")])
R("jde-token-match", J, [(D, """        let size = token.len();
        if let Some(slice) = self.input.get(self.index..self.index+size) {
            if slice == token {
                self.eat_some(size);
                Ok(())
            }
            else {
                Err(Error::ExpectedToken)
            }
        }
        else {
            Err(Error::UnexpectedEof)
        }""", """        let end = self.index + token.len();
        match self.input.get(self.index..end) {
            Some(slice) if slice == token => {
                self.index = end;
                Ok(())
            }
            Some(_) => Err(Error::ExpectedToken),
            None => Err(Error::UnexpectedEof)
        }""")])
R("jde-token-early", J, [(D, """        if let Some(slice) = self.input.get(self.index..self.index+size) {
            if slice == token {
                self.eat_some(size);
                Ok(())
            }
            else {
                Err(Error::ExpectedToken)
            }
        }
        else {
            Err(Error::UnexpectedEof)
        }""", """        let slice = self.input.get(self.index..self.index+size).ok_or(Error::UnexpectedEof)?;
        if slice != token {
            return Err(Error::ExpectedToken)
        }
        self.eat_some(size);
        Ok(())""")])
R("jde-colon-early", J, [(D, """        if b':' == self.eat_whitespace()? {
            self.eat_some(1);
            Ok(())
        } else {
            Err(Error::ExpectedColon)
        }""", """        if self.eat_whitespace()? != b':' {
            return Err(Error::ExpectedColon)
        }
        self.eat_some(1);
        Ok(())""")])
R("jde-colon-match", J, [(D, """        if b':' == self.eat_whitespace()? {
            self.eat_some(1);
            Ok(())
        } else {
            Err(Error::ExpectedColon)
        }""", """        match self.eat_whitespace()? {
            b':' => {
                self.eat_some(1);
                Ok(())
            }
            _ => Err(Error::ExpectedColon)
        }""")])
R("jde-expect-helper", J, [(D, """        if b':' == self.eat_whitespace()? {
            self.eat_some(1);
            Ok(())
        } else {
            Err(Error::ExpectedColon)
        }
    }""", """        self.expect_char(b':', Error::ExpectedColon)
    }

    fn expect_char(&mut self, ch: u8, err: Error) -> Result<()> {
        if self.eat_whitespace()? == ch {
            self.eat_some(1);
            Ok(())
        }
        else {
            Err(err)
        }
    }"""), (D, """            let value = visitor.visit_seq(CommaSeparated::new(self))?;
            if b']' == self.eat_whitespace()? {
                self.eat_some(1);
                Ok(value)
            } else {
                Err(Error::ExpectedArrayEnd)
            }""", """            let value = visitor.visit_seq(CommaSeparated::new(self))?;
            self.expect_char(b']', Error::ExpectedArrayEnd)?;
            Ok(value)""")])
R("jde-eatstr-parity", J, [(D, "if count % 2 == 0 { /* even", "if count & 1 == 0 { /* even")])
R("jde-eatstr-let", J, [(D, """                match self.input[end] {
                    QU => {
                        let count = self.input[start..end].iter().rev()
                            .position(|&b| b != RS)
                            .unwrap_or_else(|| end - start);""", """                match self.input[end] {
                    QU => {
                        let run = &self.input[start..end];
                        let count = run.iter().rev()
                            .position(|&b| b != RS)
                            .unwrap_or(run.len());""")])
R("jde-eatstr-early", J, [(D, """                // note: we ignore any invalid \\ escape codes, but we check for control chars
                match self.input[end] {
                    QU => {""", """                // note: we ignore any invalid \\ escape codes, but we check for control chars
                let byte = self.input[end];
                match byte {
                    QU => {""")])
R("jde-eatstr-continue", J, [(D, """                        if count % 2 == 0 { /* even number of '\\' */
                            // println!("`{}'", core::str::from_utf8(&self.input[start..end]).unwrap());
                            self.index = end + 1;
                            return Ok(())
                        }
                        /* odd number of '/', continue */
                        start = end + 1;""", """                        start = end + 1;
                        if count % 2 == 0 { /* even number of '\\' */
                            self.index = start;
                            return Ok(())
                        }""")])
R("jde-str-let", J, [(D, """        core::str::from_utf8(self.parse_str_bytes_content()?)
        .map_err(From::from)""", """        let bytes = self.parse_str_bytes_content()?;
        Ok(core::str::from_utf8(bytes)?)""")])
R("jde-strbytes-gapvar", J, [(D, """                let gap = index - dest;
                if gap != 0 {
                    self.input.copy_within(index..end, dest);
                }""", """                let gap = index - dest;
                if gap > 0 {
                    self.input.copy_within(index..end, dest);
                }""")])
R("jde-strbytes-always", J, [(D, """                if gap != 0 {
                    self.input.copy_within(index..end, dest);
                }""", """                self.input.copy_within(index..end, dest);""")])
R("jde-strbytes-ctrl", J, [(D, "/* search for either '\\', '\"' or a control character */\n                slice.iter().position(|&b| matches!(b, RS|QU) || b <= 0x1F))", "/* search for either '\\', '\"' or a control character */\n                slice.iter().position(|&b| b < SP || b == QU || b == RS))")])
R("jde-strbytes-arms", J, [(D, """                            Some(..) => break Err(Error::InvalidEscapeSequence),
                            None => break Err(Error::UnexpectedEof)
                        }""", """                            None => break Err(Error::UnexpectedEof),
                            Some(_) => break Err(Error::InvalidEscapeSequence)
                        }""")])
R("jde-strbytes-unescape-helper", J, [(D, """                                let unescaped = UNESCAPE[(c-BB) as usize];
                                if unescaped == 0 {
                                    break Err(Error::InvalidEscapeSequence)
                                }""", """                                let unescaped = unescape_char(c);
                                if unescaped == 0 {
                                    break Err(Error::InvalidEscapeSequence)
                                }"""), (D, """#[inline(always)]
fn parse_hex_nib(""", """#[inline(always)]
fn unescape_char(c: u8) -> u8 {
    UNESCAPE[(c - BB) as usize]
}

#[inline(always)]
fn parse_hex_nib(""")])
R("jde-strbytes-questionmark", J, [(D, "if unescaped == 0 {\n                                    break Err(Error::InvalidEscapeSequence)", "if unescaped == 0 {\n                                    return Err(Error::InvalidEscapeSequence)")])
R("jde-strbytes-uvars", J, [(D, """                                dest += ch.encode_utf8(&mut self.input[dest..]).len();
                                index += 5;
                                start = index;""", """                                let width = ch.encode_utf8(&mut self.input[dest..]).len();
                                index += 5;
                                dest += width;
                                start = index;""")])
R("jde-uuuu-be", J, [(D, """    Some(u16::from_le_bytes([
        (parse_hex_nib(c)? << 4) + parse_hex_nib(d)?,
        (parse_hex_nib(a)? << 4) + parse_hex_nib(b)?]).into())""", """    let hi = (parse_hex_nib(a)? << 4) | parse_hex_nib(b)?;
    let lo = (parse_hex_nib(c)? << 4) | parse_hex_nib(d)?;
    Some(u32::from(u16::from_be_bytes([hi, lo])))""")])
R("jde-uuuu-shift", J, [(D, """    Some(u16::from_le_bytes([
        (parse_hex_nib(c)? << 4) + parse_hex_nib(d)?,
        (parse_hex_nib(a)? << 4) + parse_hex_nib(b)?]).into())""", """    let a = u32::from(parse_hex_nib(a)?);
    let b = u32::from(parse_hex_nib(b)?);
    let c = u32::from(parse_hex_nib(c)?);
    let d = u32::from(parse_hex_nib(d)?);
    Some(a << 12 | b << 8 | c << 4 | d)""")])
R("jde-hexnib-match", J, [(D, """        n@b'0'..=b'9' => Some(n - b'0'),
        _ => match ch|0x20 {
            n@b'a'..=b'f' => Some(n - b'a' + 10),
            _ => None
        }""", """        b'0'..=b'9' => Some(ch - b'0'),
        b'A'..=b'F' => Some(ch - b'A' + 10),
        b'a'..=b'f' => Some(ch - b'a' + 10),
        _ => None""")])
R("jde-digit-range", J, [(D, """                if matches!(code, b'0'..=b'9') {
                    Some((code - b'0') as Self)
                }
                else {
                    None
                }""", """                match code {
                    b'0'..=b'9' => Some((code - b'0') as Self),
                    _ => None
                }""")])
R("jde-digit-isascii", J, [(D, """                if matches!(code, b'0'..=b'9') {""", """                if code.is_ascii_digit() {""")])
R("jde-mulq", J, [(D, """                self.checked_mul(10)
                .ok_or(Error::InvalidNumber)""", """                match self.checked_mul(10) {
                    Some(n) => Ok(n),
                    None => Err(Error::InvalidNumber)
                }""")])
R("jde-hexbytes-match", J, [(D, """            if let Some(n) = parse_hex_nib(a.get()) {
                if let Some(m) = parse_hex_nib(b.get()) {
                    t.set((n << 4) + m);
                }
                else {
                    return Err(Error::UnexpectedChar)
                }
            }
            else if a.get() == QU {
                return Ok(self.split_input(len, len + 1))
            }
            else {
                return Err(Error::UnexpectedChar)
            }""", """            match parse_hex_nib(a.get()) {
                Some(n) => match parse_hex_nib(b.get()) {
                    Some(m) => t.set((n << 4) | m),
                    None => return Err(Error::UnexpectedChar)
                }
                None if a.get() == QU => return Ok(self.split_input(len, len + 1)),
                None => return Err(Error::UnexpectedChar)
            }""")])
R("jde-hexbytes-index", J, [(D, """        let input = self.input_mut()?;
        let cells = Cell::from_mut(input).as_slice_of_cells();
        let mut src = cells.chunks_exact(2);
        let mut len = 0;
        let mut iter = src.by_ref().zip(cells.iter());
        while let Some(([a, b], t)) = iter.next() {
            if let Some(n) = parse_hex_nib(a.get()) {
                if let Some(m) = parse_hex_nib(b.get()) {
                    t.set((n << 4) + m);
                }
                else {
                    return Err(Error::UnexpectedChar)
                }
            }
            else if a.get() == QU {
                return Ok(self.split_input(len, len + 1))
            }
            else {
                return Err(Error::UnexpectedChar)
            }
            len += 1;
        }
        match src.remainder() {
            [c] if c.get() == QU => {
                Ok(self.split_input(len, len + 1))
            }
            _ => Err(Error::UnexpectedEof)
        }""", """        let input = self.input_mut()?;
        let mut len = 0;
        while len * 2 + 1 < input.len() {
            let a = input[len * 2];
            let b = input[len * 2 + 1];
            if a == QU {
                return Ok(self.split_input(len, len + 1))
            }
            let n = parse_hex_nib(a).ok_or(Error::UnexpectedChar)?;
            let m = parse_hex_nib(b).ok_or(Error::UnexpectedChar)?;
            input[len] = (n << 4) + m;
            len += 1;
        }
        if input.get(len * 2) == Some(&QU) {
            Ok(self.split_input(len, len + 1))
        }
        else {
            Err(Error::UnexpectedEof)
        }""")])
R("jde-b64-match", J, [(D, """                    elen = elen + 1 + pos;
                    return if input[elen] == QU {
                        Ok(self.split_input(dlen, elen + 1 - dlen))
                    }
                    else {
                        Err(Error::UnexpectedChar)
                    }""", """                    elen += pos + 1;
                    if input[elen] != QU {
                        return Err(Error::UnexpectedChar)
                    }
                    return Ok(self.split_input(dlen, elen + 1 - dlen))""")])
R("jde-arr-matcharms", J, [(D, """            match self.eat_whitespace()? {
                b',' => self.eat_some(1),
                b']' => break,
                _ => return Err(Error::UnexpectedChar)
            }
        }""", """            let ch = self.eat_whitespace()?;
            if ch == b']' {
                break
            }
            if ch != b',' {
                return Err(Error::UnexpectedChar)
            }
            self.eat_some(1);
        }""")])
R("jde-arr-lenvar", J, [(D, """        let offs = self.index + 1 - index;
        /* restore index back */
        self.index = start;
        Ok(self.split_input(index - start, offs))""", """        let len = index - start;
        let offs = self.index - index + 1;
        /* restore index back */
        self.index = start;
        Ok(self.split_input(len, offs))""")])
R("jde-any-arms", J, [(D, """            b'n' => self.deserialize_unit(visitor),
            b't'|b'f' => self.deserialize_bool(visitor),
            b'"' => self.deserialize_str(visitor),
            c@(b'0'""", """            b'"' => self.deserialize_str(visitor),
            b'f'|b't' => self.deserialize_bool(visitor),
            b'n' => self.deserialize_unit(visitor),
            c@(b'0'""")])
R("jde-bool-flat", J, [(D, """        let boolean = match self.eat_whitespace()? {
            b't' => {
                self.eat_some(1);
                self.parse_token_content(b"rue")?;
                true
            },
            b'f' => {
                self.eat_some(1);
                self.parse_token_content(b"alse")?;
                false
            },
            _ => return Err(Error::UnexpectedChar)
        };
        visitor.visit_bool(boolean)""", """        match self.eat_whitespace()? {
            b't' => {
                self.parse_token_content(b"true")?;
                visitor.visit_bool(true)
            },
            b'f' => {
                self.parse_token_content(b"false")?;
                visitor.visit_bool(false)
            },
            _ => Err(Error::UnexpectedChar)
        }""")])
R("jde-null-helper", J, [(D, """            b'n' => {
                self.eat_some(1);
                self.parse_token_content(b"ull")?;
                visitor.visit_none()
            },""", """            b'n' => {
                self.eat_null()?;
                visitor.visit_none()
            },"""), (D, """            b'n' => {
                self.eat_some(1);
                self.parse_token_content(b"ull")?;
                visitor.visit_unit()
            },""", """            b'n' => {
                self.eat_null()?;
                visitor.visit_unit()
            },"""), (D, """    /// Eats whitespace and checks if the next character is a colon""", """    fn eat_null(&mut self) -> Result<()> {
        self.eat_some(1);
        self.parse_token_content(b"ull")
    }

    /// Eats whitespace and checks if the next character is a colon""")])
R("jde-int-let", J, [(D, "        visitor.visit_i16(self.parse_signed()?)\n    }\n\n    fn deserialize_i32", "        let n: i16 = self.parse_signed()?;\n        visitor.visit_i16(n)\n    }\n\n    fn deserialize_i32")])
R("jde-seq-early", J, [(D, """        if b'[' == self.eat_whitespace()? {
            self.eat_some(1);
            let value = visitor.visit_seq(CommaSeparated::new(self))?;
            if b']' == self.eat_whitespace()? {
                self.eat_some(1);
                Ok(value)
            } else {
                Err(Error::ExpectedArrayEnd)
            }
        } else {
            Err(Error::ExpectedArray)
        }""", """        if self.eat_whitespace()? != b'[' {
            return Err(Error::ExpectedArray)
        }
        self.eat_some(1);
        let value = visitor.visit_seq(CommaSeparated::new(&mut *self))?;
        match self.eat_whitespace()? {
            b']' => {
                self.eat_some(1);
                Ok(value)
            }
            _ => Err(Error::ExpectedArrayEnd)
        }""")])
R("jde-char-let", J, [(D, """            let s = self.parse_str_content()?;
            let ch = char::from_str(s).map_err(|_| Error::InvalidLength)?;
            visitor.visit_char(ch)""", """            match char::from_str(self.parse_str_content()?) {
                Ok(ch) => visitor.visit_char(ch),
                Err(_) => Err(Error::InvalidLength)
            }""")])
R("jde-str-early", J, [(D, """        if b'"' == self.eat_whitespace()? {
            self.eat_some(1);
            visitor.visit_borrowed_str(self.parse_str_content()?)
        }
        else {
            Err(Error::ExpectedString)
        }""", """        match self.eat_whitespace()? {
            QU => {
                self.eat_some(1);
                let s = self.parse_str_content()?;
                visitor.visit_borrowed_str(s)
            }
            _ => Err(Error::ExpectedString)
        }""")])
R("jde-ignored-num", J, [(D, """                let len = self.match_float().len();
                self.eat_some(len);
                visitor.visit_unit()""", """                let number = self.match_float();
                let end = self.index + number.len();
                self.index = end;
                visitor.visit_unit()""")])
R("jde-ignored-eatstr", J, [(D, """            b'"' => {
                self.eat_some(1);
                self.eat_str_content()?;
                visitor.visit_unit()
            }
            b'0'..=b'9'|b'-' => {""", """            b'-'|b'0'..=b'9' => {"""), (D, """                self.eat_some(len);
                visitor.visit_unit()
            }
            b'[' => self.deserialize_seq(visitor),""", """                self.eat_some(len);
                visitor.visit_unit()
            }
            b'"' => {
                self.eat_some(1);
                self.eat_str_content()?;
                visitor.visit_unit()
            }
            b'[' => self.deserialize_seq(visitor),""")])
R("jde-elem-shape", J, [(D, """            b',' => if self.first {
                return Err(Error::LeadingArrayComma)
            }
            else {
                self.de.eat_some(1);
                if b']' == self.de.eat_whitespace()? {
                    return Err(Error::TrailingArrayComma);
                }
            }
            _ => if self.first {
                self.first = false;
            }
            else {
                return Err(Error::ExpectedArrayCommaOrEnd);
            }""", """            b',' if self.first => return Err(Error::LeadingArrayComma),
            b',' => {
                self.de.eat_some(1);
                if b']' == self.de.eat_whitespace()? {
                    return Err(Error::TrailingArrayComma);
                }
            }
            _ if self.first => self.first = false,
            _ => return Err(Error::ExpectedArrayCommaOrEnd)""")])
R("jde-elem-value", J, [(D, """        seed.deserialize(&mut *self.de).map(Some)
    }
}

impl<'a, 'de, P> MapAccess""", """        let value = seed.deserialize(&mut *self.de)?;
        Ok(Some(value))
    }
}

impl<'a, 'de, P> MapAccess""")])
R("jde-key-early", J, [(D, """        if peek == b'"' {
            seed.deserialize(MapKey { de: &mut *self.de }).map(Some)
        }
        else {
            Err(Error::KeyMustBeAString)
        }""", """        if peek != b'"' {
            return Err(Error::KeyMustBeAString)
        }
        let key = MapKey { de: &mut *self.de };
        Ok(Some(seed.deserialize(key)?))""")])
R("jde-numkey-helper", J, [(D, """        let n = self.de.parse_unsigned()?;
        // check if we have a closing '"' immediately following a number
        if b'"' == self.de.peek()? {
            self.de.eat_some(1);
            Ok(n)
        }
        else {
            Err(Error::InvalidNumber)
        }""", """        let n = self.de.parse_unsigned()?;
        self.close_key()?;
        Ok(n)"""), (D, """        let n = self.de.parse_signed()?;
        // check if we have a closing '"' immediately following a number
        if b'"' == self.de.peek()? {
            self.de.eat_some(1);
            Ok(n)
        }
        else {
            Err(Error::InvalidNumber)
        }""", """        let n = self.de.parse_signed()?;
        self.close_key()?;
        Ok(n)"""), (D, """impl<'de, 'a, P> MapKey<'a, 'de, P>  {""", """impl<'de, 'a, P> MapKey<'a, 'de, P>  {
    // check if we have a closing '"' immediately following a number
    fn close_key(self) -> Result<()> {
        if b'"' == self.de.peek()? {
            self.de.eat_some(1);
            Ok(())
        }
        else {
            Err(Error::InvalidNumber)
        }
    }
""")])
R("jde-numkey-match", J, [(D, """        let n = self.de.parse_unsigned()?;
        // check if we have a closing '"' immediately following a number
        if b'"' == self.de.peek()? {
            self.de.eat_some(1);
            Ok(n)
        }
        else {
            Err(Error::InvalidNumber)
        }""", """        let n = self.de.parse_unsigned()?;
        // check if we have a closing '"' immediately following a number
        match self.de.peek()? {
            QU => self.de.eat_some(1),
            _ => return Err(Error::InvalidNumber)
        }
        Ok(n)""")])
R("jde-variant-reorder", J, [(D, """        match self.eat_whitespace()? {
            b'"' => visitor.visit_enum(UnitVariantAccess { de: self }),
            b'{' => {
                self.eat_some(1);
                let value = visitor.visit_enum(VariantAccess { de: self })?;
                if b'}' == self.eat_whitespace()? {
                    self.eat_some(1);
                    Ok(value)
                }
                else {
                    Err(Error::ExpectedEnumObjectEnd)
                }
            }
            _ => Err(Error::ExpectedEnumValue)
        }""", """        match self.eat_whitespace()? {
            b'{' => {
                self.eat_some(1);
                let value = visitor.visit_enum(VariantAccess { de: &mut *self })?;
                if b'}' != self.eat_whitespace()? {
                    return Err(Error::ExpectedEnumObjectEnd)
                }
                self.eat_some(1);
                Ok(value)
            }
            b'"' => visitor.visit_enum(UnitVariantAccess { de: self }),
            _ => Err(Error::ExpectedEnumValue)
        }""")])
R("jde-float-match", J, [(D, """        let v = F::from_str(s)?;
        self.eat_some(input.len());
        Ok(Some(v))""", """        let len = input.len();
        match F::from_str(s) {
            Ok(v) => {
                self.eat_some(len);
                Ok(Some(v))
            }
            Err(e) => Err(e.into())
        }""")])
R("jde-matchfloat-match", J, [(D, """        let input = &self.input[self.index..];
        input.iter()
        .position(|&b| !matches!(b, b'0'..=b'9'|b'+'|b'-'|b'.'|b'e'|b'E'))
        .map(|len| &input[..len])
        .unwrap_or(input)""", """        let input = &self.input[self.index..];
        match input.iter().position(|&b| !matches!(b, b'0'..=b'9'|b'+'|b'-'|b'.'|b'e'|b'E')) {
            Some(len) => &input[..len],
            None => input
        }""")])
R("jde-comma-new", J, [(D, """        CommaSeparated {
            de,
            first: true,
        }""", """        let first = true;
        Self { de, first }""")])
