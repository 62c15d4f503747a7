CL = "src/lib.rs"; CF = "src/foreign.rs"
S("core-str-nul", "C01", [(CL, """        self.write(s.as_bytes())
    }
}

impl<T: SerWrite>""", """        // bytes after a terminator are not part of the text
        match s.as_bytes().iter().position(|&b| b == 0) {
            Some(end) if end + 1 == s.len() => self.write(&s.as_bytes()[..end]),
            _ => self.write(s.as_bytes())
        }
    }
}

impl<T: SerWrite>""")],
  r'''use ser_write::SerWrite;
fn main() {
    for s in ["", "a", "a\0", "\0", "a\0b"] {
        let mut v = vec![1u8];
        v.write_str(s).unwrap();
        assert_eq!(v[1..], *s.as_bytes());
        let mut b = [0xffu8; 8];
        let mut w = ser_write::SliceWriter::new(&mut b);
        w.write_str(s).unwrap();
        assert_eq!(w.as_ref(), s.as_bytes());
    }
}''', "a text that ends with a NUL character", "that character is dropped while Ok is returned")
S("core-arrayvec-partial", "C02", [(CF, """        self.try_extend_from_slice(buf).map_err(From::from)""", """        for &byte in buf {
            self.try_push(byte)?;
        }
        Ok(())""")],
  r'''use ser_write::SerWrite;
fn main() {
    let mut w = arrayvec::ArrayVec::<u8, 4>::new();
    w.write(b"ab").unwrap();
    assert!(w.write(b"cde").is_err());
    assert_eq!(&w[..], b"ab");
    w.write(b"cd").unwrap();
    assert_eq!(&w[..], b"abcd");
}''', "a write that does not fit into a container that is not full", "what fits is stored before the error",
  feats="arrayvec")
S("core-slice-fill", "C02", [(CL, """            None => Err(SerError::BufferFull)
        }
    }
}""", """            None => {
                // leave no stale bytes behind
                if let Some(rest) = self.buf.get_mut(self.len..) {
                    rest.fill(0);
                }
                if buf.len() == self.buf.len() {
                    self.len = 0;
                }
                Err(SerError::BufferFull)
            }
        }
    }
}""")],
  r'''use ser_write::SerWrite;
fn main() {
    for n in 0..6usize {
        let mut b = [1u8; 4];
        let mut w = ser_write::SliceWriter::new(&mut b);
        w.write(b"xyz").unwrap();
        let r = w.write(&vec![7u8; n]);
        assert_eq!(r.is_ok(), n <= 1);
        assert_eq!(w.len(), if n <= 1 { 3 + n } else { 3 });
        assert_eq!(&w.as_ref()[..3], b"xyz");
    }
}''', "a refused write of exactly as many bytes as the slice has in total", "the content is forgotten")
S("core-full-empty-write", "C02", [(CL, """        match self.buf.get_mut(self.len..end) {""", """        if self.len != 0 && self.len >= self.buf.len() {
            return Err(SerError::BufferFull)
        }
        match self.buf.get_mut(self.len..end) {""")],
  r'''use ser_write::{SerWrite, SliceWriter};
fn main() {
    for n in 0..5usize {
        let mut b = [0u8; 4];
        let mut w = SliceWriter::new(&mut b);
        w.write(&b"abcd"[..n]).unwrap();
        assert!(w.write(b"").is_ok(), "{n}");
        assert!(w.write_str("").is_ok(), "{n}");
        assert_eq!(w.as_ref(), &b"abcd"[..n]);
    }
}''', "a write of no bytes to a writer that is completely full", "a write that fits is refused")
S("core-as-mut-all", "C03", [(CL, """        &mut self.buf[..self.len]""", """        &mut self.buf[..]""")],
  r'''use ser_write::{SerWrite, SliceWriter};
fn main() {
    let mut b = [0u8; 4];
    let mut w = SliceWriter::new(&mut b);
    w.write(b"ab").unwrap();
    assert_eq!(w.as_mut(), b"ab");
    w.write(b"cd").unwrap();
    assert_eq!(w.as_mut(), b"abcd");
}''', "the mutable view of a slice writer that is not full", "bytes that were not written are part of it")
