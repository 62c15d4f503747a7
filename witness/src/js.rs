//! Independent JSON reference: encoder, decoder per shape, generators.
use crate::mp::{Bad, Refuse};
use crate::rng::Rng;
use crate::val::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Enc { Array, Hex, B64, Pass }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode { Nope, Hex, B64 }

pub const ALPHA: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let bit = |i: usize| -> u8 { if i / 8 < b.len() { b[i / 8] >> (7 - i % 8) & 1 } else { 0 } };
    let n = (b.len() * 8).div_ceil(6);
    for k in 0..n { let mut x = 0; for j in 0..6 { x = x << 1 | bit(k * 6 + j) } o.push(ALPHA[x as usize]) }
    o
}
/// bytes denoted by alphabet characters (trailing bits that fill no byte are dropped)
pub fn unb64(c: &[u8]) -> Vec<u8> {
    let bits: Vec<u8> = c.iter().flat_map(|x| { let v = ALPHA.iter().position(|a| a == x).unwrap() as u8; (0..6).rev().map(move |j| v >> j & 1) }).collect();
    bits.chunks_exact(8).map(|k| k.iter().fold(0, |a, b| a << 1 | b)).collect()
}
pub fn esc(s: &str, o: &mut Vec<u8>) {
    for c in s.chars() {
        match c {
            '"' => o.extend(b"\\\""), '\\' => o.extend(b"\\\\"), '\u{8}' => o.extend(b"\\b"), '\t' => o.extend(b"\\t"), '\n' => o.extend(b"\\n"), '\u{c}' => o.extend(b"\\f"), '\r' => o.extend(b"\\r"),
            c if (c as u32) < 0x20 => o.extend(format!("\\u{:04X}", c as u32).as_bytes()),
            c => { let mut t = [0; 4]; o.extend(c.encode_utf8(&mut t).as_bytes()) }
        }
    }
}
fn quoted(s: &str, o: &mut Vec<u8>) { o.push(b'"'); esc(s, o); o.push(b'"') }
fn list(e: Enc, v: &[Val], o: &mut Vec<u8>) -> Result<(), Refuse> {
    o.push(b'[');
    for (i, x) in v.iter().enumerate() { if i > 0 { o.push(b',') } enc(e, x, o)? }
    o.push(b']'); Ok(())
}
fn obj(e: Enc, f: &[(&'static str, Option<Val>)], o: &mut Vec<u8>) -> Result<(), Refuse> {
    o.push(b'{');
    let mut first = true;
    for (k, x) in f { if let Some(x) = x { if !first { o.push(b',') } first = false; quoted(k, o); o.push(b':'); enc(e, x, o)? } }
    o.push(b'}'); Ok(())
}
fn key(e: Enc, k: &Val, o: &mut Vec<u8>) -> Result<(), Refuse> {
    match k {
        Val::Bool(_) | Val::Int(..) => { o.push(b'"'); enc(e, k, o)?; o.push(b'"') }
        Val::Char(_) | Val::Str(_) | Val::UnitVar(..) | Val::Disp(..) => enc(e, k, o)?,
        Val::Newtype(x) => key(e, x, o)?,
        _ => return Err(Refuse),
    }
    Ok(())
}
pub fn enc(e: Enc, v: &Val, o: &mut Vec<u8>) -> Result<(), Refuse> {
    match v {
        Val::Bool(b) => o.extend(if *b { &b"true"[..] } else { b"false" }),
        Val::Int(v, _) => o.extend(v.to_string().as_bytes()),
        Val::F32(b) => { let f = f32::from_bits(*b); if f.is_finite() { o.extend(ryu_js::Buffer::new().format_finite(f).as_bytes()) } else { o.extend(b"null") } }
        Val::F64(b) => { let f = f64::from_bits(*b); if f.is_finite() { o.extend(ryu_js::Buffer::new().format_finite(f).as_bytes()) } else { o.extend(b"null") } }
        Val::Char(c) => quoted(&c.to_string(), o),
        Val::Str(s) => quoted(s, o),
        Val::Bytes(b) => match e {
            Enc::Array => { o.push(b'['); for (i, x) in b.iter().enumerate() { if i > 0 { o.push(b',') } o.extend(x.to_string().as_bytes()) } o.push(b']') }
            Enc::Hex => { o.push(b'"'); for x in b { o.extend(format!("{:02X}", x).as_bytes()) } o.push(b'"') }
            Enc::B64 => { o.push(b'"'); o.extend(b64(b)); o.push(b'"') }
            Enc::Pass => o.extend(b),
        },
        Val::None | Val::Unit | Val::UnitStruct => o.extend(b"null"),
        Val::Some(x) | Val::Newtype(x) => enc(e, x, o)?,
        Val::Seq(v, _) | Val::Tuple(v, _) | Val::TupleStruct(v, _) => list(e, v, o)?,
        Val::Map(v, _) => {
            o.push(b'{');
            for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(b',') } key(e, k, o)?; o.push(b':'); enc(e, x, o)? }
            o.push(b'}')
        }
        Val::Struct(f, _) => obj(e, f, o)?,
        Val::UnitVar(_, n) => quoted(n, o),
        Val::NewVar(_, n, x) => { o.push(b'{'); quoted(n, o); o.push(b':'); enc(e, x, o)?; o.push(b'}') }
        Val::TupVar(_, n, v, _) => { o.push(b'{'); quoted(n, o); o.push(b':'); list(e, v, o)?; o.push(b'}') }
        Val::StructVar(_, n, f, _) => { o.push(b'{'); quoted(n, o); o.push(b':'); obj(e, f, o)?; o.push(b'}') }
        Val::Disp(p, bad) => { if *bad { return Err(Refuse) } quoted(&p.concat(), o) }
        Val::Fail => return Err(Refuse),
    }
    Ok(())
}

pub struct Dec<'a> { pub b: &'a [u8], pub p: usize, pub mode: Mode }
fn numeric(t: &[u8]) -> bool {
    // JSON number grammar
    let mut i = 0;
    let at = |i: usize| t.get(i).copied().unwrap_or(0);
    if at(i) == b'-' { i += 1 }
    if at(i) == b'0' { i += 1 } else if at(i).is_ascii_digit() { while at(i).is_ascii_digit() { i += 1 } } else { return false }
    if at(i) == b'.' { i += 1; if !at(i).is_ascii_digit() { return false } while at(i).is_ascii_digit() { i += 1 } }
    if at(i) | 32 == b'e' { i += 1; if at(i) == b'+' || at(i) == b'-' { i += 1 } if !at(i).is_ascii_digit() { return false } while at(i).is_ascii_digit() { i += 1 } }
    i == t.len()
}
impl<'a> Dec<'a> {
    fn ws(&mut self) { while matches!(self.b.get(self.p), Some(b' ' | b'\t' | b'\n' | b'\r')) { self.p += 1 } }
    fn peek(&mut self) -> Result<u8, Bad> { self.ws(); self.b.get(self.p).copied().ok_or(Bad::Eof) }
    fn cur(&self) -> Result<u8, Bad> { self.b.get(self.p).copied().ok_or(Bad::Eof) }
    fn lit(&mut self, s: &[u8]) -> Result<(), Bad> { self.ws(); if self.b[self.p..].starts_with(s) { self.p += s.len(); Ok(()) } else { Err(Bad::Other) } }
    fn ch(&mut self, c: u8) -> Result<(), Bad> { if self.peek()? == c { self.p += 1; Ok(()) } else { Err(Bad::Other) } }
    /// after the opening quote
    fn content(&mut self) -> Result<Vec<u8>, Bad> {
        let mut o = vec![];
        loop {
            let c = self.cur()?; self.p += 1;
            match c {
                b'"' => return Ok(o),
                0..=0x1f => return Err(Bad::Other),
                b'\\' => {
                    let d = self.cur()?; self.p += 1;
                    match d {
                        b'"' | b'\\' | b'/' => o.push(d), b'b' => o.push(8), b't' => o.push(9), b'n' => o.push(10), b'f' => o.push(12), b'r' => o.push(13),
                        b'u' => {
                            let h = self.b.get(self.p..self.p + 4).ok_or(Bad::Eof)?;
                            if !h.iter().all(|c| c.is_ascii_hexdigit()) { return Err(Bad::Other) }
                            self.p += 4;
                            let c = char::from_u32(u32::from_str_radix(std::str::from_utf8(h).unwrap(), 16).unwrap()).ok_or(Bad::Other)?;
                            o.extend(c.to_string().as_bytes())
                        }
                        _ => return Err(Bad::Other),
                    }
                }
                c => o.push(c),
            }
        }
    }
    fn string(&mut self) -> Result<String, Bad> { self.ch(b'"')?; String::from_utf8(self.content()?).map_err(|_| Bad::Other) }
    fn int(&mut self, t: IntTy) -> Result<i128, Bad> {
        let c = self.peek()?;
        let neg = c == b'-';
        if neg { if !t.signed() { return Err(Bad::Other) } self.p += 1 }
        let c = self.cur()?;
        if !c.is_ascii_digit() { return Err(Bad::Other) }
        if c == b'0' { self.p += 1; return Ok(0) }
        let mut v: i128 = 0;
        while let Some(d @ b'0'..=b'9') = self.b.get(self.p) { v = (v * 10 + (d - b'0') as i128).min(1 << 100); self.p += 1 }
        if neg { v = -v }
        if t.has(v) { Ok(v) } else { Err(Bad::Other) }
    }
    fn bytes(&mut self) -> Result<Vec<u8>, Bad> {
        match self.peek()? {
            b'[' => {
                self.p += 1;
                let mut o = vec![];
                if self.peek()? == b']' { self.p += 1; return Ok(o) }
                loop {
                    o.push(self.int(IntTy::U8)? as u8);
                    match self.peek()? { b',' => self.p += 1, b']' => { self.p += 1; return Ok(o) } _ => return Err(Bad::Other) }
                }
            }
            b'"' => {
                self.p += 1;
                match self.mode {
                    Mode::Nope => self.content(),
                    Mode::Hex => {
                        let mut o = vec![];
                        loop {
                            if self.cur()? == b'"' { self.p += 1; return Ok(o) }
                            let h = self.b.get(self.p..self.p + 2).ok_or(Bad::Eof)?;
                            if !h.iter().all(|c| c.is_ascii_hexdigit()) { return Err(Bad::Other) }
                            o.push(u8::from_str_radix(std::str::from_utf8(h).unwrap(), 16).unwrap()); self.p += 2
                        }
                    }
                    Mode::B64 => {
                        let s = self.p;
                        while self.b.get(self.p).map_or(false, |c| ALPHA.contains(c)) { self.p += 1 }
                        let n = self.p - s;
                        let o = unb64(&self.b[s..self.p]);
                        let mut pad = 0;
                        while self.cur()? == b'=' { self.p += 1; pad += 1 }
                        if self.cur()? != b'"' { return Err(Bad::Other) }
                        self.p += 1;
                        if n % 4 == 1 || (pad > 0 && (n + pad) % 4 != 0) || pad > 2 { return Err(Bad::Unspec) }
                        Ok(o)
                    }
                }
            }
            _ => Err(Bad::Other),
        }
    }
    /// true: another element follows (cursor before it); false: closed (cursor after the closer)
    fn more(&mut self, first: bool, close: u8) -> Result<bool, Bad> {
        let c = self.peek()?;
        if c == close { self.p += 1; return Ok(false) }
        if !first { if c != b',' { return Err(Bad::Other) } self.p += 1; if self.peek()? == close { return Err(Bad::Other) } } else if c == b',' { return Err(Bad::Other) }
        Ok(true)
    }
    fn tup(&mut self, s: &[Shape]) -> Result<Vec<Val>, Bad> {
        self.ch(b'[')?;
        let mut v = vec![];
        for (i, x) in s.iter().enumerate() { if !self.more(i == 0, b']')? { return Err(Bad::Other) } v.push(self.dec(x)?) }
        self.ch(b']')?;
        Ok(v)
    }
    fn fields(&mut self, f: &[(&'static str, Shape)]) -> Result<Vec<(&'static str, Option<Val>)>, Bad> {
        match self.peek()? {
            b'[' => { let s: Vec<Shape> = f.iter().map(|x| x.1.clone()).collect(); Ok(self.tup(&s)?.into_iter().zip(f).map(|(v, x)| (x.0, Some(v))).collect()) }
            b'{' => {
                self.p += 1;
                let mut v: Vec<(&'static str, Option<Val>)> = f.iter().map(|x| (x.0, None)).collect();
                let mut first = true;
                while self.more(first, b'}')? {
                    first = false;
                    let k = self.string()?;
                    let i = f.iter().position(|x| x.0 == k);
                    if let Some(i) = i { if v[i].1.is_some() { return Err(Bad::Other) } }
                    self.ch(b':')?;
                    match i { Some(i) => v[i].1 = Some(self.dec(&f[i].1)?), None => { self.dec(&Shape::Ignored)?; } }
                }
                if v.iter().any(|x| x.1.is_none()) { return Err(Bad::Other) }
                Ok(v)
            }
            _ => Err(Bad::Other),
        }
    }
    fn key(&mut self, s: &Shape) -> Result<Val, Bad> {
        if self.peek()? != b'"' { return Err(Bad::Other) }
        Ok(match s {
            Shape::Int(t) => { self.p += 1; let v = self.int(*t)?; if self.cur()? != b'"' { return Err(Bad::Other) } self.p += 1; Val::Int(v, *t) }
            Shape::Bool => { self.p += 1; let v = self.dec(s)?; if self.cur()? != b'"' { return Err(Bad::Other) } self.p += 1; v }
            Shape::Char | Shape::Str => self.dec(s)?,
            Shape::Enum(vs) => { let k = self.string()?; let i = vs.iter().position(|x| x.0 == k).ok_or(Bad::Other)?; if vs[i].1 != VShape::Unit { return Err(Bad::Other) } Val::UnitVar(i as u32, vs[i].0) }
            Shape::Newtype(x) => Val::Newtype(Box::new(self.key(x)?)),
            Shape::Any => Val::Str(self.string()?),
            Shape::Ignored => { self.string().map_err(|e| if e == Bad::Eof { e } else { Bad::Unspec })?; Val::Unit }
            _ => return Err(Bad::Unspec),
        })
    }
    fn map(&mut self, k: &Shape, x: &Shape, take: usize) -> Result<Vec<(Val, Val)>, Bad> {
        self.ch(b'{')?;
        let mut v = vec![];
        loop {
            if v.len() == take { self.ch(b'}')?; break }
            if !self.more(v.is_empty(), b'}')? { break }
            let a = self.key(k)?; self.ch(b':')?; v.push((a, self.dec(x)?));
        }
        Ok(v)
    }
    fn seq(&mut self, x: &Shape, take: usize) -> Result<Vec<Val>, Bad> {
        self.ch(b'[')?;
        let mut v = vec![];
        loop {
            if v.len() == take { self.ch(b']')?; break }
            if !self.more(v.is_empty(), b']')? { break }
            v.push(self.dec(x)?);
        }
        Ok(v)
    }
    fn token(&mut self) -> &'a [u8] { let s = self.p; while matches!(self.b.get(self.p), Some(b'0'..=b'9' | b'+' | b'-' | b'.' | b'e' | b'E')) { self.p += 1 } &self.b[s..self.p] }
    fn float(&mut self) -> Result<Option<&'a str>, Bad> {
        if self.peek()? == b'n' { self.lit(b"null")?; return Ok(None) }
        let t = self.token();
        if t.is_empty() { return Err(Bad::Other) }
        if !numeric(t) { return Err(Bad::Unspec) }
        Ok(Some(std::str::from_utf8(t).unwrap()))
    }
    pub fn dec(&mut self, s: &Shape) -> Result<Val, Bad> {
        Ok(match s {
            Shape::Bool => match self.peek()? { b't' => { self.lit(b"true")?; Val::Bool(true) } b'f' => { self.lit(b"false")?; Val::Bool(false) } _ => return Err(Bad::Other) },
            Shape::Int(t) => Val::Int(self.int(*t)?, *t),
            Shape::F32 => Val::F32(self.float()?.map_or(f32::NAN, |t| t.parse().unwrap()).to_bits()),
            Shape::F64 => Val::F64(self.float()?.map_or(f64::NAN, |t| t.parse().unwrap()).to_bits()),
            Shape::Char => { let x = self.string()?; let mut c = x.chars(); match (c.next(), c.next()) { (Some(a), None) => Val::Char(a), _ => return Err(Bad::Other) } }
            Shape::Str => Val::Str(self.string()?),
            Shape::Bytes => Val::Bytes(self.bytes()?),
            Shape::Opt(x) => if self.peek()? == b'n' { self.lit(b"null")?; Val::None } else { Val::Some(Box::new(self.dec(x)?)) },
            Shape::Unit => { self.lit(b"null")?; Val::Unit }
            Shape::UnitStruct => { self.lit(b"null")?; Val::UnitStruct }
            Shape::Newtype(x) => Val::Newtype(Box::new(self.dec(x)?)),
            Shape::Seq(x) => Val::Seq(self.seq(x, usize::MAX)?, Len::Exact),
            Shape::SeqTake(x, n) => Val::Seq(self.seq(x, *n)?, Len::Exact),
            Shape::Tuple(v) => Val::Tuple(self.tup(v)?, Len::Exact),
            Shape::TupleStruct(v) => Val::TupleStruct(self.tup(v)?, Len::Exact),
            Shape::Map(k, x) => Val::Map(self.map(k, x, usize::MAX)?, Len::Exact),
            Shape::MapTake(k, x, n) => Val::Map(self.map(k, x, *n)?, Len::Exact),
            Shape::StructTake(k, x, n) => if self.peek()? == b'[' { Val::Seq(self.seq(x, *n)?, Len::Exact) } else { Val::Map(self.map(k, x, *n)?, Len::Exact) },
            Shape::Struct(f) => Val::Struct(self.fields(f)?, Len::Exact),
            Shape::Enum(vs) => match self.peek()? {
                b'"' => { let k = self.string()?; let i = vs.iter().position(|x| x.0 == k).ok_or(Bad::Other)?; if vs[i].1 != VShape::Unit { return Err(Bad::Other) } Val::UnitVar(i as u32, vs[i].0) }
                b'{' => {
                    self.p += 1;
                    let k = self.string()?; let i = vs.iter().position(|x| x.0 == k).ok_or(Bad::Other)?; let n = vs[i].0;
                    self.ch(b':')?;
                    let v = match &vs[i].1 {
                        VShape::Unit => return Err(Bad::Other),
                        VShape::New(x) => Val::NewVar(i as u32, n, Box::new(self.dec(x)?)),
                        VShape::Tup(x) => Val::TupVar(i as u32, n, self.tup(x)?, Len::Exact),
                        VShape::Struct(f) => Val::StructVar(i as u32, n, self.fields(f)?, Len::Exact),
                    };
                    self.ch(b'}')?; v
                }
                _ => return Err(Bad::Other),
            },
            Shape::Ignored => {
                match self.peek()? {
                    b'n' => self.lit(b"null")?, b't' => self.lit(b"true")?, b'f' => self.lit(b"false")?,
                    b'"' => { self.p += 1; loop { let c = self.cur()?; self.p += 1; match c { b'"' => break, 0..=0x1f => return Err(Bad::Other), b'\\' => { let d = self.cur()?; if d <= 0x1f { return Err(Bad::Other) } self.p += 1 } _ => {} } } }
                    b'0'..=b'9' | b'-' => { if !numeric(self.token()) { return Err(Bad::Unspec) } }
                    b'[' => { self.seq(&Shape::Ignored, usize::MAX)?; }
                    b'{' => { self.map(&Shape::Ignored, &Shape::Ignored, usize::MAX)?; }
                    _ => return Err(Bad::Other),
                }
                Val::Unit
            }
            Shape::Any => match self.peek()? {
                b'n' => { self.lit(b"null")?; Val::Unit } b't' | b'f' => self.dec(&Shape::Bool)?, b'"' => Val::Str(self.string()?),
                b'0'..=b'9' | b'-' => {
                    let t = self.token();
                    if !numeric(t) { return Err(Bad::Unspec) }
                    let t = std::str::from_utf8(t).unwrap();
                    if t.contains(['.', 'e', 'E']) { Val::F64(t.parse::<f64>().unwrap().to_bits()) }
                    else { let v: i128 = t.parse().map_err(|_| Bad::Unspec)?; let ty = if t.starts_with('-') { IntTy::I64 } else { IntTy::U64 }; if !ty.has(v) { return Err(Bad::Unspec) } Val::Int(v, ty) }
                }
                b'[' => Val::Seq(self.seq(&Shape::Any, usize::MAX)?, Len::Exact),
                b'{' => Val::Map(self.map(&Shape::Any, &Shape::Any, usize::MAX)?, Len::Exact),
                _ => return Err(Bad::Other),
            },
        })
    }
    pub fn top(b: &'a [u8], mode: Mode, s: &Shape) -> Result<Val, Bad> {
        let mut d = Dec { b, p: 0, mode };
        let v = d.dec(s)?;
        d.ws();
        if d.p == b.len() { Ok(v) } else { Err(Bad::Other) }
    }
}

// ------------------------------------------------------------------ generators
fn w(r: &mut Rng, o: &mut Vec<u8>) { if r.chance(1, 6) { for _ in 0..1 + r.below(2) { o.push(*r.pick(b" \t\n\r")) } } }
pub fn gen_str(r: &mut Rng, s: &str, o: &mut Vec<u8>) {
    o.push(b'"');
    // some strings without needless escapes, so that long runs occur
    let rate = *r.pick(&[6, 6, 6, 60, 1 << 30]);
    for c in s.chars() {
        let mut t = [0; 4];
        if ((c as u32) < 0x10000) && r.chance(1, rate) { let h = format!("{:04x}", c as u32); o.extend(b"\\u"); o.extend(h.chars().map(|x| if r.chance(1, 2) { x.to_ascii_uppercase() } else { x } as u8)) }
        else if c == '/' && r.chance(1, 2) { o.extend(b"\\/") }
        else { esc(c.encode_utf8(&mut t), o) }
    }
    o.push(b'"')
}
fn list_(r: &mut Rng, v: &[Shape], m: Mode, o: &mut Vec<u8>) { o.push(b'['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(b',') } w(r, o); gen(r, x, m, o); w(r, o) } w(r, o); o.push(b']') }
fn fields_(r: &mut Rng, f: &[(&'static str, Shape)], m: Mode, o: &mut Vec<u8>) {
    if r.chance(1, 4) { let v: Vec<Shape> = f.iter().map(|x| x.1.clone()).collect(); return list_(r, &v, m, o) }
    let extra = if r.chance(1, 3) { 1 + r.below(3) } else { 0 };
    let mut order: Vec<usize> = (0..f.len() + extra).collect();
    for i in (1..order.len()).rev() { let j = r.below(i + 1); order.swap(i, j) }
    o.push(b'{'); w(r, o);
    for (n, i) in order.into_iter().enumerate() {
        if n > 0 { o.push(b','); w(r, o) }
        if i < f.len() { gen_str(r, f[i].0, o); w(r, o); o.push(b':'); w(r, o); gen(r, &f[i].1, m, o) } else { gen_str(r, "unknown", o); w(r, o); o.push(b':'); w(r, o); item(r, o, 2) }
        w(r, o)
    }
    o.push(b'}')
}
fn key_(r: &mut Rng, k: &Shape, o: &mut Vec<u8>) {
    match k {
        Shape::Int(_) | Shape::Bool => { o.push(b'"'); if r.chance(1, 12) { o.push(b' ') } gen(r, k, Mode::Nope, o); o.push(b'"') }
        Shape::Newtype(x) => key_(r, x, o),
        Shape::Enum(_) | Shape::Char | Shape::Str => gen(r, k, Mode::Nope, o),
        _ => { let s = gen_string(r, 6); gen_str(r, &s, o) }
    }
}
pub fn gen(r: &mut Rng, s: &Shape, m: Mode, o: &mut Vec<u8>) {
    w(r, o);
    match s {
        Shape::Bool => o.extend(if r.chance(1, 2) { &b"true"[..] } else { b"false" }),
        Shape::Int(t) => { let x = if r.chance(1, 4) { *r.pick(&INTS) } else { *t }; let v = gen_int(r, x); let v = if r.chance(1, 12) { v * 10 + r.below(10) as i128 } else { v }; if r.chance(1, 30) { o.extend(if r.chance(1, 2) { &b"0"[..] } else { b"-" }) } o.extend(v.to_string().as_bytes()) }
        Shape::F32 | Shape::F64 => match r.below(5) { 0 => o.extend(b"null"), 1 => o.extend((gen_int(r, IntTy::I32)).to_string().as_bytes()), _ => { let f = f64::from_bits(gen_f64(r)); if f.is_finite() { o.extend(format!("{:e}", f).as_bytes()) } else { o.extend(b"1.5") } } },
        Shape::Char => { let mut c = gen_char(r).to_string(); if r.chance(1, 12) { c.push(gen_char(r)) } gen_str(r, &c, o) }
        Shape::Str => { let c = gen_string(r, 12); gen_str(r, &c, o) }
        Shape::Bytes => {
            let b = gen_bytes(r, 12);
            if r.chance(1, 3) { o.push(b'['); for (i, x) in b.iter().enumerate() { if i > 0 { o.push(b','); w(r, o) } o.extend(x.to_string().as_bytes()); w(r, o) } o.push(b']') }
            else { match m {
                Mode::Nope => { let s = gen_string(r, 12); gen_str(r, &s, o) }
                Mode::Hex => { o.push(b'"'); for x in &b { let h = format!("{:02x}", x); o.extend(h.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c } as u8)) } o.push(b'"') }
                Mode::B64 => { o.push(b'"'); let e = b64(&b); o.extend(&e); if r.chance(1, 2) { while o.len() > 0 && (e.len() + { let mut k = 0; while o[o.len() - 1 - k] == b'=' { k += 1 } k }) % 4 != 0 { o.push(b'=') } } o.push(b'"') }
            } }
        }
        Shape::Opt(x) => if r.chance(1, 3) { o.extend(b"null") } else { gen(r, x, m, o) },
        Shape::Unit | Shape::UnitStruct => o.extend(b"null"),
        Shape::Newtype(x) => gen(r, x, m, o),
        Shape::Seq(x) | Shape::SeqTake(x, _) => { let n = r.len(4); let v: Vec<Shape> = (0..n).map(|_| (**x).clone()).collect(); list_(r, &v, m, o) }
        Shape::Tuple(v) | Shape::TupleStruct(v) => list_(r, v, m, o),
        Shape::StructTake(_, x, _) if r.chance(1, 2) => { let n = r.len(3); let v: Vec<Shape> = (0..n).map(|_| (**x).clone()).collect(); list_(r, &v, m, o) }
        Shape::Map(k, x) | Shape::MapTake(k, x, _) | Shape::StructTake(k, x, _) => { let n = r.len(3); o.push(b'{'); w(r, o); for i in 0..n { if i > 0 { o.push(b','); w(r, o) } key_(r, k, o); w(r, o); o.push(b':'); gen(r, x, m, o); w(r, o) } o.push(b'}') }
        Shape::Struct(f) => fields_(r, f, m, o),
        Shape::Enum(vs) => {
            let i = r.below(vs.len());
            if vs[i].1 == VShape::Unit { return gen_str(r, vs[i].0, o) }
            o.push(b'{'); w(r, o); gen_str(r, vs[i].0, o); w(r, o); o.push(b':'); w(r, o);
            match &vs[i].1 { VShape::Unit => {} VShape::New(x) => gen(r, x, m, o), VShape::Tup(x) => list_(r, x, m, o), VShape::Struct(f) => fields_(r, f, m, o) }
            w(r, o); o.push(b'}')
        }
        Shape::Ignored | Shape::Any => item(r, o, 2),
    }
}
pub fn item(r: &mut Rng, o: &mut Vec<u8>, depth: usize) {
    match r.below(if depth == 0 { 6 } else { 9 }) {
        0 => o.extend(*r.pick(&[&b"null"[..], b"true", b"false"])),
        1 => { let v = gen_int(r, IntTy::I64); o.extend(v.to_string().as_bytes()) }
        2 => { let f = f64::from_bits(gen_f64(r)); if f.is_finite() { o.extend(format!("{:e}", f).as_bytes()) } else { o.extend(b"-0.5E+3") } }
        3 if r.chance(1, 4) => { o.push(b'"'); for _ in 0..1 + r.below(3) { for _ in 0..r.below(4) { o.push(b'a') } let k = if r.chance(1, 3) { 80 } else { 12 }; for _ in 0..r.below(k) { o.extend(b"\\\\") } if r.chance(1, 2) { o.extend(b"\\\"") } } o.push(b'"') }
        3 => { o.push(b'"'); for _ in 0..r.len(8) { o.extend(*r.pick(&[&b"\\\\"[..], b"\\\"", b"a", b"]", b"}", b"\\\\\\\"", b",", b":", b"\\n", b"{", b"/"])) } o.push(b'"') }
        4 | 5 => { let s = gen_string(r, 8); gen_str(r, &s, o) }
        6 | 7 => { let n = r.len(4); o.push(b'['); for i in 0..n { if i > 0 { o.push(b',') } w(r, o); item(r, o, depth - 1); w(r, o) } o.push(b']') }
        _ => { let n = r.len(3); o.push(b'{'); for i in 0..n { if i > 0 { o.push(b',') } w(r, o); let s = gen_string(r, 5); gen_str(r, &s, o); w(r, o); o.push(b':'); w(r, o); item(r, o, depth - 1); w(r, o) } o.push(b'}') }
    }
}
pub fn mutate(r: &mut Rng, o: &mut Vec<u8>) {
    const T: &[u8] = b"\",:[]{}\\ \t\n0123456789-+.eEabcdefntru/=AFz\x00\x1f\x7f\x80\xc3\xed\xff";
    for _ in 0..1 + r.below(2) {
        if let Some(t) = r.dstr() { let i = r.below(o.len() + 1); o.splice(i..i, t.bytes()); continue }
        if let Some(n) = r.dint() { let i = r.below(o.len() + 1); if r.chance(1, 3) { o.splice(i..i, n.to_string().bytes()); } else if (0..256).contains(&n) { if r.chance(1, 2) && i < o.len() { o[i] = n as u8 } else { o.insert(i, n as u8) } } continue }
        match r.below(8) {
            0 => { let n = r.below(o.len() + 1); o.truncate(n) }
            1 | 2 if !o.is_empty() => { let i = r.below(o.len()); o[i] = *r.pick(T) }
            3 if !o.is_empty() => { let i = r.below(o.len()); o.remove(i); }
            4 | 5 => { let i = r.below(o.len() + 1); o.insert(i, *r.pick(T)) }
            6 if !o.is_empty() => { let i = r.below(o.len()); let c = o[i]; o.insert(i, c) }
            _ => { let n = r.below(3); for _ in 0..n { o.push(*r.pick(T)) } }
        }
    }
}
