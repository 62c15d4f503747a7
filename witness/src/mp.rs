//! Independent MessagePack reference: encoder per flavour, decoder per shape, item skipper, generators.
use crate::rng::Rng;
use crate::val::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Flavour { Compact, Idx, Named }
pub const FLAVOURS: [Flavour; 3] = [Flavour::Compact, Flavour::Idx, Flavour::Named];
pub struct Refuse;

pub fn put_int(o: &mut Vec<u8>, v: i128) {
    // the shortest encoding; where two of equal length exist the caller compares by value and length
    if (0..=127).contains(&v) { o.push(v as u8) }
    else if (-32..0).contains(&v) { o.push(v as i8 as u8) }
    else if (0..=0xff).contains(&v) { o.push(0xcc); o.push(v as u8) }
    else if (-0x80..0).contains(&v) { o.push(0xd0); o.push(v as i8 as u8) }
    else if (0..=0xffff).contains(&v) { o.push(0xcd); o.extend((v as u16).to_be_bytes()) }
    else if (-0x8000..0).contains(&v) { o.push(0xd1); o.extend((v as i16).to_be_bytes()) }
    else if (0..=0xffff_ffff).contains(&v) { o.push(0xce); o.extend((v as u32).to_be_bytes()) }
    else if (-0x8000_0000..0).contains(&v) { o.push(0xd2); o.extend((v as i32).to_be_bytes()) }
    else if v >= 0 { o.push(0xcf); o.extend((v as u64).to_be_bytes()) }
    else { o.push(0xd3); o.extend((v as i64).to_be_bytes()) }
}
pub fn put_str_hdr(o: &mut Vec<u8>, n: usize) {
    if n < 32 { o.push(0xa0 | n as u8) } else if n < 0x100 { o.push(0xd9); o.push(n as u8) } else if n < 0x10000 { o.push(0xda); o.extend((n as u16).to_be_bytes()) } else { o.push(0xdb); o.extend((n as u32).to_be_bytes()) }
}
pub fn put_bin_hdr(o: &mut Vec<u8>, n: usize) {
    if n < 0x100 { o.push(0xc4); o.push(n as u8) } else if n < 0x10000 { o.push(0xc5); o.extend((n as u16).to_be_bytes()) } else { o.push(0xc6); o.extend((n as u32).to_be_bytes()) }
}
fn cont(o: &mut Vec<u8>, fix: u8, c16: u8, n: usize) -> Result<(), Refuse> {
    if n < 16 { o.push(fix | n as u8) } else if n < 0x10000 { o.push(c16); o.extend((n as u16).to_be_bytes()) } else if n as u64 <= u32::MAX as u64 { o.push(c16 + 1); o.extend((n as u32).to_be_bytes()) } else { return Err(Refuse) }
    Ok(())
}
fn put_str(o: &mut Vec<u8>, s: &[u8]) { put_str_hdr(o, s.len()); o.extend(s) }
fn variant(fl: Flavour, i: u32, n: &str, o: &mut Vec<u8>) { if fl == Flavour::Named { put_str(o, n.as_bytes()) } else { put_int(o, i as i128) } }
fn items(fl: Flavour, v: &[Val], l: Len, o: &mut Vec<u8>) -> Result<(), Refuse> {
    let n = l.of(v.len()).unwrap_or(v.len());
    cont(o, 0x90, 0xdc, n)?;
    if n != v.len() { return Err(Refuse) }
    for e in v { enc(fl, e, o)? }
    Ok(())
}
fn fields(fl: Flavour, f: &[(&'static str, Option<Val>)], l: Len, o: &mut Vec<u8>) -> Result<(), Refuse> {
    let live = f.iter().filter(|x| x.1.is_some()).count();
    let n = l.of(live).unwrap_or(live);
    if fl == Flavour::Compact { cont(o, 0x90, 0xdc, n)? } else { cont(o, 0x80, 0xde, n)? }
    let mut done = 0;
    for (i, (k, x)) in f.iter().enumerate() {
        match x {
            Some(x) => {
                if done == n { return Err(Refuse) }
                match fl { Flavour::Compact => {}, Flavour::Idx => put_int(o, i as i128), Flavour::Named => put_str(o, k.as_bytes()) }
                enc(fl, x, o)?; done += 1;
            }
            // the array form cannot leave a hole: only trailing fields may be skipped
            None => if fl == Flavour::Compact && done != n { return Err(Refuse) }
        }
    }
    if done != n { return Err(Refuse) }
    Ok(())
}
/// the complete encoding, or Refuse when serialization must report an error
pub fn enc(fl: Flavour, v: &Val, o: &mut Vec<u8>) -> Result<(), Refuse> {
    match v {
        Val::Bool(b) => o.push(if *b { 0xc3 } else { 0xc2 }),
        Val::Int(v, _) => put_int(o, *v),
        Val::F32(b) => { o.push(0xca); o.extend(b.to_be_bytes()) }
        Val::F64(b) => { o.push(0xcb); o.extend(b.to_be_bytes()) }
        Val::Char(c) => put_str(o, c.to_string().as_bytes()),
        Val::Str(s) => put_str(o, s.as_bytes()),
        Val::Bytes(b) => { put_bin_hdr(o, b.len()); o.extend(b) }
        Val::None | Val::Unit | Val::UnitStruct => o.push(0xc0),
        Val::Some(x) | Val::Newtype(x) => enc(fl, x, o)?,
        Val::Seq(_, Len::Missing) | Val::Map(_, Len::Missing) => return Err(Refuse),
        Val::Seq(v, l) | Val::Tuple(v, l) | Val::TupleStruct(v, l) => items(fl, v, *l, o)?,
        Val::Map(v, l) => {
            let n = l.of(v.len()).unwrap();
            cont(o, 0x80, 0xde, n)?;
            if n != v.len() { return Err(Refuse) }
            for (k, x) in v { enc(fl, k, o)?; enc(fl, x, o)? }
        }
        Val::Struct(f, l) => fields(fl, f, *l, o)?,
        Val::UnitVar(i, n) => variant(fl, *i, n, o),
        Val::NewVar(i, n, x) => { o.push(0x81); variant(fl, *i, n, o); enc(fl, x, o)? }
        Val::TupVar(i, n, v, l) => { o.push(0x81); variant(fl, *i, n, o); items(fl, v, *l, o)? }
        Val::StructVar(i, n, f, l) => { o.push(0x81); variant(fl, *i, n, o); fields(fl, f, *l, o)? }
        Val::Disp(p, bad) => { if *bad { return Err(Refuse) } put_str(o, p.concat().as_bytes()) }
        Val::Fail => return Err(Refuse),
    }
    Ok(())
}
/// i16..i64 may spend a signed format where an unsigned one of the same width exists: equal bytes up to that choice
pub fn same_enc(a: &[u8], b: &[u8]) -> bool {
    if a == b { return true }
    let (mut i, n) = (0, a.len());
    if b.len() != n { return false }
    while i < n {
        match (skip(&a[i..]), skip(&b[i..])) {
            (Ok(x), Ok(y)) if x == y => { if !same_item(&a[i..i + x], &b[i..i + x]) { return false } i += x }
            _ => return false,
        }
    }
    true
}
fn same_item(a: &[u8], b: &[u8]) -> bool {
    if a == b { return true }
    if let (Some((x, n)), Some((y, m))) = (int_at(a), int_at(b)) { return x == y && n == m && n == a.len() }
    // containers: same header, then the items
    let h = match a[0] { 0x80..=0x9f => 1, 0xdc | 0xde => 3, 0xdd | 0xdf => 5, _ => return false };
    b.len() >= h && a[..h] == b[..h] && same_enc(&a[h..], &b[h..])
}
fn be(b: &[u8]) -> u64 { b.iter().fold(0, |a, x| a << 8 | *x as u64) }
pub fn int_at(b: &[u8]) -> Option<(i128, usize)> {
    let c = *b.first()?;
    let need = |n: usize| if b.len() > n { Some(be(&b[1..=n])) } else { None };
    Some(match c {
        0..=0x7f => (c as i128, 1), 0xe0..=0xff => (c as i8 as i128, 1),
        0xcc => (need(1)? as i128, 2), 0xcd => (need(2)? as i128, 3), 0xce => (need(4)? as i128, 5), 0xcf => (need(8)? as i128, 9),
        0xd0 => (need(1)? as u8 as i8 as i128, 2), 0xd1 => (need(2)? as u16 as i16 as i128, 3), 0xd2 => (need(4)? as u32 as i32 as i128, 5), 0xd3 => (need(8)? as i64 as i128, 9),
        _ => return None,
    })
}
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Bad { Eof, Reserved, Other, Unspec }
/// length of the single item at the start
pub fn skip(b: &[u8]) -> Result<usize, Bad> { let mut p = 0; skip_n(b, &mut p, 1)?; Ok(p) }
fn skip_n(b: &[u8], p: &mut usize, n: u64) -> Result<(), Bad> {
    // iterative: nesting is bounded only by the input
    let mut todo: u128 = n as u128;
    while todo > 0 {
        todo -= 1;
        let c = *b.get(*p).ok_or(Bad::Eof)?; *p += 1;
        let mut take = |k: usize| -> Result<u64, Bad> { if b.len() - *p < k { return Err(Bad::Eof) } let r = be(&b[*p..*p + k]); *p += k; Ok(r) };
        let (body, kids): (u128, u128) = match c {
            0..=0x7f | 0xe0..=0xff | 0xc0 | 0xc2 | 0xc3 => (0, 0),
            0x80..=0x8f => (0, 2 * (c & 15) as u128), 0x90..=0x9f => (0, (c & 15) as u128), 0xa0..=0xbf => ((c & 31) as u128, 0),
            0xc1 => return Err(Bad::Reserved),
            0xc4 | 0xd9 => (take(1)? as u128, 0), 0xc5 | 0xda => (take(2)? as u128, 0), 0xc6 | 0xdb => (take(4)? as u128, 0),
            0xc7 => (take(1)? as u128 + 1, 0), 0xc8 => (take(2)? as u128 + 1, 0), 0xc9 => (take(4)? as u128 + 1, 0),
            0xca | 0xce | 0xd2 => (4, 0), 0xcb | 0xcf | 0xd3 => (8, 0), 0xcc | 0xd0 => (1, 0), 0xcd | 0xd1 => (2, 0),
            0xd4 => (2, 0), 0xd5 => (3, 0), 0xd6 => (5, 0), 0xd7 => (9, 0), 0xd8 => (17, 0),
            0xdc => (0, take(2)? as u128), 0xdd => (0, take(4)? as u128), 0xde => (0, 2 * take(2)? as u128), 0xdf => (0, 2 * take(4)? as u128),
        };
        if body > (b.len() - *p) as u128 { return Err(Bad::Eof) }
        *p += body as usize;
        todo += kids;
    }
    Ok(())
}
pub struct Dec<'a> { pub b: &'a [u8], pub p: usize }
impl<'a> Dec<'a> {
    fn peek(&self) -> Result<u8, Bad> { self.b.get(self.p).copied().ok_or(Bad::Eof) }
    fn take(&mut self, n: usize) -> Result<&'a [u8], Bad> { if self.b.len() - self.p < n { return Err(Bad::Eof) } self.p += n; Ok(&self.b[self.p - n..self.p]) }
    fn num(&mut self, n: usize) -> Result<u64, Bad> { Ok(be(self.take(n)?)) }
    fn int(&mut self) -> Result<i128, Bad> {
        let c = self.peek()?;
        match c { 0..=0x7f | 0xe0..=0xff | 0xcc..=0xd3 => {} _ => return Err(Bad::Other) }
        let (v, n) = int_at(&self.b[self.p..]).ok_or(Bad::Eof)?; self.p += n; Ok(v)
    }
    fn str(&mut self) -> Result<&'a str, Bad> {
        let n = match self.take(1)?[0] { c @ 0xa0..=0xbf => (c & 31) as usize, 0xd9 => self.num(1)? as usize, 0xda => self.num(2)? as usize, 0xdb => self.num(4)? as usize, _ => return Err(Bad::Other) };
        std::str::from_utf8(self.take(n)?).map_err(|_| Bad::Other)
    }
    fn bin(&mut self) -> Result<&'a [u8], Bad> {
        let n = match self.take(1)?[0] { 0xc4 => self.num(1)? as usize, 0xc5 => self.num(2)? as usize, 0xc6 => self.num(4)? as usize, _ => return Err(Bad::Other) };
        self.take(n)
    }
    fn arr(&mut self) -> Result<Option<u64>, Bad> { Ok(Some(match self.peek()? { c @ 0x90..=0x9f => { self.p += 1; (c & 15) as u64 } 0xdc => { self.p += 1; self.num(2)? } 0xdd => { self.p += 1; self.num(4)? } _ => return Ok(None) })) }
    fn map(&mut self) -> Result<Option<u64>, Bad> { Ok(Some(match self.peek()? { c @ 0x80..=0x8f => { self.p += 1; (c & 15) as u64 } 0xde => { self.p += 1; self.num(2)? } 0xdf => { self.p += 1; self.num(4)? } _ => return Ok(None) })) }
    fn ident(&mut self, names: &[&'static str]) -> Result<Option<usize>, Bad> {
        match self.peek()? {
            0xcf => Err(Bad::Unspec),
            0..=0x7f | 0xcc..=0xce => { let v = self.int()?; Ok(if v < names.len() as i128 { Some(v as usize) } else { None }) }
            0xa0..=0xbf | 0xd9..=0xdb => { let s = self.str()?; Ok(names.iter().position(|n| *n == s)) }
            _ => Err(Bad::Other),
        }
    }
    fn tup(&mut self, shapes: &[Shape]) -> Result<Vec<Val>, Bad> {
        let n = self.arr()?.ok_or(Bad::Other)?;
        let mut v = vec![];
        for (i, s) in shapes.iter().enumerate() { if i as u64 >= n { return Err(Bad::Other) } v.push(self.dec(s)?) }
        if n > shapes.len() as u64 { return Err(Bad::Other) }
        Ok(v)
    }
    fn fields(&mut self, f: &[(&'static str, Shape)]) -> Result<Vec<(&'static str, Option<Val>)>, Bad> {
        if let Some(n) = self.map()? {
            let names: Vec<_> = f.iter().map(|x| x.0).collect();
            let mut v: Vec<(&'static str, Option<Val>)> = names.iter().map(|n| (*n, None)).collect();
            for _ in 0..n {
                match self.ident(&names)? {
                    Some(i) => { if v[i].1.is_some() { return Err(Bad::Other) } v[i].1 = Some(self.dec(&f[i].1)?) }
                    None => { self.dec(&Shape::Ignored)?; }
                }
            }
            if v.iter().any(|x| x.1.is_none()) { return Err(Bad::Other) }
            Ok(v)
        } else {
            let s: Vec<Shape> = f.iter().map(|x| x.1.clone()).collect();
            Ok(self.tup(&s)?.into_iter().zip(f).map(|(v, x)| (x.0, Some(v))).collect())
        }
    }
    fn float(&mut self, wide: bool) -> Result<(f32, f64), Bad> {
        Ok(match self.peek()? {
            0xca => { self.p += 1; let x = f32::from_bits(self.num(4)? as u32); (x, x as f64) }
            0xcb => { self.p += 1; let x = f64::from_bits(self.num(8)?); (x as f32, x) }
            0xc0 => { self.p += 1; (f32::NAN, f64::NAN) }
            _ => { let _ = wide; let v = self.int()?; (v as f32, v as f64) }
        })
    }
    pub fn dec(&mut self, s: &Shape) -> Result<Val, Bad> {
        Ok(match s {
            Shape::Bool => match self.take(1)?[0] { 0xc2 => Val::Bool(false), 0xc3 => Val::Bool(true), _ => return Err(Bad::Other) },
            Shape::Int(t) => { let v = self.int()?; if !t.has(v) { return Err(Bad::Other) } Val::Int(v, *t) }
            Shape::F32 => Val::F32(self.float(false)?.0.to_bits()),
            Shape::F64 => Val::F64(self.float(true)?.1.to_bits()),
            Shape::Char => { let x = self.str()?; let mut c = x.chars(); match (c.next(), c.next()) { (Some(a), None) => Val::Char(a), _ => return Err(Bad::Other) } }
            Shape::Str => Val::Str(self.str()?.into()),
            Shape::Bytes => Val::Bytes(self.bin()?.into()),
            Shape::Opt(x) => if self.peek()? == 0xc0 { self.p += 1; Val::None } else { Val::Some(Box::new(self.dec(x)?)) },
            Shape::Unit | Shape::UnitStruct => { if self.take(1)?[0] != 0xc0 { return Err(Bad::Other) } if *s == Shape::Unit { Val::Unit } else { Val::UnitStruct } }
            Shape::Newtype(x) => Val::Newtype(Box::new(self.dec(x)?)),
            Shape::Seq(x) => { let n = self.arr()?.ok_or(Bad::Other)?; let mut v = vec![]; for _ in 0..n { v.push(self.dec(x)?) } Val::Seq(v, Len::Exact) }
            Shape::SeqTake(x, k) => { let n = self.arr()?.ok_or(Bad::Other)?; let mut v = vec![]; for _ in 0..n.min(*k as u64) { v.push(self.dec(x)?) } if n > *k as u64 { return Err(Bad::Other) } Val::Seq(v, Len::Exact) }
            Shape::Tuple(v) => Val::Tuple(self.tup(v)?, Len::Exact),
            Shape::TupleStruct(v) => Val::TupleStruct(self.tup(v)?, Len::Exact),
            Shape::Map(k, x) => { let n = self.map()?.ok_or(Bad::Other)?; let mut v = vec![]; for _ in 0..n { let a = self.dec(k)?; v.push((a, self.dec(x)?)) } Val::Map(v, Len::Exact) }
            Shape::MapTake(k, x, t) => { let n = self.map()?.ok_or(Bad::Other)?; let mut v = vec![]; for _ in 0..n.min(*t as u64) { let a = self.dec(k)?; v.push((a, self.dec(x)?)) } if n > *t as u64 { return Err(Bad::Other) } Val::Map(v, Len::Exact) }
            Shape::StructTake(k, x, n) => { let at = self.p; let m = self.map()?.is_some(); self.p = at; return self.dec(&if m { Shape::MapTake(k.clone(), x.clone(), *n) } else { Shape::SeqTake(x.clone(), *n) }) }
            Shape::Struct(f) => Val::Struct(self.fields(f)?, Len::Exact),
            Shape::Enum(vs) => {
                let names: Vec<_> = vs.iter().map(|x| x.0).collect();
                let c = self.peek()?;
                if c == 0xde || c == 0xdf { return Err(Bad::Unspec) }
                if c == 0x81 {
                    self.p += 1;
                    let i = self.ident(&names)?.ok_or(Bad::Other)?; let n = names[i];
                    match &vs[i].1 {
                        VShape::Unit => return Err(Bad::Other),
                        VShape::New(x) => Val::NewVar(i as u32, n, Box::new(self.dec(x)?)),
                        VShape::Tup(x) => Val::TupVar(i as u32, n, self.tup(x)?, Len::Exact),
                        VShape::Struct(f) => Val::StructVar(i as u32, n, self.fields(f)?, Len::Exact),
                    }
                } else {
                    let i = self.ident(&names)?.ok_or(Bad::Other)?;
                    if vs[i].1 != VShape::Unit { return Err(Bad::Other) }
                    Val::UnitVar(i as u32, names[i])
                }
            }
            Shape::Ignored => { let n = skip(&self.b[self.p..])?; self.p += n; Val::Unit }
            Shape::Any => {
                let c = self.peek()?;
                let mut ty = |d: &mut Self, t| d.int().map(|v| Val::Int(v, t));
                match c {
                    0..=0x7f | 0xcc => ty(self, IntTy::U8)?, 0xcd => ty(self, IntTy::U16)?, 0xce => ty(self, IntTy::U32)?, 0xcf => ty(self, IntTy::U64)?,
                    0xe0..=0xff | 0xd0 => ty(self, IntTy::I8)?, 0xd1 => ty(self, IntTy::I16)?, 0xd2 => ty(self, IntTy::I32)?, 0xd3 => ty(self, IntTy::I64)?,
                    0x80..=0x8f | 0xde | 0xdf => self.dec(&Shape::Map(Box::new(Shape::Any), Box::new(Shape::Any)))?,
                    0x90..=0x9f | 0xdc | 0xdd => self.dec(&Shape::Seq(Box::new(Shape::Any)))?,
                    0xa0..=0xbf | 0xd9..=0xdb => self.dec(&Shape::Str)?,
                    0xc0 => { self.p += 1; Val::Unit }
                    0xc1 => return Err(Bad::Reserved),
                    0xc2 | 0xc3 => self.dec(&Shape::Bool)?, 0xc4..=0xc6 => self.dec(&Shape::Bytes)?,
                    0xca => self.dec(&Shape::F32)?, 0xcb => self.dec(&Shape::F64)?,
                    _ => return Err(Bad::Other),
                }
            }
        })
    }
}

// ------------------------------------------------------------------ generators
fn wide_len(r: &mut Rng, o: &mut Vec<u8>, n: usize, fix: Option<(u8, usize)>, c8: Option<u8>, c16: u8) {
    if let Some((f, max)) = fix { if n < max && r.chance(2, 3) { o.push(f | n as u8); return } }
    match r.below(3) { 0 if c8.is_some() && n < 256 => { o.push(c8.unwrap()); o.push(n as u8) } 1 => { o.push(c16); o.extend((n as u16).to_be_bytes()) } _ => { o.push(c16 + 1); o.extend((n as u32).to_be_bytes()) } }
}
pub fn hdr_one(r: &mut Rng, o: &mut Vec<u8>, fix: u8, wide: u8) { match r.below(4) { 0 => o.extend([wide, 0, 1]), 1 => o.extend([wide + 1, 0, 0, 0, 1]), _ => o.push(fix) } }
fn wide_int(r: &mut Rng, o: &mut Vec<u8>, v: i128) {
    let mut c: Vec<Vec<u8>> = vec![];
    if (-32..128).contains(&v) { c.push(vec![v as i8 as u8]); }
    macro_rules! f { ($t:ty, $k:expr) => { if let Ok(x) = <$t>::try_from(v) { let mut b = vec![$k]; b.extend(x.to_be_bytes()); c.push(b) } } }
    f!(u8, 0xcc); f!(u16, 0xcd); f!(u32, 0xce); f!(u64, 0xcf); f!(i8, 0xd0); f!(i16, 0xd1); f!(i32, 0xd2); f!(i64, 0xd3);
    o.extend(r.pick(&c))
}
/// some valid encoding of a value of the shape, with any width of header
pub fn gen(r: &mut Rng, s: &Shape, o: &mut Vec<u8>) {
    match s {
        Shape::Bool => o.push(0xc2 | r.below(2) as u8),
        Shape::Int(t) => { let w = if r.chance(1, 4) { *r.pick(&INTS) } else { *t }; let v = gen_int(r, w); wide_int(r, o, v) }
        Shape::F32 | Shape::F64 => match r.below(4) { 0 => { o.push(0xca); o.extend(gen_f32(r).to_be_bytes()) } 1 => { o.push(0xcb); o.extend(gen_f64(r).to_be_bytes()) } 2 => { let t = *r.pick(&INTS); let v = gen_int(r, t); wide_int(r, o, v) } _ => o.push(0xc0) },
        Shape::Char => { let c = gen_char(r).to_string(); str_(r, o, c.as_bytes()) }
        Shape::Str => { let c = gen_string(r, 12); str_(r, o, c.as_bytes()) }
        Shape::Bytes => { let b = gen_bytes(r, 12); wide_len(r, o, b.len(), None, Some(0xc4), 0xc5); o.extend(b) }
        Shape::Opt(x) => if r.chance(1, 3) { o.push(0xc0) } else { gen(r, x, o) },
        Shape::Unit | Shape::UnitStruct => o.push(0xc0),
        Shape::Newtype(x) => gen(r, x, o),
        Shape::Seq(x) | Shape::SeqTake(x, _) => { let n = r.len(4); wide_len(r, o, n, Some((0x90, 16)), None, 0xdc); for _ in 0..n { gen(r, x, o) } }
        Shape::Tuple(v) | Shape::TupleStruct(v) => tup(r, v, o),
        Shape::StructTake(_, x, t) if r.chance(1, 2) => return gen(r, &Shape::SeqTake(x.clone(), *t), o),
        Shape::Map(k, x) | Shape::MapTake(k, x, _) | Shape::StructTake(k, x, _) => { let n = r.len(3); wide_len(r, o, n, Some((0x80, 16)), None, 0xde); for _ in 0..n { gen(r, k, o); gen(r, x, o) } }
        Shape::Struct(f) => fields_(r, f, o),
        Shape::Enum(vs) => {
            let i = r.below(vs.len());
            match &vs[i].1 {
                VShape::Unit => ident(r, i, vs[i].0, o),
                VShape::New(x) => { o.push(0x81); ident(r, i, vs[i].0, o); gen(r, x, o) }
                VShape::Tup(x) => { o.push(0x81); ident(r, i, vs[i].0, o); tup(r, x, o) }
                VShape::Struct(f) => { o.push(0x81); ident(r, i, vs[i].0, o); fields_(r, f, o) }
            }
        }
        Shape::Ignored | Shape::Any => item(r, o, 2),
    }
}
fn str_(r: &mut Rng, o: &mut Vec<u8>, b: &[u8]) { wide_len(r, o, b.len(), Some((0xa0, 32)), Some(0xd9), 0xda); o.extend(b) }
fn ident(r: &mut Rng, i: usize, n: &str, o: &mut Vec<u8>) {
    if r.chance(1, 30) { let i = i as u32; match r.below(3) { 0 => { o.push(0xcd); o.extend(((i + 256 * r.below(256) as u32) as u16).to_be_bytes()) } 1 => { o.push(0xce); o.extend((i | (r.byte() as u32) << (8 * r.below(4))).to_be_bytes()) } _ => { o.push(0xcc); o.push(i as u8 + 128) } } return }
    if r.chance(1, 2) { str_(r, o, n.as_bytes()) } else { match r.below(4) { 0 => { o.push(0xcc); o.push(i as u8) } 1 => { o.push(0xcd); o.extend((i as u16).to_be_bytes()) } 2 => { o.push(0xce); o.extend((i as u32).to_be_bytes()) } _ => o.push(i as u8) } }
}
fn tup(r: &mut Rng, v: &[Shape], o: &mut Vec<u8>) { wide_len(r, o, v.len(), Some((0x90, 16)), None, 0xdc); for x in v { gen(r, x, o) } }
fn fields_(r: &mut Rng, f: &[(&'static str, Shape)], o: &mut Vec<u8>) {
    if r.chance(1, 3) { let v: Vec<Shape> = f.iter().map(|x| x.1.clone()).collect(); return tup(r, &v, o) }
    let extra = if r.chance(1, 3) { 1 + r.below(3) } else { 0 };
    let mut order: Vec<usize> = (0..f.len() + extra).collect();
    for i in (1..order.len()).rev() { let j = r.below(i + 1); order.swap(i, j) }
    wide_len(r, o, order.len(), Some((0x80, 16)), None, 0xde);
    for i in order {
        if i < f.len() { ident(r, i, f[i].0, o); gen(r, &f[i].1, o) }
        else { if r.chance(1, 2) { match r.below(3) { 0 => o.push(0x70), 1 => { o.push(0xcd); o.extend((256 + r.below(4) as u16).to_be_bytes()) } _ => { o.push(0xce); o.extend((65536 + r.below(4) as u32).to_be_bytes()) } } } else { str_(r, o, b"unknown") } item(r, o, 2) }
    }
}
/// any single item
pub fn item(r: &mut Rng, o: &mut Vec<u8>, depth: usize) {
    match r.below(if depth == 0 { 9 } else { 13 }) {
        0 | 1 => { let t = *r.pick(&INTS); let v = gen_int(r, t); wide_int(r, o, v) }
        2 => o.push(*r.pick(&[0xc0, 0xc2, 0xc3])),
        3 => { let s = gen_string(r, 10); str_(r, o, s.as_bytes()) }
        4 => { let b = gen_bytes(r, 10); wide_len(r, o, b.len(), None, Some(0xc4), 0xc5); o.extend(b) }
        5 => { o.push(0xca); o.extend(gen_f32(r).to_be_bytes()) }
        6 => { o.push(0xcb); o.extend(gen_f64(r).to_be_bytes()) }
        7 => { let k = r.below(5); o.push(0xd4 + k as u8); for _ in 0..(1 << k) + 1 { o.push(r.byte()) } }
        8 => { let b = gen_bytes(r, 10); match r.below(3) { 0 => { o.push(0xc7); o.push(b.len() as u8) } 1 => { o.push(0xc8); o.extend((b.len() as u16).to_be_bytes()) } _ => { o.push(0xc9); o.extend((b.len() as u32).to_be_bytes()) } } o.push(r.byte()); o.extend(b) }
        9 | 10 => { let n = r.len(4); wide_len(r, o, n, Some((0x90, 16)), None, 0xdc); for _ in 0..n { item(r, o, depth - 1) } }
        _ => { let n = r.len(3); wide_len(r, o, n, Some((0x80, 16)), None, 0xde); for _ in 0..n { item(r, o, depth - 1); item(r, o, depth - 1) } }
    }
}
pub fn mutate(r: &mut Rng, o: &mut Vec<u8>) {
    for _ in 0..1 + r.below(2) {
        if let Some(n) = r.dint() { let i = r.below(o.len() + 1); let b = n.to_be_bytes(); match r.below(4) { 0 => { o.splice(i..i, b[14..].iter().copied()); } 1 => { o.splice(i..i, b[12..].iter().copied()); } _ if i < o.len() => o[i] = n as u8, _ => o.push(n as u8) } continue }
        match r.below(7) {
            0 => { let n = r.below(o.len() + 1); o.truncate(n) }
            1 if !o.is_empty() => { let i = r.below(o.len()); o[i] = r.byte() }
            2 if !o.is_empty() => { let i = r.below(o.len().min(3)); o[i] = *r.pick(&[0x80, 0x81, 0x82, 0x90, 0x91, 0xa0, 0xa1, 0xc0, 0xc1, 0xc4, 0xc7, 0xc9, 0xca, 0xcc, 0xcf, 0xd0, 0xd3, 0xd4, 0xd9, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff, 0x7f]) }
            3 if !o.is_empty() => { let i = r.below(o.len()); o.remove(i); }
            4 => { let i = r.below(o.len() + 1); o.insert(i, r.byte()) }
            5 if !o.is_empty() => { let i = r.below(o.len()); o[i] = o[i].wrapping_add(if r.chance(1, 2) { 1 } else { 255 }) }
            _ => { let n = r.below(4); for _ in 0..n { o.push(r.byte()) } }
        }
    }
}
