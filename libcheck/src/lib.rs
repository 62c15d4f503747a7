//! Machine checks (Kani) of the contracts which the deductive proofs assume of library functions.
//! `complete`: every input of the function's type is covered. `bounded`: every input up to the stated size.
#![allow(dead_code)]
#![cfg(kani)]
#![allow(irrefutable_let_patterns, unused_comparisons)]

fn be(b: &[u8]) -> u128 { let mut r = 0u128; let mut i = 0; while i < b.len() { r = r * 256 + b[i] as u128; i += 1 } r }
/// two's complement reading
fn sx(n: u128, bits: u32) -> i128 { if n < 1 << (bits - 1) { n as i128 } else { n as i128 - (1i128 << bits) } }

macro_rules! be_int { ($($t:ty, $n:expr, $from:ident, $to:ident, $signed:expr;)*) => {$(
    #[kani::proof] #[kani::unwind(9)] fn $from() { let b: [u8; $n] = kani::any(); let r = <$t>::from_be_bytes(b); if $signed { assert!(r as i128 == sx(be(&b), 8 * $n)) } else { assert!(r as i128 == be(&b) as i128) } }
    #[kani::proof] #[kani::unwind(9)] fn $to() { let v: $t = kani::any(); let b = v.to_be_bytes(); let want = if (v as i128) < 0 { v as i128 + (1i128 << (8 * $n)) } else { v as i128 }; assert!(b.len() == $n && be(&b) as i128 == want) }
)*} }
be_int! { u8, 1, complete_u8_from_be, complete_u8_to_be, false; u16, 2, complete_u16_from_be, complete_u16_to_be, false; u32, 4, complete_u32_from_be, complete_u32_to_be, false; u64, 8, complete_u64_from_be, complete_u64_to_be, false;
    i8, 1, complete_i8_from_be, complete_i8_to_be, true; i16, 2, complete_i16_from_be, complete_i16_to_be, true; i32, 4, complete_i32_from_be, complete_i32_to_be, true; i64, 8, complete_i64_from_be, complete_i64_to_be, true; }
#[kani::proof] #[kani::unwind(9)] fn complete_f32_be() { let v: u32 = kani::any(); let f = f32::from_bits(v); let g = f32::from_be_bytes(v.to_be_bytes()); assert!(g.to_bits() == f.to_bits()); assert!(be(&f.to_be_bytes()) == f.to_bits() as u128) }
#[kani::proof] #[kani::unwind(9)] fn complete_f64_be() { let v: u64 = kani::any(); let f = f64::from_bits(v); let g = f64::from_be_bytes(v.to_be_bytes()); assert!(g.to_bits() == f.to_bits()); assert!(be(&f.to_be_bytes()) == f.to_bits() as u128) }
#[kani::proof] fn complete_u16_from_le() { let b: [u8; 2] = kani::any(); assert!(u16::from_le_bytes(b) as u32 == b[0] as u32 + 256 * b[1] as u32) }

macro_rules! conv { ($($name:ident: $a:ty => $($b:ty),*;)*) => {$( #[kani::proof] fn $name() { let a: $a = kani::any(); $({
    let r = <$b>::try_from(a); let fits = (<$b>::MIN as i128) <= a as i128 && a as i128 <= <$b>::MAX as i128;
    assert!(r.is_ok() == fits); if let Ok(x) = r { assert!(x as i128 == a as i128) } })* } )*} }
conv! { complete_try_from_i8: i8 => i8, u8, i16, u16, i32, u32, i64, u64, usize; complete_try_from_u8: u8 => i8, u8, i16, u16, i32, u32, i64, u64, usize; complete_try_from_i16: i16 => i8, u8, i16, u16, i32, u32, i64, u64, usize; complete_try_from_u16: u16 => i8, u8, i16, u16, i32, u32, i64, u64, usize;
    complete_try_from_i32: i32 => i8, u8, i16, u16, i32, u32, i64, u64, usize; complete_try_from_u32: u32 => i8, u8, i16, u16, i32, u32, i64, u64, usize; complete_try_from_i64: i64 => i8, u8, i16, u16, i32, u32, i64, u64, usize; complete_try_from_u64: u64 => i8, u8, i16, u16, i32, u32, i64, u64, usize; complete_try_from_usize: usize => i8, u8, i16, u16, i32, u32, i64, u64, usize; }
macro_rules! sign { ($($t:ty, $u:ident, $n:ident;)*) => {$(
    #[kani::proof] fn $u() { let x: $t = kani::any(); let want = if (x as i128) < 0 { -(x as i128) } else { x as i128 }; assert!(x.unsigned_abs() as i128 == want) }
    #[kani::proof] fn $n() { let x: $t = kani::any(); kani::assume(x != <$t>::MIN); assert!(core::ops::Neg::neg(x) as i128 == -(x as i128)) } )*} }
sign! { i8, complete_i8_abs, complete_i8_neg; i16, complete_i16_abs, complete_i16_neg; i32, complete_i32_abs, complete_i32_neg; i64, complete_i64_abs, complete_i64_neg; }

#[kani::proof] fn complete_option_copied_or_replace() {
    let o: Option<u8> = kani::any(); assert!(o.as_ref().copied() == o);
    let p: Option<u8> = kani::any(); assert!(o.or(p) == if o.is_some() { o } else { p });
    let (mut a, b): (u64, u64) = kani::any(); let old = a; assert!(core::mem::replace(&mut a, b) == old && a == b);
}
#[kani::proof] fn complete_array_from_slice() { let b: [u8; 8] = kani::any(); let a1: [u8; 1] = b[..1].try_into().unwrap(); let a2: [u8; 2] = b[..2].try_into().unwrap(); let a4: [u8; 4] = b[..4].try_into().unwrap(); let a8: [u8; 8] = b[..].try_into().unwrap(); assert!(a1[..] == b[..1] && a2[..] == b[..2] && a4[..] == b[..4] && a8 == b) }
#[kani::proof] fn complete_char_from_u32() { let x: u32 = kani::any(); let r = char::from_u32(x); assert!(r.is_some() == (x < 0xD800 || (0xE000 <= x && x < 0x11_0000))); if let Some(c) = r { assert!(c as u32 == x) } }
#[kani::proof] fn complete_float_classes() {
    let f = f32::from_bits(kani::any()); let (e, m) = ((f.to_bits() >> 23) & 0xff, f.to_bits() & 0x7f_ffff); assert!(f.is_finite() == (e != 0xff) && f.is_nan() == (e == 0xff && m != 0) && f.is_infinite() == (e == 0xff && m == 0));
    let f = f64::from_bits(kani::any()); let (e, m) = ((f.to_bits() >> 52) & 0x7ff, f.to_bits() & 0xf_ffff_ffff_ffff); assert!(f.is_finite() == (e != 0x7ff) && f.is_nan() == (e == 0x7ff && m != 0) && f.is_infinite() == (e == 0x7ff && m == 0));
    assert!(f32::NAN.is_nan() && f64::NAN.is_nan());
}
#[kani::proof] fn complete_ascii() {
    let x: u8 = kani::any(); let (d, u, l) = (48 <= x && x <= 57, 65 <= x && x <= 90, 97 <= x && x <= 122);
    assert!(x.is_ascii_digit() == d && x.is_ascii_uppercase() == u && x.is_ascii_lowercase() == l && x.is_ascii_alphabetic() == (u || l) && x.is_ascii_alphanumeric() == (d || u || l) && x.is_ascii() == (x < 128) && x.is_ascii_control() == (x < 32 || x == 127));
    assert!(x.is_ascii_hexdigit() == (d || (65 <= x && x <= 70) || (97 <= x && x <= 102)) && x.is_ascii_whitespace() == (x == 32 || x == 9 || x == 10 || x == 12 || x == 13));
    assert!(x.to_ascii_lowercase() == if u { x + 32 } else { x } && x.to_ascii_uppercase() == if l { x - 32 } else { x });
}
/// RFC 3629
fn utf8(c: char) -> ([u8; 4], usize) {
    let x = c as u32; let t = |s: u32| 0x80 + ((x >> s) % 64) as u8;
    if x < 0x80 { ([x as u8, 0, 0, 0], 1) } else if x < 0x800 { ([0xC0 + (x >> 6) as u8, t(0), 0, 0], 2) } else if x < 0x1_0000 { ([0xE0 + (x >> 12) as u8, t(6), t(0), 0], 3) } else { ([0xF0 + (x >> 18) as u8, t(12), t(6), t(0)], 4) }
}
#[kani::proof] #[kani::unwind(5)] fn complete_char_encode_utf8() {
    let c: char = kani::any(); let (w, n) = utf8(c);
    let mut b = [0u8; 4]; let r = c.encode_utf8(&mut b).as_bytes(); assert!(r.len() == n); let mut i = 0; while i < n { assert!(r[i] == w[i]); i += 1 }
}
#[kani::proof] #[kani::unwind(8)] fn bounded_7_char_encode_utf8_at() {
    let c: char = kani::any(); let (w, n) = utf8(c); let o: [u8; 7] = kani::any(); let mut b = o; let d: usize = kani::any(); kani::assume(d <= 7 && d + n <= 7);
    let r = c.encode_utf8(&mut b[d..]).len(); assert!(r == n);
    let mut i = 0; while i < 7 { assert!(b[i] == if i >= d && i < d + n { w[i - d] } else { o[i] }); i += 1 }
}
#[kani::proof] #[kani::unwind(8)] fn bounded_7_copy_within() {
    let o: [u8; 7] = kani::any(); let mut b = o; let (lo, hi, d): (usize, usize, usize) = kani::any(); kani::assume(lo <= hi && hi <= 7 && d <= 7 && d + (hi - lo) <= 7);
    b.copy_within(lo..hi, d);
    let mut i = 0; while i < 7 { assert!(b[i] == if i >= d && i < d + (hi - lo) { o[lo + (i - d)] } else { o[i] }); i += 1 }
}
/// well-formed UTF-8 (Unicode table 3-7): length of the sequence at i, 0 if none
fn seq_at(b: &[u8], i: usize) -> usize {
    let c = |k: usize, lo: u8, hi: u8| i + k < b.len() && lo <= b[i + k] && b[i + k] <= hi;
    match b[i] { 0..=0x7f => 1, 0xC2..=0xDF if c(1, 0x80, 0xBF) => 2, 0xE0 if c(1, 0xA0, 0xBF) && c(2, 0x80, 0xBF) => 3, 0xE1..=0xEC | 0xEE | 0xEF if c(1, 0x80, 0xBF) && c(2, 0x80, 0xBF) => 3, 0xED if c(1, 0x80, 0x9F) && c(2, 0x80, 0xBF) => 3,
        0xF0 if c(1, 0x90, 0xBF) && c(2, 0x80, 0xBF) && c(3, 0x80, 0xBF) => 4, 0xF1..=0xF3 if c(1, 0x80, 0xBF) && c(2, 0x80, 0xBF) && c(3, 0x80, 0xBF) => 4, 0xF4 if c(1, 0x80, 0x8F) && c(2, 0x80, 0xBF) && c(3, 0x80, 0xBF) => 4, _ => 0 }
}
fn valid(b: &[u8]) -> Option<usize> { let (mut i, mut n) = (0, 0); while i < b.len() { let k = seq_at(b, i); if k == 0 { return None } i += k; n += 1 } Some(n) }
#[kani::proof] #[kani::unwind(7)] fn bounded_5_from_utf8_and_char_parse() {
    let b: [u8; 5] = kani::any(); let n: usize = kani::any(); kani::assume(n <= 5); let s = &b[..n];
    let r = core::str::from_utf8(s); assert!(r.is_ok() == valid(s).is_some());
    if let Ok(t) = r { assert!(t.len() == n && t.as_ptr() == s.as_ptr()); let p = t.parse::<char>(); assert!(p.is_ok() == (valid(s) == Some(1))); if let Ok(c) = p { let (w, k) = utf8(c); assert!(k == n); let mut i = 0; while i < k { assert!(w[i] == s[i]); i += 1 } } }
}
#[kani::proof] #[kani::unwind(6)] fn bounded_4_str_slice() {
    let b: [u8; 4] = kani::any(); kani::assume(valid(&b).is_some()); let t = core::str::from_utf8(&b).unwrap();
    let (x, y): (usize, usize) = kani::any(); kani::assume(x <= y && y <= 4); let bd = |i: usize| i == 4 || b[i] & 0xC0 != 0x80;
    kani::assume(bd(x) && bd(y)); let u = &t[x..y]; assert!(u.len() == y - x && u.as_ptr() as usize == b.as_ptr() as usize + x);
}
fn inum(s: &[u8], signed: bool) -> Option<i128> {
    let neg = signed && s.len() > 0 && s[0] == b'-'; let mut i = if neg || (s.len() > 0 && s[0] == b'+') { 1 } else { 0 };
    if i == s.len() { return None } let mut v = 0i128; while i < s.len() { if !(b'0'..=b'9').contains(&s[i]) { return None } v = v * 10 + (s[i] - b'0') as i128; i += 1 } Some(if neg { -v } else { v })
}
#[kani::proof] #[kani::unwind(6)] fn bounded_4_int_from_str() {
    let b: [u8; 4] = kani::any(); let n: usize = kani::any(); kani::assume(n <= 4); let s = &b[..n]; let mut i = 0; while i < n { kani::assume(b[i] < 0x80); i += 1 }
    let t = core::str::from_utf8(s).unwrap();
    assert!(t.parse::<u64>().ok().map(|x| x as i128) == inum(s, false)); assert!(t.parse::<i64>().ok().map(|x| x as i128) == inum(s, true));
}

#[cfg(feature = "core")]
mod containers {
    /// an arbitrary prefix of an arbitrary array
    fn any<const K: usize>() -> ([u8; K], usize) { let b: [u8; K] = kani::any(); let n: usize = kani::any(); kani::assume(n <= K); (b, n) }
    fn cat(got: &[u8], a: &[u8], b: &[u8]) { assert!(got.len() == a.len() + b.len()); let mut i = 0; while i < a.len() { assert!(got[i] == a[i]); i += 1 } let mut j = 0; while j < b.len() { assert!(got[a.len() + j] == b[j]); j += 1 } }

    #[kani::proof] #[kani::unwind(6)] fn bounded_3_arrayvec() {
        let (p, n) = any::<3>(); let (d, m) = any::<4>();
        let mut v = arrayvec::ArrayVec::<u8, 3>::new(); v.try_extend_from_slice(&p[..n]).unwrap(); cat(&v, &p[..n], &[]);
        assert!(v.len() == n && v.capacity() == 3 && v.remaining_capacity() == 3 - n);
        let mut w = v.clone(); let r = w.try_extend_from_slice(&d[..m]); assert!(r.is_ok() == (n + m <= 3)); cat(&w, &p[..n], if r.is_ok() { &d[..m] } else { &[] });
        let mut w = v.clone(); let r = w.try_push(d[0]); assert!(r.is_ok() == (n < 3)); cat(&w, &p[..n], if r.is_ok() { &d[..1] } else { &[] });
        if n < 3 { v.push(d[0]); cat(&v, &p[..n], &d[..1]) }
    }
    macro_rules! hl { ($f:ident, $l:ty) => { #[kani::proof] #[kani::unwind(6)] fn $f() {
        let (p, n) = any::<3>(); let (d, m) = any::<4>();
        let mut v = heapless::Vec::<u8, 3, $l>::new(); v.extend_from_slice(&p[..n]).unwrap(); cat(&v, &p[..n], &[]); assert!(v.len() == n && v.capacity() == 3);
        let mut w = v.clone(); let r = w.extend_from_slice(&d[..m]); assert!(r.is_ok() == (n + m <= 3)); cat(&w, &p[..n], if r.is_ok() { &d[..m] } else { &[] });
        let mut w = v.clone(); let r = w.push(d[0]); assert!(r.is_ok() == (n < 3)); cat(&w, &p[..n], if r.is_ok() { &d[..1] } else { &[] });
        let mut w = v.clone(); let x: &mut heapless::VecView<u8, $l> = &mut w; assert!(x.len() == n && x.capacity() == 3); let r = x.extend_from_slice(&d[..m]); assert!(r.is_ok() == (n + m <= 3)); cat(x, &p[..n], if r.is_ok() { &d[..m] } else { &[] });
        let x: &mut heapless::VecView<u8, $l> = &mut v; let r = x.push(d[0]); assert!(r.is_ok() == (n < 3)); cat(x, &p[..n], if r.is_ok() { &d[..1] } else { &[] });
    } } }
    hl!(bounded_3_heapless_usize, usize); hl!(bounded_3_heapless_u8, u8); hl!(bounded_3_heapless_u16, u16);
    #[kani::proof] #[kani::unwind(6)] fn bounded_3_tinyvec_arrayvec() {
        let (p, n) = any::<3>(); let (d, m) = any::<3>();
        let mut v = tinyvec::ArrayVec::<[u8; 3]>::from(p); v.set_len(n); assert!(v.len() == n && v.capacity() == 3); cat(&v, &p[..n], &[]);
        { let mut w = v.clone(); let s = w.grab_spare_slice_mut(); assert!(s.len() == 3 - n); let mut i = 0; while i < s.len() { s[i] = d[i]; i += 1 } assert!(w.len() == n); w.set_len(3); cat(&w, &p[..n], &d[..3 - n]); }
        { let mut w = v.clone(); let r = w.try_push(d[0]); assert!(r.is_none() == (n < 3)); cat(&w, &p[..n], if r.is_none() { &d[..1] } else { &[] }) }
        if n + m <= 3 { v.extend_from_slice(&d[..m]); cat(&v, &p[..n], &d[..m]) }
    }
    #[kani::proof] #[kani::unwind(6)] fn bounded_3_tinyvec_slicevec() {
        let (p, n) = any::<3>(); let d: [u8; 3] = kani::any();
        { let mut b = p; let mut w = tinyvec::SliceVec::from_slice_len(&mut b, n); assert!(w.len() == n && w.capacity() == 3); let s = w.grab_spare_slice_mut(); assert!(s.len() == 3 - n); let mut i = 0; while i < s.len() { s[i] = d[i]; i += 1 } assert!(w.len() == n); w.set_len(3); cat(&w, &p[..n], &d[..3 - n]); }
    }
    #[kani::proof] #[kani::unwind(6)] fn bounded_2_tinyvec_tinyvec() {
        let (p, n) = any::<3>(); let m: usize = kani::any(); kani::assume(m <= 3);
        let mut v = tinyvec::TinyVec::<[u8; 2]>::new(); v.extend_from_slice(&p[..n]); assert!(v.len() == n); cat(&v, &p[..n], &[]);
        let r = v.try_reserve(m); cat(&v, &p[..n], &[]); if r.is_ok() { if let tinyvec::TinyVec::Inline(a) = &v { assert!(a.len() + m <= 2) } }
    }
    #[kani::proof] #[kani::unwind(6)] fn bounded_3_vec_extend_and_clone_from_slice() {
        let (p, n) = any::<3>(); let (d, m) = any::<3>();
        let mut v = p[..n].to_vec(); v.extend(d[..m].iter().copied()); cat(&v, &p[..n], &d[..m]);
        let mut b = p; b[..m].clone_from_slice(&d[..m]); let mut i = 0; while i < 3 { assert!(b[i] == if i < m { d[i] } else { p[i] }); i += 1 }
        assert!(core::slice::from_ref(&d[0]).len() == 1 && core::slice::from_ref(&d[0])[0] == d[0]);
    }
    #[kani::proof] #[kani::unwind(6)] fn bounded_3_cursor_write_all() {
        use std::io::Write;
        let (p, n) = any::<3>(); let (d, m) = any::<2>(); let at: usize = kani::any(); kani::assume(at <= 3);
        let mut b = p; let mut c = std::io::Cursor::new(&mut b[..n]); c.set_position(at as u64);
        if c.write_all(&d[..m]).is_ok() { assert!(c.position() == (at + m) as u64); let v = c.into_inner(); if m > 0 { assert!(v.len() >= at + m) } let mut i = 0; while i < n { assert!(v[i] == if i >= at && i < at + m { d[i - at] } else { p[i] }); i += 1 } }
    }
}
