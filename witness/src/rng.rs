/// splitmix64: every case is a function of (seed, property, index)
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, prop: &str, i: u64) -> Self {
        let mut h = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ i.wrapping_mul(0xD134_2543_DE82_EF95);
        for b in prop.bytes() { h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3); }
        let mut r = Rng(h); r.next(); r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len())] }
    pub fn byte(&mut self) -> u8 { self.next() as u8 }
    /// small lengths mostly
    pub fn len(&mut self, max: usize) -> usize { let k = self.below(4); let m = match k { 0 => 1, 1 => 3, 2 => max / 2, _ => max }; self.below(m.min(max) + 1) }
}

/// literals new in the source under check (`VP_DICT`: lines `i N`, `s HEX`, `f BITS64`); empty on the tree the checks were written for
pub struct Dict { pub ints: Vec<i128>, pub strs: Vec<String>, pub floats: Vec<u64> }
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict { ints: vec![], strs: vec![], floats: vec![] };
        let t = std::env::var("VP_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        for l in t.lines() {
            let Some((k, v)) = l.split_once(' ') else { continue };
            match k {
                "i" => if let Ok(n) = v.parse() { d.ints.push(n) },
                "f" => if let Ok(n) = v.parse() { d.floats.push(n) },
                _ => { let b: Vec<u8> = (0..v.len() / 2).filter_map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).ok()).collect(); if let Ok(s) = String::from_utf8(b) { d.strs.push(s) } }
            }
        }
        d
    })
}
/// every draw returns None, without touching the sequence, when there is nothing of the kind
impl Rng {
    fn often(&mut self) -> bool { self.chance(1, 5) }
    pub fn dint(&mut self) -> Option<i128> {
        let v = &dict().ints;
        if v.is_empty() || !self.often() { return None }
        let n = *self.pick(v);
        Some(match self.below(8) { 0 => n - 1, 1 => n + 1, 2 => -n, 3 if (0..127).contains(&n) => 1i128 << n, 4 if (0..127).contains(&n) => (1i128 << n) - 1, _ => n })
    }
    pub fn dlen(&mut self) -> Option<usize> { self.dint().filter(|n| (0..=70_000).contains(n)).map(|n| n as usize) }
    pub fn dchar(&mut self) -> Option<char> {
        if !dict().strs.is_empty() && self.often() { let v = self.pick(&dict().strs).chars().collect::<Vec<_>>(); if !v.is_empty() { return Some(*self.pick(&v)) } }
        self.dint().and_then(|n| u32::try_from(n).ok()).and_then(char::from_u32)
    }
    pub fn dstr(&mut self) -> Option<String> {
        let v = &dict().strs;
        if v.is_empty() || !self.often() { return None }
        Some(self.pick(v).clone())
    }
    pub fn dbyte(&mut self) -> Option<u8> { self.dint().filter(|n| (-128..256).contains(n)).map(|n| n as u8) }
    pub fn dfloat(&mut self) -> Option<f64> {
        let v = &dict().floats;
        if !v.is_empty() && self.often() { let b = *self.pick(v); return Some(f64::from_bits(b)) }
        self.dint().map(|n| match self.below(3) { 0 => f64::from_bits(n as u64), 1 => f32::from_bits(n as u32) as f64, _ => n as f64 })
    }
}
