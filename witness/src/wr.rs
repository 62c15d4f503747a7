//! Operation sequences on the provided writers against a model.
use crate::rng::Rng;
use ser_write::{SerWrite, SliceWriter};

#[derive(Clone, Debug)]
pub enum Op { Write(Vec<u8>), Byte(u8), Str(String), Fmt(String), Clear, Split, Nested(Vec<u8>) }
fn gen_op(r: &mut Rng, cap: usize, slice: bool) -> Op {
    let n = match r.below(6) { 0 => 0, 1 => cap, 2 => cap + 1, 3 => r.below(cap + 2), _ => r.below(4) };
    match r.below(if slice { 10 } else { 6 }) {
        0 => Op::Byte(r.byte()),
        1 => Op::Str((0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()),
        2 => Op::Nested((0..n).map(|_| r.byte()).collect()),
        6 => Op::Fmt((0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()),
        7 => Op::Clear,
        8 => Op::Split,
        _ => Op::Write((0..n).map(|_| r.byte()).collect()),
    }
}
fn data(op: &Op) -> Vec<u8> {
    match op { Op::Write(b) | Op::Nested(b) => b.clone(), Op::Byte(b) => vec![*b], Op::Str(s) | Op::Fmt(s) => s.clone().into_bytes(), _ => vec![] }
}
fn nested<W: SerWrite>(mut w: W, b: &[u8]) -> bool {
    // through two levels of &mut
    fn inner<X: SerWrite>(mut x: X, b: &[u8]) -> bool { if b.len() == 1 { x.write_byte(b[0]).is_ok() } else if let Ok(s) = std::str::from_utf8(b) { x.write_str(s).is_ok() } else { x.write(b).is_ok() } }
    inner(&mut w, b)
}
fn apply<W: SerWrite>(w: &mut W, op: &Op) -> bool {
    match op {
        Op::Write(b) => w.write(b).is_ok(), Op::Byte(b) => w.write_byte(*b).is_ok(), Op::Str(s) => w.write_str(s).is_ok(), Op::Nested(b) => nested(w, b),
        _ => true,
    }
}
/// cap: None for growable. `atomic`: a refused write changes nothing
fn run<W: SerWrite>(name: &str, w: &mut W, view: impl Fn(&W) -> Vec<u8>, mut model: Vec<u8>, cap: Option<usize>, ops: &[Op], only: Only) -> Result<(), String> {
    if view(w) != model { return Err(format!("{name}: initial content {:?}, expected {:?}", view(w), model)); }
    for (k, op) in ops.iter().enumerate() {
        let d = data(op);
        let fits = cap.map_or(true, |c| model.len() + d.len() <= c);
        let before = model.clone();
        let ok = apply(w, op);
        if only == Only::Append {
            // what was accepted must have been appended exactly; a refused write is judged by C02
            if ok { model.extend(&d); if view(w) != model { return Err(format!("{name}: op {k} {op:?} ok: content {:?}, expected {:?} (ops {ops:?})", view(w), model)); } }
            else if fits && cap.is_none() { return Err(format!("{name}: op {k} {op:?} refused by a growable writer")); }
            else { model = view(w); if !fits && !model.starts_with(&before) { return Err(format!("{name}: op {k} {op:?} refused: earlier content changed {:?} -> {:?}", before, model)); } }
        } else {
            if ok != fits { return Err(format!("{name}: op {k} {op:?} returned {}, capacity {:?}, length before {} (ops {ops:?})", if ok { "Ok" } else { "Err" }, cap, before.len())); }
            if ok { model = view(w); if model.len() != before.len() + d.len() { return Err(format!("{name}: op {k} {op:?} accepted, length {} -> {}", before.len(), model.len())); } }
            else if view(w) != before { return Err(format!("{name}: op {k} {op:?} refused but content changed {:?} -> {:?}", before, view(w))); }
        }
    }
    Ok(())
}
#[derive(Clone, Copy, PartialEq)]
pub enum Only { Append, Refuse, Slice }

#[cfg(feature = "full")]
fn sized<const N: usize>(r: &mut Rng, ops: &[Op], pre: &[u8], only: Only) -> Result<(), String>
where [u8; N]: tinyvec::Array<Item = u8> + smallvec::Array<Item = u8> {
    let pre = &pre[..pre.len().min(N)];
    let mut a = arrayvec::ArrayVec::<u8, N>::new(); a.try_extend_from_slice(pre).unwrap();
    run("arrayvec::ArrayVec", &mut a, |w| w.to_vec(), pre.to_vec(), Some(N), ops, only)?;
    macro_rules! hl { ($t:ty) => {{
        let mut h = heapless::Vec::<u8, N, $t>::new(); h.extend_from_slice(pre).unwrap();
        run(concat!("heapless::Vec<", stringify!($t), ">"), &mut h, |w| w.to_vec(), pre.to_vec(), Some(N), ops, only)?;
        let mut h = heapless::Vec::<u8, N, $t>::new(); h.extend_from_slice(pre).unwrap();
        let v: &mut heapless::VecView<u8, $t> = &mut h;
        let mut model = pre.to_vec();
        for op in ops {
            let d = data(op); let fits = model.len() + d.len() <= N; let before = model.clone();
            // VecView is unsized, so it is driven directly
            let ok = match op { Op::Write(b) | Op::Nested(b) => SerWrite::write(v, b).is_ok(), Op::Byte(b) => SerWrite::write_byte(v, *b).is_ok(), Op::Str(s) => SerWrite::write_str(v, s).is_ok(), _ => true };
            if only != Only::Append && ok != fits { return Err(format!("heapless::VecView: {op:?} returned {ok}, length {} of {N}", before.len())); }
            if ok { model.extend(&d) }
            if (only == Only::Append) == ok && v[..] != model[..] { return Err(format!("heapless::VecView: {op:?} ok={ok}: {:?}, expected {:?}", &v[..], model)); }
            model = v.to_vec();
        }
    }} }
    match r.below(3) { 0 => hl!(usize), 1 => hl!(u8), _ => hl!(u16) }
    let mut t = tinyvec::ArrayVec::<[u8; N]>::new(); t.extend_from_slice(pre);
    run("tinyvec::ArrayVec", &mut t, |w| w.to_vec(), pre.to_vec(), Some(N), ops, only)?;
    let mut buf = [0xEEu8; N]; buf[..pre.len()].copy_from_slice(pre);
    let mut s = tinyvec::SliceVec::from_slice_len(&mut buf, pre.len());
    run("tinyvec::SliceVec", &mut s, |w| w.to_vec(), pre.to_vec(), Some(N), ops, only)?;
    if only == Only::Append {
        let mut s = smallvec::SmallVec::<[u8; N]>::new(); s.extend_from_slice(pre);
        run("smallvec::SmallVec", &mut s, |w| w.to_vec(), pre.to_vec(), None, ops, only)?;
        let mut t = tinyvec::TinyVec::<[u8; N]>::new(); t.extend_from_slice(pre);
        run("tinyvec::TinyVec", &mut t, |w| w.to_vec(), pre.to_vec(), None, ops, only)?;
    }
    Ok(())
}
pub fn case(r: &mut Rng, only: Only) -> Result<(), String> {
    let cap = *r.pick(&[0usize, 1, 2, 3, 5, 8, 16]);
    let n = 1 + r.below(6);
    let ops: Vec<Op> = (0..n).map(|_| gen_op(r, cap, only == Only::Slice)).collect();
    let pre: Vec<u8> = (0..r.below(4)).map(|_| r.byte()).collect();
    if only == Only::Append {
        #[cfg(feature = "full")] run("Vec", &mut pre.clone(), |w| w.clone(), pre.clone(), None, &ops, only)?;
        #[cfg(feature = "full")] {
            let mut d: std::collections::VecDeque<u8> = pre.iter().copied().collect();
            if r.chance(1, 2) { d.push_front(1); d.push_front(2); d.pop_back(); d.pop_back(); d.extend(&pre[pre.len().saturating_sub(0)..]); }
            let start: Vec<u8> = d.iter().copied().collect();
            run("VecDeque", &mut d, |w| w.iter().copied().collect(), start, None, &ops, only)?;
            let mut c = std::io::Cursor::new(pre.clone()); c.set_position(pre.len() as u64);
            run("Cursor<Vec>", &mut c, |w| w.get_ref().clone(), pre.clone(), None, &ops, only)?;
            let mut b = vec![0u8; cap];
            let mut c = std::io::Cursor::new(&mut b[..]);
            run("Cursor<&mut [u8]>", &mut c, |w| w.get_ref()[..w.position() as usize].to_vec(), vec![], Some(cap), &ops, only)?;
        }
    }
    #[cfg(feature = "full")]
    if only != Only::Slice && r.chance(1, 1500) {
        // an array longer than the 16-bit length of the container can count
        let fill = 65520 + r.below(16);
        let mut t = Box::new(tinyvec::ArrayVec::<[u8; 70000]>::new()); t.extend_from_slice(&vec![7u8; fill]);
        let n = *r.pick(&[1usize, 65535 - fill, 65536 - fill, 5000]);
        let ops = [Op::Write(vec![9u8; n]), Op::Byte(1), Op::Write(vec![3u8; 2])];
        run("tinyvec::ArrayVec<[u8; 70000]>", &mut *t, |w| w.to_vec(), vec![7u8; fill], Some(65535), &ops, only).map_err(|e| e.chars().take(300).collect::<String>())?;
    }
    #[cfg(feature = "full")]
    if only != Only::Slice {
        match cap { 0 => sized::<0>(r, &ops, &pre, only)?, 1 => sized::<1>(r, &ops, &pre, only)?, 2 => sized::<2>(r, &ops, &pre, only)?, 3 => sized::<3>(r, &ops, &pre, only)?, 5 => sized::<5>(r, &ops, &pre, only)?, 8 => sized::<8>(r, &ops, &pre, only)?, _ => sized::<16>(r, &ops, &pre, only)? }
    }
    slice(cap, &ops, only)
}
fn slice(cap: usize, ops: &[Op], only: Only) -> Result<(), String> {
    let mut buf: Vec<u8> = (0..cap).map(|i| 0xA0 | i as u8).collect();
    let mut mirror = buf.clone(); // what the whole buffer must hold
    let (mut base, mut len) = (0usize, 0usize);
    let mut heads: Vec<(usize, usize)> = vec![];
    let mut kept: Vec<&mut [u8]> = vec![];
    let lo = buf.as_ptr() as usize;
    let mut w = SliceWriter::new(&mut buf);
    for (k, op) in ops.iter().enumerate() {
        let room = cap - base - len;
        match op {
            Op::Clear => { w.clear(); len = 0 }
            Op::Split => {
                let (h, t) = w.split();
                if only == Only::Slice && (h.as_ptr() as usize != lo + base || h.len() != len) { return Err(format!("split gave {} bytes at {}, expected {len} at {base} (ops {ops:?})", h.len(), h.as_ptr() as usize - lo)); }
                kept.push(h); heads.push((base, len)); w = t; base += len; len = 0;
            }
            _ => {
                let d = data(op);
                let ok = match op { Op::Fmt(s) => std::fmt::Write::write_str(&mut w, s).is_ok(), _ => apply(&mut w, op) };
                if only != Only::Append && ok != (d.len() <= room) { return Err(format!("SliceWriter: op {k} {op:?} returned ok={ok} with {room} bytes left (ops {ops:?})")); }
                if ok && d.len() <= room { mirror[base + len..base + len + d.len()].copy_from_slice(&d); len += d.len() }
            }
        }
        if w.len() != len || w.as_ref() != &mirror[base..base + len] { return Err(format!("SliceWriter: after op {k} {op:?}: {:?} (len {}), expected {:?} (ops {ops:?})", w.as_ref(), w.len(), &mirror[base..base + len])); }
        if only == Only::Slice {
            if w.capacity() != cap - base || w.rem_capacity() != cap - base - len || w.is_empty() != (len == 0) { return Err(format!("SliceWriter: after op {k} {op:?}: capacity {} remaining {} is_empty {}, expected {} {} {} (ops {ops:?})", w.capacity(), w.rem_capacity(), w.is_empty(), cap - base, cap - base - len, len == 0)); }
            if w.as_mut() != &mirror[base..base + len] { return Err("as_mut differs from the written bytes".into()); }
        }
        for (h, (b, l)) in kept.iter().zip(&heads) { if h[..] != mirror[*b..*b + *l] { return Err(format!("a split-off part changed (ops {ops:?})")); } }
    }
    drop(w); drop(kept);
    if only != Only::Append && buf != mirror { return Err(format!("SliceWriter: buffer {:?}, expected {:?} (ops {ops:?})", buf, mirror)); }
    Ok(())
}
