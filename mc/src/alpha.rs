//! Operand alphabets: finite, fully enumerated sets of model values.
use crate::refmath::*;

pub const LIMBS: [u32; 6] = [0, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
pub const LIMBS4: [u32; 4] = [0, 1, 0x8000_0000, 0xffff_ffff];

/// all limb vectors of length 0..=len over the given limbs (as values, without duplicates)
pub fn limb_vecs(limbs: &[u32], len: usize) -> Vec<N> {
    let mut out = vec![];
    let mut cur: Vec<Vec<u32>> = vec![vec![]];
    for _ in 0..=len {
        out.extend(cur.iter().cloned().map(N::new));
        cur = cur.iter().flat_map(|v| limbs.iter().map(move |&l| { let mut w = v.clone(); w.push(l); w })).collect();
    }
    dedup(out)
}
pub fn dedup(mut v: Vec<N>) -> Vec<N> { v.sort(); v.dedup(); v }
pub fn small(n: u128) -> Vec<N> { (0..n).map(N::u).collect() }
/// 2^i + d for i <= bits, d in -2..=2
pub fn pow2s(bits: usize, step: usize) -> Vec<N> {
    let mut v = vec![];
    for i in (0..=bits).step_by(step) {
        let p = N::one().shl(i);
        for d in 0..3u128 { v.push(p.add(&N::u(d))); if p >= N::u(d) { v.push(p.sub(&N::u(d))); } }
    }
    dedup(v)
}
/// fixed pseudo-random limb stream (a deterministic dense bit pattern, not a random choice)
pub fn dense(len: usize, salt: u64) -> N {
    let mut x = 0x243F6A8885A308D3u64 ^ salt.wrapping_mul(0x9E3779B97F4A7C15);
    N::new((0..len).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 16) as u32 | 1 << 4 }).collect())
}
/// the structural patterns of a given limb length (exactly `len` limbs each, for len >= 1)
pub const NPAT: usize = 10;
pub fn pattern(len: usize, k: usize) -> N {
    let mut v = vec![0u32; len];
    match k {
        0 => v.iter_mut().for_each(|x| *x = u32::MAX),
        1 => { v[len - 1] = 1; }
        2 => { v[len - 1] = 0x8000_0000; }
        3 => { v[len - 1] = 0x8000_0000; v[0] |= 1; }
        4 => v.iter_mut().enumerate().for_each(|(i, x)| *x = if i % 2 == 0 { u32::MAX } else { 0 }),
        5 => v.iter_mut().enumerate().for_each(|(i, x)| *x = if i < len / 2 { 0 } else { u32::MAX }),
        6 => v.iter_mut().enumerate().for_each(|(i, x)| *x = if i < len / 2 { u32::MAX } else { 0 }),
        7 => { v = dense(len, 1).0; v.resize(len, 1); }
        8 => { v = dense(len, 2).0; v.resize(len, 1); let (a, b) = (len / 3, 2 * len / 3); for x in &mut v[a..b] { *x = 0; } }
        _ => v.iter_mut().for_each(|x| *x = 0x5555_5555),
    }
    if v[len - 1] == 0 { v[len - 1] = 1; }
    N::new(v)
}
pub fn patterns(lens: impl IntoIterator<Item = usize>, ks: &[usize]) -> Vec<N> {
    let mut o = vec![];
    for l in lens { for &k in ks { o.push(pattern(l, k)); } }
    dedup(o)
}
/// every length 1..=len of a constant filling (all ones; zeros below a top one) in which one limb, at every position, is another one of `vals`
pub fn holes(lens: impl IntoIterator<Item = usize>, vals: &[u32]) -> Vec<N> {
    let mut o = vec![];
    for l in lens { for fill in [u32::MAX, 0] { for p in 0..l { for &x in vals { let mut v = vec![fill; l]; if fill == 0 { v[l - 1] = 1; } v[p] = x; o.push(N::new(v)); } } } }
    dedup(o)
}
pub fn signed(v: &[N]) -> Vec<Z> {
    let mut o = vec![];
    for n in v { o.push(Z::pos(n.clone())); if !n.is_zero() { o.push(Z::new(true, n.clone())); } }
    o
}
/// mixed-radix decoding of a case index
pub fn split(mut i: u64, dims: &[u64]) -> Vec<usize> { dims.iter().map(|d| { let r = i % d; i /= d; r as usize }).collect() }
pub fn sp2(i: u64, a: usize) -> (usize, usize) { ((i % a as u64) as usize, (i / a as u64) as usize) }
/// indices of long operand pairs: every length up to `lmax`, partner lengths 1, 2, half, one less, equal and one more, and the given pattern pairs
pub fn ladder(lo: usize, lmax: usize, pats: &[(usize, usize)]) -> Vec<(usize, usize, usize, usize)> {
    let mut o = vec![];
    for l in lo..=lmax {
        let mut ms = vec![1, 2, 3, l / 2, l / 2 + 1, l - 1, l, l + 1]; ms.retain(|m| *m > 0); ms.sort(); ms.dedup();
        for m in ms { for &(a, b) in pats { o.push((l, a, m, b)); } }
    }
    o
}
/// indices (length, filling, position, change) of long operands that differ in exactly one limb
pub fn near_idx(lens: impl IntoIterator<Item = usize>, pats: &[usize], stride: usize) -> Vec<(usize, usize, usize, u32)> {
    let mut o = vec![];
    for l in lens { for &k in pats { let mut p = 0; while p < l { for x in [1u32, 0x8000_0000] { o.push((l, k, p, x)); } p += if p < 4 || p + 5 >= l { 1 } else { stride.min(l - 4 - p).max(1) }; } } }
    o
}
pub fn near_pair(i: (usize, usize, usize, u32)) -> (N, N) {
    let x = pattern(i.0, i.1); let mut v = x.0.clone(); v[i.2] ^= i.3;
    (x, N::new(v))
}
/// one number at every eighth of a binary order of magnitude up to 2^bits (2^(j/8), rounded down), and around every power of two
pub fn magnitudes(bits: usize) -> Vec<u128> {
    let mut v = vec![];
    let f = [1.0f64, 1.0905077326652577, 1.189207115002721, 1.2968395546510096, 1.4142135623730951, 1.5422108254079407, 1.681792830507429, 1.8340080864093424];
    for i in 0..bits { for r in f { v.push(((1u128 << i) as f64 * r) as u128); } for d in 0..3u128 { v.push((1u128 << i) + d); v.push((1u128 << i).saturating_sub(d)); } }
    v.sort(); v.dedup(); v
}

/// lengths at which positions no longer fit 12, 15, 16 or 17 bits
pub fn far_lens(t: crate::engine::Tier) -> Vec<usize> { if t.thorough() { vec![4095, 4096, 8192, 16384, 32767, 32768, 32800, 65535, 65536, 65537, 65567, 65568, 65569, 70000, 98304, 131071, 131072, 131073, 140000, 262144, 300000] } else { vec![4096, 32768, 65535, 65536, 65537, 70000, 131072, 140000] } }
/// shift distances whose word count leaves 11 .. 17 (thorough 20) bits
pub fn million(t: crate::engine::Tier) -> Vec<usize> { (16..=t.pick(22usize, 25)).flat_map(|k| { let p = 1usize << k; [p - 1, p, p + 1, p + 31, p + 32, p + 63, 3 * (p >> 1) + 5] }).collect() }
/// right shifts and bit positions far beyond any value, each a small number modulo 2^16, 2^21, 2^32 or 2^37
pub fn beyond() -> Vec<usize> { let mut v = vec![usize::MAX, usize::MAX - 31, usize::MAX / 2, usize::MAX / 2 + 1]; for k in [20, 21, 22, 24, 31, 32, 33, 36, 37, 38, 48, 53, 58, 59, 60, 61, 62, 63] { for d in [0usize, 1, 2, 31, 32, 33] { v.push((1usize << k) + d); } v.push((1usize << k) - 1); } v }
/// 2^k + 2^j + r
pub fn far_val(k: usize, j: usize, r: usize) -> crate::refmath::N { use crate::refmath::N; let p = [0, 20, 31, 1000, 32767, 65535, 65536, k - 1][j].min(k - 1); let x = N::one().shl(k).add(&N::one().shl(p)); match r { 0 => x, 1 => x.add(&N::one()), _ => x.sub(&N::one()) } }

/// every length up to `all`, then some longer ones
pub fn lens(all: usize, more: &[usize]) -> Vec<usize> { (1..=all).chain(more.iter().copied().filter(|x| *x > all)).collect() }
