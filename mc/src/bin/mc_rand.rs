//! Properties of the pseudo-random engines: C28-C30.
use mc::alpha::*;
use mc::engine::*;
use mc::refmath::mix;
use mc::want;
use rmath::rand::{Iter, IterSource, LaggedFibonacciRand, LinearCongruentialRand, MersenneTwisterRand, PrimitiveType, RandErrKind, RandError, Seed, Source};
use std::cell::Cell;
use std::fmt::Debug;
use std::ops::Shl;

// ---------------------------------------------------------------- reference engines: the defining recurrences, over unbounded histories
trait Word: PrimitiveType + Copy + Default + Debug + PartialEq + PartialOrd + Shl<Output = Self> + Send + Sync + 'static { const BITS: u32; const NAME: &'static str; fn of(x: u128) -> Self; fn v(self) -> u128; }
impl Word for u32 { const BITS: u32 = 32; const NAME: &'static str = "u32"; fn of(x: u128) -> u32 { x as u32 } fn v(self) -> u128 { self as u128 } }
impl Word for u64 { const BITS: u32 = 64; const NAME: &'static str = "u64"; fn of(x: u128) -> u64 { x as u64 } fn v(self) -> u128 { self as u128 } }
impl Word for usize { const BITS: u32 = usize::BITS; const NAME: &'static str = "usize"; fn of(x: u128) -> usize { x as usize } fn v(self) -> u128 { self as u128 } }

#[derive(Clone)]
struct Lcg { a: u128, c: u128, m: u128, x: u128 }
impl Lcg { fn next(&mut self) -> u128 { self.x = ((self.a % self.m) * (self.x % self.m) + self.c % self.m) % self.m; self.x } }
#[derive(Clone, Copy, Debug, PartialEq)]
struct MtP { w: u128, n: u128, m: u128, r: u128, a: u128, u: u128, d: u128, s: u128, b: u128, t: u128, c: u128, l: u128, f: u128 }
#[derive(Clone)]
struct Mt { p: MtP, h: Vec<u128>, out: usize }
impl Mt {
    fn new(p: MtP, seed: u128) -> Mt {
        let md = 1u128 << p.w; let mut h = vec![seed % md];
        for i in 1..p.n { let x = *h.last().unwrap(); h.push((((x ^ (x >> (p.w - 2))) % md) * p.f % md + i % md) % md); }
        Mt { p, h, out: 0 }
    }
    fn next(&mut self) -> u128 {
        let p = &self.p; let k = self.out; let low = (1u128 << p.r) - 1; let md = 1u128 << p.w;
        // x[k+n] = x[k+m] xor twist(upper w-r bits of x[k], lower r bits of x[k+1]); for n = 1, x[k+1] is the word being replaced
        let nxt = if p.n == 1 { self.h[k] } else { self.h[k + 1] };
        let y = (self.h[k] & !low) | (nxt & low);
        let z = self.h[k + p.m as usize - if p.m == p.n { p.n as usize } else { 0 }] ^ (y >> 1) ^ if y & 1 == 1 { p.a } else { 0 };
        self.h.push(z); self.out += 1;
        let mut z = z;
        z ^= (z >> p.u) & p.d; z ^= ((z << p.s) % md) & p.b; z ^= ((z << p.t) % md) & p.c; z ^ (z >> p.l)
    }
}
#[derive(Clone)]
struct Swc { w: u128, s: usize, r: usize, h: Vec<u128>, carry: u128 }
impl Swc {
    fn new(w: u128, s: usize, r: usize, seed: u128) -> Swc {
        let mut e = Lcg { a: 40014, c: 0, m: 2147483563, x: seed }; let n = (w + 31) / 32;
        let h: Vec<u128> = (0..r).map(|_| { let mut v = 0u128; for j in 0..n { v += e.next() << (32 * j); } v % (1u128 << w) }).collect();
        let carry = (h[r - 1] == 0) as u128; Swc { w, s, r, h, carry }
    }
    fn next(&mut self) -> u128 {
        let k = self.h.len(); let y = self.h[k - self.s] as i128 - self.h[k - self.r] as i128 - self.carry as i128;
        self.carry = (y < 0) as u128; let v = y.rem_euclid(1i128 << self.w) as u128; self.h.push(v); v
    }
}

// ---------------------------------------------------------------- scripted seeds
struct Sd<T>(Result<T, RandErrKind>, Cell<u32>);
impl<T: Word> Sd<T> { fn ok(x: u128) -> Sd<T> { Sd(Ok(T::of(x)), Cell::new(0)) } fn fail(k: RandErrKind) -> Sd<T> { Sd(Err(k), Cell::new(0)) } }
impl<T: Word> Seed<T> for Sd<T> { fn seed(&self) -> rmath::rand::Result<T> { self.1.set(self.1.get() + 1); self.0.map_err(|k| RandError::new(k, "scripted")) } }

fn lcg_new<T: Word>(sd: &Sd<T>, a: u128, c: u128, m: u128) -> rmath::rand::Result<LinearCongruentialRand<T>> { LinearCongruentialRand::new(sd, T::of(a), T::of(c), T::of(m)) }
fn mt_new<T: Word>(sd: &Sd<T>, p: &MtP) -> rmath::rand::Result<MersenneTwisterRand<T>> { MersenneTwisterRand::new(sd, T::of(p.w), T::of(p.n), T::of(p.m), T::of(p.r), T::of(p.a), (T::of(p.u), T::of(p.d)), (T::of(p.s), T::of(p.b)), (T::of(p.t), T::of(p.c)), T::of(p.l), T::of(p.f)) }
fn swc_new<T: Word>(sd: &Sd<T>, w: u128, s: u128, r: u128) -> rmath::rand::Result<LaggedFibonacciRand<T>> { LaggedFibonacciRand::new(sd, T::of(w), T::of(s), T::of(r)) }
fn draw<T: Word, S: Source<T>>(s: &mut S) -> Result<u128, String> { s.gen().map(|x| x.v()).map_err(|e| format!("generation failed with {:?}", e.kind())) }

fn run_lcg<T: Word>(a: u128, cc: u128, m: u128, x: u128, n: usize, c: &mut Ctx) -> Res where LinearCongruentialRand<T>: Source<T> {
    let mut r = Lcg { a, c: cc, m, x };
    let mut g = lcg_new::<T>(&Sd::ok(x), a, cc, m).map_err(|e| format!("refused with {:?}", e.kind()))?;
    for i in 0..n { let (w, o) = (r.next(), draw(&mut g)?); want!(w == o, "{} output {}: {} expected {}", T::NAME, i, o, w); c.step(); }
    c.state(mix(mix(a as u64, cc as u64), mix(m as u64, r.x as u64))); Ok(())
}
fn run_mt<T: Word>(p: &MtP, seed: u128, n: usize, c: &mut Ctx) -> Res where MersenneTwisterRand<T>: Source<T> {
    let mut r = Mt::new(*p, seed);
    let mut g = mt_new::<T>(&Sd::ok(seed), p).map_err(|e| format!("refused with {:?}", e.kind()))?;
    let mut h = 0; for i in 0..n { let (w, o) = (r.next(), draw(&mut g)?); want!(w == o, "{} output {}: {:#x} expected {:#x}", T::NAME, i, o, w); h = mix(h, w as u64); c.step(); }
    c.state(h); Ok(())
}
fn run_swc<T: Word>(w: u128, s: usize, r: usize, seed: u128, n: usize, c: &mut Ctx) -> Res where LaggedFibonacciRand<T>: Source<T> {
    let mut m = Swc::new(w, s, r, seed);
    let mut g = swc_new::<T>(&Sd::ok(seed), w, s as u128, r as u128).map_err(|e| format!("refused with {:?}", e.kind()))?;
    let mut h = 0; for i in 0..n { let (w, o) = (m.next(), draw(&mut g)?); want!(w == o, "{} output {}: {:#x} expected {:#x}", T::NAME, i, o, w); h = mix(h, w as u64); c.step(); }
    c.state(h); Ok(())
}
macro_rules! by_type { ($t:expr, $f:ident, $($a:expr),*) => { match $t { 0 => $f::<u32>($($a),*), 1 => $f::<u64>($($a),*), _ => $f::<usize>($($a),*) } } }

const W32: [u128; 16] = [0, 1, 2, 3, 16807, 65535, 65536, 65537, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 2147483563, 48271, 0xffff_fffe, 0xffff_ffff];
fn words(t: usize) -> Vec<u128> { let mut v = W32.to_vec(); if t > 0 { v.extend([0x1_0000_0000, 0x1_0000_0001, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0xffff_ffff_0000_0000, 0xffff_ffff_ffff_fffe, 0xffff_ffff_ffff_ffff]); } v }
const MT32: MtP = MtP { w: 32, n: 624, m: 397, r: 31, a: 0x9908b0df, u: 11, d: 0xffffffff, s: 7, b: 0x9d2c5680, t: 15, c: 0xefc60000, l: 18, f: 1812433253 };
const MT64: MtP = MtP { w: 64, n: 312, m: 156, r: 31, a: 0xb5026f5aa96619e9, u: 29, d: 0x5555555555555555, s: 17, b: 0x71d67fffeda60000, t: 37, c: 0xfff7eee000000000, l: 43, f: 6364136223846793005 };
fn modpow(mut b: u128, mut e: u128, m: u128) -> u128 { let mut r = 1; b %= m; while e > 0 { if e & 1 == 1 { r = r * b % m; } b = b * b % m; e >>= 1; } r }

fn temperings(w: u128) -> Vec<(u128, u128, u128, u128, u128, u128, u128)> {
    let k = (1u128 << w) - 1; let h = w - 1; let mid = (w / 2).max(1);
    vec![(1, k, 1, k, 1, k, 1), (h, k, h, k, h, k, h), (mid, k & 0x5555_5555_5555_5555, 1, k, mid, k & 0xcccc_cccc_cccc_cccc | 1, h), (1, 1, mid, k & 0x9999_9999_9999_9999, h, 1 << h, mid)]
}

pub fn c28(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let q: u64 = t.pick(16, 24);
    let d = [q + 2, q + 2, q, q + 2, 3];
    v.push(Suite::new("lcg-small", format!("every a, c, seed <= {} and modulus 1..={} on all three word types, 4 outputs", q + 1, q), d.iter().product(), move |i, c| { let s = split(i, &d); let (a, cc, m, x) = (s[0] as u128, s[1] as u128, s[2] as u128 + 1, s[3] as u128); c.note(|| format!("lcg a={} c={} m={} seed={} type {}", a, cc, m, x, s[4])); by_type!(s[4], run_lcg, a, cc, m, x, 4, c) }));
    let nw: u64 = 23; let d2 = [nw, nw, nw, nw, 3];
    v.push(Suite::new("lcg-words", "every quadruple of 16 (32-bit) or 23 (64-bit) boundary words as a, c, m, seed, 3 outputs", d2.iter().product(), move |i, c| {
        let s = split(i, &d2); let w = words(s[4]); if s[..4].iter().any(|&k| k >= w.len()) { return Ok(()); }
        let (a, cc, m, x) = (w[s[0]], w[s[1]], w[s[2]], w[s[3]]); if m == 0 { return Ok(()); }
        c.note(|| format!("lcg a={:#x} c={:#x} m={:#x} seed={:#x} type {}", a, cc, m, x, s[4])); by_type!(s[4], run_lcg, a, cc, m, x, 3, c) }));
    // small twisters
    let mut ps: Vec<MtP> = vec![];
    for w in 2..=t.pick(5u128, 7) { for n in 1..=t.pick(4u128, 5) { for m in 1..=n { for r in 1..w { for a in [1u128, (1 << w) - 1, 1 << (w - 1), (1 << w) / 3 | 1] { for (u, d, s, b, t_, c_, l) in temperings(w) { for f in [1u128, (1 << w) - 1, 3.min((1 << w) - 1)] { let p = MtP { w, n, m, r, a, u, d, s, b, t: t_, c: c_, l, f }; if ps.last() != Some(&p) { ps.push(p); } } } } } } } }
    let d3 = [ps.len() as u64, 3];
    v.push(Suite::new("mt-small", format!("{} twisters with word size 2..={} and degree 1..={}, every middle word and separation point; seeds 0..=8 and beyond the word; three times the degree outputs", ps.len(), t.pick(5, 7), t.pick(4, 5)), d3.iter().product(), move |i, c| { let s = split(i, &d3); let p = ps[s[0]]; for seed in (0..=8u128).chain([(1 << p.w) - 1, 1 << p.w, 0xffff_ffff]) { c.note(|| format!("{:?} seed {:#x} type {}", p, seed, s[1])); by_type!(s[1], run_mt, &p, seed, 3 * p.n as usize + 2, c)?; } Ok(()) }));
    let mut pb: Vec<(MtP, usize)> = vec![];
    for (ty, ws) in [(0usize, vec![8u128, 31, 32]), (1, vec![31, 32, 33, 63, 64]), (2, vec![16, 32, 64])] { for w in ws { let k = (1u128 << w) - 1; for n in [1u128, 2, 3, 5, 17, 40] { for m in [1, 2, n / 2, n - 1, n] { if m < 1 || m > n { continue; } for r in [1, w / 2, w - 1] { for a in [1, k, 1 << (w - 1), 0x9908_b0df_b502_6f5b & k] { for (u, d, s, b, t_, c_, l) in temperings(w) { for f in [1, k, 6364136223846793005 & k] { pb.push((MtP { w, n, m, r, a, u, d, s, b, t: t_, c: c_, l, f }, ty)); } } } } } } } }
    pb.dedup();
    let npb = pb.len() as u64;
    v.push(Suite::new("mt-words", format!("{} twisters at the word-size limits of all three types; 6 seeds", npb), npb, move |i, c| { let (p, ty) = pb[i as usize]; for seed in [0u128, 1, 5489, 0x8000_0000, 0xffff_ffff, 0xffff_ffff_ffff_ffff] { let seed = if ty == 0 { seed & 0xffff_ffff } else { seed }; c.note(|| format!("{:?} seed {:#x} type {}", p, seed, ty)); by_type!(ty, run_mt, &p, seed, 2 * p.n as usize + 3, c)?; } Ok(()) }));
    // small subtract-with-carry
    let (wm, rm) = (t.pick(12, 16), t.pick(9, 12)); let mut sw = vec![];
    for w in 1..=wm { for r in 2..=rm { for s in 1..r { sw.push((w, s, r)); } } }
    for w in [16u128, 24, 31, 32, 33, 48, 63, 64] { for r in [2usize, 3, 5, 12, 24, 31] { for s in [1, 2, r / 2, r - 1, 5, 10] { if s >= 1 && s < r { sw.push((w, s, r)); } } } }
    sw.sort(); sw.dedup();
    let d5 = [sw.len() as u64, 3]; let sd: Vec<u128> = (0..t.pick(200, 600)).chain([19780503, 2147483562, 2147483563, 2147483564, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x1234_5678_9abc_def0, 0xffff_ffff_ffff_ffff]).collect();
    v.push(Suite::new("swc", format!("{} word sizes and lag pairs on all three types, {} seeds, four times the long lag outputs", sw.len(), sd.len()), d5.iter().product(), move |i, c| { let s = split(i, &d5); let (w, a, b) = sw[s[0]]; if s[1] == 0 && w > 32 { return Ok(()); } for &x in &sd { if s[1] == 0 && x > 0xffff_ffff { continue; } c.note(|| format!("swc w={} s={} r={} seed={:#x} type {}", w, a, b, x, s[1])); by_type!(s[1], run_swc, w, a, b, x, 4 * b + 1, c)?; } Ok(()) }));
    // large states: every lag around the powers of two and the lags in use
    let mut big = vec![]; for r in [37usize, 44, 55, 89, 127, 128, 129, 250, 255, 256, 257, 258, 300, 418, 511, 512, 513, 607, 1023, 1024, 1025, 1279, 2281, 4095, 4096, 4097, 4423, 65535, 65536, 65537, 70000] { for s in [1, 2, 3, 5, 7, 10, 24, 38, 103, 127, 128, 129, 255, 256, 257, 273, 418, 1029, 2098, r / 3, r / 2, r - 2, r - 1] { if s >= 1 && s < r && (r < 4000 || [1, 5, 256, r / 2, r - 1].contains(&s)) { for w in [8u128, 24, 31, 32, 33, 48, 63, 64] { if r < 4000 || w == 24 || w == 48 || w == 64 { big.push((w, s, r)); } } } } }
    big.sort(); big.dedup(); let d7 = [big.len() as u64, 3];
    v.push(Suite::new("swc-large", format!("{} word sizes and lag pairs with long lags of 37 up to 70000, all three types, 2 seeds, twice the long lag and 700 outputs", big.len()), d7.iter().product(), move |i, c| { let s = split(i, &d7); let (w, a, b) = big[s[0]]; if s[1] == 0 && w > 32 { return Ok(()); } for x in [19780503u128, 2147483562] { c.note(|| format!("swc w={} s={} r={} seed={:#x} type {}", w, a, b, x, s[1])); by_type!(s[1], run_swc, w, a, b, x, 2 * b + 700, c)?; } Ok(()) }));
    let mut bm: Vec<(MtP, usize)> = vec![]; for n in [64u128, 127, 128, 129, 255, 256, 257, 300, 311, 312, 313, 351, 511, 512, 513, 623, 624, 625, 700, 1023, 1024, 1025, 1391, 2048, 4096, 19937, 65535, 65536, 65537, 70000] { for m in [1, 2, 63, 64, 156, 175, 255, 256, 257, 397, 418, 624, n / 3, n / 2, n - 2, n - 1, n] { if m < 1 || m > n || (n > 4000 && ![1, 256, n / 2, n - 1, n].contains(&m)) { continue; } for (base, ty) in [(MT32, 0usize), (MT32, 1), (MT64, 1), (MT64, 2)] { for r in [1, 19, base.w - 1] { bm.push((MtP { n, m, r, ..base }, ty)); } } } }
    bm.dedup(); let nbm = bm.len() as u64;
    v.push(Suite::new("mt-large", format!("{} twisters with degrees of 64 up to 70000, a seed each, two and a half times the degree outputs", nbm), nbm, move |i, c| { let (p, ty) = bm[i as usize]; c.note(|| format!("{:?} type {}", p, ty)); by_type!(ty, run_mt, &p, 5489, (5 * p.n / 2) as usize + 3, c) }));
    // seeds for which the first output is all ones with a borrow pending, for words of the full width
    let rr: usize = t.pick(60, 100); let mut cr = vec![]; for r in 2..=rr { for s in 1..r { cr.push((s, r)); } } let ncr = cr.len() as u64;
    v.push(Suite::new("swc-borrow", format!("every lag pair up to {} at the full word width with seeds solved so that outputs 0..long lag become all ones with a pending borrow", rr), ncr, move |i, c| {
        let (s, r) = cr[i as usize]; const M: u128 = 2147483563;
        // outputs e_k = 40014^(k+1) * seed of the seeding generator: want e_(k+r-s) = e_k - 1, for the positions k where both are initial words
        for k in 0..s { let co = (modpow(40014, (k + r - s + 1) as u128, M) + M - modpow(40014, k as u128 + 1, M)) % M; let seed = (M - 1) * modpow(co, M - 2, M) % M; c.note(|| format!("swc w=32 s={} r={} seed={}", s, r, seed)); run_swc::<u32>(32, s, r, seed, 3 * r + 1, c)?; run_swc::<u64>(32, s, r, seed, 3 * r + 1, c)?; }
        Ok(()) }));
    // the named engines
    let ne = 6u64; let seeds: Vec<u128> = (1..t.pick(60, 300)).chain([5489, 19780503, 2147483562, 2147483646, 2147483648, 0xdead_beef, 0xffff_fffe, 0xffff_ffff]).collect(); let d6 = [ne, seeds.len() as u64];
    let n: usize = t.pick(20000, 40000);
    v.push(Suite::new("named", format!("the six named engines, {} seeds, {} outputs each", seeds.len(), n), d6.iter().product(), move |i, c| { let s = split(i, &d6); let x = seeds[s[1]]; c.note(|| format!("named engine {} seed {}", s[0], x)); named(s[0], x, n, c) }));
    v.push(Suite::new("published", "the 10000th output of the six named engines with their default seeds, as published in the C++ standard", 6, |i, c| {
        let (x, want_) = [(1u128, 1043618065u128), (1, 399268537), (5489, 4123659995), (5489, 9981545732273789042), (19780503, 7937952), (19780503, 61839128582725)][i as usize]; c.note(|| format!("named engine {}, 10000th output", i));
        let mut last = 0; each_named(i as usize, x, 10000, |_, o| { last = o; Ok(()) })?; c.steps(10000); c.state(want_ as u64); want!(last == want_, "10000th output {} expected {}", last, want_); Ok(()) }));
    v
}
fn each_named(k: usize, x: u128, n: usize, mut f: impl FnMut(usize, u128) -> Res) -> Res {
    use mc as _; extern crate rmath;
    macro_rules! go { ($e:expr) => {{ let mut g = $e.map_err(|e| format!("refused with {:?}", e.kind()))?; for i in 0..n { let o = draw(&mut g)?; f(i, o)?; } Ok(()) }} }
    let (s, l) = (Sd::<u32>::ok(x), Sd::<u64>::ok(x));
    match k { 0 => go!(rmath::minstd_rand0!(s)), 1 => go!(rmath::minstd_rand!(s)), 2 => go!(rmath::mt19937!(s)), 3 => go!(rmath::mt19937_64!(l)), 4 => go!(rmath::ranlux24_base!(s)), _ => go!(rmath::ranlux48_base!(l)) }
}
fn named(k: usize, x: u128, n: usize, c: &mut Ctx) -> Res {
    enum R { L(Lcg), M(Mt), S(Swc) }
    let mut r = match k { 0 => R::L(Lcg { a: 16807, c: 0, m: 2147483647, x }), 1 => R::L(Lcg { a: 48271, c: 0, m: 2147483647, x }), 2 => R::M(Mt::new(MT32, x)), 3 => R::M(Mt::new(MT64, x)), 4 => R::S(Swc::new(24, 10, 24, x)), _ => R::S(Swc::new(48, 5, 12, x)) };
    let mut h = 0;
    each_named(k, x, n, |i, o| { let w = match &mut r { R::L(g) => g.next(), R::M(g) => g.next(), R::S(g) => g.next() }; want!(w == o, "output {}: {} expected {}", i, o, w); h = mix(h, w as u64); Ok(()) })?;
    c.steps(n as u64); c.state(h); Ok(())
}

// ---------------------------------------------------------------- C29
const OPS: [&str; 10] = ["draw", "draw through iterator", "draw many", "reset seed A", "reset seed B", "reset with failing seed", "keep a clone", "swap with clone", "go on with a clone", "clone and drop"];
/// every history of `depth` operations (encoded in the case index); model: the seed in force and the number of words drawn since, per handle
fn history<T: Word, S: Source<T> + IterSource<T> + Clone>(mk: &dyn Fn(&Sd<T>) -> rmath::rand::Result<S>, seq: &dyn Fn(u128, usize) -> u128, many: usize, ops: &[usize], c: &mut Ctx) -> Res {
    let seeds = [3u128, 0xffff_fff1];
    let mut g = mk(&Sd::ok(seeds[0])).map_err(|e| format!("refused with {:?}", e.kind()))?; let mut st = (0usize, 0usize);
    let mut kept = g.clone(); let mut kst = st;
    let next = |g: &mut S, st: &mut (usize, usize), it: bool| -> Result<(), String> {
        let o = if it { let mut i = g.iter_mut(); let o = i.next(); want!(i.last_error().is_none(), "the iterator reports an error"); match o { Some(o) => o.v(), None => return Err("the iterator ended".into()) } } else { draw(g)? };
        let w = seq(seeds[st.0], st.1); want!(o == w, "output {} after seed {:#x}: {:#x} expected {:#x}", st.1, seeds[st.0], o, w); st.1 += 1; Ok(())
    };
    for &op in ops {
        c.note(|| OPS[op].to_string()); c.step();
        match op {
            0 => next(&mut g, &mut st, false)?,
            1 => next(&mut g, &mut st, true)?,
            2 => { let outs: Vec<u128> = g.iter_mut().take(many).map(|x| x.v()).collect(); want!(outs.len() == many, "the iterator ended early"); for o in outs { let w = seq(seeds[st.0], st.1); want!(o == w, "output {} after seed {:#x}: {:#x} expected {:#x}", st.1, seeds[st.0], o, w); st.1 += 1; } }
            3 | 4 => { let sd = Sd::ok(seeds[op - 3]); g.reset(&sd).map_err(|e| format!("reset failed with {:?}", e.kind()))?; st = (op - 3, 0); }
            5 => { let k = [RandErrKind::NoNewRandSeedGen, RandErrKind::InnerErr][ops.len() % 2]; match g.reset(&Sd::fail(k)) { Ok(_) => return Err("reset succeeded although the seed failed".into()), Err(e) => want!(e.kind() == k, "reset failed with {:?} instead of {:?}", e.kind(), k) } }
            6 => { kept = g.clone(); kst = st; }
            7 => { std::mem::swap(&mut kept, &mut g); std::mem::swap(&mut kst, &mut st); }
            8 => { let n = g.clone(); g = n; }
            _ => { let mut n = g.clone(); let mut nst = st; next(&mut n, &mut nst, false)?; }
        }
        c.state(mix(mix(st.0 as u64, st.1 as u64), mix(kst.0 as u64, kst.1 as u64)));
    }
    c.note(|| "two more draws from each handle".into());
    for _ in 0..2 { next(&mut g, &mut st, false)?; } for _ in 0..2 { next(&mut kept, &mut kst, false)?; }
    Ok(())
}
const TINY: MtP = MtP { w: 8, n: 3, m: 2, r: 3, a: 0xb5, u: 2, d: 0xff, s: 3, b: 0x9d, t: 1, c: 0xe6, l: 3, f: 0x65 };
const TINY64: MtP = MtP { w: 40, n: 4, m: 1, r: 13, a: 0xb5b5b5b5b5, u: 2, d: 0xffffffffff, s: 13, b: 0x9d9d9d9d9d, t: 21, c: 0xe6e6e6e6e6, l: 13, f: 0x6565656565 };
fn tab(f: impl Fn(u128) -> Vec<u128>) -> impl Fn(u128, usize) -> u128 { let (a, b) = (f(3), f(0xffff_fff1)); move |s, i| if s == 3 { a[i] } else { b[i] } }
fn lcg_tab(a: u128, c: u128, m: u128, n: usize) -> impl Fn(u128, usize) -> u128 { tab(move |x| { let mut g = Lcg { a, c, m, x }; (0..n).map(|_| g.next()).collect() }) }
fn mt_tab(p: MtP, n: usize) -> impl Fn(u128, usize) -> u128 { tab(move |x| { let mut g = Mt::new(p, x); (0..n).map(|_| g.next()).collect() }) }
fn swc_tab(w: u128, s: usize, r: usize, n: usize) -> impl Fn(u128, usize) -> u128 { tab(move |x| { let mut g = Swc::new(w, s, r, x); (0..n).map(|_| g.next()).collect() }) }
/// operation sequences of length 0..=depth over 10 operations
fn seqs(depth: u32) -> u64 { (0..=depth).map(|l| 10u64.pow(l)).sum() }
fn ops_of(mut i: u64) -> Vec<usize> { let mut l = 0; while i >= 10u64.pow(l) { i -= 10u64.pow(l); l += 1; } (0..l).map(|_| { let r = (i % 10) as usize; i /= 10; r }).collect() }

#[derive(Clone)]
struct Flaky { ans: Vec<bool>, pos: usize, draws: usize }
impl Source<u32> for Flaky {
    fn gen(&mut self) -> rmath::rand::Result<u32> { self.draws += 1; let p = self.pos; self.pos += 1; if self.ans.get(p).copied().unwrap_or(true) { Ok(100 + p as u32) } else { Err(RandError::new([RandErrKind::NoNewRandNumberGen, RandErrKind::InnerErr, RandErrKind::NoNewRandSeedGen][p % 3], format!("failure {}", p))) } }
    fn reset<Sd: Seed<u32>>(&mut self, _: &Sd) -> rmath::rand::Result<()> { Ok(()) }
}
impl IterSource<u32> for Flaky { fn iter_mut(&mut self) -> Iter<'_, Self, u32> { Iter::new(self) } }

pub fn c29(t: Tier) -> Vec<Suite> {
    let d: u32 = t.pick(6, 7); let n = seqs(d); let long = if t.thorough() { 7000 } else { 3000 };
    let mut v = vec![];
    macro_rules! eng { ($name:expr, $ty:ty, $mk:expr, $tab:expr, $many:expr, $d:expr) => {{ let tb = $tab; v.push(Suite::new($name, format!("every history of up to {} operations ({})", $d, OPS.join(", ")), seqs($d), move |i, c| { let ops = ops_of(i); c.note(|| format!("{} ({})", $name, stringify!($ty))); history::<$ty, _>(&|s| $mk(s), &tb, $many, &ops, c) })); }} }
    let _ = n;
    eng!("lcg-u32", u32, |s: &Sd<u32>| lcg_new(s, 16807, 0, 2147483647), lcg_tab(16807, 0, 2147483647, 200), 5, d);
    eng!("lcg-u64", u64, |s: &Sd<u64>| lcg_new(s, 6364136223846793005, 1442695040888963407, 0xffff_ffff_ffff_ffc5), lcg_tab(6364136223846793005, 1442695040888963407, 0xffff_ffff_ffff_ffc5, 200), 5, d);
    eng!("lcg-usize", usize, |s: &Sd<usize>| lcg_new(s, 5, 3, 16), lcg_tab(5, 3, 16, 200), 5, d);
    eng!("mt-u32", u32, |s: &Sd<u32>| mt_new(s, &TINY), mt_tab(TINY, 200), 4, d);
    eng!("mt-u64", u64, |s: &Sd<u64>| mt_new(s, &TINY64), mt_tab(TINY64, 200), 5, d);
    eng!("mt-usize", usize, |s: &Sd<usize>| mt_new(s, &TINY), mt_tab(TINY, 200), 3, d);
    eng!("swc-u32", u32, |s: &Sd<u32>| swc_new(s, 24, 2, 5), swc_tab(24, 2, 5, 200), 6, d);
    eng!("swc-u64", u64, |s: &Sd<u64>| swc_new(s, 48, 3, 4), swc_tab(48, 3, 4, 200), 5, d);
    eng!("swc-usize", usize, |s: &Sd<usize>| swc_new(s, 64, 1, 3), swc_tab(64, 1, 3, 200), 4, d);
    eng!("swc-1bit", u32, |s: &Sd<u32>| swc_new(s, 1, 1, 2), swc_tab(1, 1, 2, 200), 3, d);
    let d2 = d - 1;
    eng!("mt19937", u32, |s: &Sd<u32>| mt_new(s, &MT32), mt_tab(MT32, long + 200), 623, d2);
    eng!("mt19937-64", u64, |s: &Sd<u64>| mt_new(s, &MT64), mt_tab(MT64, long + 200), 312, d2);
    eng!("ranlux24", u32, |s: &Sd<u32>| swc_new(s, 24, 10, 24), swc_tab(24, 10, 24, 400), 24, d2);
    eng!("ranlux48", u64, |s: &Sd<u64>| swc_new(s, 48, 5, 12), swc_tab(48, 5, 12, 400), 13, d2);
    // the iterator and its error latch
    let (na, no) = (t.pick(5u32, 6), t.pick(6u32, 8)); let di = [2u64.pow(na), 4u64.pow(no)];
    v.push(Suite::new("iterator", format!("every pattern of {} successes and failures of the source x every sequence of {} iterator operations (next, error query, clear, new iterator)", na, no), di.iter().product(), move |i, c| {
        let s = split(i, &di); let ans: Vec<bool> = (0..na).map(|k| s[0] >> k & 1 == 1).collect(); c.note(|| format!("source answers {:?}", ans));
        let mut src = Flaky { ans: ans.clone(), pos: 0, draws: 0 }; let mut o = s[1]; let (mut pos, mut latch): (usize, Option<usize>) = (0, None);
        let mut it = Some(src.iter_mut()); let mut left = no;
        loop {
            let mut fresh = false;
            { let it_ = it.as_mut().unwrap();
            while left > 0 { let op = o % 4; o /= 4; left -= 1; c.step();
                c.note(|| ["next", "last_error", "clear_error", "new iterator"][op].to_string());
                match op {
                    0 => { let r = it_.next(); let w = if latch.is_some() { None } else { let p = pos; pos += 1; if ans.get(p).copied().unwrap_or(true) { Some(100 + p as u32) } else { latch = Some(p); None } }; want!(r == w, "next gives {:?}, expected {:?}", r, w); }
                    1 => {}
                    2 => { it_.clear_error(); latch = None; }
                    _ => { fresh = true; break; }
                }
                match (it_.last_error(), latch) { (None, None) => {} (Some(e), Some(p)) => want!(e.kind() == [RandErrKind::NoNewRandNumberGen, RandErrKind::InnerErr, RandErrKind::NoNewRandSeedGen][p % 3] && e.to_string() == format!("failure {}", p), "kept error {:?} instead of failure {}", e, p), (e, p) => return Err(format!("kept error {:?}, expected {:?}", e, p)) }
                c.state(mix(pos as u64, latch.map_or(99, |x| x as u64)));
            } }
            if !fresh { break; }
            drop(it.take()); latch = None; it = Some(src.iter_mut());
            want!(it.as_ref().unwrap().last_error().is_none(), "a new iterator starts with an error");
        }
        drop(it); want!(src.draws == pos, "{} numbers drawn from the source, expected {}", src.draws, pos); Ok(()) }));
    v.push(Suite::new("seed-failure", "construction of all engines with a failing seed, every error kind and word type", 5 * 3 * 3, |i, c| {
        let s = split(i, &[5, 3, 3]); let k = [RandErrKind::NoNewRandSeedGen, RandErrKind::NoNewRandNumberGen, RandErrKind::DivisorIsZero, RandErrKind::InvalidRngPara, RandErrKind::InnerErr][s[0]]; c.note(|| format!("failing seed {:?}, engine {}, type {}", k, s[1], s[2])); c.step();
        fn go<T: Word>(k: RandErrKind, e: usize) -> Option<RandErrKind> { let s = Sd::<T>::fail(k); match e { 0 => lcg_new(&s, 5, 1, 7).err(), 1 => mt_new(&s, &TINY).err(), _ => swc_new(&s, 8, 2, 3).err() }.map(|e| e.kind()) }
        let r = by_type!(s[2], go, k, s[1]); want!(r == Some(k), "construction gives {:?}, expected the error {:?}", r, k); c.state(s[0] as u64); Ok(()) }));
    v
}

// ---------------------------------------------------------------- C30
fn valid_lcg<T: Word>(a: u128, cc: u128, m: u128, x: u128, c: &mut Ctx) -> Res where LinearCongruentialRand<T>: Source<T> {
    match lcg_new::<T>(&Sd::ok(x), a, cc, m) {
        Err(e) => want!(m == 0, "refused with {:?}", e.kind()),
        Ok(mut g) => { want!(m != 0, "a zero modulus is accepted"); for _ in 0..5 { let o = draw(&mut g)?; want!(o < m, "output {} with modulus {}", o, m); c.state(mix(m as u64, o as u64)); } }
    }
    c.steps(6); Ok(())
}
fn valid_swc<T: Word>(w: u128, s: u128, r: u128, x: u128, c: &mut Ctx) -> Res where LaggedFibonacciRand<T>: Source<T> {
    let ok = w >= 1 && w <= T::BITS as u128 && 0 < s && s < r;
    match swc_new::<T>(&Sd::ok(x), w, s, r) {
        Err(e) => want!(!ok, "refused with {:?}", e.kind()),
        Ok(mut g) => { want!(ok, "accepted"); for _ in 0..3 * r + 1 { let o = draw(&mut g)?; want!(o >> w == 0, "output {:#x} with word size {}", o, w); c.state(mix(w as u64, o as u64)); } }
    }
    c.steps(3 * r as u64 + 2); Ok(())
}
fn valid_mt<T: Word>(p: &MtP, x: u128, c: &mut Ctx) -> Res where MersenneTwisterRand<T>: Source<T> {
    let bits = T::BITS as u128; let k = if p.w <= 127 { (1u128 << p.w) - 1 } else { 0 };
    let low = p.w > 0 && p.m > 0 && p.r > 0 && p.a > 0 && p.f > 0;
    let up = p.w <= bits && p.m <= p.n && p.r < p.w && p.a <= k && p.u < p.w && p.d <= k && p.s < p.w && p.b <= k && p.t < p.w && p.c <= k && p.l < p.w && p.f <= k;
    let open = p.u == 0 || p.d == 0 || p.s == 0 || p.b == 0 || p.t == 0 || p.c == 0 || p.l == 0; // not specified
    match mt_new::<T>(&Sd::ok(x), p) {
        Err(e) => want!(!(low && up && !open), "refused with {:?}", e.kind()),
        Ok(mut g) => { want!(low && up, "accepted"); for _ in 0..2 * p.n + 1 { let o = draw(&mut g)?; want!(o >> p.w == 0, "output {:#x} with word size {}", o, p.w); c.state(mix(p.w as u64, o as u64)); } }
    }
    c.steps(p.n as u64 * 2 + 2); Ok(())
}
pub fn c30(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let nw = 23u64; let d = [nw, nw, nw, 3];
    v.push(Suite::new("lcg", "every triple of boundary words as a, c, m (zero modulus included) on all types; 4 seeds", d.iter().product(), move |i, c| { let s = split(i, &d); let w = words(s[3]); if s[..3].iter().any(|&k| k >= w.len()) { return Ok(()); } for x in [0, 1, w[w.len() - 1], w[w.len() - 2]] { c.note(|| format!("lcg a={:#x} c={:#x} m={:#x} seed={:#x} type {}", w[s[0]], w[s[1]], w[s[2]], x, s[3])); by_type!(s[3], valid_lcg, w[s[0]], w[s[1]], w[s[2]], x, c)?; } Ok(()) }));
    let rm: u64 = t.pick(12, 16); let d2 = [70u64, rm + 1, rm + 1, 3];
    v.push(Suite::new("swc", format!("every word size 0..=69 and both lags 0..={} on all types; 14 seeds", rm), d2.iter().product(), move |i, c| { let s = split(i, &d2); for x in [0u128, 1, 2, 3, 7, 1000, 2147483562, 2147483563, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x8000_0000_0000_0000, 0xffff_ffff_ffff_ffff] { if s[3] == 0 && x > 0xffff_ffff { continue; } c.note(|| format!("swc w={} s={} r={} seed={:#x} type {}", s[0], s[1], s[2], x, s[3])); by_type!(s[3], valid_swc, s[0] as u128, s[1] as u128, s[2] as u128, x, c)?; } Ok(()) }));
    // huge word sizes and lags must be refused, not taken modulo anything
    v.push(Suite::new("swc-huge", "word sizes beyond the type (up to its maximum) and equal or reversed huge lags", 3, |i, c| { c.note(|| format!("type {}", i)); let b: u128 = if i == 0 { 32 } else { 64 }; let mx = (1u128 << b) - 1;
        fn rej<T: Word>(w: u128, s: u128, r: u128) -> Res { want!(swc_new::<T>(&Sd::ok(1), w, s, r).is_err(), "w={} s={} r={} accepted", w, s, r); Ok(()) }
        for w in [b + 1, 2 * b, 255, 256, 1 << 16, mx - 1, mx] { for (s, r) in [(1u128, 2u128), (5, 12)] { c.step(); by_type!(i, rej, w, s, r)?; } } for w in [1u128, 8, b] { for (s, r) in [(mx, mx), (mx, 1), (mx, mx - 1), (2, 1), (1, 1)] { c.step(); by_type!(i, rej, w, s, r)?; } } c.state(i); Ok(()) }));
    // twister: small full grid over the sizes, one-at-a-time and pairwise deviations of the rest
    let base = |w: u128, n: u128, m: u128, r: u128| { let k = (1u128 << w.min(64)) - 1; let h = w.saturating_sub(1).max(1); MtP { w, n, m, r, a: k.max(1), u: h.min(3), d: k.max(1), s: 1, b: k.max(1), t: h, c: 1, l: h, f: k.max(1) } };
    let mut grid = vec![]; for w in 0..=t.pick(5u128, 7) { for n in 0..=4u128 { for m in 0..=5u128 { for r in 0..=w + 1 { grid.push(base(w, n, m, r)); } } } }
    let mut dev: Vec<MtP> = vec![];
    for (w, n, m, r) in [(2u128, 1u128, 1u128, 1u128), (3, 2, 1, 2), (4, 3, 3, 1), (8, 3, 2, 5), (31, 4, 2, 30), (32, 3, 1, 31), (32, 5, 5, 1), (63, 2, 2, 62), (64, 3, 2, 31), (64, 2, 1, 63)] {
        let b = base(w, n, m, r); let k = (1u128 << w) - 1; let sh = [0, 1, w - 1, w, w + 1, 64, 200]; let ms = [0, 1, k, k + 1, k / 2];
        let muts: Vec<Vec<MtP>> = vec![
            ms.iter().map(|&x| MtP { a: x, ..b }).collect(), sh.iter().map(|&x| MtP { u: x, ..b }).collect(), ms.iter().map(|&x| MtP { d: x, ..b }).collect(), sh.iter().map(|&x| MtP { s: x, ..b }).collect(), ms.iter().map(|&x| MtP { b: x, ..b }).collect(), sh.iter().map(|&x| MtP { t: x, ..b }).collect(), ms.iter().map(|&x| MtP { c: x, ..b }).collect(), sh.iter().map(|&x| MtP { l: x, ..b }).collect(), ms.iter().map(|&x| MtP { f: x, ..b }).collect(), sh.iter().map(|&x| MtP { r: x, ..b }).collect(), [0, 1, 2, n, n + 1, 100].iter().map(|&x| MtP { m: x, ..b }).collect(),
        ];
        for i in 0..muts.len() { for x in &muts[i] { dev.push(*x); for j in i + 1..muts.len() { for y in &muts[j] { let mut p = *x; macro_rules! m { ($($f:ident),*) => { $( if y.$f != b.$f { p.$f = y.$f; } )* } } m!(a, u, d, s, b, t, c, l, f, r, m); dev.push(p); } } } }
    }
    let g = [grid.len() as u64, 3];
    v.push(Suite::new("mt-sizes", format!("{} twisters: every word size 0..={}, degree 0..=4, middle word 0..=5, separation point 0..=w+1 on all types; 4 seeds", grid.len(), t.pick(5, 7)), g.iter().product(), move |i, c| { let s = split(i, &g); let p = grid[s[0]]; for x in [0u128, 1, 5489, 0xffff_ffff] { c.note(|| format!("{:?} seed {} type {}", p, x, s[1])); by_type!(s[1], valid_mt, &p, x, c)?; } Ok(()) }));
    let g2 = [dev.len() as u64, 3];
    v.push(Suite::new("mt-bounds", format!("{} twisters with every single and every pair of remaining parameters at and beyond their bounds, on all types", dev.len()), g2.iter().product(), move |i, c| { let s = split(i, &g2); let p = dev[s[0]]; if s[1] == 0 && [p.a, p.d, p.b, p.c, p.f].iter().any(|x| *x > 0xffff_ffff) { return Ok(()); } if [p.a, p.d, p.b, p.c, p.f].iter().any(|x| *x > 0xffff_ffff_ffff_ffff) { return Ok(()); } c.note(|| format!("{:?} type {}", p, s[1])); by_type!(s[1], valid_mt, &p, 5489, c) }));
    v.push(Suite::new("mt-huge", "word sizes beyond the type up to its maximum", 3, |i, c| { c.note(|| format!("type {}", i)); let b: u128 = if i == 0 { 32 } else { 64 }; let mx = (1u128 << b) - 1;
        fn rej<T: Word>(w: u128) -> Res { for r in [1u128, 31, w - 1] { let p = MtP { w, n: 3, m: 2, r, a: 1, u: 1, d: 1, s: 1, b: 1, t: 1, c: 1, l: 1, f: 1 }; want!(mt_new::<T>(&Sd::ok(1), &p).is_err(), "{:?} accepted", p); } Ok(()) }
        for w in [b + 1, b + 2, 2 * b, 255, 256, 1 << 16, mx] { c.step(); by_type!(i, rej, w)?; } c.state(i); Ok(()) }));
    v
}

fn main() {
    mc::engine::main(&[
        Prop { id: "C28", build: c28, assumptions: &["seeds that are zero modulo the seeding modulus are compared with the recurrence, not with the C++ default-seed rule"] },
        Prop { id: "C29", build: c29, assumptions: &["the hardware-backed DefaultRand, CryptoRand and DefaultSeed are not deterministic and not explored"] },
        Prop { id: "C30", build: c30, assumptions: &["whether a zero tempering parameter alone is accepted is not specified"] },
    ])
}
