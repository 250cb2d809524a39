//! C32: every operation is executed with every heap block fenced by inaccessible pages (flush against the
//! upper or the lower fence) and with fresh memory pre-filled with different patterns; outcomes must agree with
//! each other and with the run on the ordinary allocator. A touch of a fence kills the child process, which the
//! engine's parent turns into a violation.
use mc::alloc::{blocks, fenced, unfenced};
use mc::alpha::*;
use mc::engine::*;
use mc::obs::*;
use mc::refmath::*;
use mc::want;
use rmath::bigint::{BigInt, Float, Nat, Rat};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::Arc;

/// the observable outcome of an operation, as words
#[derive(PartialEq, Eq, Debug, Clone)]
struct Out(Vec<u32>);
impl Out {
    fn new() -> Out { Out(vec![]) }
    fn nat(mut self, n: &Nat) -> Out { let s: &[u32] = n.as_ref(); self.0.push(if n.is_nan() { 0xffff_0000 } else { s.len() as u32 }); self.0.extend_from_slice(s); self }
    fn int(self, n: &BigInt) -> Out { let a: &Nat = n.as_ref(); let mut o = self.nat(a); o.0.push(n.is_negative() as u32); o }
    fn rat(self, n: &Rat) -> Out { self.int(n.numerator()).int(n.denominator()) }
    fn bytes(mut self, b: &[u8]) -> Out { self.0.push(b.len() as u32); self.0.extend(b.iter().map(|&x| x as u32)); self }
    fn flt(mut self, f: &Float) -> Out {
        self.0.push(f.get_precision() as u32); self.0.push(f.is_nan() as u32); if f.is_nan() { return self; }
        self.0.push(f.is_negative().unwrap_or(false) as u32); self.0.push(acc(f.get_accuracy()) as i32 as u32); self.0.push(f.required_min_precision() as u32);
        if f.is_infinite() == Some(true) { self.0.push(77); return self; }
        let (m, e) = f.mant_exp(); self.0.push(e as u32);
        if f.signnum() == Some(0) { return self; }
        let s = format!("{:e}", m); self.bytes(s.as_bytes())
    }
}
const MODES: [(u8, u8); 4] = [(1, 0xA5), (2, 0x5A), (1, 0xFF), (2, 0x00)];
fn agree(c: &mut Ctx, what: &str, nm: usize, f: &dyn Fn() -> Out) -> Res {
    let run = |f: &dyn Fn() -> Out| catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| Out(vec![0xdead_beef]));
    let base = unfenced(|| run(f));
    let mut h = 7u64; for w in &base.0 { h = mix(h, *w as u64); } c.state(h);
    for &(m, fill) in &MODES[..nm] {
        c.step(); let b0 = blocks();
        let r = fenced(m, fill, || run(f));
        want!(r == base, "{}: outcome with memory pre-filled with {:02x} ({}-aligned blocks) differs from the one on the ordinary allocator", what, fill, if m == 1 { "end" } else { "start" });
        want!(blocks() > b0, "{}: no fenced block was used", what);
    }
    Ok(())
}
fn mix(a: u64, b: u64) -> u64 { (a ^ b).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29) }

// ------------------------------------------------------------------ operations on two naturals
type Op2 = (&'static str, fn(Nat, Nat) -> Out);
const NAT2: &[Op2] = &[
    ("x + y", |x, y| Out::new().nat(&(x + y))), ("x - y", |x, y| Out::new().nat(&(x - y))), ("x * y", |x, y| Out::new().nat(&(x * y))),
    ("x.mul_karatsuba(y)", |x, y| Out::new().nat(&x.mul_karatsuba(&y))),
    ("x & y", |x, y| Out::new().nat(&(x & y))), ("x | y", |x, y| Out::new().nat(&(x | y))), ("x ^ y", |x, y| Out::new().nat(&(x ^ y))), ("x &^ y", |x, y| Out::new().nat(&x.and_not(y))),
    ("x += y", |x, y| { let mut z = x; z += y.clone(); Out::new().nat(&z).nat(&y) }), ("x -= y", |x, y| { let mut z = x; z -= y.clone(); Out::new().nat(&z).nat(&y) }), ("x *= y", |x, y| { let mut z = x; z *= y.clone(); Out::new().nat(&z).nat(&y) }),
    ("x |= y", |x, y| { let mut z = x; z |= y.clone(); Out::new().nat(&z).nat(&y) }), ("x ^= y", |x, y| { let mut z = x; z ^= y.clone(); Out::new().nat(&z).nat(&y) }), ("x &= y", |x, y| { let mut z = x; z &= y.clone(); Out::new().nat(&z).nat(&y) }), ("x.and_not_assign(y)", |x, y| { let mut z = x; z.and_not_assign(y.clone()); Out::new().nat(&z).nat(&y) }),
    ("x.sub_assign_with_sign(y)", |x, y| { let mut z = x; let s = z.sub_assign_with_sign(y); let mut o = Out::new().nat(&z); o.0.push(s as u32); o }),
    ("x.sub_with_sign(y)", |x, y| { let (z, s) = x.sub_with_sign(y); let mut o = Out::new().nat(&z).nat(&x); o.0.push(s as u32); o }),
    ("x <=> y", |x, y| { let mut o = Out::new(); o.0.push(x.partial_cmp(&y).map_or(9, |z| z as i32 as u32)); o.0.push((x == y) as u32); o }),
];
const NATDIV: &[Op2] = &[
    ("x / y", |x, y| Out::new().nat(&(x / y))), ("x % y", |x, y| Out::new().nat(&(x % y))), ("x /= y", |x, y| { let mut z = x; z /= y; Out::new().nat(&z) }), ("x %= y", |x, y| { let mut z = x; z %= y; Out::new().nat(&z) }),
];
const INT2: &[(&str, fn(BigInt, BigInt) -> Out)] = &[
    ("x + y", |x, y| Out::new().int(&(x + y))), ("x - y", |x, y| Out::new().int(&(x - y))), ("x * y", |x, y| Out::new().int(&(x * y))), ("x / y", |x, y| Out::new().int(&(x / y))), ("x % y", |x, y| Out::new().int(&(x % y))),
    ("x & y", |x, y| Out::new().int(&(x & y))), ("x | y", |x, y| Out::new().int(&(x | y))), ("x ^ y", |x, y| Out::new().int(&(x ^ y))), ("x &^ y", |x, y| Out::new().int(&x.and_not(y))),
    ("x &= y", |x, y| { let mut z = x; z &= y; Out::new().int(&z) }), ("x |= y", |x, y| { let mut z = x; z |= y; Out::new().int(&z) }), ("x ^= y", |x, y| { let mut z = x; z ^= y; Out::new().int(&z) }), ("x.and_not_assign(y)", |x, y| { let mut z = x; z.and_not_assign(y); Out::new().int(&z) }),
    ("x.div_euclid(y)", |x, y| Out::new().int(&x.div_euclid(y))), ("x.rem_euclid(y)", |x, y| Out::new().int(&x.rem_euclid(y))), ("!x, -x, |x|", |x, _| Out::new().int(&!x.clone()).int(&-x.clone()).int(&x.abs())),
    ("x.jacobi(y)", |x, y| { let mut o = Out::new(); o.0.push(x.jacobi(&y).map_or(9, |z| z as u32)); o }),
];
const RAT2: &[(&str, fn(Rat, Rat) -> Out)] = &[
    ("x + y", |x, y| Out::new().rat(&(x + y))), ("x - y", |x, y| Out::new().rat(&(x - y))), ("x * y", |x, y| Out::new().rat(&(x * y))), ("x / y", |x, y| Out::new().rat(&(x / y))),
    ("x <=> y", |x, y| { let mut o = Out::new(); o.0.push(x.partial_cmp(&y).map_or(9, |z| z as i32 as u32)); o }),
    ("x.to_f64/to_f32", |x, _| { let mut o = Out::new(); let (a, e) = x.to_f64(); o.0.push(a.to_bits() as u32); o.0.push((a.to_bits() >> 32) as u32); o.0.push(e as u32); let (a, e) = x.to_f32(); o.0.push(a.to_bits()); o.0.push(e as u32); o }),
    ("format x", |x, _| Out::new().bytes(format!("{} {:x} {:#b}", x, x, x).as_bytes())), ("parse x", |x, _| { let s = format!("{}", x); match Rat::from_str(&s) { Ok(r) => Out::new().rat(&r), Err(_) => Out(vec![1]) } }),
];
const FLT2: &[(&str, fn(Float, Float) -> Out)] = &[
    ("x + y", |x, y| Out::new().flt(&(x + y))), ("x - y", |x, y| Out::new().flt(&(x - y))), ("x * y", |x, y| Out::new().flt(&(x * y))), ("x / y", |x, y| Out::new().flt(&(x / y))),
    ("x <=> y", |x, y| { let mut o = Out::new(); o.0.push(x.partial_cmp(&y).map_or(9, |z| z as i32 as u32)); o.0.push((x == y) as u32); o }),
];
fn each2(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    // all pairs of lengths
    let (l, pats): (usize, &'static [usize]) = t.pick((96, &[0][..]), (200, &[0, 7][..])); let np = pats.len(); let no = NAT2.len();
    v.push(Suite::new("nat-lengths", format!("every pair of operand lengths 1..={} words x {} operations x {} patterns, 2 fences x 2 fills", l, no, np), (l * l * no * np) as u64, move |i, c| {
        let s = split(i, &[no as u64, l as u64, l as u64, np as u64]); let (la, lb) = (s[1] + 1, s[2] + 1); let (x, y) = (pattern(la, pats[s[3]]), pattern(lb, pats[s[3]])); let (name, f) = NAT2[s[0]];
        c.note(|| format!("{} with {} and {} words, pattern {}", name, la, lb, pats[s[3]])); agree(c, name, 2, &|| f(nat(&x), nat(&y))) }));
    // around and beyond the algorithm thresholds
    let big: Vec<usize> = t.pick(vec![1, 2, 3, 39, 40, 41, 79, 80, 81, 82, 119, 120, 121, 159, 160, 161, 163, 200, 239, 240, 241, 320], (1..=8).chain(36..=44).chain(76..=84).chain(118..=122).chain(156..=164).chain([199, 200, 239, 240, 241, 319, 320, 321, 400, 512, 641]).collect()); let nb = big.len();
    v.push(Suite::new("nat-thresholds", format!("every pair of operand lengths from {:?} x {} operations x 4 patterns, 2 fences x 4 fills", big, no), (nb * nb * no * 4) as u64, move |i, c| {
        let s = split(i, &[no as u64, nb as u64, nb as u64, 4]); let (la, lb) = (big[s[1]], big[s[2]]); let p = [0, 7, 4, 1][s[3]]; let (x, y) = (pattern(la, p), pattern(lb, p)); let (name, f) = NAT2[s[0]];
        c.note(|| format!("{} with {} and {} words, pattern {}", name, la, lb, p)); agree(c, name, 4, &|| f(nat(&x), nat(&y))) }));
    // long operands: every residue of both lengths around several sizes
    let at: Vec<usize> = t.pick(vec![256, 301, 400, 511, 642, 1026], vec![256, 301, 352, 400, 449, 511, 577, 642, 769, 1026, 1281, 2048]);
    let huge: Arc<Vec<usize>> = Arc::new({ let mut h: Vec<usize> = vec![5, 40, 81, 162]; h.extend(at.iter().flat_map(|&m| m - 2..m + 3)); h }); let nh = huge.len();
    const LONG2: [usize; 10] = [0, 1, 2, 3, 4, 7, 8, 10, 11, 16];
    { let huge = huge.clone(); v.push(Suite::new("nat-long", format!("every pair of operand lengths from {:?} x {} operations x 2 patterns, 2 fences x 2 fills", huge, LONG2.len()), (nh * nh * LONG2.len() * 2) as u64, move |i, c| {
        let s = split(i, &[LONG2.len() as u64, nh as u64, nh as u64, 2]); let (la, lb) = (huge[s[1]], huge[s[2]]); let p = [0, 7][s[3]]; let (x, y) = (pattern(la, p), pattern(lb, p)); let (name, f) = NAT2[LONG2[s[0]]];
        c.note(|| format!("{} with {} and {} words, pattern {}", name, la, lb, p)); agree(c, name, 2, &|| f(nat(&x), nat(&y))) })); }
    // values of every small shape
    let al: Arc<Vec<N>> = Arc::new(limb_vecs(&LIMBS4, t.pick(3, 4))); let na = al.len();
    { let al = al.clone(); v.push(Suite::new("nat-small", format!("all pairs of {} limb vectors over {{0,1,2^31,2^32-1}} x {} operations", na, no + NATDIV.len()), (na * na) as u64, move |i, c| {
        let (a, b) = sp2(i, na); let (x, y) = (&al[a], &al[b]); c.note(|| format!("{:?} and {:?}", x, y));
        for (name, f) in NAT2.iter().chain(if y.is_zero() { &[][..] } else { NATDIV }.iter()) { agree(c, name, 2, &|| f(nat(x), nat(y)))?; } Ok(()) })); }
    // an operand that shares its storage with the destination
    let l2 = t.pick(170, 340); v.push(Suite::new("nat-shared", format!("every operand length 1..={} x {} operations x 3 patterns, both operands sharing one storage", l2, no + NATDIV.len()), (l2 * 3) as u64, move |i, c| {
        let (a, p) = sp2(i, l2); let x = pattern(a + 1, [0, 7, 2][p]); c.note(|| format!("{} words, pattern {}, with its own clone", a + 1, p));
        for (name, f) in NAT2.iter().chain(NATDIV.iter()) { agree(c, name, 2, &|| { let m = nat(&x); let w = m.clone(); let o = f(m, w); o })?; } Ok(()) }));
    // division
    let ld = t.pick(14, 24); let nd = NATDIV.len(); v.push(Suite::new("nat-division", format!("every pair of operand lengths 1..={} x 4 operations x 6 x 6 patterns", ld), (ld * ld * nd * 36) as u64, move |i, c| {
        let s = split(i, &[nd as u64, ld as u64, ld as u64, 6, 6]); let (x, y) = (pattern(s[1] + 1, [0, 1, 2, 5, 7, 8][s[3]]), pattern(s[2] + 1, [0, 1, 3, 5, 7, 8][s[4]])); let (name, f) = NATDIV[s[0]];
        c.note(|| format!("{} with {:?} and {:?}", name, x, y)); agree(c, name, 2, &|| f(nat(&x), nat(&y))) }));
    v
}
fn each1(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let l = t.pick(90, 200); let sh = t.pick(70usize, 140);
    v.push(Suite::new("nat-shifts", format!("every length 1..={} words x every shift 0..={} left and right, assigning or not, 2 patterns", l, sh), (l * (sh + 1) * 2) as u64, move |i, c| {
        let s = split(i, &[l as u64, sh as u64 + 1, 2]); let x = pattern(s[0] + 1, [0, 7][s[2]]); let k = s[1]; c.note(|| format!("{} words, shift by {}", s[0] + 1, k));
        agree(c, "shifts", 2, &|| { let a = nat(&x) << k; let b = nat(&x) >> k; let mut d = nat(&x); d <<= k; let mut e = nat(&x); e >>= k; Out::new().nat(&a).nat(&b).nat(&d).nat(&e) }) }));
    let ls = t.pick(560, 1100);
    v.push(Suite::new("nat-squares", format!("squares of every length 1..={} words x 3 patterns, natural and integer", ls), (ls * 3) as u64, move |i, c| {
        let (a, p) = sp2(i, ls); let x = pattern(a + 1, [0, 7, 1][p]); c.note(|| format!("square of {} words, pattern {}", a + 1, p));
        agree(c, "sqr", if p == 0 { 4 } else { 2 }, &|| { let n = nat(&x); let q = n.sqr(); let z = BigInt::from(nat(&x)).sqr(); Out::new().nat(&q).nat(&n).int(&z) }) }));
    let lw = t.pick(120, 400); let ws: [u32; 5] = [0, 1, 10, 0x8000_0000, u32::MAX];
    v.push(Suite::new("nat-words", format!("every length 1..={} words with a machine word: + - * / % x 5 words x 4 patterns, bytes, bit queries, complement, clones", lw), (lw * 20) as u64, move |i, c| {
        let s = split(i, &[lw as u64, 5, 4]); let x = pattern(s[0] + 1, [0, 1, 7, 6][s[2]]); let w = ws[s[1]]; c.note(|| format!("{} words with {}", s[0] + 1, w));
        agree(c, "word operations", 2, &|| { let mut o = Out::new().nat(&(nat(&x) + w)).nat(&(nat(&x) - w)).nat(&(nat(&x) * w)); if w > 0 { o = o.nat(&(nat(&x) / w)).nat(&(nat(&x) % w)); }
            let n = nat(&x); let (le, be) = (n.to_le_bytes(), n.to_be_bytes()); let mut q = vec![1u8]; n.copy_to_le(&mut q); let mut r = vec![]; n.copy_to_be(&mut r);
            o = o.bytes(&le).bytes(&be).bytes(&q).bytes(&r).nat(&Nat::from_le_bytes(&le)).nat(&Nat::from_be_bytes(&be)).nat(&n.deep_clone()).nat(&!n.clone()); o.0.push(n.bits_len() as u32); o.0.push(n.trailling_zeros() as u32); for b in [0usize, 31, 32, 63, 10000] { o.0.push(n.is_set_bit(b).map_or(2, |z| z as u32)); } o }) }));
    let lt = t.pick(40, 90);
    v.push(Suite::new("nat-text", format!("formatting and parsing in radix 2, 8, 10, 16, every length 1..={} words x 3 patterns, and every byte count 0..={} in both byte orders", lt, lt * 4), (lt * 3) as u64, move |i, c| {
        let (a, p) = sp2(i, lt); let x = pattern(a + 1, [0, 1, 7][p]); c.note(|| format!("text of {} words, pattern {}", a + 1, p));
        agree(c, "text", 2, &|| { let n = nat(&x); let s = [format!("{}", n), format!("{:#x}", n), format!("{:#o}", n), format!("{:#b}", n), format!("{:X}", n)]; let mut o = Out::new(); for t in &s[..4] { o = o.bytes(t.as_bytes()); match Nat::from_str(t) { Ok(m) => o = o.nat(&m), Err(_) => o.0.push(3) } } for k in 4 * a..=4 * a + 4 { let b: Vec<u8> = (0..k).map(|j| (j * 7 + 1) as u8).collect(); o = o.nat(&Nat::from_le_bytes(&b)).nat(&Nat::from_be_bytes(&b)); } o }) }));
    let lr = t.pick(10, 24);
    v.push(Suite::new("nat-roots-powers", format!("square roots, powers, modular powers and integer gcd/inverse: every length 1..={} words x 4 patterns x 3 exponents", lr), (lr * 12) as u64, move |i, c| {
        let s = split(i, &[lr as u64, 4, 3]); let x = pattern(s[0] + 1, [0, 2, 7, 4][s[1]]); let e = N::u([3, 17, 0x1_0000_0001][s[2]]); c.note(|| format!("{:?} exponent {:?}", x, e)); let small = s[2] == 0;
        agree(c, "roots and powers", 2, &|| { let mut o = Out::new(); if small { o = o.nat(&nat(&x).sqrt()).nat(&nat(&x).pow(nat(&e))); let m = BigInt::from(nat(&pattern(s[0] + 1, 5))); let (g, p, q) = BigInt::from(nat(&x)).gcd(m.clone()); o = o.int(&g).int(&p).int(&q); } let md = pattern((s[0] + 2) / 2, 7); if s[0] < 8 { o = o.nat(&nat(&x).pow_mod(nat(&e), nat(&md))).nat(&nat(&x).exp(&nat(&e), &nat(&md))).nat(&nat(&x).exp(&nat(&e), &nat(&md.add(&N::one())))); } o }) }));
    v
}
fn others(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let mut al = limb_vecs(&LIMBS4, 2); al.extend(patterns(t.pick(3..=9, 3..=20), &[0, 2, 7])); let zs: Arc<Vec<Z>> = Arc::new(signed(&dedup(al))); let nz = zs.len(); let no = INT2.len();
    v.push(Suite::new("int", format!("all pairs of {} integers x {} operations", nz, no), (nz * nz) as u64, move |i, c| {
        let (a, b) = sp2(i, nz); let (x, y) = (&zs[a], &zs[b]); c.note(|| format!("{:?} and {:?}", x, y));
        for (k, (name, f)) in INT2.iter().enumerate() { if y.is_zero() && [3, 4, 13, 14].contains(&k) { continue; } if k == 16 && (y.neg || !y.m.bit(0) || y.m.0.len() > 3 || x.m.0.len() > 3) { continue; } agree(c, name, 2, &|| f(int(x), int(y)))?; } Ok(()) }));
    let mut qs = vec![]; for &n in &[-7i128, 0, 1, 1 << 33, -(1 << 64) + 1, (1 << 100) - 1] { for &d in &[1i128, 3, (1 << 32) - 1, (1 << 65) + 1] { qs.push(Q::i(n, d)); } } if t.thorough() { for l in 1..=6 { qs.push(Q::new(Z::pos(pattern(l, 7)), Z::pos(pattern(7 - l, 0)))); qs.push(Q::new(Z::new(true, pattern(l, 0)), Z::pos(pattern(l, 8)))); } }
    let qs = Arc::new(qs); let nq = qs.len();
    v.push(Suite::new("rat", format!("all pairs of {} rationals x {} operations", nq, RAT2.len()), (nq * nq) as u64, move |i, c| {
        let (a, b) = sp2(i, nq); let (x, y) = (&qs[a], &qs[b]); c.note(|| format!("{:?} and {:?}", x, y));
        for (k, (name, f)) in RAT2.iter().enumerate() { if y.n.is_zero() && k == 3 { continue; } agree(c, name, 2, &|| f(rat(x), rat(y)))?; } Ok(()) }));
    // floats: mantissa lengths against precisions and modes
    let pl = t.pick(5usize, 8); let dims = [pl as u64, pl as u64, 4, 3, 4];
    v.push(Suite::new("float", format!("every pair of mantissa lengths 1..={} words x 4 exponent gaps x 3 modes x 4 precisions below/at/above word boundaries x {} operations", pl, FLT2.len()), dims.iter().product(), move |i, c| {
        let s = split(i, &dims); let gap = [0i64, 31, 64, -33][s[2]]; let md = [Mode::NearestEven, Mode::PosInf, Mode::ToZero][s[3]]; let (x, y) = (FV::fin(false, pattern(s[0] + 1, 7), gap), FV::fin(true, pattern(s[1] + 1, 0), 0)); let dp = [0usize, 1, 32, 40][s[4]]; c.note(|| format!("{:?} and {:?}, {:?}, extra precision {}", x, y, md, dp));
        let (p, q) = (32 * (s[0] + 1) + dp, 32 * (s[1] + 1) + 17);
        for (name, f) in FLT2 { agree(c, name, 2, &|| f(float(&x, p, md), float(&y, q, md)))?; } Ok(()) }));
    let ml = t.pick(6usize, 10); let mp = t.pick(200usize, 330);
    v.push(Suite::new("float-round", format!("rounding: mantissa lengths 1..={} words x 4 patterns x precision 1..={} x 6 modes", ml, mp), (ml * 4 * mp * 6) as u64, move |i, c| {
        let s = split(i, &[mp as u64, ml as u64, 4, 6]); let md = [Mode::NearestEven, Mode::NearestAway, Mode::ToZero, Mode::AwayZero, Mode::NegInf, Mode::PosInf][s[3]]; let x = FV::fin(s[2] == 1, pattern(s[1] + 1, [0, 7, 3, 5][s[2]]), 3); c.note(|| format!("{:?} to {} bits, {:?}", x, s[0] + 1, md));
        agree(c, "set_precision", 2, &|| { let mut f = float(&x, 32 * (s[1] + 1), md); f.set_precision(s[0] + 1); Out::new().flt(&f) }) }));
    v.push(Suite::new("float-text", format!("formatting, parsing and conversions: mantissa lengths 1..={} words x 5 exponents x 6 digit counts", pl), (pl * 30) as u64, move |i, c| {
        let s = split(i, &[pl as u64, 5, 6]); let e = [0i64, -40, 70, -300, 5][s[1]]; let x = FV::fin(s[2] & 1 == 1, pattern(s[0] + 1, [0, 7][s[2] & 1]), e); let d = [0usize, 1, 5, 17, 30, 60][s[2]]; c.note(|| format!("{:?} with {} digits", x, d));
        agree(c, "float text", 2, &|| { let f = float(&x, 32 * (s[0] + 1), Mode::NearestEven); let t = format!("{:.*e}", d, f); let u = format!("{:.*}", d, f); let mut o = Out::new().bytes(t.as_bytes()).bytes(u.as_bytes()); match Float::from_str(&t) { Ok(g) => o = o.flt(&g), Err(_) => o.0.push(5) }
            let (a, _) = f.to_f64(); let (b, _) = f.to_f32(); o.0.push(a.to_bits() as u32); o.0.push((a.to_bits() >> 32) as u32); o.0.push(b.to_bits()); o.0.push(f.truncate_to_u64().map_or(1, |z| z.0 as u32)); o.0.push(f.truncate_to_i64().map_or(1, |z| z.0 as u32)); o }) }));
    v
}
pub fn c32(t: Tier) -> Vec<Suite> { let mut v = each2(t); v.extend(each1(t)); v.extend(others(t)); v }
fn main() {
    mc::engine::main(&[Prop { id: "C32", build: c32, assumptions: &["reads of spare capacity inside a block are seen only through their effect on results (the fill pattern), accesses outside a block through the fences or canaries", "single-threaded (the number types are not Send)"] }])
}
