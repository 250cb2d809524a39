//! Properties of multi-precision floats: C23-C27.
use mc::alpha::*;
use mc::engine::*;
use mc::obs::*;
use mc::refmath::*;
use mc::text::*;
use mc::{ck, want};
use rmath::bigint::{BigInt, Float};
use std::cmp::Ordering;
use std::str::FromStr;
use std::sync::Arc;

fn fv(neg: bool, m: u128, e: i64) -> FV { FV::fin(neg, N::u(m), e) }
fn minprec(v: &FV) -> usize { match v { FV::Fin { m, .. } => m.bits(), _ => 0 } }
/// value of a finite float times 2^k
fn scale(v: &FV, k: i64) -> FV { match v { FV::Fin { neg, m, e } => FV::Fin { neg: *neg, m: m.clone(), e: e + k }, o => o.clone() } }
fn nan() -> Float { Float::from(f64::NAN) }
/// a result beyond the supported exponent range is infinity or zero of its sign; None where rounding carries it back into the range
fn clamp(r: (FV, Ordering), exact: i64) -> Option<(FV, Ordering)> {
    match &r.0 { FV::Fin { neg, .. } => { let t = top(&r.0);
        if t > Float::max_exp() as i64 { return Some((FV::Inf(*neg), if *neg { Ordering::Less } else { Ordering::Greater })); }
        if t < Float::min_exp() as i64 { return Some((FV::Zero(*neg), if *neg { Ordering::Greater } else { Ordering::Less })); }
        if exact < Float::min_exp() as i64 { return None; } Some(r) } _ => Some(r) }
}
/// mantissas with interesting bit patterns of exactly n bits
fn mants(n: usize) -> Vec<N> {
    let one = N::one(); let top = one.shl(n - 1);
    let mut v = vec![top.clone(), one.shl(n).sub(&one)];
    if n >= 2 { v.push(top.add(&one)); v.push(one.shl(n).sub(&N::u(2))); }
    if n >= 4 { v.push(top.add(&one.shl(n / 2))); v.push(top.add(&one.shl(n / 2)).sub(&one)); v.push(one.shl(n).sub(&one.shl(n / 2))); v.push(top.add(&one.shl(n / 3)).add(&one)); v.push(one.shl(n).sub(&one.shl(n / 3)).sub(&N::u(2))); }
    if n >= 8 { let d = dense(n / 32 + 1, n as u64); v.push(d.bitop(&one.shl(n - 1).sub(&one), |a, b| a & b).add(&top)); }
    dedup(v)
}

// ---------------------------------------------------------------- C23
fn round1(v: &FV, p0: usize, p1: usize, m: Mode, c: &mut Ctx) -> Res {
    c.note(|| format!("{:?} (precision {}, {:?}) to precision {}", v, p0, m, p1)); c.steps(3);
    let mut f = float(v, p0, m);
    ck!(is_float_full(&f, v, p0, m, Ordering::Equal), "construction");
    want!(f.required_min_precision() == minprec(v), "minimum precision of {:?}: {}", v, f.required_min_precision());
    f.set_precision(p1);
    let (w, a) = match v {
        FV::Fin { neg, .. } if p1 == 0 => (FV::Zero(*neg), if *neg { Ordering::Greater } else { Ordering::Less }),
        FV::Fin { neg, m: mm, e } => { let (r, a) = round_q(*neg, mm, &N::one(), p1, m); (scale(&r, *e), a) }
        o => (o.clone(), Ordering::Equal),
    };
    c.state(mix(w.hash(), mix(p1 as u64, m as u64 * 3 + (a as i8 + 1) as u64)));
    ck!(is_float_full(&f, &w, p1, m, a), "{:?} rounded {:?} to {} bits", v, m, p1);
    want!(f.required_min_precision() == minprec(&w), "minimum precision after rounding: {}", f.required_min_precision());
    // raising the precision and changing the mode never changes the value
    if p1 > 0 || !matches!(v, FV::Fin { .. }) {
        f.set_precision(p1 + 1); ck!(is_float_full(&f, &w, p1 + 1, m, Ordering::Equal), "raised to {} bits", p1 + 1);
        f.set_precision(p1 + 70); ck!(is_float_full(&f, &w, p1 + 70, m, Ordering::Equal), "raised to {} bits", p1 + 70);
        let m2 = MODES[(MODES.iter().position(|x| *x == m).unwrap() + 1) % 6];
        f.set_mode(mode(m2)); ck!(is_float_full(&f, &w, p1 + 70, m2, Ordering::Equal), "mode changed to {:?}", m2);
    }
    Ok(())
}
pub fn c23(t: Tier) -> Vec<Suite> {
    let mb = t.pick(12, 13); let nm = 1u64 << mb;
    let d1 = [nm - 1, mb as u64 + 2, 6, 2];
    // long mantissas around limb boundaries
    let lens: Vec<usize> = t.pick((10..=70).chain([95, 96, 97, 98, 127, 128, 129, 160, 161, 192, 193, 256, 257]).collect(), (1..=100).chain([95, 96, 97, 98, 127, 128, 129, 160, 161, 192, 193, 256, 257]).collect());
    let mut long: Vec<N> = lens.iter().flat_map(|&n| mants(n)).collect();
    // tails that decide ties: high pattern, half bit, sticky far below
    for &n in &[24usize, 31, 32, 33, 53, 63, 64, 65] { for hi in mants(n) { for gap in [1usize, 2, 31, 32, 33, 64] { for (h, s) in [(1u128, 0u128), (1, 1), (0, 1)] { long.push(hi.shl(1).add(&N::u(h)).shl(gap).add(&N::u(s))); } } } }
    let long = Arc::new(dedup(long));
    let precs: Arc<Vec<usize>> = Arc::new(t.pick((0..=140).chain([159, 160, 161, 192, 256]).collect(), (0..=200).chain([159, 160, 161, 192, 256]).collect()));
    let (nl, np) = (long.len() as u64, precs.len() as u64);
    let dl = [nl, np, 6, 2];
    // sequences of precision and mode changes
    let sm: u64 = t.pick(128, 256);
    let pl: Vec<usize> = vec![1, 2, 3, 4, 5, 7]; let dseq = [sm - 1, 6, 6, 6, 6, 2];
    vec![
        Suite::new("small", format!("every mantissa 1..2^{} x every precision 0..={} x 6 modes x both signs, several exponents", mb, mb + 1), d1.iter().product(), move |i, c| { let s = split(i, &d1); let m = s[0] as u128 + 1; let e = [0i64, -3, 5, -1000, 70, 100000][s[0] % 6]; let v = fv(s[3] == 1, m, e); round1(&v, [12, 13, 32, 33, 64, 100][s[0] / 6 % 6].max(minprec(&v)), s[1], MODES[s[2]], c) }),
        { let (long, precs) = (long.clone(), precs.clone()); Suite::new("limbs", format!("{} mantissas of up to {} bits around limb boundaries and tie points x {} precisions x 6 modes x both signs", nl, long.iter().map(|m| m.bits()).max().unwrap(), np), dl.iter().product(), move |i, c| { let s = split(i, &dl); let v = FV::fin(s[3] == 1, long[s[0]].clone(), -7); let p0 = long[s[0]].bits(); round1(&v, p0, precs[s[1]], MODES[s[2]], c) }) },
        { let rv = Arc::new(route_vals()); let n = rv.len() as u64; let d = [n, ROUTES as u64 + 1, 6, 140]; Suite::new("routes", format!("{} values, each produced by each of {} computations, rounded to every precision below 140 in 6 modes", n, ROUTES + 1), d.iter().product(), move |i, c| { let s = split(i, &d); let x = &rv[s[0]]; c.note(|| format!("route {}", s[1])); routed(&[s[1]]); let r = round1(x, minprec(x).max(1) + 2, s[3], MODES[s[2]], c); routed(&[]); r }) },
        { let bits: Vec<usize> = t.pick(vec![300, 320, 511, 512, 513, 640, 1000, 1280, 1281, 2049, 4100], (258..=600).chain([1000, 1024, 1279, 1280, 1281, 2048, 2049, 4100, 8200]).collect()); let d = [bits.len() as u64, 12, 30, 6, 2]; Suite::new("wide", format!("mantissas of {} lengths up to {} bits, 12 patterns with decisive bits at either end, 30 precisions, 6 modes, both signs", d[0], bits[bits.len() - 1]), d.iter().product(), move |i, c| { let s = split(i, &d); let n = bits[s[0]]; let one = N::one();
            let p1 = match s[2] { k @ 0..=5 => n - 1 - k, k @ 6..=11 => n / 2 - 3 + k - 5, k @ 12..=23 => { let w = [32usize, 64, 96, 128, 160, 192, 224, 256, n / 64 * 32, n / 32 * 32 - 32, n / 32 * 32, n / 32 * 32 - 64][k - 12]; w.min(n - 1) } 24 => 1, 25 => 2, 26 => 33, 27 => 53, 28 => 65, _ => n };
            let hi = one.shl(n - 1); let below = n - p1; // bits dropped
            let m = match s[1] { 0 => one.shl(n).sub(&one), 1 => hi.add(&one), 2 if below > 0 => hi.add(&one.shl(below - 1)), 3 if below > 1 => hi.add(&one.shl(below - 1)).add(&one), 4 if below > 1 => hi.add(&one.shl(below - 1)).sub(&one), 5 => hi.add(&one.shl(below)), 6 if below > 0 => hi.add(&one.shl(below)).add(&one.shl(below - 1)), 7 if below > 1 => hi.add(&one.shl(below)).add(&one.shl(below - 1)).add(&one), 8 => hi.add(&one.shl(n / 2)), 9 => pattern(n / 32, 7).shl(n % 32).add(&hi), 10 if below > 0 => one.shl(n).sub(&one.shl(below - 1)), 11 if below > 1 => one.shl(n).sub(&one.shl(below - 1)).sub(&one), _ => return Ok(()) };
            let v = FV::fin(s[4] == 1, m, -7); if p1 > n { return Ok(()); } round1(&v, n.max(minprec(&v)) + s[1] % 3, p1, MODES[s[3]], c) }) },
        { let cuts: Vec<usize> = t.pick(vec![8191, 8192, 8193, 16384, 32767, 32768, 32769, 65503, 65504, 65505, 65535, 65536, 65537, 65567, 65568, 65569, 131072], [8192usize, 16384, 32768, 65536].iter().flat_map(|&b| [33, 32, 31, 1, 0].map(|k| b - k).into_iter().chain([1, 2, 31, 32, 33, 63, 64].map(|k| b + k))).chain([98304, 131071, 131072, 131073, 131103, 131104, 196608, 262144]).collect());
          let gaps = t.pick(vec![1usize, 33], vec![1, 31, 32, 33, 70]); let d = [cuts.len() as u64, gaps.len() as u64, 6, 6]; Suite::new("huge", format!("mantissas around {} lengths up to {} bits, rounded by 1 to 70 bits, 6 patterns at the cut, 6 modes, signs alternating", cuts.len(), cuts.iter().max().unwrap()), d.iter().product(), move |i, c| { let s = split(i, &d); let (p1, g) = (cuts[s[0]], gaps[s[1]]); let one = N::one(); let n = p1 + g;
            let hi = one.shl(n - 1); let m = match s[2] { 0 => one.shl(n).sub(&one), 1 => hi.add(&one), 2 => hi.add(&one.shl(g - 1)), 3 => hi.add(&one.shl(g)).add(&one.shl(g - 1)), 4 => pattern(n / 32, 7).shl(n % 32).bitop(&hi, |a, b| a | b).bitop(&one, |a, b| a | b), _ => one.shl(n).sub(&one.shl(g - 1)) };
            let v = FV::fin((s[0] + s[1] + s[2] + s[3]) % 2 == 1, m, -7); round1(&v, n, p1, MODES[s[3]], c) }) },
        { let gs: Vec<usize> = t.pick(vec![40, 65, 128, 300, 513, 769, 800, 1000, 1025, 1300, 2049, 3000, 4100], (33..140).step_by(7).chain((140..2100).step_by(61)).chain([2048, 2049, 3000, 4095, 4096, 4097, 4100, 8200]).collect());
          let mut w: Vec<(usize, usize)> = vec![]; for &g in &gs { let mut at: Vec<usize> = (0..g).step_by(16).flat_map(|b| [b, b + 1, b + 15]).chain([g - 1, g - 2]).filter(|&b| b < g).collect(); at.sort(); at.dedup(); w.extend(at.iter().map(|&b| (g, b))); }
          let n = w.len() as u64; let d = [n, 4, 3, 6, 2]; Suite::new("sticky", format!("values rounded by {:?} bits of which one is set, at every boundary position of every half word, with and without the half, to 1, 20, 33 and 64 bits in 6 modes, both signs", gs), d.iter().product(), move |i, c| { let s = split(i, &d); let (g, b) = w[s[0]]; let p1 = [1usize, 20, 33, 64][s[1]]; let one = N::one();
            let hi = match s[2] { 0 => one.shl(p1 - 1), 1 => one.shl(p1).sub(&one), _ => one.shl(p1 - 1).bitop(&one, |a, b| a | b) }; let half = s[2] != 1 && b + 1 < g; let mut m = hi.shl(g).add(&one.shl(b)); if half && s[2] == 2 { m = m.add(&one.shl(g - 1)); }
            let v = FV::fin(s[4] == 1, m.clone(), -7); round1(&v, p1 + g, p1, MODES[s[3]], c)?;
            // the mantissa as an integer leaves it, low zeros included
            let (neg, md) = (s[4] == 1, MODES[s[3]]); let z = Z::new(neg, m.clone()); let (w, a) = round_q(neg, &m, &N::one(), p1, md); c.steps(1);
            let mut f = Float::from(int(&z)); f.set_mode(mode(md)); f.set_precision(p1); ck!(is_float_full(&f, &w, p1, md, a), "the integer {:?} rounded {:?} to {} bits", z, md, p1); Ok(()) }) },
        Suite::new("specials", "zeros, infinities and NaN x precisions x modes", 5 * 5 * 6, |i, c| { let s = split(i, &[5, 5, 6]); let v = [FV::Zero(false), FV::Zero(true), FV::Inf(false), FV::Inf(true), FV::Nan][s[0]].clone(); if v == FV::Nan { c.step(); let mut f = nan(); f.set_precision([0, 1, 24, 64, 200][s[1]]); want!(f.is_nan(), "NaN lost"); f.set_mode(mode(MODES[s[2]])); want!(f.is_nan() && f.required_min_precision() == 0, "NaN lost"); return Ok(()); } round1(&v, 33, [0, 1, 24, 64, 200][s[1]], MODES[s[2]], c) }),
        Suite::new("sequences", format!("every mantissa below {}, every sequence of two (precision, mode) changes: each rounds the current value", sm), dseq.iter().product(), move |i, c| {
            let s = split(i, &dseq); let v = fv(s[5] == 1, s[0] as u128 + 1, 0);
            let (m1, m2, p1, p2) = (MODES[s[1]], MODES[s[2]], pl[s[3]], pl[s[4]]);
            c.note(|| format!("{:?}: {:?} to {} bits, then {:?} to {} bits", v, m1, p1, m2, p2)); c.steps(2);
            let mut f = float(&v, 64, m1); f.set_precision(p1);
            let rnd = |v: &FV, p: usize, m: Mode| match v { FV::Fin { neg, m: mm, e } => { let (r, a) = round_q(*neg, mm, &N::one(), p, m); (scale(&r, *e), a) } o => (o.clone(), Ordering::Equal) };
            let (w, a) = rnd(&v, p1, m1); ck!(is_float_full(&f, &w, p1, m1, a), "first rounding");
            f.set_mode(mode(m2)); f.set_precision(p2);
            let (w2, a2) = rnd(&w, p2, m2); ck!(is_float_full(&f, &w2, p2, m2, a2), "second rounding");
            c.state(mix(w.hash(), w2.hash())); Ok(())
        }),
        Suite::new("overflow", "rounding up at the largest supported exponent gives infinity", 2 * 6 * 3, |i, c| {
            let s = split(i, &[2, 6, 3]); let (neg, m) = (s[0] == 1, MODES[s[1]]); let bits = [8usize, 40, 70][s[2]];
            c.note(|| format!("all ones of {} bits at the largest exponent, {:?}", bits, m)); c.step();
            let v = FV::fin(neg, N::one().shl(bits).sub(&N::one()), Float::max_exp() as i64 - bits as i64);
            let mut f = float(&v, bits, m); ck!(is_float(&f, &v), "construction");
            f.set_precision(bits - 3);
            let up = match m { Mode::ToZero => false, Mode::NegInf => neg, Mode::PosInf => !neg, _ => true };
            let w = if up { FV::Inf(neg) } else { FV::fin(neg, N::one().shl(bits - 3).sub(&N::one()), Float::max_exp() as i64 - bits as i64 + 3) };
            ck!(is_float(&f, &w), "rounded to {} bits", bits - 3);
            want!(acc(f.get_accuracy()) == if up != neg { Ordering::Greater } else { Ordering::Less }, "accuracy {:?}", acc(f.get_accuracy()));
            c.state(w.hash()); Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- C24
const OPS: [&str; 4] = ["+", "-", "*", "/"];
fn model_op(op: usize, x: &FV, y: &FV, p: usize, m: Mode) -> (FV, Ordering) { match op { 0 => fadd(x, y, p, m), 1 => fsub(x, y, p, m), 2 => fmul(x, y, p, m), _ => fdiv(x, y, p, m) } }
fn real_op(op: usize, x: Float, y: Float) -> Float { match op { 0 => x + y, 1 => x - y, 2 => x * y, _ => x / y } }
fn real_assign(op: usize, x: &mut Float, y: Float) { match op { 0 => *x += y, 1 => *x -= y, 2 => *x *= y, _ => *x /= y } }
fn op1(op: usize, x: &FV, px: usize, mx: Mode, y: &FV, py: usize, my: Mode, c: &mut Ctx) -> Res {
    c.note(|| format!("{:?} [{} bits, {:?}] {} {:?} [{} bits, {:?}]", x, px, mx, OPS[op], y, py, my)); c.steps(2);
    let p = if px == 0 { py } else { px };
    let (w, a) = model_op(op, x, y, p, mx);
    let (f, g) = (float(x, px, mx), float(y, py, my));
    let r = real_op(op, f.deep_clone(), g.deep_clone());
    let mut r2 = f.deep_clone(); real_assign(op, &mut r2, g.deep_clone());
    // the sign of a sum of opposite zeros rounded toward negative infinity is not specified
    let zz = op < 2 && mx == Mode::NegInf && matches!((x, y), (FV::Zero(a), FV::Zero(b)) if (*a == *b) == (op == 1));
    for (r, k) in [(&r, ""), (&r2, "=")] {
        if zz { want!(matches!(see_float(r)?, FV::Zero(_)), "{:?} {}{} {:?} is not zero", x, OPS[op], k, y); continue; }
        ck!(is_float_full(r, &w, p, mx, a), "{:?} {}{} {:?} at {} bits {:?}", x, OPS[op], k, y, p, mx);
    }
    ck!(is_float_full(&f, x, px, mx, Ordering::Equal), "left operand afterwards"); ck!(is_float_full(&g, y, py, my, Ordering::Equal), "right operand afterwards");
    c.state(mix(w.hash(), mix(p as u64, (a as i8 + 1) as u64)));
    Ok(())
}
fn ieee(op: usize, x: f64, y: f64, c: &mut Ctx) -> Res {
    c.note(|| format!("f64 {:e} {} {:e}", x, OPS[op], y)); c.step();
    let w = match op { 0 => x + y, 1 => x - y, 2 => x * y, _ => x / y };
    let r = real_op(op, Float::from(x), Float::from(y));
    if w.is_nan() { want!(r.is_nan(), "{:e} {} {:e} is not NaN", x, OPS[op], y); return Ok(()); }
    if (w.is_infinite() && x.is_finite() && y.is_finite() && !(op == 3 && y == 0.0)) || (w != 0.0 && w.abs() <= f64::MIN_POSITIVE) || (w == 0.0 && op >= 2 && x != 0.0 && y.is_finite() && y != 0.0) { return Ok(()); } // beyond the normal range
    want!(!r.is_nan(), "{:e} {} {:e} is NaN", x, OPS[op], y);
    let (g, a) = r.to_f64();
    want!(g.to_bits() == w.to_bits() && acc(a) == Ordering::Equal, "{:e} {} {:e} = {:e}, IEEE arithmetic gives {:e}", x, OPS[op], y, g, w);
    want!(r.get_precision() == 53, "precision {}", r.get_precision());
    c.state(w.to_bits()); Ok(())
}
fn ieee32(op: usize, x: f32, y: f32, c: &mut Ctx) -> Res {
    c.note(|| format!("f32 {:e} {} {:e}", x, OPS[op], y)); c.step();
    let w = match op { 0 => x + y, 1 => x - y, 2 => x * y, _ => x / y };
    let mk = |v: f32| { let mut f = Float::from(v); f.set_precision(24); f };
    let r = real_op(op, mk(x), mk(y));
    if w.is_nan() { want!(r.is_nan(), "{:e} {} {:e} is not NaN", x, OPS[op], y); return Ok(()); }
    if (w.is_infinite() && x.is_finite() && y.is_finite() && !(op == 3 && y == 0.0)) || (w != 0.0 && w.abs() <= f32::MIN_POSITIVE) || (w == 0.0 && op >= 2 && x != 0.0 && y.is_finite() && y != 0.0) { return Ok(()); }
    want!(!r.is_nan(), "{:e} {} {:e} is NaN", x, OPS[op], y);
    let (g, a) = r.to_f32();
    want!(g.to_bits() == w.to_bits() && acc(a) == Ordering::Equal, "{:e} {} {:e} = {:e}, IEEE arithmetic gives {:e}", x, OPS[op], y, g, w);
    c.state(mix(32, w.to_bits() as u64)); Ok(())
}
fn f64s(t: Tier) -> Vec<f64> {
    let mut v = vec![0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, 0.1, 1.0 / 3.0, std::f64::consts::PI];
    let ms = [0u64, 1, 0xf_ffff_ffff_ffff, 0x8_0000_0000_0000, 0x8_0000_0000_0001, 0x5_5555_5555_5555, 0x0_0000_0800_0000, 0x1_2345_6789_abcd];
    let es: Vec<u64> = t.pick(vec![1, 2, 500, 970, 1000, 1022, 1023, 1024, 1050, 1075, 1076, 1077, 1100, 1600, 2045, 2046], vec![1, 2, 3, 55, 500, 900, 960, 970, 971, 990, 991, 992, 1000, 1010, 1021, 1022, 1023, 1024, 1025, 1030, 1054, 1055, 1056, 1075, 1076, 1077, 1078, 1100, 1200, 1600, 1990, 2044, 2045, 2046]);
    for &e in &es { for &m in &ms { for s in 0..2u64 { v.push(f64::from_bits(s << 63 | e << 52 | m)); } } }
    v
}
fn f32s(t: Tier) -> Vec<f32> {
    let mut v = vec![0.0, -0.0, f32::INFINITY, f32::NEG_INFINITY, 0.1];
    let ms = [0u32, 1, 0x7f_ffff, 0x40_0000, 0x40_0001, 0x55_5555, 0x12_3456];
    let es: Vec<u32> = t.pick(vec![1, 60, 103, 120, 126, 127, 128, 140, 150, 151, 152, 200, 254], (1..255).step_by(4).chain([126, 127, 128, 150, 151, 254]).collect());
    for &e in &es { for &m in &ms { for s in 0..2u32 { v.push(f32::from_bits(s << 31 | e << 23 | m)); } } }
    v
}
fn route_vals() -> Vec<FV> { let mut v = vec![FV::Zero(false), FV::Zero(true), FV::Inf(false), FV::Inf(true)]; for s in [false, true] { for (m, e) in [(1u128, 0i64), (5, -3), (0xffff_ffff, 1), (0x1_0000_0001, -32), (0x8000_0000_0000_0000_0000_0001, -40), (u128::MAX, -64)] { v.push(fv(s, m, e)); } } v }
pub fn c24(t: Tier) -> Vec<Suite> {
    let k: u64 = t.pick(12, 16); // mantissas 1..=k
    let ne: u64 = t.pick(11, 15); let np: u64 = t.pick(5, 6);
    let ds = [k, k, ne, 4, np, 6, 4];
    // multi-limb operands
    let lens: Vec<usize> = t.pick(vec![1, 31, 32, 33, 64, 65, 96], vec![1, 2, 24, 31, 32, 33, 53, 63, 64, 65, 95, 96, 97, 128, 129, 160]);
    let big: Arc<Vec<N>> = Arc::new(dedup(lens.iter().flat_map(|&n| { let m = mants(n); if t.thorough() { m } else { let k = m.len(); m.into_iter().enumerate().filter(|(i, _)| *i < 2 || *i + 2 >= k).map(|x| x.1).collect() } }).collect()));
    let gaps: Vec<i64> = vec![0, 1, -1, 2, 31, 32, 33, -33, -64, 65, 97, 130, -130];
    let extra: Vec<usize> = vec![0, 1, 2, 31, 32, 33, 64];
    let nb = big.len() as u64;
    let db = [nb, nb, gaps.len() as u64, extra.len() as u64, 4, t.pick(3, 6), 4];
    // truncated precisions: the left operand keeps few bits, the right one many
    let sp: Vec<FV> = { let mut v = vec![FV::Zero(false), FV::Zero(true), FV::Inf(false), FV::Inf(true), FV::Nan]; for s in [false, true] { for (m, e) in [(1u128, 0i64), (3, -2), (0xffff_ffff, 0), (0xffff_ffff_ffff_ffff, -20), (5, 40)] { v.push(fv(s, m, e)); } } v };
    let spn = sp.len() as u64; let dsp = [spn, spn, 5, 4, 6, 4];
    let (a64, a32) = (Arc::new(f64s(t)), Arc::new(f32s(t)));
    let (n64, n32) = (a64.len() as u64, a32.len() as u64);
    vec![
        Suite::new("small", format!("mantissas 1..={} on both sides, exponent gap in -{}..={}, both signs, left precision from exact to +{}, 6 modes, 4 operations", k, ne / 2, ne / 2, np - 1), ds.iter().product(), move |i, c| {
            let s = split(i, &ds); let (x, y) = (fv(s[3] & 1 == 1, s[0] as u128 + 1, 0), fv(s[3] & 2 == 2, s[1] as u128 + 1, s[2] as i64 - ne as i64 / 2));
            op1(s[6], &x, minprec(&x) + s[4], MODES[s[5]], &y, 9, MODES[(s[5] + s[0]) % 6], c)
        }),
        Suite::new("limbs", format!("{} x {} mantissas up to {} bits, {} exponent gaps, {} left precisions above the mantissa, signs, modes, 4 operations", nb, nb, lens[lens.len() - 1], gaps.len(), extra.len()), db.iter().product(), move |i, c| {
            let s = split(i, &db); let (x, y) = (FV::fin(s[4] & 1 == 1, big[s[0]].clone(), 0), FV::fin(s[4] & 2 == 2, big[s[1]].clone(), gaps[s[2]]));
            let m = if t.thorough() { MODES[s[5]] } else { MODES[((s[5] * 3) + s[0] + s[1]) % 6] };
            op1(s[6], &x, minprec(&x) + extra[s[3]], m, &y, minprec(&y) + [0, 40][s[1] % 2], Mode::NearestEven, c)
        }),
        { let ms: Vec<u128> = vec![1, 3, 0xffff_ffff, (1 << 33) + 1, u64::MAX as u128, (1 << 95) + 1]; let (mx, mn) = (Float::max_exp() as i64, Float::min_exp() as i64); let tops: Vec<i64> = vec![mx, mx - 1, mx - 2, mx - 33, mx / 2 + 2, mx / 2 + 1, mx / 2, mx / 2 - 1, 2, 1, 0, -1, -40, mn / 2 + 1, mn / 2, mn / 2 - 1, mn / 2 - 2, mn + 33, mn + 2, mn + 1, mn]; let (a, b) = (ms.len() as u64, tops.len() as u64); let d = [a, a, b, b, 4, 3, 4]; Suite::new("extremes", format!("{} x {} mantissas at {} x {} exponents up to both ends of the supported range, signs, precisions, operations: overflow gives infinity, underflow zero", a, a, b, b), d.iter().product(), move |i, c| {
            let s = split(i, &d); let mk = |m: u128, t: i64, neg: bool| { let n = N::u(m); let b = n.bits() as i64; FV::fin(neg, n, t - b) };
            let (x, y) = (mk(ms[s[0]], tops[s[2]], s[4] & 1 == 1), mk(ms[s[1]], tops[s[3]], s[4] & 2 == 2)); let op = s[6];
            if op < 2 && (tops[s[2]] - tops[s[3]]).abs() > 5000 { return Ok(()); }
            let m = MODES[(s[0] + s[2] + s[3] + s[5]) % 6]; let px = minprec(&x) + [0, 7, 64][s[5]];
            c.note(|| format!("{:?} {} {:?} [{} bits, {:?}]", x, OPS[op], y, px, m)); c.steps(2);
            let (kx, ky) = if op < 2 { (top(&x), top(&x)) } else { (top(&x), top(&y)) }; let k = match op { 2 => kx + ky, 3 => kx - ky, _ => kx }; // the model works near exponent 0
            let mo = |p: usize, m: Mode| { let (v, a) = model_op(op, &scale(&x, -kx), &scale(&y, -ky), p, m); (scale(&v, k), a) };
            let exact = top(&mo(400, Mode::ToZero).0); let (w, a) = match clamp(mo(px, m), exact) { Some(r) => r, None => return Ok(()) };
            let (f, g) = (float(&x, px, m), float(&y, minprec(&y), Mode::NearestEven));
            ck!(is_float_full(&real_op(op, f.deep_clone(), g.deep_clone()), &w, px, m, a), "{:?} {} {:?}", x, OPS[op], y);
            let mut r = f.deep_clone(); real_assign(op, &mut r, g.deep_clone()); ck!(is_float_full(&r, &w, px, m, a), "{:?} {}= {:?}", x, OPS[op], y); c.state(mix(w.hash(), px as u64)); Ok(()) }) },
        { let ms: Arc<Vec<N>> = Arc::new(dedup([1usize, 2, 32, 33, 64, 65, 97, 128].iter().flat_map(|&n| { let m = mants(n); let k = m.len(); m.into_iter().enumerate().filter(|(i, _)| *i == 1 || *i + 1 == k).map(|x| x.1).collect::<Vec<_>>() }).collect())); let n = ms.len() as u64; let gm = t.pick(300i64, 700); let d = [n, n, 2 * gm as u64 + 1, 2, 4, 2]; Suite::new("gaps", format!("{} x {} mantissas of up to 128 bits, every distance of their leading bits from -{} to {}, mantissas with and without trailing zero words, sums and differences", n, n, gm, gm), d.iter().product(), move |i, c| {
            let s = split(i, &d); let (a, b) = (&ms[s[0]], &ms[s[1]]); let gap = s[2] as i64 - gm; let h = s[0] * 7 + s[1] * 3 + s[2];
            let (x, y) = (FV::fin(h % 2 == 1, a.clone(), -(a.bits() as i64)), FV::fin(s[3] == 1, b.clone(), gap - b.bits() as i64));
            let px = match (h / 2) % 4 { 0 => minprec(&x), 1 => minprec(&x).max(64), 2 => minprec(&x) + 100, _ => minprec(&x).max(53) + gm as usize };
            routed(&[[0, 7][s[4] & 1], [0, 7][s[4] >> 1]]); let r = op1(s[5], &x, px, MODES[(h / 8) % 6], &y, minprec(&y) + [0, 96][s[4] >> 1], Mode::NearestEven, c); routed(&[]); r }) },
        { let bits: Vec<usize> = t.pick(vec![160, 257, 640, 1281, 1300, 2600], vec![160, 192, 257, 512, 640, 1000, 1280, 1281, 1300, 2560, 2600, 4100, 5300]); let n = bits.len() as u64; let d = [n, n, 5, 5, 4, 4]; Suite::new("wide", format!("operands of up to {} bits, 5 x 5 mantissa patterns, 4 precisions, all operations", bits[bits.len() - 1]), d.iter().product(), move |i, c| {
            let s = split(i, &d); let mk = |n: usize, k: usize| { let m = mants(n); m[[0, m.len() - 1, 1, m.len() / 2, 2][k] % m.len()].clone() }; let h = s[0] + s[1] * 5 + s[2] * 7 + s[3];
            let (x, y) = (FV::fin(h % 2 == 1, mk(bits[s[0]], s[2]), 0), FV::fin(h % 3 == 1, mk(bits[s[1]], s[3]), [0, -1000, 3][h % 3])); let px = minprec(&x) + [0, 33, 700, 3000][s[4]];
            op1(s[5], &x, px, MODES[h % 6], &y, minprec(&y), Mode::NearestEven, c) }) },
        { let ls: Vec<usize> = t.pick(vec![5, 8, 9, 12, 16, 17, 24, 31, 32, 33, 48, 64, 65, 100, 128], (5..=130).chain([159, 160, 161, 192, 255, 256, 257, 320]).collect()); let n = ls.len() as u64; let d = [n, 7, 18, 4, 4, 4, 3]; Suite::new("long-gaps", format!("operands of {} lengths up to {} words against 1, 2, 3, half, one less, as many and one more words, 18 distances of their leading bits, 4 pairs of patterns, all signs, all operations, 3 precisions", n, ls[ls.len() - 1]), d.iter().product(), move |i, c| {
            let s = split(i, &d); let l = ls[s[0]]; let k = [1, 2, 3, l / 2, l - 1, l, l + 1][s[1]]; let b = 32 * l as i64; let op = s[5]; if op >= 2 && (s[2] > 0 || s[4] != (l + s[1]) % 4 || l > 33 && s[3] > 1 || l > 65 && s[6] == 2) { return Ok(()); } if op < 2 && l > 33 && (s[2] + s[3]) % 2 == 1 { return Ok(()); }
            let gap = [0, 1, -1, 31, 32, 33, -32, 64, b / 2, b / 2 + 1, b - 33, b - 1, b, b + 1, b + 33, b + 100, -b, -b - 40][s[2]]; let (p, q) = [(7, 0), (8, 7), (0, 1), (3, 8)][s[3]]; let (u, v) = (pattern(l, p), pattern(k, q)); let h = s.iter().sum::<usize>();
            let (x, y) = (FV::fin(s[4] & 1 == 1, u.clone(), -(u.bits() as i64)), FV::fin(s[4] & 2 == 2, v.clone(), -gap - v.bits() as i64));
            let (x, y) = if (s[2] + s[4]) % 2 == 1 { (y, x) } else { (x, y) }; let px = minprec(&x) + [0, 1, b as usize + 40][s[6]];
            op1(op, &x, px, MODES[h % 6], &y, minprec(&y) + [0, 64][h % 2], Mode::NearestEven, c) }) },
        { let wb: Vec<usize> = t.pick((1..=200).chain((200..1400).step_by(17)).chain([256, 257, 512, 513, 1024, 1025]).collect(), (1..=1400).collect()); let n = wb.len() as u64; let d = [n, 5, 6, 4, 4, 2]; Suite::new("neighbours", format!("numbers of {} widths up to {} bits and their neighbours 0 to 3 units and one bit of every place away, all signs, all operations", n, wb[wb.len() - 1]), d.iter().product(), move |i, c| {
            let s = split(i, &d); let b = wb[s[0]]; let one = N::one(); let m = match s[1] { 0 => one.shl(b - 1), 1 => one.shl(b).sub(&one), 2 => one.shl(b - 1).add(&one), 3 => one.shl(b).sub(&N::u(2)), _ => pattern(b / 32 + 1, 7).shr(31 - b % 32) }; if m.is_zero() { return Ok(()); }
            let y = match s[2] { 0 => m.clone(), 1 => m.add(&one), 2 => if m > one { m.sub(&one) } else { return Ok(()) }, 3 => m.add(&N::u(3)), 4 => m.add(&one.shl(b / 2)), _ => m.add(&one.shl(b - 1)) }; let h = s[0] + s[1] + s[2];
            let (x, y) = (FV::fin(s[3] & 1 == 1, m, 0), FV::fin(s[3] & 2 == 2, y, [0, 0, 1][h % 3 * s[5]])); let px = minprec(&x).max(b) + [0, 1, 50][(h / 3) % 3];
            op1(s[4], &x, px, MODES[(h + s[3]) % 6], &y, minprec(&y) + [0, 60][h % 2], Mode::NearestEven, c) }) },
        Suite::new("specials", "zeros, infinities, NaN and some finite values on both sides, precisions (including 0 for zeros and infinities), modes, operations", dsp.iter().product(), move |i, c| {
            let s = split(i, &dsp); let (x, y) = (&sp[s[0]], &sp[s[1]]);
            if *x == FV::Nan || *y == FV::Nan { c.step(); let mk = |v: &FV| if *v == FV::Nan { nan() } else { float(v, 64, Mode::NearestEven) }; want!(real_op(s[5], mk(x), mk(y)).is_nan(), "{:?} {} {:?} is not NaN", x, OPS[s[5]], y); let mut z = mk(x); real_assign(s[5], &mut z, mk(y)); want!(z.is_nan(), "{:?} {}= {:?} is not NaN", x, OPS[s[5]], y); return Ok(()); }
            let fin = |v: &FV| matches!(v, FV::Fin { .. });
            let px = if fin(x) { minprec(x) + [0, 1, 40, 64, 7][s[2]] } else { [0, 1, 24, 64, 200][s[2]] }; let py = if fin(y) { minprec(y) + [0, 1, 10, 64][s[3]] } else { [0, 1, 24, 64][s[3]] };
            op1(s[5], x, px, MODES[s[4]], y, py, MODES[(s[4] + 1) % 6], c)
        }),
        Suite::new("ieee64", format!("all pairs of {} normal f64 values, zeros and infinities, 4 operations, against machine arithmetic", n64), n64 * n64 * 4, move |i, c| { let s = split(i, &[n64, n64, 4]); ieee(s[2], a64[s[0]], a64[s[1]], c) }),
        Suite::new("ieee32", format!("all pairs of {} normal f32 values, zeros and infinities, 4 operations, against machine arithmetic", n32), n32 * n32 * 4, move |i, c| { let s = split(i, &[n32, n32, 4]); ieee32(s[2], a32[s[0]], a32[s[1]], c) }),
        { let mut iv: Vec<N> = vec![]; for k in t.pick(vec![0usize, 1, 31, 32, 64, 97, 256], vec![0, 1, 5, 31, 32, 33, 63, 64, 95, 97, 128, 256, 800, 801]) { for m in [N::one(), N::u(3), N::u(0xffff_ffff), N::u(0x8000_0001), N::new(vec![1, 0, 1]), N::new(vec![u32::MAX; 2]), pattern(3, 7), pattern(5, 0)] { iv.push(m.shl(k)); } }
          let iv = Arc::new(dedup(iv)); let n = iv.len() as u64; let d = [n, n, 4, 6, 2, 4]; Suite::new("integer-operands", format!("all pairs of {} long integers with low zeros, turned into floats and used as they come: every operation, then every operation on its result and the left operand, 6 modes", n), d.iter().product(), move |i, c| {
            let s = split(i, &d); let (a, b) = (Z::new(s[4] == 1, iv[s[0]].clone()), Z::pos(iv[s[1]].clone())); let (o1, o2, m) = (s[2], s[5], MODES[s[3]]); c.note(|| format!("({:?} {} {:?}) {} {:?}, {:?}", a, OPS[o1], b, OPS[o2], a, m)); c.steps(2);
            let mut x = Float::from(int(&a)); x.set_mode(mode(m)); let y = Float::from(int(&b)); let p = x.get_precision();
            let (va, vb) = (FV::fin(a.neg, a.m.clone(), 0), FV::fin(false, b.m.clone(), 0));
            let (w, ac) = model_op(o1, &va, &vb, p, m); let r = real_op(o1, x.deep_clone(), y); ck!(is_float_full(&r, &w, p, m, ac), "{:?} {} {:?} at {} bits {:?}", va, OPS[o1], vb, p, m);
            c.state(w.hash()); if matches!(w, FV::Zero(_)) { return Ok(()); }
            let (w2, ac2) = model_op(o2, &w, &va, p, m); if matches!(w2, FV::Zero(_)) && m == Mode::NegInf { return Ok(()); } let r2 = real_op(o2, r, x.deep_clone()); ck!(is_float_full(&r2, &w2, p, m, ac2), "({:?} {} {:?}) {} {:?} at {} bits {:?}", va, OPS[o1], vb, OPS[o2], va, p, m);
            ck!(is_float(&x, &va), "left operand afterwards"); Ok(()) }) },
        { let rv = Arc::new(route_vals()); let n = rv.len() as u64; let d = [n, n, ROUTES as u64 + 1, ROUTES as u64 + 1, 4, t.pick(1, 3)]; Suite::new("routes", format!("all pairs of {} values (zeros, infinities, short and long mantissas), each operand produced by each of {} computations, 4 operations", n, ROUTES + 1), d.iter().product(), move |i, c| {
            let s = split(i, &d); let (x, y) = (&rv[s[0]], &rv[s[1]]); c.note(|| format!("routes {} and {}", s[2], s[3])); routed(&[s[2], s[3]]);
            let m = MODES[(s[0] + s[1] + s[5] * 2) % 6];
            let r = op1(s[4], x, minprec(x).max(1) + [0, 9, 70][(s[0] + s[3]) % 3], m, y, minprec(y).max(1) + 5, Mode::NearestEven, c); routed(&[]); r }) },
        Suite::new("stale-accuracy", "operands carrying the accuracy of an earlier inexact operation: the result's accuracy is that of the last rounding", 4 * 6 * 7, |i, c| {
            let s = split(i, &[4, 6, 7]); let m = MODES[s[1]];
            c.note(|| format!("inexact operand {} special #{} in {:?}", OPS[s[0]], s[2], m)); c.step();
            let mk = || { let mut f = float(&fv(false, 0b1011, 0), 10, m); f.set_precision(3); f };
            let (x, _) = round_q(false, &N::u(0b1011), &N::one(), 3, m);
            let y = [FV::Zero(false), FV::Zero(true), fv(false, 1, 0), fv(true, 1, 3), FV::Inf(false), fv(false, 3, 1), fv(false, 1, 40)][s[2]].clone();
            let (w, a) = model_op(s[0], &x, &y, 3, m);
            let g = || { let mut g = float(&fv(true, 0b1101, 0), 10, m); g.set_precision(2); let h = float(&y, 4, m); if s[2] % 2 == 0 { h } else { g = h; g } };
            ck!(is_float_full(&real_op(s[0], mk(), g()), &w, 3, m, a), "{:?} {} {:?}", x, OPS[s[0]], y);
            let mut r = mk(); real_assign(s[0], &mut r, g()); ck!(is_float_full(&r, &w, 3, m, a), "{:?} {}= {:?}", x, OPS[s[0]], y);
            c.state(w.hash()); Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- C25
fn out(v: &FV, p: usize, c: &mut Ctx) -> Res {
    c.note(|| format!("convert {:?} ({} bits) to f32, f64, u64, i64", v, p)); c.steps(4);
    let f = float(v, p, MODES[p % 6]);
    ck!(is_float(&f, v), "construction");
    let o3 = f.to_f32(); let o6 = f.to_f64();
    match v {
        FV::Inf(n) => { let w = if *n { f64::NEG_INFINITY } else { f64::INFINITY }; want!(o6.0 == w && acc(o6.1) == Ordering::Equal && o3.0 == w as f32 && acc(o3.1) == Ordering::Equal, "infinity converts to {:?} {:?}", o3.0, o6.0); }
        _ => {
            let q = v.q().unwrap();
            let (w, a) = to_f64(&q, v.is_neg()); want!(o6.0.to_bits() == w.to_bits() && acc(o6.1) == a, "{:?} to f64: {:e} ({:#x}) {:?}, expected {:e} ({:#x}) {:?}", v, o6.0, o6.0.to_bits(), acc(o6.1), w, w.to_bits(), a);
            let (w, a) = to_f32(&q, v.is_neg()); want!(o3.0.to_bits() == w.to_bits() && acc(o3.1) == a, "{:?} to f32: {:e} ({:#x}) {:?}, expected {:e} ({:#x}) {:?}", v, o3.0, o3.0.to_bits(), acc(o3.1), w, w.to_bits(), a);
            c.state(mix(w.to_bits() as u64, o6.0.to_bits()));
        }
    }
    let trunc = |lo: &Z, hi: &Z| -> (Z, Ordering) { match v {
        FV::Inf(true) => (lo.clone(), Ordering::Greater), FV::Inf(false) => (hi.clone(), Ordering::Less),
        _ => { let q = v.q().unwrap(); let (z, _) = q.n.divrem(&Z::pos(q.d.clone())); let r = if z < *lo { lo.clone() } else if z > *hi { hi.clone() } else { z }; let a = Q::int(r.clone()).cmp(&q); (r, a) } } };
    let (w, a) = trunc(&Z::i(0), &Z::i(u64::MAX as i128)); let g = f.truncate_to_u64();
    want!(g.map(|(x, b)| (Z::i(x as i128), acc(b))) == Some((w.clone(), a)), "{:?} truncated to u64: {:?}, expected {:?} {:?}", v, g.map(|(x, b)| (x, acc(b))), w, a);
    let (w, a) = trunc(&Z::i(i64::MIN as i128), &Z::i(i64::MAX as i128)); let g = f.truncate_to_i64();
    want!(g.map(|(x, b)| (Z::i(x as i128), acc(b))) == Some((w.clone(), a)), "{:?} truncated to i64: {:?}, expected {:?} {:?}", v, g.map(|(x, b)| (x, acc(b))), w, a);
    ck!(is_float(&f, v), "operand afterwards");
    Ok(())
}
fn from_exact(f: &Float, w: &FV, what: &str) -> Res {
    ck!(is_float(f, w), "{}", what);
    want!(acc(f.get_accuracy()) == Ordering::Equal, "{}: accuracy {:?}", what, acc(f.get_accuracy()));
    want!(f.get_precision() >= minprec(w), "{}: precision {}", what, f.get_precision());
    want!(see_mode(f.get_mode()) == Mode::NearestEven, "{}: mode", what); Ok(())
}
fn frat(q: &Q, c: &mut Ctx) -> Res {
    c.note(|| format!("from {:?}", q)); c.step();
    let f = Float::from(rat(q)); let p = f.get_precision();
    want!(p >= 64 && p >= q.n.m.bits() && p >= q.d.bits(), "Float::from({:?}) has precision {}", q, p);
    let (w, a) = round_rat(q, p, Mode::NearestEven);
    c.state(w.hash());
    ck!(is_float_full(&f, &w, p, Mode::NearestEven, a), "Float::from({:?})", q); Ok(())
}
pub fn c25(t: Tier) -> Vec<Suite> {
    let ints: Vec<i128> = { let mut v: Vec<i128> = (-300..=300).collect(); for b in 8..=64 { for d in -2i128..=2 { v.push((1i128 << b) + d); v.push(-(1i128 << b) + d); } } v.push(0x0123_4567_89ab_cdef); v.push(-0x0123_4567_89ab_cdef); v.sort(); v.dedup(); v };
    let ni = ints.len() as u64;
    let (a64, a32) = { let mut a: Vec<f64> = f64s(t); for m in [1u64, 2, 3, 0xf_ffff_ffff_ffff, 0x8_0000_0000_0000, 0x4_0000_0000_0001] { for s in 0..2u64 { a.push(f64::from_bits(s << 63 | m)); } } for b in 0..52 { a.push(f64::from_bits(1 << b)); } let mut b = f32s(t); for m in 0..23 { b.push(f32::from_bits(1 << m)); b.push(-f32::from_bits((1 << 23) - (1 << m))); } (Arc::new(a), Arc::new(b)) };
    let nats: Arc<Vec<N>> = Arc::new({ let mut v = limb_vecs(&LIMBS, t.pick(4, 4)); v.extend(pow2s(t.pick(400, 800), 1)); v.extend(patterns(1..=t.pick(40, 60), &[0, 1, 2, 3, 7, 8])); v.extend(small(100)); dedup(v) });
    let rats: Arc<Vec<Q>> = Arc::new({ let mut v: Vec<Q> = vec![]; let k: i128 = t.pick(120, 200); for n in -k..=k { for d in 1..=k { v.push(Q::i(n, d)); } } let a = signed(&limb_vecs(&LIMBS4, 3)); let b: Vec<N> = { let mut v = limb_vecs(&[0, 1, 3, 0xffff_ffff], 2); v.extend(patterns([3, 5, 9], &[0, 1, 3, 7])); v.extend(small(8)); dedup(v) }; for x in &a { for y in &b { if !y.is_zero() { v.push(Q::new(x.clone(), Z::pos(y.clone()))); } } } v.extend(signed(&patterns([4, 8, 9], &[0, 3, 7])).into_iter().flat_map(|x| [3u128, 7, 10, 1 << 60].into_iter().map(move |d| Q::new(x.clone(), Z::pos(N::u(d)))))); let mut s = std::collections::HashSet::new(); v.retain(|q| s.insert((q.n.neg, q.n.m.0.clone(), q.d.0.clone()))); v });
    // output grids: mantissas of p+3 bits around the f64/f32 denormal, normal and overflow boundaries and the 64-bit integer boundaries
    let g = |p: usize| -> Vec<N> { let mut v = vec![]; let one = N::one(); for hi in [one.shl(p - 1), one.shl(p - 1).add(&one), one.shl(p).sub(&one), one.shl(p).sub(&N::u(2))] { for f in 0..8u128 { v.push(hi.shl(3).add(&N::u(f))); v.push(hi.shl(3).add(&N::u(f)).shl(61).add(&one)); v.push(hi.shl(3).add(&N::u(f)).shl(61).sub(&one)); } } dedup(v) };
    let grid = |name: &'static str, p: usize, es: Vec<i64>| { let m = g(p); let d = [m.len() as u64, es.len() as u64, 2]; Suite::new(name, format!("{} mantissas around {} significant bits with tie and sticky tails x {} exponents x both signs", d[0], p, d[1]), d.iter().product(), move |i, c| { let s = split(i, &d); let mm = &m[s[0]]; let v = FV::fin(s[2] == 1, mm.clone(), es[s[1]] - mm.bits() as i64); out(&v, minprec(&v) + s[0] % 5 * 9, c) }) };
    let e64 = t.pick((-1090..=-1010).chain(-10..=80).chain(1010..=1040).collect(), (-1100..=1060).collect());
    let e32 = t.pick((-160..=140).collect(), (-200..=180).collect());
    let small_m: u64 = t.pick(4000, 20000);
    let se: Vec<i64> = vec![-1080, -1074, -160, -149, -140, -12, -5, -1, 0, 1, 8, 50, 54, 55, 60, 110, 118, 1010, 1014, 1020];
    let dsm = [small_m, se.len() as u64, 2];
    vec![
        Suite::new("integers", format!("{} machine integers through every width they fit", ni), ni, move |i, c| {
            let x = ints[i as usize]; let w = FV::fin(x < 0, N::u(x.unsigned_abs()), 0); c.note(|| format!("from {}", x)); c.state(w.hash());
            macro_rules! ty { ($($t:ty),*) => {$( if x >= <$t>::MIN as i128 && x <= <$t>::MAX as i128 { c.step(); from_exact(&Float::from(x as $t), &w, &format!("Float::from({}{})", x, stringify!($t)))?; } )*} }
            ty!(u8, u16, u32, u64, i8, i16, i32, i64);
            Ok(())
        }),
        { let a = a64.clone(); Suite::new("from-f64", format!("{} f64 values incl. denormals, zeros, infinities; exact and back", a.len()), a.len() as u64, move |i, c| { let x = a[i as usize]; c.note(|| format!("from {:e}", x)); c.steps(2); let f = Float::from(x); from_exact(&f, &FV::f64(x), &format!("Float::from({:e})", x))?; let (b, q) = f.to_f64(); want!(b.to_bits() == x.to_bits() && acc(q) == Ordering::Equal, "{:e} converts back to {:e} {:?}", x, b, acc(q)); c.state(x.to_bits()); Ok(()) }) },
        { let a = a32.clone(); Suite::new("from-f32", format!("{} f32 values incl. denormals; exact and back", a.len()), a.len() as u64, move |i, c| { let x = a[i as usize]; c.note(|| format!("from {:e}f32", x)); c.steps(2); let f = Float::from(x); from_exact(&f, &FV::f64(x as f64), &format!("Float::from({:e}f32)", x))?; let (b, q) = f.to_f32(); want!(b.to_bits() == x.to_bits() && acc(q) == Ordering::Equal, "{:e} converts back to {:e} {:?}", x, b, acc(q)); c.state(mix(32, x.to_bits() as u64)); Ok(()) }) },
        { let n = nats.clone(); Suite::new("from-big", format!("{} naturals, as natural and as integer of both signs", n.len()), n.len() as u64, move |i, c| { let x = &n[i as usize]; c.note(|| format!("from {:?}", x)); c.steps(3); c.state(x.hash()); from_exact(&Float::from(nat(x)), &FV::fin(false, x.clone(), 0), "Float::from(Nat)")?; from_exact(&Float::from(BigInt::from(nat(x))), &FV::fin(false, x.clone(), 0), "Float::from(BigInt)")?; let z = Z::new(true, x.clone()); from_exact(&Float::from(int(&z)), &FV::fin(z.neg, x.clone(), 0), "Float::from(-BigInt)") }) },
        { let r = rats.clone(); Suite::new("from-rat", format!("{} rationals", r.len()), r.len() as u64, move |i, c| {
            frat(&r[i as usize], c)
        }) },
        { let num = pow2s(t.pick(80, 130), 1); let mut den: Vec<N> = (1..t.pick(24u128, 60)).map(N::u).collect(); den.extend(pow2s(t.pick(80, 130), 2)); den.extend([pattern(3, 0), pattern(5, 7)]); let den: Vec<N> = dedup(den).into_iter().filter(|d| !d.is_zero()).collect(); let (a, b) = (num.len() as u64, den.len() as u64); Suite::new("from-rat-powers", format!("{} numerators 2^i+d over {} denominators (small, 2^j+e, long)", a, b), a * b, move |i, c| { let s = split(i, &[a, b]); frat(&Q::new(Z::new(s[0] % 2 == 1, num[s[0]].clone()), Z::pos(den[s[1]].clone())), c) }) },
        { let lm = t.pick(60u64, 200); Suite::new("from-long", format!("naturals, integers and quotients of every length up to {} limbs x 5 patterns", lm), lm * 5 * 4, move |i, c| { let s = split(i, &[lm, 5, 4]); let l = s[0] + 1; let (a, b) = [(7, 0), (0, 7), (1, 8), (4, 1), (3, 9)][s[1]]; let x = pattern(l, a); let m = [1, l, (l + 1) / 2, l + 1][s[2]]; frat(&Q::new(Z::new(s[1] % 2 == 1, x.clone()), Z::pos(pattern(m, b))), c)?; if s[2] == 0 { c.steps(2); from_exact(&Float::from(nat(&x)), &FV::fin(false, x.clone(), 0), "Float::from(Nat)")?; from_exact(&Float::from(int(&Z::new(true, x.clone()))), &FV::fin(true, x, 0), "Float::from(BigInt)")?; } Ok(()) }) },
        { let bits: Vec<usize> = t.pick(vec![1, 24, 25, 33, 53, 54, 64, 65, 97, 129, 257, 1000], (1..=140).chain([257, 1000, 1281]).collect()); let tops: Vec<i64> = t.pick((-160..=-120).chain(-1080..=-1018).chain(-3..=70).chain([100, 127, 128, 129, 1000, 1023, 1024, 1025]).collect(), (-1100..=1060).collect()); let d = [bits.len() as u64, 5, tops.len() as u64, 3]; Suite::new("wide-out", format!("mantissas of {} lengths up to {} bits, with and without trailing zero words, binary point at {} positions", d[0], bits[bits.len() - 1], d[2]), d.iter().product(), move |i, c| { let s = split(i, &d); let ms = mants(bits[s[0]]); if s[1] >= ms.len() { return Ok(()); } let k = [0, ms.len() - 1, 1, ms.len() / 2, 2][s[1]] % ms.len(); let m = ms[k].clone(); let v = FV::fin((s[0] + s[2]) % 2 == 1, m.clone(), tops[s[2]] - m.bits() as i64); routed(&[[0, 7, 8][s[2] % 3]]); let r = out(&v, minprec(&v) + [0, 40, 128][s[3]], c); routed(&[]); r }) },
        { let ks: Vec<usize> = { let mut v: Vec<usize> = (0..t.pick(300usize, 600)).map(|i| 32 * i + 33).collect(); v.extend(far_lens(t)); v }; let d = [ks.len() as u64, 4, 2]; Suite::new("from-huge", format!("2^k + 2^j + r for every limb boundary up to {} bits and for lengths around 2^12 .. 2^17, as natural and integer", 32 * t.pick(300, 600)), d.iter().product(), move |i, c| {
            let s = split(i, &d); let k = ks[s[0]]; let x = match s[1] { 0 => N::one().shl(k).add(&N::one()), 1 => N::one().shl(k).sub(&N::one()), 2 => N::one().shl(k - 1), _ => far_val(k, 7, 1) }; c.note(|| format!("a number of {} bits, lowest set bit {}", x.bits(), x.tz())); c.step(); c.state(x.hash());
            let (f, w) = if s[2] == 0 { (Float::from(nat(&x)), FV::fin(false, x, 0)) } else { let z = Z::new(true, x.clone()); (Float::from(int(&z)), FV::fin(true, x, 0)) };
            let g = see_float(&f).map_err(|_| "unreadable".to_string())?; want!(g == w, "the float differs from the number"); want!(acc(f.get_accuracy()) == Ordering::Equal, "accuracy {:?}", acc(f.get_accuracy())); want!(f.get_precision() >= minprec(&w), "precision {}", f.get_precision()); Ok(()) }) },
        { let ks: Vec<usize> = t.pick((1..=40).chain((40..700).step_by(13)).chain((31..3300).step_by(96)).collect(), (1..1400).chain((1407..6500).step_by(32)).collect()); let n = ks.len() as u64; let d = [n, 2, 4, 3, 8, 2]; Suite::new("far-ties", format!("ties and non-ties of 24 and 53 bits whose deciding bit lies {} distances up to {} bits further down, 8 exponents, both signs", n, ks[ks.len() - 1]), d.iter().product(), move |i, c| {
            let s = split(i, &d); let p = [24usize, 53][s[1]]; let hi = [N::one().shl(p - 1), N::one().shl(p).sub(&N::one()), N::one().shl(p - 1).add(&N::u(2)), N::one().shl(p - 1).add(&N::u(1))][s[2]].shl(1).add(&N::one()); let m = hi.shl(ks[s[0]]); let m = match s[3] { 0 => m, 1 => m.add(&N::one()), _ => m.sub(&N::one()) };
            let v = FV::fin(s[5] == 1, m.clone(), [5, 100, -100, -127, -140, -1000, -1022, 900][s[4]] - m.bits() as i64); out(&v, minprec(&v) + [0, 9, 64][s[3]], c) }) },
        grid("to-f64", 53, e64), grid("to-f32", 24, e32),
        { let rv = Arc::new(route_vals()); let n = rv.len() as u64; let d = [n, ROUTES as u64 + 1, 6]; Suite::new("routes", format!("{} values, each produced by each of {} computations", n, ROUTES + 1), d.iter().product(), move |i, c| { let s = split(i, &d); let x = &rv[s[0]]; c.note(|| format!("route {}", s[1])); routed(&[s[1]]); let r = out(x, minprec(x).max(1) + s[2], c); routed(&[]); r }) },
        { let es: Vec<i64> = t.pick((-5..=70).collect(), (-40..=140).collect()); let m: Vec<N> = [1usize, 2, 31, 32, 33, 53, 62, 63, 64, 65, 66, 96, 97].iter().flat_map(|&n| mants(n)).collect(); let d = [m.len() as u64, es.len() as u64, 2]; Suite::new("truncate", "mantissas of 1..97 bits with the binary point around the 64-bit boundary, both signs", d.iter().product(), move |i, c| { let s = split(i, &d); let v = FV::fin(s[2] == 1, m[s[0]].clone(), es[s[1]] - m[s[0]].bits() as i64); out(&v, minprec(&v) + 3, c) }) },
        Suite::new("small", format!("every mantissa below {} x {} exponents x both signs, and zeros and infinities", small_m, se.len()), dsm.iter().product(), move |i, c| { let s = split(i, &dsm); let v = if s[0] == 0 { if s[1] % 2 == 0 { FV::Zero(s[2] == 1) } else { FV::Inf(s[2] == 1) } } else { fv(s[2] == 1, s[0] as u128, se[s[1]]) }; out(&v, minprec(&v).max(1) + s[1], c) }),
        Suite::new("nan", "NaN", 1, |_, c| { c.steps(4); let f = nan(); want!(f.to_f32().0.is_nan() && f.to_f64().0.is_nan() && f.truncate_to_u64().is_none() && f.truncate_to_i64().is_none(), "NaN converts to a number"); want!(Float::from(nat_nan()).is_nan() && Float::from(int_nan()).is_nan() && Float::from(rat_nan()).is_nan() && Float::from(f32::NAN).is_nan(), "NaN converts to a number"); Ok(()) }),
    ]
}

// ---------------------------------------------------------------- C26
fn order(x: &FV, px: usize, y: &FV, py: usize, c: &mut Ctx) -> Res {
    c.note(|| format!("order {:?} [{}] , {:?} [{}]", x, px, y, py)); c.step();
    let (a, b) = (float(x, px, Mode::NearestEven), float(y, py, Mode::ToZero));
    let w = fcmp(x, y);
    c.state(mix(x.hash(), y.hash()));
    want!(a.partial_cmp(&b) == w, "{:?} <=> {:?}: {:?}", x, y, a.partial_cmp(&b));
    want!((a == b) == (w == Some(Ordering::Equal)) && (a < b) == (w == Some(Ordering::Less)) && (a > b) == (w == Some(Ordering::Greater)) && (a != b) == (w != Some(Ordering::Equal)), "comparison operators of {:?} and {:?}", x, y);
    Ok(())
}
fn top(v: &FV) -> i64 { match v { FV::Fin { m, e, .. } => m.bits() as i64 + e, _ => 0 } }
fn decomp(v: &FV, p: usize, m: Mode, c: &mut Ctx) -> Res {
    c.note(|| format!("decompose {:?} [{} bits, {:?}]", v, p, m)); c.steps(6); c.state(v.hash());
    let f = float(v, p, m);
    let (mm, e) = f.mant_exp();
    want!(e as i64 == top(v), "exponent of {:?} is {}, expected {}", v, e, top(v));
    ck!(is_float(&mm, &scale(v, -top(v))), "mantissa of {:?}", v);
    want!(mm.get_precision() == p && see_mode(mm.get_mode()) == m, "precision or mode of the mantissa");
    let mut z = Float::default(); z.set_mant_exp(mm.deep_clone(), e); ck!(is_float(&z, v), "recombined {:?}", v); want!(z.get_precision() == p && see_mode(z.get_mode()) == m, "precision or mode after recombining");
    ck!(is_float(&f, v), "operand afterwards");
    want!(f.is_negative() == Some(v.is_neg()), "is_negative of {:?}", v);
    want!(f.is_infinite() == Some(matches!(v, FV::Inf(_))), "is_infinite of {:?}", v);
    want!(f.is_integer() == Some(match v { FV::Fin { e, .. } => *e >= 0, FV::Zero(_) => true, _ => false }), "is_integer of {:?}: {:?}", v, f.is_integer());
    want!(f.signnum() == Some(match v { FV::Zero(_) => 0, o => if o.is_neg() { -1 } else { 1 } }), "sign of {:?}: {:?}", v, f.signnum());
    ck!(is_float(&f.abs(), &if v.is_neg() { v.minus() } else { v.clone() }), "absolute value"); ck!(is_float(&-f.deep_clone(), &v.minus()), "negation"); ck!(is_float(&f.deep_clone(), v), "deep clone");
    Ok(())
}
fn recomb(v: &FV, p: usize, m: Mode, k: i128, c: &mut Ctx) -> Res {
    c.note(|| format!("set_mant_exp({:?} [{} bits], {})", v, p, k)); c.step();
    let mut z = float(&fv(true, 5, 3), 17, Mode::AwayZero);
    z.set_mant_exp(float(v, p, m), k as isize);
    let (w, a) = match v { FV::Fin { neg, .. } => { let t = top(v) as i128 + k; if t > Float::max_exp() as i128 { (FV::Inf(*neg), if *neg { Ordering::Less } else { Ordering::Greater }) } else if t < Float::min_exp() as i128 { (FV::Zero(*neg), if *neg { Ordering::Greater } else { Ordering::Less }) } else { (scale(v, k as i64), Ordering::Equal) } } o => (o.clone(), Ordering::Equal) };
    c.state(mix(w.hash(), k as u64));
    // infinities and zeros are observed without decomposition; huge finite values by their parts
    match (&w, v) {
        (FV::Fin { .. }, FV::Fin { .. }) => { let (mm, e) = z.mant_exp(); want!(e as i64 == top(&w), "exponent {} expected {}", e, top(&w)); ck!(is_float(&mm, &scale(v, -top(v))), "mantissa"); want!(z.is_infinite() == Some(false) && z.signnum() == Some(if w.is_neg() { -1 } else { 1 }), "form"); }
        _ => ck!(is_float(&z, &w), "{:?} * 2^{}", v, k),
    }
    want!(acc(z.get_accuracy()) == a, "accuracy of {:?} * 2^{} is {:?}, expected {:?}", v, k, acc(z.get_accuracy()), a);
    want!(z.get_precision() == p && see_mode(z.get_mode()) == m, "precision or mode"); Ok(())
}
pub fn c26(t: Tier) -> Vec<Suite> {
    let vals: Arc<Vec<FV>> = Arc::new({ let mut v = vec![FV::Zero(false), FV::Zero(true), FV::Inf(false), FV::Inf(true)];
        let ms: Vec<N> = t.pick((1..=9).chain([31, 32, 33, 34, 63, 64, 65, 66, 95, 96, 97, 128, 129]).collect::<Vec<_>>(), (1..=20).chain([31, 32, 33, 34, 63, 64, 65, 66, 95, 96, 97, 128, 129]).collect::<Vec<_>>()).into_iter().flat_map(mants).collect();
        for m in dedup(ms) { for e in (vec![0i64, 1, -1, 31, -32, 33, 64, -100, 1000]) { for s in [false, true] { v.push(FV::fin(s, m.clone(), e - m.bits() as i64)); } } }
        v.sort_by_key(|f| f.hash()); v.dedup(); v });
    let n = vals.len() as u64;
    let k: u64 = t.pick(80, 120); let dk = [k, 9, 2, k, 9, 2];
    let exps: Vec<i128> = vec![0, 1, -1, 31, 32, -33, 1000, -1000, i32::MAX as i128, i32::MAX as i128 - 1, i32::MAX as i128 - 40, i32::MAX as i128 - 100, i32::MAX as i128 + 1, i32::MAX as i128 + 40, i32::MAX as i128 + 100, i32::MIN as i128, i32::MIN as i128 + 1, i32::MIN as i128 + 64, i32::MIN as i128 - 1, i32::MIN as i128 - 2, i32::MIN as i128 - 64, i32::MIN as i128 - 200, 1 << 40, -(1 << 40), isize::MAX as i128, isize::MIN as i128, isize::MAX as i128 - 1, isize::MIN as i128 + 1];
    let de = [n, exps.len() as u64, 2];
    let (v1, v2, v3) = (vals.clone(), vals.clone(), vals.clone());
    vec![
        { let rv = Arc::new(route_vals()); let n = rv.len() as u64; let d = [n, n, ROUTES as u64 + 1, ROUTES as u64 + 1]; Suite::new("routes", format!("all pairs of {} values, each produced by each of {} computations: order, and decomposition", n, ROUTES + 1), d.iter().product(), move |i, c| {
            let s = split(i, &d); let (x, y) = (&rv[s[0]], &rv[s[1]]); c.note(|| format!("routes {} and {}", s[2], s[3])); routed(&[s[2], s[3]]);
            let r = order(x, minprec(x).max(1) + 3, y, minprec(y).max(1) + 33, c); routed(&[]); r?;
            if s[1] < 6 { routed(&[s[2]]); let r = decomp(x, minprec(x).max(1) + s[3] * 11, MODES[s[1]], c); routed(&[]); r?; } Ok(()) }) },
        Suite::new("order", format!("all pairs of {} values of up to {} mantissa bits with differing precisions, zeros and infinities", n, t.pick(97, 129)), n * n, move |i, c| { let (a, b) = sp2(i, n as usize); order(&v1[a], minprec(&v1[a]).max(1) + a % 3 * 31, &v1[b], minprec(&v1[b]).max(1) + b % 4 * 16, c) }),
        Suite::new("order-small", format!("all pairs of m*2^e with m <= {}, e in -4..=4, both signs", k), if t.thorough() { dk.iter().product() } else { k * 9 * 2 * k }, move |i, c| { if t.thorough() { let s = split(i, &dk); order(&fv(s[2] == 1, s[0] as u128 + 1, s[1] as i64 - 4), 20, &fv(s[5] == 1, s[3] as u128 + 1, s[4] as i64 - 4), 70, c) } else { let s = split(i, &[k, 9, 2, k]); order(&fv(s[2] == 1, s[0] as u128 + 1, s[1] as i64 - 4), 20, &fv(s[2] == 1, s[3] as u128 + 1, 0), 70, c) } }),
        { let (hi, lo) = (Float::max_exp() as i64, Float::min_exp() as i64); let tops: Vec<i64> = { let mut v: Vec<i64> = vec![0, 1, -1]; for p in [1i64 << 15, 1 << 16, 1 << 20, 1 << 24, 1 << 29, 1 << 30, 2_000_000_000] { for d in [-1, 0, 1] { v.push(p + d); v.push(d - p); } } for k in 0..t.pick(3, 6) { v.push(hi - k); v.push(lo + k); } v.retain(|&x| x <= hi && x >= lo); v.sort(); v.dedup(); v }; let k = tops.len() as u64;
          let ms: Vec<N> = [1u128, 3, 5, 0xffff_ffff, (1 << 32) + 1, u64::MAX as u128, (1 << 96) + 1].iter().map(|&m| N::u(m)).collect(); let nm = ms.len() as u64; let d = [k, nm, k, nm, 4];
          Suite::new("order-giant", format!("all pairs of {} mantissas at {} leading-bit positions over the whole exponent range, all signs: no difference of exponents overflows", nm, k), d.iter().product(), move |i, c| { let s = split(i, &d); let mk = |neg: bool, m: &N, t: i64| FV::fin(neg, m.clone(), t - m.bits() as i64); let (x, y) = (mk(s[4] & 1 == 1, &ms[s[1]], tops[s[0]]), mk(s[4] & 2 == 2, &ms[s[3]], tops[s[2]])); order(&x, 100, &y, 97 + s[0] % 70, c) }) },
        { let bits: Vec<usize> = t.pick(vec![40, 64, 96, 97, 130, 200, 320, 640, 1000, 1300, 2080, 4128, 8224], (2..=140).chain([200, 320, 640, 1000, 1281, 2080, 2600, 4128, 8224, 16416]).collect()); let mut v = vec![]; for (k, &n) in bits.iter().enumerate() { let st = t.pick(n / 40 + 1, n / 100 + 1); let mut p = 0; while p < n { v.push((k, p)); p += if p < 3 || p + 4 >= n { 1 } else { st }; } } let m = v.len() as u64; Suite::new("order-near", format!("mantissas of {} lengths up to {} bits that differ in one bit, at every boundary and many other positions, with and without trailing zero words; padded against bare", bits.len(), bits[bits.len() - 1]), m * 3 * 4 * 2, move |i, c| {
            let (k, p) = v[(i / 24) as usize]; let n = bits[k]; let s = split(i % 24, &[3, 4, 2]); let ms = mants(n); let a = ms[[0, ms.len() - 1, 1][s[0]] % ms.len()].clone(); let b = a.bitop(&N::one().shl(p), |x, y| x ^ y); let e = 5 - n as i64;
            let mk = |m: &N| if m.is_zero() { FV::Zero(false) } else { FV::fin(s[2] == 1, m.clone(), e) }; let (x, y) = (mk(&a), mk(&b));
            for (x, y) in [(&x, &y), (&y, &x), (&x, &x)] { routed(&[[0, 7, 8, 0][s[1]], [0, 0, 7, 8][s[1]]]); let r = order(x, minprec(x).max(1) + 40 * (s[1] & 1), y, minprec(y).max(1) + 64 * (s[1] >> 1), c); routed(&[]); r?; } Ok(()) }) },
        { let bits: Vec<usize> = t.pick(vec![1, 2, 31, 32, 33, 64, 65, 96, 97, 128, 129, 160, 257, 1000], (1..=140).chain([160, 257, 1000, 1281]).collect()); let mut v = vec![]; for &n in &bits { for p in -3..=(n as i64 + 3).min(140) { v.push((n, p)); } } let m = v.len() as u64; Suite::new("binary-point", format!("mantissas of {} lengths up to {} bits with the binary point at every position up to 140, with and without trailing zero words: decomposition and integrality", bits.len(), bits[bits.len() - 1]), m * 4 * 3 * 2, move |i, c| { let (n, p) = v[(i / 24) as usize]; let s = split(i % 24, &[4, 3, 2]); let ms = mants(n); let a = ms[[0, ms.len() - 1, 1, ms.len() / 2][s[0]] % ms.len()].clone(); let x = FV::fin(s[2] == 1, a, -p); routed(&[[0, 7, 8][s[1]]]); let r = decomp(&x, minprec(&x) + [0, 33, 96][s[1]], MODES[s[0]], c); routed(&[]); r }) },
        Suite::new("decompose", format!("{} values x 6 modes x 3 precisions", n), n * 18, move |i, c| { let s = split(i, &[n, 6, 3]); let v = &v2[s[0]]; decomp(v, minprec(v).max(1) + [0, 1, 64][s[2]], MODES[s[1]], c) }),
        Suite::new("recombine", format!("{} values x {} exponents up to and beyond the supported range", n, exps.len()), de.iter().product(), move |i, c| { let s = split(i, &de); let v = &v3[s[0]]; recomb(v, minprec(v).max(1) + s[2] * 33, MODES[(s[0] + s[1]) % 6], exps[s[1]], c) }),
        Suite::new("nan", "NaN is unordered and answers no query", n, { let v = vals.clone(); move |i, c| { let x = &v[i as usize]; c.note(|| format!("NaN against {:?}", x)); c.steps(2); let a = float(x, minprec(x).max(1), Mode::NearestEven); want!(a.partial_cmp(&nan()).is_none() && nan().partial_cmp(&a).is_none() && a != nan() && nan() != nan(), "NaN compares"); let z = nan(); want!(z.is_negative().is_none() && z.is_infinite().is_none() && z.is_integer().is_none() && z.signnum().is_none(), "NaN answers a query"); Ok(()) } }),
    ]
}

// ---------------------------------------------------------------- C27
/// round |q| half to even to an integer multiple of 10^-d: the integer |q|*10^d rounded
fn dec_round(q: &Q, d: i64) -> N {
    let p = N::u(10).pow(d.unsigned_abs() as usize);
    let (n, dd) = if d >= 0 { (q.n.m.mul(&p), q.d.clone()) } else { (q.n.m.clone(), q.d.mul(&p)) };
    let (k, r) = n.divrem(&dd);
    match r.shl(1).cmp(&dd) { Ordering::Less => k, Ordering::Greater => k.add(&N::one()), Ordering::Equal => if k.is_odd() { k.add(&N::one()) } else { k } }
}
fn exp_text(v: &FV, d: usize, e: char) -> String {
    match v { FV::Nan => return "NaN".into(), FV::Inf(n) => return if *n { "-Inf".into() } else { "+Inf".into() }, FV::Zero(_) => return "0".into(), _ => {} }
    let q = v.q().unwrap();
    // x = floor(log10 |q|)
    let mut x = (q.n.m.bits() as f64 - q.d.bits() as f64) * 0.30103;
    x = x.floor();
    let mut x = x as i64 - 1;
    let pow = |k: i64| if k >= 0 { Q::int(Z::pos(N::u(10).pow(k as usize))) } else { Q::new(Z::i(1), Z::pos(N::u(10).pow((-k) as usize))) };
    while q.abs().cmp(&pow(x + 1)) != Ordering::Less { x += 1; }
    let mut k = dec_round(&q, d as i64 - x).to_radix(10);
    if k.len() > d + 1 { x += 1; k.truncate(d + 1); }
    let mut s = String::new(); if v.is_neg() { s.push('-'); }
    s.push_str(&k[..1]); if d > 0 { s.push('.'); s.push_str(&k[1..]); }
    s.push(e); if x < 0 { s.push('-'); } s.push_str(&format!("{:02}", x.abs())); s
}
fn plain_text(v: &FV, d: usize) -> String {
    match v { FV::Nan => return "NaN".into(), FV::Inf(n) => return if *n { "-Inf".into() } else { "+Inf".into() }, FV::Zero(_) => return "0".into(), _ => {} }
    let mut k = dec_round(&v.q().unwrap(), d as i64).to_radix(10);
    while k.len() < d + 1 { k.insert(0, '0'); }
    let i = k.len() - d;
    format!("{}{}{}{}", if v.is_neg() { "-" } else { "" }, &k[..i], if d > 0 { "." } else { "" }, &k[i..])
}
fn show(v: &FV, p: usize, ds: &[usize], c: &mut Ctx) -> Res {
    c.note(|| format!("format {:?} [{} bits]", v, p)); c.state(mix(v.hash(), p as u64));
    let f = float(v, p, Mode::NearestEven);
    for &d in ds {
        c.steps(2);
        let g = format!("{:.*e}", d, f); let w = exp_text(v, d, 'e'); want!(g == w, "{:?} with {{:.{}e}}: {:?}, expected {:?}", v, d, g, w);
        let g = format!("{:.*E}", d, f); let w = exp_text(v, d, 'E'); want!(g == w, "{:?} with {{:.{}E}}: {:?}, expected {:?}", v, d, g, w);
    }
    c.steps(2);
    let w = plain_text(v, p);
    let g = format!("{}", f); want!(g == w, "{:?} with {{}} at {} bits: {:?}, expected {:?}", v, p, g, w);
    ck!(is_float(&f, v), "operand afterwards"); Ok(())
}
fn parse(s: &str, c: &mut Ctx) -> Res {
    c.note(|| format!("parse {:?}", s)); c.step();
    match (float_text(s), Float::from_str(s)) {
        (P::Ok(q), Ok(f)) => {
            let p = f.get_precision(); want!(p >= 64, "{:?} has precision {}", s, p);
            let (w, a) = round_rat(&q, p, Mode::NearestEven); c.state(w.hash());
            if let FV::Zero(_) = w { want!(f.signnum() == Some(0), "{:?} is not zero", s); return Ok(()); }
            ck!(is_float(&f, &w), "Float::from_str({:?})", s); want!(acc(f.get_accuracy()) == a, "Float::from_str({:?}): accuracy {:?}", s, acc(f.get_accuracy()));
        }
        (P::Ok(q), Err(_)) => return Err(format!("Float::from_str({:?}) is refused, expected {:?}", s, q)),
        (P::Err, Ok(f)) => return Err(format!("Float::from_str({:?}) is accepted as {:?}, expected an error", s, see_float(&f))),
        (P::Err, Err(_)) => c.state(1),
        (P::Any, _) => c.state(2),
    }
    Ok(())
}
pub fn c27(t: Tier) -> Vec<Suite> {
    let ms: u64 = t.pick(1200, 6000); let es: Vec<i64> = vec![-70, -40, -12, -9, -8, -4, -3, -2, -1, 0, 1, 3, 10, 33, 64, 100];
    let dm = [ms, es.len() as u64, 2];
    let big: Vec<N> = t.pick((10..=70).chain([96, 97, 128, 129, 256]).collect::<Vec<_>>(), (1..=100).chain([96, 97, 128, 129, 256]).collect::<Vec<_>>()).into_iter().flat_map(mants).collect();
    let be: Vec<i64> = vec![-300, -64, -33, -1, 0, 1, 32, 64, 100, 400];
    let db = [big.len() as u64, be.len() as u64, 2];
    // decimal ties and roll-overs: (10^k + j)/2^i and 10^k - 2^-i
    let ties: Vec<FV> = { let mut v = vec![]; for k in 0..=t.pick(25, 40) { let p = N::u(10).pow(k); for i in 0..6 { for j in 0..4u128 { v.push(FV::fin(false, p.shl(i).add(&N::u(j)), -(i as i64))); if p.shl(i) > N::u(j) { v.push(FV::fin(true, p.shl(i).sub(&N::u(j)), -(i as i64))); } v.push(FV::fin(false, p.mul(&N::u(2 * j + 1)), -(i as i64) - 1)); } } } for i in 1..60i64 { v.push(fv(false, 1, -i)); v.push(fv(true, 5, -i)); v.push(fv(false, 3, -i)); } v.sort_by_key(|f| f.hash()); v.dedup(); v };
    let nt = ties.len() as u64;
    let (n1, f1) = mc::text::strings(&['0', '1', '5', '.', 'e', '-', '+', ' '], t.pick(6, 7));
    let (n2, f2) = mc::text::strings(&['0', '1', '9', '.', 'e', 'E', '-', '/', 'a', '_'], t.pick(5, 6));
    let ip: Vec<&'static str> = vec!["", "0", "00", "1", "9", "10", "12", "007", "123456789", "4294967296", "18446744073709551615", "18446744073709551616", "98765432109876543210987654321", "1000000000000000000000000000000000000000000000000000000000000000000000"];
    let fp: Vec<&'static str> = vec!["-", "", "0", "5", "25", "1", "125", "000", "0625", "999999999999999999999", "0000000000000000000000001", "50000000000000001", "33333333333333333333333333333333333333333333333333333333"];
    let ep: Vec<&'static str> = vec!["", "e0", "e1", "E-1", "e+5", "e-20", "e22", "E100", "e-300", "e308", "e-400", "e", "e+", "ee", "e1.5", "q", "e5e5", "e5E5", "e--5"];
    let d3 = [ip.len() as u64, fp.len() as u64, ep.len() as u64, 3, 2];
    vec![
        Suite::new("small", format!("every mantissa 1..{} x {} exponents x both signs; several precisions and digit counts", ms, es.len()), dm.iter().product(), move |i, c| { let s = split(i, &dm); let v = if s[0] == 0 { if s[1] % 2 == 0 { FV::Zero(s[2] == 1) } else { FV::Inf(s[2] == 1) } } else { fv(s[2] == 1, s[0] as u128, es[s[1]]) }; show(&v, minprec(&v).max(1) + [0, 1, 5, 20, 53][s[0] % 5], &[0, 1, 2, 3, 7, 12], c) }),
        Suite::new("limbs", format!("{} mantissas around limb boundaries x {} exponents", db[0], db[1]), db.iter().product(), move |i, c| { let s = split(i, &db); let v = FV::fin(s[2] == 1, big[s[0]].clone(), be[s[1]] - big[s[0]].bits() as i64); show(&v, minprec(&v).max(1) + s[0] % 3, &[0, 1, 5, 16, 17, 30, 60], c) }),
        { let rv = Arc::new(route_vals()); let n = rv.len() as u64; let d = [n, ROUTES as u64 + 1, 3]; Suite::new("routes", format!("{} values, each produced by each of {} computations", n, ROUTES + 1), d.iter().product(), move |i, c| { let s = split(i, &d); let x = &rv[s[0]]; c.note(|| format!("route {}", s[1])); routed(&[s[1]]); let r = show(x, minprec(x).max(1) + s[2] * 7, &[0, 1, 3, 8, 20], c); routed(&[]); r }) },
        { let hs = ["5", "25", "45", "1", "4", "2", "15", "125", "375", "9985", "85"]; let ns: Vec<usize> = t.pick(vec![1, 2, 8, 9, 17, 40, 63, 64, 65, 100, 130, 300, 770, 902], (1..140).chain((140..700).step_by(23)).chain([767, 768, 800, 899, 1001]).collect()); let d = [ns.len() as u64, hs.len() as u64, 2, 3]; Suite::new("far-decimal-ties", format!("integers made of {} heads, up to {} zeros or nines and a last digit 1, 5 or none: with as many digits as the head has, one less, one more, and around the end of the run (runs longer than 200: heads of two digits, rounded to one)", hs.len(), ns.iter().max().unwrap()), d.iter().product(), move |i, c| {
            let s = split(i, &d); let (h, n) = (hs[s[1]], ns[s[0]]); let txt = format!("{}{}{}", h, ["0", "9"][s[2]].repeat(n), ["", "1", "5"][s[3]]); let m = N::from_radix(&txt, 10).unwrap(); let v = FV::fin(i % 2 == 1, m, 0);
            let l = h.len(); if n > 200 { if l != 2 || s[2] + s[3] != 1 { return Ok(()); } let f = float(&v, minprec(&v), Mode::NearestEven); c.note(|| format!("{:?} to {} digits", v, l - 1)); c.step(); let (g, w) = (format!("{:.*e}", l - 2, f), exp_text(&v, l - 2, 'e')); c.state(v.hash()); want!(g == w, "{:?} to {} digits: {:?}, expected {:?}", v, l - 1, g, w); return Ok(()); }
            let mut ds = vec![l - 1, l, l + n - 1, l + n, l + n / 2]; if l > 1 { ds.push(l - 2); } ds.sort(); ds.dedup(); show(&v, minprec(&v).max(1), &ds, c) }) },
        Suite::new("ties", format!("{} values at decimal ties and roll-overs", nt), nt, move |i, c| { let v = &ties[i as usize]; show(v, minprec(v).max(1), &[0, 1, 2, 3, 4, 5, 6, 8, 10, 11, 12, 15, 20], c)?; show(v, minprec(v) + 3, &[7], c) }),
        { let es: Vec<i64> = t.pick((-160..=160).chain([-1074, -1000, -700, -500, -350, 350, 500, 700, 1000, 1023]).collect(), (-1100..=1100).step_by(1).collect()); let n = es.len() as u64; let ms: Vec<u128> = vec![1, 3, 5, 7, 9, 0xffff_ffff, (1 << 33) + 1, (1 << 53) - 1, u64::MAX as u128, (1 << 100) + 12345]; let k = ms.len() as u64; Suite::new("exponent-ladder", format!("{} mantissas at each of {} exponents", k, n), n * k, move |i, c| { let s = split(i, &[n, k]); let m = N::u(ms[s[1]]); let v = FV::fin(i % 3 == 1, m.clone(), es[s[0]] - m.bits() as i64 + 1); show(&v, minprec(&v) + [0, 11][(i % 2) as usize], &[0, 1, 2, 5, 9, 10, 15, 16, 17, 18, 19, 20, 33], c) }) },
        { let bits: Vec<usize> = t.pick(vec![70, 130, 200, 300, 500, 800, 1300], vec![70, 100, 130, 160, 200, 300, 400, 500, 640, 800, 1300, 2000]); let n = bits.len() as u64; Suite::new("wide", "long mantissas, many digits", n * 6 * 5, move |i, c| { let s = split(i, &[n, 6, 5]); let ms = mants(bits[s[0]]); let m = ms[s[1] % ms.len()].clone(); let v = FV::fin(s[2] % 2 == 1, m.clone(), [-(m.bits() as i64), 0, -(m.bits() as i64) / 2, 50, -400][s[2]]); show(&v, minprec(&v), &[0, 8, 9, 19, 40, 100, 300], c) }) },
        { let lm = t.pick(220u64, 500); let more = [512usize, 513, 600, 777, 800, 1000, 1024, 1500, 2000]; let lt = lm + more.len() as u64; Suite::new("long-literals", format!("literals with every digit count up to {} and {:?}, 6 digit patterns, 5 positions of the point, 6 exponents", lm, more), lt * 6 * 5 * 6, move |i, c| { let s = split(i, &[lt, 6, 5, 6]); let l = if s[0] < lm as usize { s[0] + 1 } else { more[s[0] - lm as usize] }; let ds: String = (0..l).map(|j| match s[1] { 0 => '9', 1 => if j == 0 { '1' } else { '0' }, 2 => if j == 0 || j + 1 == l { '1' } else { '0' }, 3 => (b'0' + ((j * 7 + 3) % 10) as u8) as char, 4 => if j == 0 { '1' } else if j < l / 2 { '0' } else { '9' }, _ => if j + 1 == l { '5' } else if j == 0 { '2' } else { '0' } }).collect(); let p = [0, 1, l / 2, l - 1, l][s[2]]; if p == l && s[5 - 2] == 0 && false { return Ok(()); } let t = format!("{}.{}{}", &ds[..p], &ds[p..], ["", "e-1", "e20", "e-30", "E+5", "e-150"][s[3]]); parse(&t, c) }) },
        { let lm = t.pick(60i64, 330); Suite::new("literal-exponents", format!("short literals x every decimal exponent from -{} to {}", lm, lm), (2 * lm as u64 + 1) * 12, move |i, c| { let s = split(i, &[2 * lm as u64 + 1, 12]); let e = s[0] as i64 - lm; parse(&format!("{}e{}", ["1", "-1", "3", "7.0", "9.99", "1.5", "0.1", "-123456789", "4294967296", "18446744073709551615", "18446744073709551617", "0.00000000000000000000001"][s[1]], e), c) }) },
        { let es: Vec<i64> = t.pick(vec![331, 400, 512, 1000, 1023, 1025, 2000, 2047, 2049, 3000, 4095, 4096, 4097, 4200, 5000, 6000, 8191, 8193, 10000], (331..1400).chain([2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 4200, 5000, 6000, 8191, 8192, 8193, 10000, 12000, 16383, 16385, 20000, 30000]).collect()); let n = es.len() as u64; Suite::new("long-exponents", format!("6 short literals x {} decimal exponents up to {} of both signs", n, es[es.len() - 1]), n * 12, move |i, c| { let s = split(i, &[n, 6, 2]); parse(&format!("{}{}{}", ["1e", "-1e", "7.25e", "9999999999e", "1.5E", "18446744073709551617e"][s[1]], ["", "-"][s[2]], es[s[0]]), c) }) },
        Suite::new("strings8", format!("every string of length <= {} over \"015.e-+ \"", t.pick(6, 7)), n1, move |i, c| parse(&f1(i), c)),
        Suite::new("strings10", format!("every string of length <= {} over \"019.eE-/a_\"", t.pick(5, 6)), n2, move |i, c| parse(&f2(i), c)),
        Suite::new("literals", "all combinations of integer part, fraction, exponent, sign and surrounding blanks", d3.iter().product(), move |i, c| { let s = split(i, &d3); let b = ["", " "][s[4]]; let f = if fp[s[1]] == "-" { String::new() } else { format!(".{}", fp[s[1]]) }; parse(&format!("{}{}{}{}{}{}", b, ["", "-", "+"][s[3]], ip[s[0]], f, ep[s[2]], b), c) }),
        { let (ms, es) = (["1", "-1", "1.5", "+12.25", ".5", "7."], ["2147483648", "-2147483649", "2147483649", "4294967296", "4294967297", "-4294967296", "-4294967299", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-18446744073709551617", "340282366920938463463374607431768211457", "+36893488147419103233"]); let d = [ms.len() as u64, 2, es.len() as u64];
        Suite::new("exponents", format!("{} literals whose decimal exponent is beyond the supported range", d.iter().product::<u64>()), d.iter().product(), move |i, c| { let s = split(i, &d); let t = format!("{}{}{}", ms[s[0]], ["e", "E"][s[1]], es[s[2]]); c.note(|| format!("parse {:?}", t)); c.step(); c.state(i); want!(Float::from_str(&t).is_err(), "{:?} accepted", t); Ok(()) }) },
        Suite::new("junk", "malformed texts", 1, |_, c| { for s in ["", " ", "nan", "inf", "+Inf", "NaN", "1,5", "1.5f", "é", "1.é", "1eé", "½", "e", "E5", ".", "-", "-.", "+e1", "..", "1..2", "1.2.3", "--1.5", "1.5-", "1e5-", "1e-", "1-e5", "1.5 e5", "1 .5"] { c.note(|| format!("parse {:?}", s)); c.step(); want!(Float::from_str(s).is_err(), "{:?} accepted", s); } Ok(()) }),
    ]
}

fn main() {
    mc::engine::main(&[
        Prop { id: "C23", build: c23, assumptions: &["values are observed through mant_exp, set_mant_exp and truncate_to_u64, which C25 and C26 check"] },
        Prop { id: "C24", build: c24, assumptions: &["the sign of (+0)+(-0) when rounding toward negative infinity is not specified", "values are observed through mant_exp, set_mant_exp and truncate_to_u64, which C25 and C26 check"] },
        Prop { id: "C25", build: c25, assumptions: &[] },
        Prop { id: "C26", build: c26, assumptions: &[] },
        Prop { id: "C27", build: c27, assumptions: &["texts with radix prefixes, repeated signs, inner blanks or exponents beyond 40000 are not specified"] },
    ])
}
