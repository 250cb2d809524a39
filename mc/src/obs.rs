//! Bridge between the model and the implementation: build rmath values from model values and observe
//! rmath values, using rmath's public interface only.
use crate::refmath::*;
use rmath::bigint::float::{Accuracy, RoundingMode};
use rmath::bigint::{BigInt, Float, Nat, Rat};
use std::cmp::Ordering;

/// What a number built by `nat` or `int` on this thread went through before it reached its value: nothing; a
/// vector with room to spare whose unused words are all ones; a left shift by 60 words and back; a longer
/// number added and subtracted again.
pub const PASTS: usize = 4;
thread_local! { static PAST: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
pub struct Past;
impl Past { pub fn set(k: usize) -> Past { PAST.with(|p| p.set(k)); Past } }
impl Drop for Past { fn drop(&mut self) { PAST.with(|p| p.set(0)); } }
fn longer(n: &N, k: usize) -> N { N::one().shl(32 * (n.0.len() + k)).add(&N::u(0xffff_ffff)) }
fn plain(n: &N) -> Nat { if n.0.is_empty() { Nat::from(vec![0u32]) } else { Nat::from(n.0.clone()) } }
pub fn nat(n: &N) -> Nat {
    match PAST.with(|p| p.get()) {
        1 => { let l = n.0.len().max(1); let mut v = vec![u32::MAX; l + 70]; v.truncate(l); v[0] = 0; v[..n.0.len()].copy_from_slice(&n.0); Nat::from(v) }
        2 => { let mut x = plain(n); x <<= 32 * 60; x >>= 32 * 60; x }
        3 => { let k = longer(n, 9); let mut x = plain(n); x += plain(&k); x -= plain(&k); x }
        _ => plain(n),
    }
}
pub fn nat_nan() -> Nat { Nat::from(Vec::<u32>::new()) }
pub fn int(z: &Z) -> BigInt {
    let mut b = BigInt::from(plain(&z.m)); if z.neg { b.set_negative(); }
    match PAST.with(|p| p.get()) {
        0 => {}
        1 => { b <<= 32 * 7; b >>= 32 * 7; }
        2 => { b <<= 32 * 60; b >>= 32 * 60; }
        _ => { let k = BigInt::from(plain(&longer(&z.m, 9))); b -= k.clone(); b += k; }
    }
    b
}
pub fn int_nan() -> BigInt { BigInt::from(nat_nan()) }
pub fn rat(q: &Q) -> Rat { Rat::from_frac_bigint(&int(&q.n), &int(&Z::pos(q.d.clone()))).unwrap_or_else(|_| panic!("from_frac_bigint refused {:?}", q)) }
pub fn rat_nan() -> Rat { Rat::from(int_nan()) }

/// the number a natural denotes; an error if it is not-a-number or not in canonical form
pub fn see(n: &Nat) -> Result<N, String> {
    let s: &[u32] = n.as_ref();
    if s.is_empty() || n.is_nan() { return Err("result is NaN".into()); }
    if s.len() > 1 && s[s.len() - 1] == 0 { return Err(format!("result is not canonical: limbs {:x?}", &s[..s.len().min(12)])); }
    Ok(N::new(s.to_vec()))
}
pub fn is(n: &Nat, want: &N) -> Result<(), String> {
    let s: &[u32] = n.as_ref();
    let ok = if want.0.is_empty() { s.len() == 1 && s[0] == 0 } else { s == &want.0[..] };
    if ok && !n.is_nan() { return Ok(()); }
    match see(n) { Ok(g) => Err(format!("got {:?}, expected {:?}", g, want)), Err(e) => Err(format!("{}, expected {:?}", e, want)) }
}
pub fn see_int(b: &BigInt) -> Result<Z, String> {
    if b.is_nan() { return Err("result is NaN".into()); }
    let a: &Nat = b.as_ref();
    let m = see(a)?;
    let neg = b.is_negative();
    if neg && m.is_zero() { return Err("result is negative zero".into()); }
    Ok(Z { neg, m })
}
pub fn is_int(b: &BigInt, want: &Z) -> Result<(), String> {
    match see_int(b) { Ok(g) => if g == *want { Ok(()) } else { Err(format!("got {:?}, expected {:?}", g, want)) }, Err(e) => Err(format!("{}, expected {:?}", e, want)) }
}
pub fn see_rat(r: &Rat) -> Result<Q, String> {
    if r.is_nan() { return Err("result is NaN".into()); }
    let n = see_int(r.numerator()).map_err(|e| format!("numerator: {}", e))?;
    let d = see_int(r.denominator()).map_err(|e| format!("denominator: {}", e))?;
    if d.neg || d.is_zero() { return Err(format!("denominator {:?} is not positive (numerator {:?})", d, n)); }
    if n.m.gcd(&d.m) != N::one() { return Err(format!("not in lowest terms: {:?}/{:?}", n, d)); }
    Ok(Q { n, d: d.m })
}
pub fn is_rat(r: &Rat, want: &Q) -> Result<(), String> {
    match see_rat(r) { Ok(g) => if g == *want { Ok(()) } else { Err(format!("got {:?}, expected {:?}", g, want)) }, Err(e) => Err(format!("{}, expected {:?}", e, want)) }
}

pub fn mode(m: Mode) -> RoundingMode {
    match m {
        Mode::NearestEven => RoundingMode::ToNearestEven, Mode::NearestAway => RoundingMode::ToNearestAway, Mode::ToZero => RoundingMode::ToZero,
        Mode::AwayZero => RoundingMode::AwayFromZero, Mode::NegInf => RoundingMode::ToNegativeInf, Mode::PosInf => RoundingMode::ToPositiveInf,
    }
}
pub fn see_mode(m: RoundingMode) -> Mode {
    match m {
        RoundingMode::ToNearestEven => Mode::NearestEven, RoundingMode::ToNearestAway => Mode::NearestAway, RoundingMode::ToZero => Mode::ToZero,
        RoundingMode::AwayFromZero => Mode::AwayZero, RoundingMode::ToNegativeInf => Mode::NegInf, RoundingMode::ToPositiveInf => Mode::PosInf,
    }
}
pub fn acc(a: Accuracy) -> Ordering { match a { Accuracy::Below => Ordering::Less, Accuracy::Exact => Ordering::Equal, Accuracy::Above => Ordering::Greater } }

/// The float with the given value, precision and mode (the value must fit the precision).
pub const ROUTES: usize = 8;
thread_local! { static ROUTE: std::cell::RefCell<std::collections::VecDeque<usize>> = const { std::cell::RefCell::new(std::collections::VecDeque::new()) }; }
/// the next floats built by `float` on this thread take these routes to their value
pub fn routed(r: &[usize]) { ROUTE.with(|q| { let mut q = q.borrow_mut(); q.clear(); q.extend(r); }); }
/// the same value reached through arithmetic, leaving whatever residue that leaves behind
fn by_route(v: &FV, r: usize) -> Float {
    let big = || { let mut x = float_plain(&FV::fin(false, N(vec![5, 0, 0xffff_ffff, 7, 0x8000_0001]), -3)); x.set_precision(200); x };
    let sg = |f: Float, n: bool| if n { -f } else { f };
    match v {
        FV::Zero(n) => { let z = match r { 1 => { let x = big(); x.deep_clone() - x } 2 => Float::from(0u64) * big(), 3 => big() / Float::get_inf(false), 4 => { let mut x = big(); x.set_precision(0); x } 5 => { let mut x = Float::default(); x.set_mant_exp(big(), isize::MIN / 4); x } _ => { let mut x = big(); x -= big(); x } }; let neg = z.is_negative() == Some(true); sg(z, *n != neg) }
        FV::Inf(n) => { let z = match r { 1 => big() / Float::from(0u64), 2 => { let mut x = Float::default(); x.set_mant_exp(big(), isize::MAX / 4); x } 3 => big() + Float::get_inf(false), 4 => Float::get_inf(true) * -big(), 5 => Float::from(f64::INFINITY), _ => big() - Float::get_inf(true) }; sg(z, *n) }
        FV::Fin { neg, m, e } => {
            let p = m.bits() + 300;
            let wide = |f: Float| { let mut f = f; f.set_precision(p); f };
            let x = wide(float_plain(v)); let three = wide(Float::from(3u64));
            match r {
                1 => { let k = float_plain(&FV::fin(*neg, N::one(), e + m.bits() as i64 + 70)); (x + k.deep_clone()) - k }
                2 => (x * three.deep_clone()) / three,
                3 => { let f = -(wide(Float::from(0u64)) - x); f }
                4 => { let h = wide(Float::from(0.5f64)); let mut y = x.deep_clone() * h; y += y.deep_clone(); y }
                7 => { let mut r = Float::default(); r.set_mant_exp(Float::from(BigInt::from(nat(&m.shl(96)))), *e as isize - 96); if *neg { -r } else { r } }
                8 => { let mut r = Float::default(); r.set_mant_exp(Float::from(BigInt::from(nat(&m.shl(31)))) * Float::from(4u32) * Float::from(1u64 << 63), *e as isize - 96); if *neg { -r } else { r } }
                5 => { let mut y = x; y -= float_plain(&FV::fin(!*neg, m.add(&N::one()), *e)); y += float_plain(&FV::fin(!*neg, m.add(&N::one()), *e)); y }
                _ => { let (mm, k) = (-x).mant_exp(); let mut y = Float::default(); y.set_mant_exp(mm, k); -y }
            }
        }
        FV::Nan => Float::from(0u64) / Float::from(0u64),
    }
}
fn float_plain(v: &FV) -> Float {
    match v {
        FV::Nan => Float::from(f64::NAN),
        FV::Inf(n) => Float::get_inf(*n),
        FV::Zero(n) => { let z = Float::from(0u64); if *n { -z } else { z } }
        FV::Fin { neg, m, e } => {
            let x = Float::from(BigInt::from(nat(m)));
            let mut r = Float::default();
            r.set_mant_exp(x, *e as isize);
            if *neg { -r } else { r }
        }
    }
}
pub fn float(v: &FV, prec: usize, m: Mode) -> Float {
    let r = ROUTE.with(|q| q.borrow_mut().pop_front().unwrap_or(0));
    let mut f = if r == 0 { float_plain(v) } else { by_route(v, r) };
    f.set_mode(mode(m));
    f.set_precision(prec);
    f.set_mode(mode(m)); // resets the accuracy
    f
}

/// Observe the value of a float.
pub fn see_float(x: &Float) -> Result<FV, String> {
    if x.is_nan() { return Ok(FV::Nan); }
    let neg = x.is_negative().ok_or("is_negative answers nothing")?;
    if x.is_infinite().ok_or("is_infinite answers nothing")? { return Ok(FV::Inf(neg)); }
    if x.signnum() == Some(0) { return Ok(FV::Zero(neg)); }
    let p = x.required_min_precision();
    let (m, e) = x.mant_exp();
    if p == 0 { return Err("non-zero finite float with minimum precision 0".into()); }
    let m = if neg { -m } else { m };
    if p <= 64 {
        let mut t = Float::default();
        t.set_mant_exp(m, p as isize);
        let (v, a) = t.truncate_to_u64().ok_or("truncate_to_u64 answers nothing")?;
        if acc(a) != Ordering::Equal { return Err(format!("mantissa of {} bits is not exactly representable", p)); }
        return Ok(FV::fin(neg, N::u(v as u128), e as i64 - p as i64));
    }
    // wider mantissas: peel 32 bits at a time from the top (m*2^32k truncated, minus what is known)
    let mut known = N::zero();
    let mut rest = m.deep_clone();
    let mut bits = 0usize;
    while bits < p {
        let k = 32.min(p - bits);
        let mut t = Float::default();
        t.set_mant_exp(rest.deep_clone(), k as isize);
        let (hi, _) = t.truncate_to_u64().ok_or("truncate_to_u64 answers nothing")?;
        if hi >> k != 0 { return Err("mantissa out of range".into()); }
        known = known.shl(k).add(&N::u(hi as u128));
        bits += k;
        let h = float(&FV::fin(false, N::u(hi as u128), 0), 64, Mode::ToZero);
        if hi != 0 { t = t - h; }
        rest = t;
    }
    if rest.signnum() != Some(0) { return Err("mantissa has more bits than its minimum precision".into()); }
    Ok(FV::fin(neg, known, e as i64 - p as i64))
}
pub fn is_float(x: &Float, want: &FV) -> Result<(), String> {
    let g = see_float(x).map_err(|e| format!("{}, expected {:?}", e, want))?;
    if g == *want { Ok(()) } else { Err(format!("got {:?}, expected {:?}", g, want)) }
}
/// value, precision, mode and accuracy
pub fn is_float_full(x: &Float, want: &FV, prec: usize, m: Mode, a: Ordering) -> Result<(), String> {
    is_float(x, want)?;
    if x.is_nan() { return Ok(()); }
    if x.get_precision() != prec { return Err(format!("precision is {}, expected {}", x.get_precision(), prec)); }
    if see_mode(x.get_mode()) != m { return Err(format!("mode is {:?}, expected {:?}", see_mode(x.get_mode()), m)); }
    if acc(x.get_accuracy()) != a { return Err(format!("accuracy is {:?}, expected {:?} (value {:?})", acc(x.get_accuracy()), a, want)); }
    Ok(())
}
