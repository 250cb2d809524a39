//! Properties across the number types: C08 (not-a-number), C09 (shared storage), C31 (operation histories).
use mc::alpha::*;
use mc::engine::*;
use mc::obs::*;
use mc::refmath::*;
use mc::{ck, want};
use rmath::bigint::{BigInt, Float, Nat, Rat};
use rmath::bigint::float::RoundingMode;
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::Arc;

const OPN: [&str; 10] = ["+", "-", "*", "/", "%", "&", "|", "^", "&^", "-s"];
macro_rules! bin_fns { ($t:ty, $bin:ident, $asg:ident) => {
    fn $bin(op: usize, x: $t, y: $t) -> $t { match op { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, 4 => x % y, 5 => x & y, 6 => x | y, 7 => x ^ y, _ => x.and_not(y) } }
    fn $asg(op: usize, x: &mut $t, y: $t) { match op { 0 => *x += y, 1 => *x -= y, 2 => *x *= y, 3 => *x /= y, 4 => *x %= y, 5 => *x &= y, 6 => *x |= y, 7 => *x ^= y, _ => x.and_not_assign(y) } }
} }
bin_fns!(Nat, nat_bin, nat_asg);
bin_fns!(BigInt, int_bin, int_asg);
macro_rules! four_fns { ($t:ty, $bin:ident, $asg:ident) => {
    fn $bin(op: usize, x: $t, y: $t) -> $t { match op { 0 => x + y, 1 => x - y, 2 => x * y, _ => x / y } }
    fn $asg(op: usize, x: &mut $t, y: $t) { match op { 0 => *x += y, 1 => *x -= y, 2 => *x *= y, _ => *x /= y } }
} }
four_fns!(Rat, rat_bin, rat_asg);
four_fns!(Float, flt_bin, flt_asg);
fn n_bin(op: usize, x: &N, y: &N) -> Option<N> { Some(match op { 0 => x.add(y), 1 | 9 => x.absdiff(y), 2 => x.mul(y), 3 => { if y.is_zero() { return None; } x.divrem(y).0 } 4 => { if y.is_zero() { return None; } x.rem(y) } 5 => x.bitop(y, |a, b| a & b), 6 => x.bitop(y, |a, b| a | b), 7 => x.bitop(y, |a, b| a ^ b), _ => x.bitop(y, |a, b| a & !b) }) }
fn z_bin(op: usize, x: &Z, y: &Z) -> Option<Z> { Some(match op { 0 => x.add(y), 1 => x.sub(y), 2 => x.mul(y), 3 => { if y.is_zero() { return None; } x.divrem(y).0 } 4 => { if y.is_zero() { return None; } x.divrem(y).1 } 5 => x.bitop(y, |a, b| a & b), 6 => x.bitop(y, |a, b| a | b), 7 => x.bitop(y, |a, b| a ^ b), _ => x.bitop(y, |a, b| a & !b) }) }
fn q_bin(op: usize, x: &Q, y: &Q) -> Option<Q> { Some(match op { 0 => x.add(y), 1 => x.sub(y), 2 => x.mul(y), _ => { if y.n.is_zero() { return None; } x.div(y) } }) }
fn f_bin(op: usize, x: &FV, y: &FV, p: usize, m: Mode) -> (FV, Ordering) { match op { 0 => fadd(x, y, p, m), 1 => fsub(x, y, p, m), 2 => fmul(x, y, p, m), _ => fdiv(x, y, p, m) } }

// ---------------------------------------------------------------- C08
fn nat_nans() -> Vec<Nat> { let mut a = Nat::from(7u32); a += Nat::default(); let mut b = Nat::from(vec![1u32, 2, 3]); b &= nat_nan(); let c = Nat::from(5u32); let mut d = c.clone(); d -= nat_nan(); vec![nat_nan(), Nat::default(), nat_nan().deep_clone(), nat_nan() + Nat::from(1u32), a, b, c, nat_nan().clone()] }
fn int_nans() -> Vec<BigInt> { let mut a = BigInt::from(-7); a += int_nan(); let mut b = BigInt::from(-7); b |= int_nan(); let mut c = BigInt::from(9); c *= int_nan(); let mut d = int_nan(); d.set_negative(); vec![int_nan(), -int_nan(), BigInt::from(-3) * int_nan(), a, b, c, d, BigInt::from(-4).sqrt()] }
fn rat_nans() -> Vec<Rat> { let mut a = Rat::from(3u32); a += rat_nan(); let mut b = Rat::from(-3i32); b /= rat_nan(); vec![rat_nan(), Rat::from_f64(f64::NAN), -rat_nan(), rat_nan() * Rat::from(2u32), a, b] }
fn flt_nans() -> Vec<Float> { let mut a = Float::from(1.5f64); a += Float::from(f64::NAN); vec![Float::from(f64::NAN), Float::from(f32::NAN), Float::get_inf(false) - Float::get_inf(false), Float::get_inf(true) + Float::get_inf(false), Float::from(0u64) * Float::get_inf(false), Float::from(0u64) / Float::from(0u64), Float::get_inf(false) / Float::get_inf(true), a, Float::from(nat_nan()), Float::from(int_nan()), Float::from(rat_nan())] }
/// the operation must not panic and must give not-a-number
fn gives_nan<T>(what: String, nan: fn(&T) -> bool, f: impl FnOnce() -> T) -> Res {
    match catch_unwind(AssertUnwindSafe(f)) { Err(_) => Err(format!("{} panicked: {}", what, last_panic())), Ok(r) => { want!(nan(&r), "{} is a number", what); Ok(()) } }
}
fn gives_num<T>(what: String, nan: fn(&T) -> bool, f: impl FnOnce() -> T) -> Res {
    match catch_unwind(AssertUnwindSafe(f)) { Err(_) => Err(format!("{} panicked: {}", what, last_panic())), Ok(r) => { want!(!nan(&r), "{} is not a number", what); Ok(()) } }
}
macro_rules! unordered { ($x:expr, $y:expr, $what:expr) => {{ let (x, y) = (&$x, &$y);
    want!(!(x == y), "{}: equal", $what); want!(x != y, "{}: not unequal", $what); want!(x.partial_cmp(y).is_none(), "{}: ordered {:?}", $what, x.partial_cmp(y)); want!(!(x < y) && !(x <= y) && !(x > y) && !(x >= y), "{}: ordered", $what); }} }
macro_rules! prints_nan { ($c:expr, $x:expr, $what:expr, $($f:literal),*) => { $( $c.step(); let s = format!($f, $x); want!(s == "NaN", "{} formatted with {} is {:?}", $what, $f, s); )* } }

fn nan_nat(k: usize, y: &N, c: &mut Ctx) -> Res {
    c.note(|| format!("natural NaN #{} with {:?}", k, y));
    let nan = |n: &Nat| n.is_nan(); let x = || nat_nans().swap_remove(k); let v = || nat(y);
    want!(x().is_nan(), "NaN #{} is a number", k);
    c.state(mix(y.hash(), k as u64));
    for op in 0..9 { c.steps(6);
        gives_nan(format!("NaN {} {:?}", OPN[op], y), nan, || nat_bin(op, x(), v()))?; gives_nan(format!("{:?} {} NaN", y, OPN[op]), nan, || nat_bin(op, v(), x()))?; gives_nan(format!("NaN {} NaN", OPN[op]), nan, || nat_bin(op, x(), x()))?;
        gives_nan(format!("NaN {}= {:?}", OPN[op], y), nan, || { let mut a = x(); nat_asg(op, &mut a, v()); a })?; gives_nan(format!("{:?} {}= NaN", y, OPN[op]), nan, || { let mut a = v(); nat_asg(op, &mut a, x()); a })?; gives_nan(format!("NaN {}= its clone", OPN[op]), nan, || { let mut a = x(); let b = a.clone(); nat_asg(op, &mut a, b); a })?;
    }
    for w in [0u32, 1, 2, u32::MAX] { c.steps(10);
        gives_nan(format!("NaN + {}", w), nan, || x() + w)?; gives_nan(format!("NaN - {}", w), nan, || x() - w)?; gives_nan(format!("NaN * {}", w), nan, || x() * w)?; gives_nan(format!("NaN / {}", w), nan, || x() / w)?; gives_nan(format!("NaN % {}", w), nan, || x() % w)?;
        gives_nan(format!("NaN += {}", w), nan, || { let mut a = x(); a += w; a })?; gives_nan(format!("NaN -= {}", w), nan, || { let mut a = x(); a -= w; a })?; gives_nan(format!("NaN *= {}", w), nan, || { let mut a = x(); a *= w; a })?; gives_nan(format!("NaN /= {}", w), nan, || { let mut a = x(); a /= w; a })?; gives_nan(format!("NaN %= {}", w), nan, || { let mut a = x(); a %= w; a })?;
    }
    for s in [0usize, 1, 31, 32, 33, 64, 100] { c.steps(4);
        gives_nan(format!("NaN << {}", s), nan, || x() << s)?; gives_nan(format!("NaN >> {}", s), nan, || x() >> s)?; gives_nan(format!("NaN <<= {}", s), nan, || { let mut a = x(); a <<= s; a })?; gives_nan(format!("NaN >>= {}", s), nan, || { let mut a = x(); a >>= s; a })?; }
    gives_nan("!NaN".into(), nan, || !x())?; gives_nan("sqrt(NaN)".into(), nan, || x().sqrt())?; gives_nan("sqr(NaN)".into(), nan, || x().sqr())?;
    gives_nan(format!("NaN.mul_karatsuba({:?})", y), nan, || x().mul_karatsuba(&v()))?; gives_nan(format!("{:?}.mul_karatsuba(NaN)", y), nan, || v().mul_karatsuba(&x()))?;
    let e = || nat(&N::u(3));
    gives_nan("pow(NaN, 3)".into(), nan, || x().pow(e()))?; gives_nan("pow(_, NaN)".into(), nan, || v().pow(x()))?;
    gives_nan(format!("pow_mod(NaN, 3, {:?})", y), nan, || x().pow_mod(e(), v()))?; gives_nan(format!("pow_mod({:?}, NaN, {:?})", y, y), nan, || v().pow_mod(x(), v()))?; gives_nan(format!("pow_mod({:?}, 3, NaN)", y), nan, || v().pow_mod(e(), x()))?;
    gives_nan(format!("exp(NaN, 3, {:?})", y), nan, || x().exp(&e(), &v()))?; gives_nan(format!("exp({:?}, NaN, {:?})", y, y), nan, || v().exp(&x(), &v()))?; gives_nan(format!("exp({:?}, 3, NaN)", y), nan, || v().exp(&e(), &x()))?;
    gives_nan(format!("NaN.sub_with_sign({:?})", y), nan, || x().sub_with_sign(v()).0)?; gives_nan(format!("{:?}.sub_with_sign(NaN)", y), nan, || v().sub_with_sign(x()).0)?;
    gives_nan(format!("NaN.sub_assign_with_sign({:?})", y), nan, || { let mut a = x(); a.sub_assign_with_sign(v()); a })?; gives_nan(format!("{:?}.sub_assign_with_sign(NaN)", y), nan, || { let mut a = v(); a.sub_assign_with_sign(x()); a })?;
    c.steps(16);
    unordered!(x(), v(), format!("NaN vs {:?}", y)); unordered!(v(), x(), format!("{:?} vs NaN", y)); unordered!(x(), x(), "NaN vs NaN"); { let a = x(); unordered!(a, a, "NaN vs itself"); unordered!(a, a.clone(), "NaN vs its clone"); }
    let a = x(); for w in [0u8, 1, 255] { unordered!(a, w, "NaN vs u8"); } for w in [0u16, u16::MAX] { unordered!(a, w, "NaN vs u16"); } for w in [0u32, 1, u32::MAX] { unordered!(a, w, "NaN vs u32"); } for w in [0u64, u64::MAX] { unordered!(a, w, "NaN vs u64"); } for w in [0u128, u128::MAX] { unordered!(a, w, "NaN vs u128"); } for w in [0usize, usize::MAX] { unordered!(a, w, "NaN vs usize"); }
    prints_nan!(c, a, "NaN", "{}", "{:?}", "{:x}", "{:X}", "{:o}", "{:b}", "{:#x}", "{:#X}", "{:#o}", "{:#b}", "{:#?}");
    Ok(())
}
fn nan_int(k: usize, y: &Z, c: &mut Ctx) -> Res {
    c.note(|| format!("integer NaN #{} with {:?}", k, y));
    let nan = |n: &BigInt| n.is_nan(); let x = || int_nans().swap_remove(k); let v = || int(y);
    want!(x().is_nan(), "NaN #{} is a number", k); c.state(mix(y.hash(), k as u64));
    let zero_div = |op: usize| y.m.is_zero() && (OPN[op] == "/" || OPN[op] == "%");  // dividing by 0 is documented to panic, whatever the dividend
    for op in 0..9 { c.steps(6);
        if !zero_div(op) { gives_nan(format!("NaN {} {:?}", OPN[op], y), nan, || int_bin(op, x(), v()))?; gives_nan(format!("NaN {}= {:?}", OPN[op], y), nan, || { let mut a = x(); int_asg(op, &mut a, v()); a })?; }
        gives_nan(format!("{:?} {} NaN", y, OPN[op]), nan, || int_bin(op, v(), x()))?; gives_nan(format!("NaN {} NaN", OPN[op]), nan, || int_bin(op, x(), x()))?;
        gives_nan(format!("{:?} {}= NaN", y, OPN[op]), nan, || { let mut a = v(); int_asg(op, &mut a, x()); a })?; gives_nan(format!("NaN {}= its clone", OPN[op]), nan, || { let mut a = x(); let b = a.clone(); int_asg(op, &mut a, b); a })?;
    }
    for s in [0usize, 1, 31, 32, 33, 64, 100] { c.steps(4);
        gives_nan(format!("NaN << {}", s), nan, || x() << s)?; gives_nan(format!("NaN >> {}", s), nan, || x() >> s)?; gives_nan(format!("NaN <<= {}", s), nan, || { let mut a = x(); a <<= s; a })?; gives_nan(format!("NaN >>= {}", s), nan, || { let mut a = x(); a >>= s; a })?; }
    gives_nan("!NaN".into(), nan, || !x())?; gives_nan("-NaN".into(), nan, || -x())?; gives_nan("abs(NaN)".into(), nan, || x().abs())?; gives_nan("sqrt(NaN)".into(), nan, || x().sqrt())?; gives_nan("sqr(NaN)".into(), nan, || x().sqr())?;
    if !y.m.is_zero() { gives_nan("NaN.rem_euclid".into(), nan, || x().rem_euclid(v()))?; gives_nan("NaN.div_euclid".into(), nan, || x().div_euclid(v()))?; gives_nan("NaN.rem_euclid_assign".into(), nan, || { let mut a = x(); a.rem_euclid_assign(v()); a })?; gives_nan("NaN.div_euclid_assign".into(), nan, || { let mut a = x(); a.div_euclid_assign(v()); a })?; }
    gives_nan("rem_euclid(NaN)".into(), nan, || v().rem_euclid(x()))?; gives_nan("div_euclid(NaN)".into(), nan, || v().div_euclid(x()))?;
    gives_nan("rem_euclid_assign(NaN)".into(), nan, || { let mut a = v(); a.rem_euclid_assign(x()); a })?; gives_nan("div_euclid_assign(NaN)".into(), nan, || { let mut a = v(); a.div_euclid_assign(x()); a })?;
    for (w, g) in [("gcd(NaN, y)", x().gcd(v())), ("gcd(y, NaN)", v().gcd(x())), ("gcd(NaN, NaN)", x().gcd(x()))] { want!(g.0.is_nan() && g.1.is_nan() && g.2.is_nan(), "{} is a number for y={:?}", w, y); }
    gives_nan("mod_inverse(NaN, y)".into(), nan, || x().mod_inverse(v()))?; gives_nan("mod_inverse(y, NaN)".into(), nan, || v().mod_inverse(x()))?;
    let e = || BigInt::from(3); gives_nan("exp(NaN, 3, y)".into(), nan, || x().exp(&e(), &v()))?; gives_nan("exp(y, NaN, y)".into(), nan, || v().exp(&x(), &v()))?; gives_nan("exp(y, 3, NaN)".into(), nan, || v().exp(&e(), &x()))?;
    want!(x().jacobi(&v()).is_none() && v().jacobi(&x()).is_none(), "jacobi symbol of NaN and {:?}", y);
    want!(x().solve_mod_linear_equation(v(), v()).is_none() && v().solve_mod_linear_equation(x(), v()).is_none() && v().solve_mod_linear_equation(v(), x()).is_none(), "linear congruence with NaN and {:?} has solutions", y);
    want!(x().signnum().is_none() && !x().is_negative() && !x().is_positive() && !x().is_natural(), "NaN has a sign");
    c.steps(24);
    unordered!(x(), v(), format!("NaN vs {:?}", y)); unordered!(v(), x(), format!("{:?} vs NaN", y)); unordered!(x(), x(), "NaN vs NaN"); let a = x(); unordered!(a, a, "NaN vs itself"); unordered!(a, a.clone(), "NaN vs its clone");
    for w in [0u32, 1, u32::MAX] { want!(!(a == w) && a != w, "NaN equals {}", w); }
    prints_nan!(c, a, "NaN", "{}", "{:?}", "{:x}", "{:X}", "{:o}", "{:b}", "{:#x}", "{:#X}", "{:#o}", "{:#b}", "{:#?}");
    Ok(())
}
fn nan_rat(k: usize, y: &Q, c: &mut Ctx) -> Res {
    c.note(|| format!("rational NaN #{} with {:?}", k, y));
    let nan = |n: &Rat| n.is_nan(); let x = || rat_nans().swap_remove(k); let v = || rat(y);
    want!(x().is_nan(), "NaN #{} is a number", k); c.state(mix(y.hash(), k as u64));
    for op in 0..4 { c.steps(5);
        gives_nan(format!("NaN {} {:?}", OPN[op], y), nan, || rat_bin(op, x(), v()))?; gives_nan(format!("{:?} {} NaN", y, OPN[op]), nan, || rat_bin(op, v(), x()))?; gives_nan(format!("NaN {} NaN", OPN[op]), nan, || rat_bin(op, x(), x()))?;
        gives_nan(format!("NaN {}= {:?}", OPN[op], y), nan, || { let mut a = x(); rat_asg(op, &mut a, v()); a })?; gives_nan(format!("{:?} {}= NaN", y, OPN[op]), nan, || { let mut a = v(); rat_asg(op, &mut a, x()); a })?; }
    gives_nan("-NaN".into(), nan, || -x())?; gives_nan("abs(NaN)".into(), nan, || x().abs())?; gives_nan("deep_clone(NaN)".into(), nan, || x().deep_clone())?;
    if y.n.sign() != 0 { for k in 0..int_nans().len() { let (z, m) = (|| int(&y.n), || int_nans().swap_remove(k)); for (n, d, w) in [(m(), z(), "NaN / y"), (z(), m(), "y / NaN"), (m(), m(), "NaN / NaN")] { match catch_unwind(AssertUnwindSafe(|| Rat::from_frac_bigint(&n, &d))) { Err(_) => return Err(format!("from_frac_bigint of {} panicked", w)), Ok(Ok(r)) => want!(r.is_nan(), "from_frac_bigint of {} is a number", w), Ok(Err(_)) => {} } } } }
    match catch_unwind(AssertUnwindSafe(|| x().inv())) { Err(_) => return Err("inv(NaN) panicked".into()), Ok(Ok(r)) => want!(r.is_nan(), "inv(NaN) is a number"), Ok(Err(_)) => {} }
    want!(x().signnum().is_none() && x().is_integer().is_none(), "NaN has a sign or is an integer");
    want!(x().to_f64().0.is_nan() && x().to_f32().0.is_nan(), "NaN converts to a number");
    gives_nan("Float of NaN".into(), |f: &Float| f.is_nan(), || Float::from(x()))?;
    c.steps(10);
    unordered!(x(), v(), format!("NaN vs {:?}", y)); unordered!(v(), x(), format!("{:?} vs NaN", y)); unordered!(x(), x(), "NaN vs NaN"); let a = x(); unordered!(a, a, "NaN vs itself");
    prints_nan!(c, a, "NaN", "{}", "{:?}", "{:x}", "{:X}", "{:o}", "{:b}", "{:#x}", "{:#X}", "{:#o}", "{:#b}", "{:#?}");
    Ok(())
}
fn nan_flt(k: usize, y: &FV, c: &mut Ctx) -> Res {
    c.note(|| format!("float NaN #{} with {:?}", k, y));
    let nan = |n: &Float| n.is_nan(); let x = || flt_nans().swap_remove(k); let v = || float(y, 70, Mode::NearestEven);
    want!(x().is_nan(), "NaN #{} is a number", k); c.state(mix(y.hash(), k as u64));
    for op in 0..4 { c.steps(5);
        gives_nan(format!("NaN {} {:?}", OPN[op], y), nan, || flt_bin(op, x(), v()))?; gives_nan(format!("{:?} {} NaN", y, OPN[op]), nan, || flt_bin(op, v(), x()))?; gives_nan(format!("NaN {} NaN", OPN[op]), nan, || flt_bin(op, x(), x()))?;
        gives_nan(format!("NaN {}= {:?}", OPN[op], y), nan, || { let mut a = x(); flt_asg(op, &mut a, v()); a })?; gives_nan(format!("{:?} {}= NaN", y, OPN[op]), nan, || { let mut a = v(); flt_asg(op, &mut a, x()); a })?; }
    gives_nan("-NaN".into(), nan, || -x())?; gives_nan("abs(NaN)".into(), nan, || x().abs())?; gives_nan("mant_exp(NaN)".into(), nan, || x().mant_exp().0)?; gives_nan("set_mant_exp(NaN)".into(), nan, || { let mut a = v(); a.set_mant_exp(x(), 3); a })?;
    for p in [1usize, 24, 53, 200] { gives_nan("NaN at another precision".into(), nan, || { let mut a = x(); a.set_precision(p); a })?; }
    want!(x().signnum().is_none() && x().is_integer().is_none() && x().is_negative().is_none() && x().is_infinite().is_none() && x().truncate_to_i64().is_none() && x().truncate_to_u64().is_none(), "a query about NaN is answered");
    want!(x().to_f64().0.is_nan() && x().to_f32().0.is_nan(), "NaN converts to a number");
    c.steps(14);
    unordered!(x(), v(), format!("NaN vs {:?}", y)); unordered!(v(), x(), format!("{:?} vs NaN", y)); unordered!(x(), x(), "NaN vs NaN"); let a = x(); unordered!(a, a, "NaN vs itself");
    prints_nan!(c, a, "NaN", "{}", "{:?}", "{:e}", "{:E}", "{:.3e}", "{:.0E}");
    Ok(())
}
/// operations on numbers give numbers
fn num_only(y: &N, w: &N, c: &mut Ctx) -> Res {
    c.note(|| format!("numbers {:?} , {:?}", y, w)); c.state(mix(y.hash(), w.hash()));
    for op in 0..9 { if matches!(op, 3 | 4) && w.is_zero() { continue; } c.step(); gives_num(format!("{:?} {} {:?}", y, OPN[op], w), |n: &Nat| n.is_nan(), || nat_bin(op, nat(y), nat(w)))?;
        for s in 0..4 { let (a, b) = (Z::new(s & 1 == 1, y.clone()), Z::new(s & 2 == 2, w.clone())); c.step(); gives_num(format!("{:?} {} {:?}", a, OPN[op], b), |n: &BigInt| n.is_nan(), || int_bin(op, int(&a), int(&b)))?; } }
    Ok(())
}
pub fn c08(t: Tier) -> Vec<Suite> {
    let ns: Vec<N> = { let mut v = limb_vecs(&LIMBS4, 3); v.extend(small(8)); v.extend(patterns(t.pick(vec![4, 9, 33], (4..40).collect()), &[0, 1, 7])); dedup(v) };
    let zs = signed(&ns); let qs: Vec<Q> = { let mut v = vec![]; for a in -6i128..=6 { for b in [1i128, 2, 3, 7] { v.push(Q::i(a, b)); } } for z in zs.iter().step_by(3) { v.push(Q::new(z.clone(), Z::i(12345))); v.push(Q::new(Z::i(-5), if z.is_zero() { Z::i(1) } else { z.clone() })); } v };
    let fs: Vec<FV> = { let mut v = vec![FV::Zero(false), FV::Zero(true), FV::Inf(false), FV::Inf(true)]; for m in [1u128, 3, 5, 255, 1 << 40 | 1, u64::MAX as u128] { for e in [-300i64, -40, -1, 0, 1, 40, 300] { v.push(FV::fin(false, N::u(m), e)); v.push(FV::fin(true, N::u(m), e)); } } v };
    let nums: Vec<N> = { let mut v = limb_vecs(&LIMBS4, 2); v.extend(small(t.pick(12, 40))); if t.thorough() { v.extend(limb_vecs(&LIMBS4, 3)); } dedup(v) };
    let (nn, ni, nr, nf) = (nat_nans().len(), int_nans().len(), rat_nans().len(), flt_nans().len());
    let mk = |name: &str, space: String, len: usize, f: Box<dyn Fn(u64, &mut Ctx) -> Res + Send + Sync>| Suite::new(name, space, len as u64, f);
    vec![
        mk("nat", format!("{} natural NaNs x {} naturals x every operation and operand position", nn, ns.len()), nn * ns.len(), Box::new(move |i, c| { let (k, j) = sp2(i, nn); nan_nat(k, &ns[j], c) })),
        mk("int", format!("{} integer NaNs x {} integers x every operation and operand position", ni, zs.len()), ni * zs.len(), Box::new(move |i, c| { let (k, j) = sp2(i, ni); nan_int(k, &zs[j], c) })),
        mk("rat", format!("{} rational NaNs x {} rationals", nr, qs.len()), nr * qs.len(), Box::new(move |i, c| { let (k, j) = sp2(i, nr); nan_rat(k, &qs[j], c) })),
        mk("float", format!("{} float NaNs x {} floats", nf, fs.len()), nf * fs.len(), Box::new(move |i, c| { let (k, j) = sp2(i, nf); nan_flt(k, &fs[j], c) })),
        mk("numbers", format!("every operation on every pair of {} numbers yields a number", nums.len()), nums.len() * nums.len(), Box::new(move |i, c| { let (k, j) = sp2(i, nums.len()); num_only(&nums[k], &nums[j], c) })),
    ]
}

// ---------------------------------------------------------------- C09
#[derive(Clone, Copy, Debug)]
enum Op { Asg(usize, usize, usize), Word(usize, usize, u32), Shift(usize, bool, usize), Clone(usize, usize), Deep(usize, usize), Bin(usize, usize, usize, usize), Un(usize, usize, usize) }
fn text(o: &Op) -> String { let h = ["a", "b", "c"]; match *o {
    Op::Asg(op, i, j) => format!("{} {}= {}.clone()", h[i], OPN[op], h[j]), Op::Word(op, i, w) => format!("{} {}= {:#x}", h[i], OPN[op], w), Op::Shift(i, l, k) => format!("{} {}= {}", h[i], if l { "<<" } else { ">>" }, k),
    Op::Clone(i, j) => format!("{} = {}.clone()", h[i], h[j]), Op::Deep(i, j) => format!("{} = {}.deep_clone()", h[i], h[j]), Op::Bin(op, i, j, k) => format!("{} = {}.clone() {} {}.clone()", h[i], h[j], OPN[op], h[k]), Op::Un(u, i, j) => format!("{} = unary {} of {}", h[i], u, h[j]) } }
fn op_list(h: usize, asg: usize, words: &[u32], shifts: &[usize], bins: usize, uns: usize, clones: bool) -> Vec<Op> {
    let mut v = vec![];
    for i in 0..h {
        for j in 0..h { for op in 0..asg { v.push(Op::Asg(op, i, j)); } if i != j && clones { v.push(Op::Clone(i, j)); } if i != j { v.push(Op::Deep(i, j)); } for u in 0..uns { v.push(Op::Un(u, i, j)); } for k in 0..h { for op in 0..bins { v.push(Op::Bin(op, i, j, k)); } } }
        for &w in words { for op in 0..5 { if w == 0 && op > 2 { continue; } v.push(Op::Word(op, i, w)); } }
        for &k in shifts { v.push(Op::Shift(i, true, k)); v.push(Op::Shift(i, false, k)); }
    }
    v
}
/// naturals: handles are names of cells; assigning operations change the cell, everything else makes a new one
fn alias_nat(init: &[N], ops: &[Op], idx: &[usize], c: &mut Ctx) -> Res {
    let h = init.len(); let mut real: Vec<Nat> = init.iter().map(nat).collect(); let mut cell: Vec<usize> = (0..h).collect(); let mut val: Vec<N> = init.to_vec();
    c.note(|| format!("a, b, c = {:?}", init));
    for &o in idx {
        let o = ops[o];
        let at = |i: usize, cell: &[usize], val: &[N]| val[cell[i]].clone();
        c.note(|| text(&o));
        match o {
            Op::Asg(op, i, j) => { let (x, y) = (at(i, &cell, &val), at(j, &cell, &val)); let w = match n_bin(op, &x, &y) { Some(w) => w, None => continue }; let r = real[j].clone(); if op == 9 { let s = real[i].sub_assign_with_sign(r); want!(s == (x >= y), "sub_assign_with_sign reports {}", s); } else { nat_asg(op, &mut real[i], r); } val[cell[i]] = w; }
            Op::Word(op, i, k) => { let x = at(i, &cell, &val); let w = match n_bin(op, &x, &N::u(k as u128)) { Some(w) => w, None => continue }; let r = &mut real[i]; match op { 0 => *r += k, 1 => *r -= k, 2 => *r *= k, 3 => *r /= k, _ => *r %= k } val[cell[i]] = w; }
            Op::Shift(i, l, k) => { let x = at(i, &cell, &val); if l { real[i] <<= k; val[cell[i]] = x.shl(k); } else { real[i] >>= k; val[cell[i]] = x.shr(k); } }
            Op::Clone(i, j) => { real[i] = real[j].clone(); cell[i] = cell[j]; }
            Op::Deep(i, j) => { real[i] = real[j].deep_clone(); let w = at(j, &cell, &val); val.push(w); cell[i] = val.len() - 1; }
            Op::Bin(op, i, j, k) => { let w = match n_bin(op, &at(j, &cell, &val), &at(k, &cell, &val)) { Some(w) => w, None => continue }; real[i] = nat_bin(op, real[j].clone(), real[k].clone()); val.push(w); cell[i] = val.len() - 1; }
            Op::Un(u, i, j) => { let x = at(j, &cell, &val); let (r, w) = match u { 0 => (real[j].sqr(), x.mul(&x)), 1 => (real[j].sqrt(), x.isqrt()), 2 => { let m = N::one().shl(x.bits().max(1)).sub(&N::one()); (!real[j].clone(), x.bitop(&m, |a, b| a ^ b)) } 3 => { if x.bits() > 4 { continue; } (real[j].pow(real[j].clone()), x.powbig(&x)) } 4 => (real[j].mul_karatsuba(&real[j]), x.mul(&x)), 5 => { if x.is_zero() { continue; } (real[j].pow_mod(real[j].clone(), real[j].clone()), if x == N::one() { N::zero() } else { x.modpow(&x, &x) }) } _ => { if x.is_zero() { continue; } (real[j].exp(&real[j], &real[j]), if x == N::one() { N::zero() } else { x.modpow(&x, &x) }) } }; real[i] = r; val.push(w); cell[i] = val.len() - 1; }
        }
        c.step();
        let mut hh = 0; for i in 0..h { let w = &val[cell[i]]; ck!(is(&real[i], w), "{} after {}", ["a", "b", "c"][i], text(&o)); hh = mix(hh, mix(w.hash(), cell.iter().position(|x| *x == cell[i]).unwrap() as u64)); } c.state(hh);
    }
    Ok(())
}
/// integers: as above, but an assigning operation leaves other shallow clones unspecified until they are set again
fn alias_int(init: &[Z], ops: &[Op], idx: &[usize], c: &mut Ctx) -> Res {
    let h = init.len(); let mut real: Vec<BigInt> = init.iter().map(int).collect(); let mut val: Vec<Z> = init.to_vec(); let mut cell: Vec<usize> = (0..h).collect(); let mut def = vec![true; h]; let mut next = h;
    c.note(|| format!("a, b, c = {:?}", init));
    for &o in idx {
        let o = ops[o]; c.note(|| text(&o));
        let mut set = |i: usize, w: Z, val: &mut Vec<Z>, cell: &mut Vec<usize>, def: &mut Vec<bool>| { val[i] = w; cell[i] = next; next += 1; def[i] = true; };
        match o {
            Op::Asg(op, i, j) => { if !def[i] || !def[j] { continue; } let w = match op { 9 => { if val[j].is_zero() { continue; } val[i].euclid(&val[j]).1 } _ => match z_bin(op, &val[i], &val[j]) { Some(w) => w, None => continue } }; let r = real[j].clone(); if op == 9 { real[i].rem_euclid_assign(r) } else { int_asg(op, &mut real[i], r) } val[i] = w; for k in 0..h { if k != i && cell[k] == cell[i] { def[k] = false; } } }
            Op::Shift(i, l, k) => { if !def[i] { continue; } if l { real[i] <<= k; val[i] = val[i].shl(k); } else { real[i] >>= k; val[i] = val[i].shr(k); } for k in 0..h { if k != i && cell[k] == cell[i] { def[k] = false; } } }
            Op::Word(..) => continue,
            Op::Clone(i, j) => { if !def[j] { continue; } real[i] = real[j].clone(); val[i] = val[j].clone(); cell[i] = cell[j]; def[i] = true; }
            Op::Deep(i, j) => { if !def[j] { continue; } real[i] = real[j].deep_clone(); let w = val[j].clone(); set(i, w, &mut val, &mut cell, &mut def); }
            Op::Bin(op, i, j, k) => { if !def[j] || !def[k] { continue; } let w = match z_bin(op, &val[j], &val[k]) { Some(w) => w, None => continue }; real[i] = int_bin(op, real[j].clone(), real[k].clone()); set(i, w, &mut val, &mut cell, &mut def); }
            Op::Un(u, i, j) => { if !def[j] { continue; } let x = val[j].clone(); let (r, w) = match u { 0 => (real[j].sqr(), x.mul(&x)), 1 => (-real[j].clone(), x.neg()), 2 => (!real[j].clone(), x.neg().sub(&Z::i(1))), 3 => (real[j].abs(), x.abs()), 4 => { if x.is_zero() { continue; } (real[j].div_euclid(real[j].clone()), Z::i(1)) } _ => { let g = real[j].gcd(real[j].clone()); (g.0, x.abs()) } }; real[i] = r; set(i, w, &mut val, &mut cell, &mut def); }
        }
        c.step();
        let mut hh = 0; for i in 0..h { if def[i] { ck!(is_int(&real[i], &val[i]), "{} after {}", ["a", "b", "c"][i], text(&o)); hh = mix(hh, val[i].hash()); } hh = mix(hh, cell.iter().position(|x| *x == cell[i]).unwrap() as u64); } c.state(hh);
    }
    Ok(())
}
/// rationals: no shallow copies are kept, but operators take shallow clones as operands
fn alias_rat(init: &[Q], ops: &[Op], idx: &[usize], c: &mut Ctx) -> Res {
    let h = init.len(); let mut real: Vec<Rat> = init.iter().map(rat).collect(); let mut val: Vec<Q> = init.to_vec();
    c.note(|| format!("a, b, c = {:?}", init));
    for &o in idx {
        let o = ops[o]; c.note(|| text(&o));
        match o {
            Op::Asg(op, i, j) => { let w = match q_bin(op, &val[i], &val[j]) { Some(w) => w, None => continue }; let r = real[j].clone(); rat_asg(op, &mut real[i], r); val[i] = w; }
            Op::Deep(i, j) => { real[i] = real[j].deep_clone(); val[i] = val[j].clone(); }
            Op::Bin(op, i, j, k) => { let w = match q_bin(op, &val[j], &val[k]) { Some(w) => w, None => continue }; real[i] = rat_bin(op, real[j].clone(), real[k].clone()); val[i] = w; }
            Op::Un(u, i, j) => { let x = val[j].clone(); let (r, w) = match u { 0 => (-real[j].clone(), x.neg()), 1 => (real[j].abs(), x.abs()), 2 => { if x.n.is_zero() { continue; } (real[j].inv().map_err(|_| "inv refused")?, x.inv()) } 3 => (Rat::from(real[j].numerator().clone()), Q::int(x.n.clone())), 4 => { let (a, b) = (real[j].denominator(), real[j].numerator()); if x.n.is_zero() { continue; } (Rat::from_frac_bigint(a, b).map_err(|_| "from_frac_bigint refused")?, x.inv()) } _ => (Rat::from_str(&real[j].to_string()).map_err(|_| "parsing refused")?, x) }; real[i] = r; val[i] = w; }
            _ => continue,
        }
        c.step();
        let mut hh = 0; for i in 0..h { ck!(is_rat(&real[i], &val[i]), "{} after {}", ["a", "b", "c"][i], text(&o)); hh = mix(hh, val[i].hash()); } c.state(hh);
    }
    Ok(())
}
fn alias_flt(init: &[FV], m: Mode, ops: &[Op], idx: &[usize], c: &mut Ctx) -> Res {
    let precs = [70usize, 40, 64]; let h = init.len();
    let mut val: Vec<(FV, usize, Ordering)> = init.iter().enumerate().map(|(i, v)| (v.clone(), precs[i], Ordering::Equal)).collect(); let mut real: Vec<Float> = val.iter().map(|(v, p, _)| float(v, *p, m)).collect();
    c.note(|| format!("a, b, c = {:?} with precisions {:?}, {:?}", init, precs, m));
    for &o in idx {
        let o = ops[o]; c.note(|| text(&o));
        let nan = |v: &FV| matches!(v, FV::Nan);
        match o {
            Op::Asg(op, i, j) => { if nan(&val[i].0) || nan(&val[j].0) { continue; } let p = val[i].1; let (w, a) = f_bin(op, &val[i].0, &val[j].0, p, m); if zero_open(op, &val[i].0, &val[j].0, m) { continue; } let r = real[j].clone(); flt_asg(op, &mut real[i], r); val[i] = (w, p, a); }
            Op::Deep(i, j) => { real[i] = real[j].deep_clone(); val[i] = val[j].clone(); }
            Op::Bin(op, i, j, k) => { if nan(&val[j].0) || nan(&val[k].0) { continue; } let p = val[j].1; let (w, a) = f_bin(op, &val[j].0, &val[k].0, p, m); if zero_open(op, &val[j].0, &val[k].0, m) { continue; } real[i] = flt_bin(op, real[j].clone(), real[k].clone()); val[i] = (w, p, a); }
            Op::Un(u, i, j) => { if nan(&val[j].0) { continue; } let (v, p, a) = val[j].clone(); match u { 0 => { real[i] = -real[j].clone(); val[i] = (v.minus(), p, a); } 1 => { real[i] = real[j].abs(); val[i] = (if v.is_neg() { v.minus() } else { v }, p, a); }
                2 => { let (mt, e) = real[j].mant_exp(); let mut t = Float::default(); t.set_mant_exp(mt, e); let keep = matches!(v, FV::Fin { .. }); real[i] = t; val[i] = (v, p, if keep { Ordering::Equal } else { a }); }
                _ => { let q = if p > 30 { 24 } else { 90 }; let mut t = real[j].deep_clone(); t.set_precision(q); real[i] = t; let (w, a) = match &v { FV::Fin { neg, m: mm, e } => { let (r, a) = round_q(*neg, mm, &N::one(), q, m); (match r { FV::Fin { neg, m, e: k } => FV::Fin { neg, m, e: k + e }, o => o }, a) } o => (o.clone(), Ordering::Equal) }; val[i] = (w, q, a); } } }
            _ => continue,
        }
        c.step();
        let mut hh = 0; for i in 0..h { let (w, p, a) = &val[i]; ck!(is_float_full(&real[i], w, *p, m, *a), "{} after {}", ["a", "b", "c"][i], text(&o)); hh = mix(hh, mix(w.hash(), *p as u64)); } c.state(hh);
    }
    Ok(())
}
/// a value of any type, and what can be seen of it
enum V { N(Nat), Z(BigInt), Q(Rat), F(Float) }
fn look(v: &V) -> String { match v { V::N(x) => if x.is_nan() { "NaN".into() } else { format!("{:?}", see(x)) }, V::Z(x) => if x.is_nan() { "NaN".into() } else { format!("{:?}", see_int(x)) }, V::Q(x) => if x.is_nan() { "NaN".into() } else { format!("{:?}", see_rat(x)) }, V::F(x) => if x.is_nan() { "NaN".into() } else { format!("{:?} {} {:?} {:?}", see_float(x), x.get_precision(), see_mode(x.get_mode()), acc(x.get_accuracy())) } } }
const MUTS: [(&str, usize); 4] = [("natural", 16), ("integer", 19), ("rational", 10), ("float", 10)];
/// change a value in place; None if there is no such change
fn change(v: &mut V, k: usize) -> Option<()> {
    match v {
        V::N(x) => match k { 0..=2 => { if k == 1 && &*x < &nat(&n(5)) { return None; } nat_asg(k, x, nat(&n(5))) } 3 | 4 => nat_asg(k, x, nat(&n(3))), 5..=8 => nat_asg(k, x, nat(&n(0x1_0000_0005))), 9 => *x <<= 33usize, 10 => *x >>= 1usize, 11 => *x += 7u32, 12 => { if &*x < &nat(&n(1)) { return None; } *x -= 1u32 } 13 => *x *= 5u32, 14 => { let w = x.clone(); *x += w } _ => { x.sub_assign_with_sign(nat(&n(9))); } },
        V::Z(x) => match k { 0..=8 => int_asg(k, x, int(&Z::i([5, -5, -3, 3, 3, 5, 5, 5, 5][k]))), 9 => *x <<= 33usize, 10 => *x >>= 1usize, 11 => x.set_negative(), 12 => x.set_natural(), 13 => x.rem_euclid_assign(int(&Z::i(4))), 14 => x.div_euclid_assign(int(&Z::i(4))), 15 => int_asg(0, x, int(&Z::new(true, n(B * B * 5)))), 16 => int_asg(5, x, int(&Z::i(-6))), 17 => int_asg(6, x, int(&Z::i(-6))), _ => { let w = x.clone(); *x *= w } },
        V::Q(x) => match k { 0..=3 => rat_asg(k, x, rat(&Q::i(-5, 6))), 4 => rat_asg(0, x, rat(&Q::i(7, 1))), 5 => rat_asg(2, x, rat(&Q::i(6, 1))), 6 => { let mut a = x.numerator().clone(); a += int(&Z::i(4)); } 7 => { let mut a = x.denominator().clone(); a += int(&Z::i(4)); } 8 => { let mut a = x.denominator().clone(); a <<= 33usize; } _ => { let w = x.clone(); *x *= w } },
        V::F(x) => match k { 0..=3 => flt_asg(k, x, float(&FV::fin(false, n(3), -2), 60, Mode::NearestEven)), 4 => x.set_precision(3), 5 => x.set_mode(RoundingMode::ToZero), 6 => { let (m, _) = x.mant_exp(); if x.is_infinite() == Some(true) || x.is_nan() { return None; } x.set_mant_exp(m, 5); } 7 => x.set_precision(300), 8 => flt_asg(0, x, float(&FV::fin(false, n(1), 90), 60, Mode::NearestEven)), _ => { let w = x.clone(); *x += w } },
    }
    Some(())
}
type Derive = fn(&[V]) -> Option<Vec<V>>;
/// every function and operator that makes a value out of others without changing them: name, kinds of the operands, application
fn derivations() -> Vec<(String, Vec<usize>, Derive)> {
    let mut v: Vec<(String, Vec<usize>, Derive)> = vec![];
    macro_rules! d { ($name:expr, [$($k:expr),*], |$o:ident| $b:expr) => { v.push(($name.to_string(), vec![$($k),*], |$o: &[V]| { let r = $b; Some(r) })); } }
    macro_rules! un { ($o:expr, $i:expr, $t:ident) => { match &$o[$i] { V::$t(x) => x, _ => unreachable!() } } }
    macro_rules! nz { ($e:expr) => { if $e { return None; } } }
    macro_rules! bins { ($t:ident, $kind:expr, $f:ident, $tn:expr, $($op:expr),*) => { $( d!(format!("{} {}", $tn, OPN[$op]), [$kind, $kind], |o| { let (x, y) = (un!(o, 0, $t), un!(o, 1, $t)); nz!(($op == 3 || $op == 4) && zero(&o[1])); vec![V::$t($f($op, x.clone(), y.clone()))] }); )* } }
    fn zero(v: &V) -> bool { match v { V::N(x) => *x == 0u32, V::Z(x) => x.signnum() == Some(0), V::Q(x) => x.signnum() == Some(0), V::F(x) => x.signnum() == Some(0) } }
    bins!(N, 0, nat_bin, "natural", 0, 1, 2, 3, 4, 5, 6, 7, 8); bins!(Z, 1, int_bin, "integer", 0, 1, 2, 3, 4, 5, 6, 7, 8); bins!(Q, 2, rat_bin, "rational", 0, 1, 2, 3); bins!(F, 3, flt_bin, "float", 0, 1, 2, 3);
    d!("natural + word", [0], |o| vec![V::N(un!(o, 0, N).clone() + 0u32), V::N(un!(o, 0, N).clone() + 7u32)]);
    d!("natural - word", [0], |o| { nz!(un!(o, 0, N) < &nat(&n(7))); vec![V::N(un!(o, 0, N).clone() - 0u32), V::N(un!(o, 0, N).clone() - 7u32)] });
    d!("natural * word", [0], |o| vec![V::N(un!(o, 0, N).clone() * 0u32), V::N(un!(o, 0, N).clone() * 1u32), V::N(un!(o, 0, N).clone() * 7u32)]);
    d!("natural / word", [0], |o| vec![V::N(un!(o, 0, N).clone() / 1u32), V::N(un!(o, 0, N).clone() / 7u32)]);
    d!("natural % word", [0], |o| vec![V::N(un!(o, 0, N).clone() % 1u32), V::N(un!(o, 0, N).clone() % 7u32)]);
    d!("natural shifts", [0], |o| { let x = un!(o, 0, N); vec![V::N(x.clone() << 0), V::N(x.clone() << 33), V::N(x.clone() >> 0), V::N(x.clone() >> 1), V::N(x.clone() >> 33)] });
    d!("not natural", [0], |o| vec![V::N(!un!(o, 0, N).clone())]);
    d!("natural sqr", [0], |o| vec![V::N(un!(o, 0, N).sqr())]);
    d!("natural sqrt", [0], |o| vec![V::N(un!(o, 0, N).sqrt())]);
    d!("natural deep clone", [0], |o| vec![V::N(un!(o, 0, N).deep_clone())]);
    d!("karatsuba", [0, 0], |o| vec![V::N(un!(o, 0, N).mul_karatsuba(un!(o, 1, N)))]);
    d!("sub_with_sign", [0, 0], |o| vec![V::N(un!(o, 0, N).sub_with_sign(un!(o, 1, N).clone()).0)]);
    d!("natural pow", [0], |o| { let x = un!(o, 0, N); vec![V::N(x.pow(nat(&n(0)))), V::N(x.pow(nat(&n(1)))), V::N(x.pow(nat(&n(3))))] });
    d!("exponent of pow", [0], |o| { let x = un!(o, 0, N); nz!(x.bits_len() > 5); vec![V::N(nat(&n(1)).pow(x.clone())), V::N(nat(&n(3)).pow(x.clone()))] });
    d!("natural pow_mod", [0, 0, 0], |o| { nz!(zero(&o[2]) || un!(o, 1, N).bits_len() > 70); vec![V::N(un!(o, 0, N).pow_mod(un!(o, 1, N).clone(), un!(o, 2, N).clone()))] });
    d!("natural exp", [0, 0, 0], |o| { nz!(zero(&o[2]) || un!(o, 1, N).bits_len() > 70); vec![V::N(un!(o, 0, N).exp(un!(o, 1, N), un!(o, 2, N)))] });
    d!("integer of natural", [0], |o| vec![V::Z(BigInt::from(un!(o, 0, N).clone()))]);
    d!("float of natural", [0], |o| vec![V::F(Float::from(un!(o, 0, N).clone()))]);
    d!("-integer", [1], |o| vec![V::Z(-un!(o, 0, Z).clone())]);
    d!("!integer", [1], |o| vec![V::Z(!un!(o, 0, Z).clone())]);
    d!("integer abs", [1], |o| vec![V::Z(un!(o, 0, Z).abs())]);
    d!("integer deep clone", [1], |o| vec![V::Z(un!(o, 0, Z).deep_clone())]);
    d!("integer sqr", [1], |o| vec![V::Z(un!(o, 0, Z).sqr())]);
    d!("integer sqrt", [1], |o| { nz!(un!(o, 0, Z).is_negative()); vec![V::Z(un!(o, 0, Z).sqrt())] });
    d!("integer shifts", [1], |o| { let x = un!(o, 0, Z); vec![V::Z(x.clone() << 0), V::Z(x.clone() << 33), V::Z(x.clone() >> 0), V::Z(x.clone() >> 1), V::Z(x.clone() >> 33)] });
    d!("rem_euclid", [1, 1], |o| { nz!(zero(&o[1])); vec![V::Z(un!(o, 0, Z).rem_euclid(un!(o, 1, Z).clone()))] });
    d!("div_euclid", [1, 1], |o| { nz!(zero(&o[1])); vec![V::Z(un!(o, 0, Z).div_euclid(un!(o, 1, Z).clone()))] });
    d!("gcd", [1, 1], |o| { let (a, b, c) = un!(o, 0, Z).gcd(un!(o, 1, Z).clone()); vec![V::Z(a), V::Z(b), V::Z(c)] });
    d!("mod_inverse", [1, 1], |o| { nz!(zero(&o[1])); vec![V::Z(un!(o, 0, Z).mod_inverse(un!(o, 1, Z).clone()))] });
    d!("linear congruence", [1, 1, 1], |o| { nz!(zero(&o[2]) || zero(&o[0]) || un!(o, 2, Z).bits_len() > 8); un!(o, 0, Z).solve_mod_linear_equation(un!(o, 1, Z).clone(), un!(o, 2, Z).clone()).unwrap_or_default().into_iter().map(V::Z).collect() });
    d!("integer exp", [1, 1, 1], |o| { nz!(zero(&o[2]) || un!(o, 1, Z).is_negative() || un!(o, 1, Z).bits_len() > 70); vec![V::Z(un!(o, 0, Z).exp(un!(o, 1, Z), un!(o, 2, Z)))] });
    d!("mod_sqrt", [1], |o| [3i128, 7, 13, 17, 65537].iter().filter_map(|&p| un!(o, 0, Z).mod_sqrt(&int(&Z::i(p))).map(V::Z)).collect());
    d!("jacobi", [1, 1], |o| { nz!(un!(o, 1, Z).is_set_bit(0) != Some(true)); let _ = un!(o, 0, Z).jacobi(un!(o, 1, Z)); vec![] });
    d!("rational of integer", [1], |o| vec![V::Q(Rat::from(un!(o, 0, Z).clone()))]);
    d!("float of integer", [1], |o| vec![V::F(Float::from(un!(o, 0, Z).clone()))]);
    d!("rational of integers", [1, 1], |o| { nz!(zero(&o[1])); vec![V::Q(Rat::from_frac_bigint(un!(o, 0, Z), un!(o, 1, Z)).ok()?)] });
    d!("-rational", [2], |o| vec![V::Q(-un!(o, 0, Q).clone())]);
    d!("rational abs", [2], |o| vec![V::Q(un!(o, 0, Q).abs())]);
    d!("rational inv", [2], |o| { nz!(zero(&o[0])); vec![V::Q(un!(o, 0, Q).inv().ok()?)] });
    d!("rational deep clone", [2], |o| vec![V::Q(un!(o, 0, Q).deep_clone())]);
    d!("float of rational", [2], |o| vec![V::F(Float::from(un!(o, 0, Q).clone()))]);
    d!("-float", [3], |o| vec![V::F(-un!(o, 0, F).clone())]);
    d!("float abs", [3], |o| vec![V::F(un!(o, 0, F).abs())]);
    d!("float deep clone", [3], |o| vec![V::F(un!(o, 0, F).deep_clone())]);
    d!("mant_exp", [3], |o| vec![V::F(un!(o, 0, F).mant_exp().0)]);
    d!("set_mant_exp", [3], |o| { let mut a = Float::default(); nz!(un!(o, 0, F).is_nan()); a.set_mant_exp(un!(o, 0, F).deep_clone(), 3); vec![V::F(a)] });
    v
}
fn pool(kind: usize, i: usize) -> Option<V> { match kind {
    0 => [n(0), n(1), n(2), n(6), n(B - 1), n(B * B - 1), n(B * 7), pattern(5, 7), pattern(40, 8)].get(i).map(|x| V::N(nat(x))),
    1 => [Z::i(0), Z::i(1), Z::i(-1), Z::i(6), Z::i(-7), Z::new(true, n(B * B - 1)), Z::pos(n(B * 7 + 3)), Z::new(true, pattern(5, 7)), Z::pos(pattern(6, 8))].get(i).map(|x| V::Z(int(x))),
    2 => [Q::i(0, 1), Q::i(1, 1), Q::i(-1, 1), Q::i(5, 7), Q::i(-3, 4), Q::i(1, 6), Q::i(12, 1), Q::new(Z::pos(n(B * B - 1)), Z::pos(n(B + 5))), Q::new(Z::i(-1), Z::pos(n(B * B)))].get(i).map(|x| V::Q(rat(x))),
    _ => [(FV::Zero(false), 40), (FV::Zero(true), 40), (FV::Inf(true), 40), (FV::fin(false, n(1), 0), 64), (FV::fin(true, n(13), -4), 53), (FV::fin(false, n(B * B - 1), -40), 64), (FV::fin(true, n(B + 3), 33), 90), (FV::fin(false, n(1), -1), 20), (FV::fin(false, pattern(4, 7), -128), 160)].get(i).map(|(x, p)| V::F(float(x, *p, Mode::NearestEven))),
} }
fn kind(v: &V) -> usize { match v { V::N(_) => 0, V::Z(_) => 1, V::Q(_) => 2, V::F(_) => 3 } }
fn independent(d: &(String, Vec<usize>, Derive), idx: &[usize], c: &mut Ctx) -> Res {
    let make = || -> Vec<V> { d.1.iter().zip(idx).map(|(k, i)| pool(*k, *i).unwrap()).collect() };
    let first = make(); let seen: Vec<String> = first.iter().map(look).collect(); c.note(|| format!("{} of {:?}", d.0, seen)); c.state(mix(idx.iter().fold(d.0.len() as u64, |a, b| mix(a, *b as u64)), d.0.bytes().fold(0u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64))));
    let r = match (d.2)(&first) { Some(r) => r, None => return Ok(()) }; let res: Vec<String> = r.iter().map(look).collect();
    let same = |what: &str, v: &[V], w: &[String]| -> Res { for (i, (a, b)) in v.iter().zip(w).enumerate() { let l = look(a); want!(&l == b, "{} {} was {}, is now {}", what, i, b, l); } Ok(()) };
    same("operand", &first, &seen)?;
    for i in 0..r.len() { for k in 0..MUTS[kind(&r[i])].1 { c.step();
        let o = make(); let mut r = (d.2)(&o).ok_or("no result the second time")?; same("result", &r, &res)?;
        if change(&mut r[i], k).is_none() { continue; }
        same(&format!("after change {} to {} result {}: operand", k, MUTS[kind(&r[i])].0, i), &o, &seen)?;
        let rest: Vec<usize> = (0..r.len()).filter(|j| *j != i).collect();
        for j in rest { let l = look(&r[j]); want!(l == res[j], "after change {} to {} result {}: result {} was {}, is now {}", k, MUTS[kind(&r[i])].0, i, j, res[j], l); }
    } }
    for i in 0..first.len() { for k in 0..MUTS[kind(&first[i])].1 { c.step();
        let mut o = make(); let r = (d.2)(&o).unwrap();
        if change(&mut o[i], k).is_none() { continue; }
        same(&format!("after change {} to {} operand {}: result", k, MUTS[kind(&first[i])].0, i), &r, &res)?;
    } }
    Ok(())
}
fn independence() -> Suite {
    const P: u64 = 9; let ds = Arc::new(derivations()); let mut off = vec![0u64]; for d in ds.iter() { off.push(off.last().unwrap() + P.pow(d.1.len() as u32)); }
    Suite::new("results", format!("each of {} functions and operators x every choice of its operands from {} values a kind x every in-place change (16 for a natural, 19 for an integer, 10 for a rational, 10 for a float) to each result and each operand", ds.len(), P), *off.last().unwrap(), move |i, c| { let k = off.iter().rposition(|x| *x <= i).unwrap(); let mut j = i - off[k]; let mut idx = [0usize; 3]; for x in idx.iter_mut() { *x = (j % P) as usize; j /= P; } independent(&ds[k], &idx[..ds[k].1.len()], c) })
}
/// conversions between the types from shallow clones, then assigning operations on source or target
const CONV: usize = 30;
fn alias_conv(init: &(N, Z, Q), idx: &[usize], c: &mut Ctx) -> Res {
    let (mut n, mut z, mut q, mut f) = (nat(&init.0), int(&init.1), rat(&init.2), Float::from(5u64));
    let (mut vn, mut vz, mut vq) = (init.0.clone(), init.1.clone(), init.2.clone()); let mut vf = FV::fin(false, N::u(5), 0);
    c.note(|| format!("natural n = {:?}, integer z = {:?}, rational q = {:?}, float f = 5", vn, vz, vq));
    const T: [&str; CONV] = ["z = BigInt::from(n.clone())", "q = Rat::from(z.clone())", "q = from_frac_bigint(z, BigInt::from(n.clone()))", "f = Float::from(n.clone())", "f = Float::from(z.clone())", "f = Float::from(q.clone())", "z = q.numerator().deep_clone()", "z = q.denominator().deep_clone()", "n = magnitude of z, deep clone", "z = BigInt::from(magnitude of z, clone)", "q = Rat::from(q.numerator().clone())", "q = from_frac_bigint(q.denominator(), z)", "n += magnitude of z, clone", "n *= n.clone()", "n <<= 33", "n >>= 1", "n += 1", "z += BigInt::from(n.clone())", "z -= q.numerator().clone()", "z *= q.denominator().clone()", "z <<= 33", "z = -z", "q += Rat::from(z.clone())", "q *= q.clone()", "q -= Rat::from(BigInt::from(n.clone()))", "f += Float::from(z.clone())", "f *= f.clone()", "q = Rat::from(BigInt::from(n.clone()))", "z.set_negative()", "n -= n.clone()"];
    for &o in idx {
        c.note(|| T[o].to_string()); let mut tf = false;
        let zn = |x: &N| Z::pos(x.clone());
        match o {
            0 => { z = BigInt::from(n.clone()); vz = zn(&vn); }
            1 => { q = Rat::from(z.clone()); vq = Q::int(vz.clone()); }
            2 => { if vn.is_zero() { continue; } q = Rat::from_frac_bigint(&z, &BigInt::from(n.clone())).map_err(|_| "from_frac_bigint refused")?; vq = Q::new(vz.clone(), zn(&vn)); }
            3 => { f = Float::from(n.clone()); tf = true; }
            4 => { f = Float::from(z.clone()); tf = true; }
            5 => { f = Float::from(q.clone()); tf = true; }
            6 => { z = q.numerator().deep_clone(); vz = vq.n.clone(); }
            7 => { z = q.denominator().deep_clone(); vz = zn(&vq.d); }
            8 => { let m: &Nat = z.as_ref(); n = m.deep_clone(); vn = vz.m.clone(); }
            9 => { let m: Nat = { let m: &Nat = z.as_ref(); m.clone() }; z = BigInt::from(m); vz = vz.abs(); }
            10 => { q = Rat::from(q.numerator().clone()); vq = Q::int(vq.n.clone()); }
            11 => { if vz.is_zero() { continue; } q = Rat::from_frac_bigint(q.denominator(), &z).map_err(|_| "from_frac_bigint refused")?; vq = Q::new(zn(&vq.d), vz.clone()); }
            12 => { let m: Nat = { let m: &Nat = z.as_ref(); m.clone() }; n += m; vn = vn.add(&vz.m); }
            13 => { let m = n.clone(); n *= m; vn = vn.mul(&vn); }
            14 => { n <<= 33usize; vn = vn.shl(33); }
            15 => { n >>= 1usize; vn = vn.shr(1); }
            16 => { n += 1u32; vn = vn.add(&N::one()); }
            17 => { z += BigInt::from(n.clone()); vz = vz.add(&zn(&vn)); }
            18 => { z -= q.numerator().clone(); vz = vz.sub(&vq.n); }
            19 => { z *= q.denominator().clone(); vz = vz.mul(&zn(&vq.d)); }
            20 => { z <<= 33usize; vz = vz.shl(33); }
            21 => { z = -z; vz = vz.neg(); }
            22 => { let w = match q_bin(0, &vq, &Q::int(vz.clone())) { Some(w) => w, None => continue }; q += Rat::from(z.clone()); vq = w; }
            23 => { let w = match q_bin(2, &vq, &vq) { Some(w) => w, None => continue }; let k = q.clone(); q *= k; vq = w; }
            24 => { let w = match q_bin(1, &vq, &Q::int(zn(&vn))) { Some(w) => w, None => continue }; q -= Rat::from(BigInt::from(n.clone())); vq = w; }
            25 => { f += Float::from(z.clone()); tf = true; }
            26 => { let k = f.clone(); f *= k; tf = true; }
            27 => { q = Rat::from(BigInt::from(n.clone())); vq = Q::int(zn(&vn)); }
            28 => { z.set_negative(); vz = Z::new(true, vz.m.clone()); }
            _ => { let k = n.clone(); n -= k; vn = N::zero(); }
        }
        c.step();
        ck!(is(&n, &vn), "natural n after {}", T[o]); ck!(is_int(&z, &vz), "integer z after {}", T[o]); ck!(is_rat(&q, &vq), "rational q after {}", T[o]);
        if tf { vf = see_float(&f).map_err(|e| format!("float f after {}: {}", T[o], e))?; } else { ck!(is_float(&f, &vf), "float f after {}", T[o]); }
        c.state(mix(mix(vn.hash(), vz.hash()), mix(vq.hash(), vf.hash())));
    }
    Ok(())
}
/// the sign of a sum of opposite zeros rounded toward negative infinity is not specified
fn zero_open(op: usize, x: &FV, y: &FV, m: Mode) -> bool { op < 2 && m == Mode::NegInf && matches!((x, y), (FV::Zero(a), FV::Zero(b)) if (*a == *b) == (op == 1)) }

fn hist<T: Send + Sync + 'static>(name: &str, what: &str, inits: Vec<Vec<T>>, ops: Vec<Op>, depth: u32, f: impl Fn(&[T], &[Op], &[usize], &mut Ctx) -> Res + Send + Sync + 'static) -> Suite {
    let k = ops.len() as u64; let len = k.pow(depth) * inits.len() as u64; let ni = inits.len() as u64;
    Suite::new(name, format!("every history of {} steps over {} operations on {} handles of {} ({} initial assignments)", depth, k, inits[0].len(), what, ni), len, move |i, c| { let mut j = i / ni; let mut idx = [0usize; 8]; for d in 0..depth as usize { idx[depth as usize - 1 - d] = (j % k) as usize; j /= k; } f(&inits[(i % ni) as usize], &ops, &idx[..depth as usize], c) })
}
fn n(x: u128) -> N { N::u(x) }
const B: u128 = 1 << 32;
pub fn c09(t: Tier) -> Vec<Suite> {
    let th = t.thorough();
    let i2: Vec<Vec<N>> = vec![vec![n(B * B - 1), n(B + 5)], vec![n(3), n(B * B * B + 1)], vec![n(0), n(B - 1)], vec![pattern(9, 7), n(B * 7)], vec![n(12), n(12)]];
    let i3: Vec<Vec<N>> = vec![vec![n(B * B - 1), n(B + 5), n(6)], vec![n(1), n(0), pattern(5, 0)], vec![pattern(10, 7), pattern(4, 8), n(B * 9)]];
    let big: Vec<Vec<N>> = vec![vec![pattern(70, 7), pattern(41, 8)], vec![pattern(40, 0), pattern(39, 0)], vec![pattern(130, 4), pattern(66, 7)]];
    let zz = |v: &Vec<Vec<N>>, s: usize| -> Vec<Vec<Z>> { v.iter().map(|r| r.iter().enumerate().map(|(i, x)| Z::new((s >> i) & 1 == 1, x.clone())).collect()).collect() };
    let iz2: Vec<Vec<Z>> = (0..4).flat_map(|s| zz(&i2[..t.pick(2, 5)].to_vec(), s)).collect(); let iz3: Vec<Vec<Z>> = [1usize, 2, 5, 6].iter().flat_map(|&s| zz(&i3, s)).collect();
    let iq: Vec<Vec<Q>> = vec![vec![Q::i(3, 4), Q::i(-5, 6)], vec![Q::i(0, 1), Q::i(7, 3)], vec![Q::i(1, 1), Q::i(-2, 1)], vec![Q::new(Z::pos(n(B * B - 1)), Z::pos(n(B + 5))), Q::i(1 << 40, 3)], vec![Q::i(6, 1), Q::i(1, 6)]];
    let if_: Vec<Vec<FV>> = vec![vec![FV::fin(false, n(5), -3), FV::fin(true, n(B + 3), -33)], vec![FV::fin(false, n(B * B - 1), 0), FV::fin(false, n(3), 7)], vec![FV::Zero(false), FV::fin(true, n(1), 0)], vec![FV::Inf(true), FV::fin(false, n(7), 2)], vec![FV::Zero(true), FV::Zero(false)], vec![FV::fin(true, n(B - 1), 3), FV::fin(true, n(B - 1), 3)]];
    vec![
        independence(),
        hist("nat2", "naturals", i2.clone(), op_list(2, 10, &[1, u32::MAX], &[1, 32, 37], 9, 7, true), 3, alias_nat),
        hist("nat2-deep", "naturals", i2[..t.pick(4, 5)].to_vec(), op_list(2, 10, &[1], &[33], 3, 1, true), t.pick(3, 4), alias_nat),
        hist("nat3", "naturals", i3.clone(), op_list(3, 10, &[u32::MAX], &[33], 9, 0, true), t.pick(2, 3), alias_nat),
        hist("nat-large", "naturals across the multiplication thresholds", big, op_list(2, 10, &[u32::MAX], &[65], 9, 5, true), 2, |v: &[N], o: &[Op], i: &[usize], c: &mut Ctx| alias_nat(v, o, i, c)),
        hist("int2", "integers", iz2, op_list(2, 10, &[], &[1, 33], 9, 6, true), 3, alias_int),
        hist("int3", "integers", iz3, op_list(3, 10, &[], &[33], if th { 9 } else { 3 }, 0, true), t.pick(2, 3), alias_int),
        hist("rat2", "rationals", iq.clone(), op_list(2, 4, &[], &[], 4, 6, false), 3, alias_rat),
        hist("rat2-deep", "rationals", iq[..t.pick(4, 5)].to_vec(), op_list(2, 4, &[], &[], 1, 2, false), t.pick(3, 4), alias_rat),
        hist("float2", "floats rounded to nearest even", if_.clone(), op_list(2, 4, &[], &[], 4, 4, false), 3, |v: &[FV], o: &[Op], i: &[usize], c: &mut Ctx| alias_flt(v, Mode::NearestEven, o, i, c)),
        hist("float2-down", "floats rounded down", if_, op_list(2, 4, &[], &[], 4, 4, false), 3, |v: &[FV], o: &[Op], i: &[usize], c: &mut Ctx| alias_flt(v, Mode::NegInf, o, i, c)),
        { let inits: Vec<(N, Z, Q)> = vec![(n(B + 5), Z::i(-6), Q::i(3, 4)), (n(0), Z::new(true, n(B * B - 1)), Q::i(-5, 1)), (pattern(5, 7), Z::pos(n(B * 7)), Q::new(Z::pos(n(B * B - 1)), Z::pos(n(B + 5)))), (n(1), Z::i(0), Q::i(0, 1))];
          let d = t.pick(3, 4) as u32; let k = CONV as u64; let ni = inits.len() as u64;
          Suite::new("conversions", format!("every history of {} steps over {} conversions and assigning operations on a natural, an integer, a rational and a float ({} initial assignments)", d, k, ni), k.pow(d) * ni, move |i, c| { let mut j = i / ni; let mut idx = [0usize; 8]; for x in (0..d as usize).rev() { idx[x] = (j % k) as usize; j /= k; } alias_conv(&inits[(i % ni) as usize], &idx[..d as usize], c) }) },
    ]
}

// ---------------------------------------------------------------- C31
/// one register of each kind, plus a constant of each kind
struct St { n: N, z: Z, q: Q, f: FV, fp: usize, fa: Ordering }
struct Im { n: Nat, z: BigInt, q: Rat, f: Float }
const NOPS: usize = 64;
fn c31_op(o: usize, s: &mut St, r: &mut Im, k: &Consts, md: Mode, dry: &mut String) -> Result<bool, String> {
    macro_rules! d { ($($a:tt)*) => { *dry = format!($($a)*); } }
    let cap = |b: usize| b > 2600;
    match o {
        0..=8 => { let j = o; d!("n {}= {:?}", OPN[j], k.n); s.n = match n_bin(j, &s.n, &k.n) { Some(w) => w, None => return Ok(false) }; nat_asg(j, &mut r.n, nat(&k.n)); }
        9..=12 => { let j = o - 9; d!("n = n {} {:#x}", OPN[j], k.w); s.n = match n_bin(j, &s.n, &n(k.w as u128)) { Some(w) => w, None => return Ok(false) }; r.n = match j { 0 => r.n.clone() + k.w, 1 => r.n.clone() - k.w, 2 => r.n.clone() * k.w, _ => r.n.clone() / k.w }; }
        13 => { d!("n <<= {}", k.s); s.n = s.n.shl(k.s); r.n <<= k.s; }
        14 => { d!("n >>= {}", k.s); s.n = s.n.shr(k.s); r.n >>= k.s; }
        15 => { d!("n = n.sqr()"); if cap(2 * s.n.bits()) { return Ok(false); } s.n = s.n.mul(&s.n); r.n = r.n.sqr(); }
        16 => { d!("n = n.sqrt()"); s.n = s.n.isqrt(); r.n = r.n.sqrt(); }
        17 => { d!("n = parse(print(n))"); r.n = Nat::from_str(&r.n.to_string()).map_err(|_| "natural does not parse back")?; }
        18 => { d!("n = from_le_bytes(to_le_bytes(n))"); r.n = Nat::from_le_bytes(&r.n.to_le_bytes()); }
        19 => { d!("n = |z|"); s.n = s.z.m.clone(); let a: &Nat = r.z.as_ref(); r.n = a.deep_clone(); }
        20 => { d!("n = (n * n) % {:?}", k.n); if k.n.is_zero() || cap(2 * s.n.bits()) { return Ok(false); } s.n = s.n.mul(&s.n).rem(&k.n); r.n = (r.n.clone() * r.n.clone()) % nat(&k.n); }
        21 => { d!("n = pow_mod(n, 5, {:?})", k.n); if k.n.is_zero() { return Ok(false); } s.n = if k.n == N::one() { N::zero() } else { s.n.modpow(&n(5), &k.n) }; r.n = r.n.pow_mod(nat(&n(5)), nat(&k.n)); }
        22..=30 => { let j = o - 22; d!("z {}= {:?}", OPN[j], k.z); s.z = match z_bin(j, &s.z, &k.z) { Some(w) => w, None => return Ok(false) }; int_asg(j, &mut r.z, int(&k.z)); }
        31 => { d!("z = -z"); s.z = s.z.neg(); r.z = -r.z.clone(); }
        32 => { d!("z = !z"); s.z = s.z.neg().sub(&Z::i(1)); r.z = !r.z.clone(); }
        33 => { d!("z <<= {}", k.s); s.z = s.z.shl(k.s); r.z <<= k.s; }
        34 => { d!("z >>= {}", k.s); s.z = s.z.shr(k.s); r.z >>= k.s; }
        35 => { d!("z = n"); s.z = Z::pos(s.n.clone()); r.z = BigInt::from(r.n.clone()); }
        36 => { d!("z = numerator(q)"); s.z = s.q.n.clone(); r.z = r.q.numerator().deep_clone(); }
        37 => { d!("z = denominator(q)"); s.z = Z::pos(s.q.d.clone()); r.z = r.q.denominator().deep_clone(); }
        38 => { d!("z = z.div_euclid({:?})", k.z); if k.z.is_zero() { return Ok(false); } s.z = s.z.euclid(&k.z).0; r.z = r.z.div_euclid(int(&k.z)); }
        39 => { d!("z.rem_euclid_assign({:?})", k.z); if k.z.is_zero() { return Ok(false); } s.z = s.z.euclid(&k.z).1; r.z.rem_euclid_assign(int(&k.z)); }
        40 => { d!("z = gcd(z, {:?})", k.z); s.z = Z::pos(s.z.m.gcd(&k.z.m)); r.z = r.z.gcd(int(&k.z)).0; }
        41 => { d!("z = parse(print(z))"); r.z = BigInt::from_str(&r.z.to_string()).map_err(|_| "integer does not parse back")?; }
        42 => { d!("z = truncate(f)"); let w = match s.f.q() { Some(q) => q.n.divrem(&q.dz()).0, None => return Ok(false) }; if w.m.bits() > 62 { return Ok(false); } let (i, a) = r.f.truncate_to_i64().ok_or("no truncation")?; let exact = s.f.q().map_or(true, |q| q.d == N::one()); want!((acc(a) == Ordering::Equal) == exact, "accuracy of the truncation"); s.z = w; r.z = BigInt::from(i); }
        43 => { d!("z = parse(hex(z))"); r.z = BigInt::from_str(&format!("{:#x}", r.z)).map_err(|_| "hexadecimal integer does not parse back")?; }
        44..=47 => { let j = o - 44; d!("q {}= {:?}", OPN[j], k.q); s.q = match q_bin(j, &s.q, &k.q) { Some(w) => w, None => return Ok(false) }; rat_asg(j, &mut r.q, rat(&k.q)); }
        48 => { d!("q = 1/q"); if s.q.n.is_zero() { return Ok(false); } s.q = s.q.inv(); r.q = r.q.inv().map_err(|_| "inverse refused")?; }
        49 => { d!("q = -q"); s.q = s.q.neg(); r.q = -r.q.clone(); }
        50 => { d!("q = z"); s.q = Q::int(s.z.clone()); r.q = Rat::from(r.z.clone()); }
        51 => { d!("q = z/n"); if s.n.is_zero() { return Ok(false); } s.q = Q::new(s.z.clone(), Z::pos(s.n.clone())); r.q = Rat::from_frac_bigint(&r.z, &BigInt::from(r.n.clone())).map_err(|_| "fraction refused")?; }
        52 => { d!("q = parse(print(q))"); r.q = Rat::from_str(&r.q.to_string()).map_err(|_| "rational does not parse back")?; }
        53 => { d!("q = from_f64(to_f64(f))"); let q = match s.f.q() { Some(q) => q, None => return Ok(false) }; let (w, _) = to_f64(&q, s.f.is_neg()); if !w.is_finite() { return Ok(false); } let (g, _) = r.f.to_f64(); want!(g == w, "to_f64 gives {:e}, expected {:e}", g, w); s.q = Q::f64(w); r.q = Rat::from_f64(g); }
        54..=57 => { let j = o - 54; d!("f {}= {:?}", OPN[j], k.f); if matches!(s.f, FV::Nan) || zero_open(j, &s.f, &k.f, md) { return Ok(false); } let (w, a) = f_bin(j, &s.f, &k.f, s.fp, md); if matches!(w, FV::Nan) { return Ok(false); } s.f = w; s.fa = a; if k.pad { routed(&[7]); } let g = float(&k.f, if k.pad { 200 } else { 90 }, md); routed(&[]); flt_asg(j, &mut r.f, g); }
        58 => { d!("f = z"); let p = s.z.m.bits().max(64); s.f = if s.z.is_zero() { FV::Zero(false) } else { FV::fin(s.z.neg, s.z.m.clone(), 0) }; s.fp = p; s.fa = Ordering::Equal; r.f = Float::from(r.z.clone()); r.f.set_mode(mode(md)); }
        59 => { d!("f = q"); let p = if s.q.d == N::one() { s.q.n.m.bits().max(64) } else { s.q.n.m.bits().max(64).max(s.q.d.bits()) }; let (w, a) = if s.q.n.is_zero() { (FV::Zero(false), Ordering::Equal) } else { round_rat(&s.q, p, Mode::NearestEven) }; s.f = w; s.fp = p; s.fa = Ordering::Equal; r.f = Float::from(r.q.clone()); want!(acc(r.f.get_accuracy()) == a, "accuracy of the conversion"); r.f.set_mode(mode(md)); }
        60 => { d!("f rounded to {} bits", k.p); let (w, a) = match &s.f { FV::Fin { neg, m: mm, e } => { if s.fp <= k.p { (s.f.clone(), Ordering::Equal) } else { let (x, a) = round_q(*neg, mm, &N::one(), k.p, md); (match x { FV::Fin { neg, m, e: j } => FV::Fin { neg, m, e: j + e }, o => o }, a) } } v => (v.clone(), Ordering::Equal) }; s.f = w; s.fp = k.p; s.fa = a; r.f.set_precision(k.p); }
        61 | 62 => { let e = [130i64, -150][o - 61]; d!("f = f * 2^{}", e); let far = match &s.f { FV::Fin { m, e: x, .. } => (m.bits() as i64 + x + e).abs() > 700, _ => false }; if far { return Ok(false); } s.f = match &s.f { FV::Fin { neg, m, e: x } => FV::Fin { neg: *neg, m: m.clone(), e: x + e }, v => v.clone() }; s.fa = Ordering::Equal; let mut t = Float::default(); t.set_mant_exp(r.f.deep_clone(), e as isize); r.f = t; }
        _ => { d!("f = -f"); s.f = s.f.minus(); r.f = -r.f.clone(); }
    }
    Ok(true)
}
struct Consts { n: N, w: u32, s: usize, z: Z, q: Q, f: FV, p: usize, pad: bool }
fn chain(init: usize, ops: &[usize], ks: &Consts, md: Mode, c: &mut Ctx) -> Res {
    let ns = [n(0), n(1), n(B * B - 1), n(6 * B + 7), pattern(6, 7)]; let zs = [Z::i(0), Z::i(-1), Z::new(true, n(B * B - 1)), Z::pos(n(B)), Z::new(true, pattern(5, 8))]; let qs = [Q::i(0, 1), Q::i(-1, 3), Q::new(Z::pos(n(B * B + 1)), Z::pos(n(B - 1))), Q::i(10, 1), Q::new(Z::new(true, pattern(4, 7)), Z::pos(pattern(3, 8)))]; let fs = [FV::Zero(false), FV::fin(true, n(1), -1), FV::fin(false, n(B * B - 1), -40), FV::fin(true, n(5), 60), FV::fin(false, n(B + 1), -33)];
    let mut s = St { n: ns[init].clone(), z: zs[init].clone(), q: qs[init].clone(), f: fs[init].clone(), fp: 80, fa: Ordering::Equal };
    let mut r = Im { n: nat(&s.n), z: int(&s.z), q: rat(&s.q), f: float(&s.f, 80, md) };
    c.note(|| format!("n={:?} z={:?} q={:?} f={:?}", s.n, s.z, s.q, s.f));
    for &o in ops {
        let mut txt = String::new();
        let did = match catch_unwind(AssertUnwindSafe(|| c31_op(o, &mut s, &mut r, ks, md, &mut txt))) { Err(_) => { c.note(|| txt.clone()); return Err(format!("{} panicked: {}", txt, last_panic())); } Ok(x) => { c.note(|| txt.clone()); x.map_err(|e| format!("{}: {}", txt, e))? } };
        if !did { continue; }
        c.step();
        ck!(is(&r.n, &s.n), "n after {}", txt); ck!(is_int(&r.z, &s.z), "z after {}", txt); ck!(is_rat(&r.q, &s.q), "q after {}", txt); ck!(is_float_full(&r.f, &s.f, s.fp, md, s.fa), "f after {}", txt);
        c.state(mix(mix(s.n.hash(), s.z.hash()), mix(s.q.hash(), s.f.hash())));
    }
    Ok(())
}
fn consts(i: usize) -> Consts { match i {
    0 => Consts { n: n(B - 1), w: 3, s: 33, z: Z::new(true, n(B + 7)), q: Q::i(-7, 6), f: FV::fin(false, n(3), -2), p: 40, pad: true },
    1 => Consts { n: n(B * B + 5), w: u32::MAX, s: 31, z: Z::i(6), q: Q::new(Z::pos(n(B * B)), Z::i(3)), f: FV::fin(true, n(B - 1), 20), p: 24, pad: false },
    2 => Consts { n: pattern(5, 0), w: 1, s: 64, z: Z::new(true, n(B * B - 1)), q: Q::i(1, 10), f: FV::fin(false, n(B * B - 1), -70), p: 53, pad: true },
    _ => Consts { n: n(2), w: 0x8000_0000, s: 1, z: Z::i(-1), q: Q::i(3, 1), f: FV::fin(true, n(1), 0), p: 100, pad: false },
} }
pub fn c31(t: Tier) -> Vec<Suite> {
    let d: u32 = t.pick(3, 4); let ks: Arc<Vec<Consts>> = Arc::new((0..4).map(consts).collect());
    let dm = [NOPS as u64, NOPS as u64, NOPS as u64, t.pick(1, NOPS as u64)]; let len: u64 = dm.iter().product(); let ni = t.pick(2u64, 2);
    let mut v = vec![];
    let per: Vec<u64> = vec![len, ni];
    v.push(Suite::new("chains", format!("every chain of {} operations over {} operations on a natural, an integer, a rational and a float, x {} initial values and constants", d, NOPS, ni), per.iter().product(), move |i, c| { let s = split(i, &per); let ops = split(s[0] as u64, &dm); let k = s[1]; chain([4, 2, 3, 1][k], &ops[..d as usize], &ks[k], [Mode::NearestEven, Mode::ToZero, Mode::PosInf, Mode::NegInf][k], c) }));
    // word operands and shift amounts of every magnitude after every operation
    { let mut ws: Vec<u32> = vec![]; for k in 0..32 { for d in [0u32, 1, u32::MAX] { let w = (1u32 << k).wrapping_add(d); if w != 0 { ws.push(w); } } } ws.extend([10, 100, 1_000_000_000, 0xaaaa_aaaa, 0x5555_5555]); ws.sort(); ws.dedup(); let nw = ws.len() as u64; let pre = NOPS as u64; let d = [pre, 4, nw, 5, 4];
      v.push(Suite::new("word-operands", format!("every operation on any of the registers, followed by an addition, subtraction, multiplication and division of the natural by each of {} words (around every power of two), x 5 initial values and 4 sets of constants", nw), d.iter().product(), move |i, c| { let s = split(i, &d); let mut k = consts(s[4]); k.w = ws[s[2]]; chain(s[3], &[s[0], 9 + s[1], 9 + (s[1] + s[0]) % 4], &k, Mode::NearestEven, c) })); }
    { let ns: u64 = t.pick(140, 400); let d = [NOPS as u64, 4, ns, 5, 4]; v.push(Suite::new("shift-amounts", format!("every operation, followed by two shifts of the natural or the integer by each amount below {}, x 5 initial values and 4 sets of constants", ns), d.iter().product(), move |i, c| { let s = split(i, &d); let mut k = consts(s[4]); k.s = s[2]; chain(s[3], &[s[0], [13, 14, 33, 34][s[1]], [14, 13, 34, 33][s[1]]], &k, Mode::NearestEven, c) })); }
    // longer chains inside one type
    let groups: Vec<(&'static str, Vec<usize>)> = vec![("nat", (0..19).chain([20, 21]).collect()), ("int", (22..36).chain([38, 39, 40]).collect()), ("rat-float", (44..51).chain([54, 55, 56, 57, 59, 60, 61, 62, 63]).collect())];
    for (gi, (name, g)) in groups.into_iter().enumerate() {
        let k = g.len() as u64; let dd: u32 = t.pick([4, 4, 4][gi], 5); let l = k.pow(dd); let ks: Arc<Vec<Consts>> = Arc::new((0..4).map(consts).collect()); let nc: u64 = t.pick(2, 3);
        v.push(Suite::new(&format!("chains-{}", name), format!("every chain of {} of {} operations within the type, x {} initial values and constants", dd, k, nc), l * nc, move |i, c| { let kc = (i % nc) as usize; let mut j = i / nc; let ops: Vec<usize> = (0..dd).map(|_| { let r = g[(j % k) as usize]; j /= k; r }).collect(); chain([1, 3, 0, 2][kc], &ops, &ks[[2, 1, 3, 0][kc]], [Mode::NearestAway, Mode::NearestEven, Mode::AwayZero, Mode::ToZero][kc], c) }));
    }
    v
}

fn main() {
    mc::engine::main(&[
        Prop { id: "C08", build: c08, assumptions: &[] },
        Prop { id: "C09", build: c09, assumptions: &["shallow clones of rationals and floats are only used as operands, as their documentation requires", "what a shallow clone of an integer shows after an assigning operation on its original is not specified"] },
        Prop { id: "C31", build: c31, assumptions: &["the sign of a sum of opposite zeros rounded toward negative infinity is not specified"] },
    ])
}
