//! Properties of rationals: C20-C22.
use mc::alpha::*;
use mc::engine::*;
use mc::obs::*;
use mc::refmath::*;
use mc::text::*;
use mc::{ck, want};
use rmath::bigint::{BigInt, Nat, Rat};
use std::cmp::Ordering;
use std::str::FromStr;
use std::sync::Arc;

fn pairs(name: &str, space: &str, a: Vec<Q>, b: Vec<Q>, f: impl Fn(&Q, &Q, &mut Ctx) -> Res + Send + Sync + 'static) -> Suite {
    let (a, b) = (Arc::new(a), Arc::new(b));
    let sp = format!("{} ({} x {} operands)", space, a.len(), b.len());
    Suite::new(name, sp, (a.len() * b.len()) as u64, move |i, c| { let (x, y) = sp2(i, a.len()); f(&a[x], &b[y], c) })
}
fn qdedup(v: Vec<Q>) -> Vec<Q> { let mut seen = std::collections::HashSet::new(); v.into_iter().filter(|q| seen.insert((q.n.neg, q.n.m.0.clone(), q.d.0.clone()))).collect() }
fn small_q(n: i128, d: i128) -> Vec<Q> { let mut v = vec![]; for a in -n..=n { for b in 1..=d { v.push(Q::i(a, b)); } } qdedup(v) }
fn quot(a: &[Z], b: &[N]) -> Vec<Q> { let mut v = vec![]; for x in a { for y in b { if !y.is_zero() { v.push(Q::new(x.clone(), Z::pos(y.clone()))); } } } qdedup(v) }
fn ints(lo: i128, hi: i128) -> Vec<Z> { (lo..=hi).map(Z::i).collect() }
fn qsign(x: &Q) -> isize { x.n.sign() }

// ---------------------------------------------------------------- C20
fn arith(x: &Q, y: &Q, c: &mut Ctx) -> Res {
    c.note(|| format!("{:?} , {:?}", x, y));
    let (s, d, p) = (x.add(y), x.sub(y), x.mul(y));
    c.state(mix(s.hash(), mix(d.hash(), p.hash()))); c.steps(6);
    let (a, b) = (rat(x), rat(y));
    ck!(is_rat(&a, x), "construction"); ck!(is_rat(&b, y), "construction");
    macro_rules! bin { ($op:tt, $opa:tt, $w:expr) => {{
        let (a, b) = (a.deep_clone(), b.deep_clone());
        ck!(is_rat(&(a.clone() $op b.clone()), $w), "{:?} {} {:?}", x, stringify!($op), y);
        ck!(is_rat(&a, x), "left operand of {} afterwards", stringify!($op)); ck!(is_rat(&b, y), "right operand of {} afterwards", stringify!($op));
        let mut a = a; a $opa b; ck!(is_rat(&a, $w), "{:?} {} {:?}", x, stringify!($opa), y);
    }} }
    bin!(+, +=, &s); bin!(-, -=, &d); bin!(*, *=, &p);
    if qsign(y) != 0 { let q = x.div(y); c.steps(2); c.state(q.hash()); bin!(/, /=, &q); }
    else { c.must_panic("division by zero", || a.deep_clone() / b.deep_clone())?; c.must_panic("assigning division by zero", || { let mut a = a.deep_clone(); a /= b.deep_clone(); })?; }
    c.step();
    want!(a.partial_cmp(&b) == Some(x.cmp(y)), "{:?} <=> {:?}: {:?}", x, y, a.partial_cmp(&b));
    want!((a == b) == (x == y), "{:?} == {:?}: {}", x, y, a == b);
    Ok(())
}
fn unary(x: &Q, c: &mut Ctx) -> Res {
    c.note(|| format!("unary operations of {:?}", x)); c.steps(8); c.state(x.hash());
    let a = rat(x);
    ck!(is_rat(&a, x), "construction");
    ck!(is_rat(&-a.clone(), &x.neg()), "negation"); ck!(is_rat(&a.abs(), &x.abs()), "absolute value"); ck!(is_rat(&a, x), "operand afterwards");
    match a.inv() { Ok(i) => { want!(qsign(x) != 0, "inverse of zero accepted"); ck!(is_rat(&i, &x.inv()), "inverse of {:?}", x); } Err(_) => want!(qsign(x) == 0, "inverse of {:?} refused", x) }
    ck!(is_rat(&a, x), "operand after inv");
    want!(a.signnum() == Some(qsign(x)), "signnum {:?}", a.signnum());
    want!(a.is_integer() == Some(x.d == N::one()), "is_integer {:?}", a.is_integer());
    ck!(is_rat(&a.deep_clone(), x), "deep clone");
    ck!(is_rat(&(a.clone() * a.clone()), &x.mul(x)), "square"); ck!(is_rat(&(a.clone() + a.clone()), &x.add(x)), "double"); ck!(is_rat(&(a.clone() - a.clone()), &Q::i(0, 1)), "difference with itself");
    if qsign(x) != 0 { ck!(is_rat(&(a.clone() / a.clone()), &Q::i(1, 1)), "quotient with itself"); }
    for z in [Rat::from(0u32), Rat::from_frac(0, -7).unwrap_or_else(|_| panic!("0/-7 refused")), a.deep_clone() - a.deep_clone()] { want!(z == Rat::from(0i32) && z.signnum() == Some(0), "zero is not zero"); ck!(is_rat(&z, &Q::i(0, 1)), "zero"); ck!(is_rat(&(a.clone() + z.deep_clone()), x), "plus zero"); ck!(is_rat(&(a.clone() * z), &Q::i(0, 1)), "times zero"); }
    Ok(())
}
fn frac(n: isize, d: isize, c: &mut Ctx) -> Res {
    c.note(|| format!("from_frac({}, {})", n, d)); c.steps(2);
    let r = Rat::from_frac(n, d); let r2 = Rat::from_frac_bigint(&BigInt::from(n), &BigInt::from(d));
    if d == 0 { want!(r.is_err(), "from_frac({}, 0) accepted", n); want!(r2.is_err(), "from_frac_bigint({}, 0) accepted", n); c.state(0); return Ok(()); }
    let w = Q::i(n as i128, d as i128); c.state(w.hash());
    match r { Ok(r) => ck!(is_rat(&r, &w), "from_frac({}, {})", n, d), Err(_) => return Err(format!("from_frac({}, {}) refused", n, d)) }
    match r2 { Ok(r) => ck!(is_rat(&r, &w), "from_frac_bigint({}, {})", n, d), Err(_) => return Err(format!("from_frac_bigint({}, {}) refused", n, d)) }
    Ok(())
}
fn isizes() -> Vec<isize> { let mut v: Vec<isize> = (-6..=6).collect(); for b in [8, 16, 31, 32, 33, 48, 62] { for d in -1..=1isize { v.push((1isize << b) + d); v.push(-(1isize << b) + d); } } v.extend([isize::MAX, isize::MAX - 1, isize::MIN, isize::MIN + 1, isize::MIN + 2, 6_000_000_000, -6_000_000_000]); v }
pub fn c20(t: Tier) -> Vec<Suite> {
    let k: isize = t.pick(110, 250); let m = 2 * k as u64 + 1;
    let ex = isizes(); let ne = ex.len();
    let sq = small_q(t.pick(14, 22), t.pick(14, 22));
    let lb = quot(&signed(&limb_vecs(&[0, 1, 6, 0x8000_0000, 0xffff_ffff], t.pick(2, 2))), &limb_vecs(&[0, 1, 6, 0xffff_ffff], 2));
    let lb = if t.thorough() { lb } else { lb.into_iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|x| x.1).collect() };
    let lg = if t.thorough() { quot(&signed(&patterns([1, 3, 5, 9, 20], &[0, 3, 7])), &patterns([1, 2, 4, 8, 19], &[0, 1, 2, 7])) } else { quot(&signed(&patterns([1, 3, 5], &[0, 3, 7])), &patterns([1, 4, 7], &[0, 7])) };
    let fs: Vec<Q> = { let z = ints(-4, 4); let mut v = quot(&signed(&pow2s(t.pick(130, 200), t.pick(64, 40))), &pow2s(t.pick(100, 200), t.pick(99, 40))); v.extend(quot(&z, &pow2s(140, t.pick(66, 20)))); qdedup(v) };
    let mut un = small_q(60, 60); un.extend(lb.clone()); un.extend(lg.clone()); un.extend(fs.clone()); let un = Arc::new(qdedup(un));
    vec![
        Suite::new("fractions", format!("all n, d in -{}..={}", k, k), m * m, move |i, c| { let (x, y) = sp2(i, m as usize); frac(x as isize - k, y as isize - k, c) }),
        Suite::new("extreme-fractions", format!("all pairs of {} boundary machine integers", ne), (ne * ne) as u64, move |i, c| { let (x, y) = sp2(i, ne); frac(ex[x], ex[y], c) }),
        Suite::new("from-integers", "conversion of boundary integers of every width", 1, |_, c| { macro_rules! ty { ($($t:ty),*) => {$( for v in [<$t>::MIN, <$t>::MIN + 1, 0, 1, 7, <$t>::MAX - 1, <$t>::MAX] { c.step(); c.note(|| format!("Rat::from({}{})", v, stringify!($t))); let w = Q::int(Z::i(v as i128)); if (v as i128).to_string() == v.to_string() { ck!(is_rat(&Rat::from(v), &w), "Rat::from({}{})", v, stringify!($t)); } else { let n = N::from_radix(&v.to_string(), 10).unwrap(); ck!(is_rat(&Rat::from(v), &Q::int(Z::pos(n))), "Rat::from({}{})", v, stringify!($t)); } } )*} } ty!(u8, u16, u32, usize, u64, u128, i8, i16, i32, isize, i64, i128);
            for n in patterns(1..=6, &[0, 1, 2, 7]) { c.steps(2); ck!(is_rat(&Rat::from(nat(&n)), &Q::int(Z::pos(n.clone()))), "Rat::from(Nat)"); let z = Z::new(true, n); ck!(is_rat(&Rat::from(int(&z)), &Q::int(z.clone())), "Rat::from(BigInt)"); }
            c.state(1); Ok(()) }),
        pairs("small", "all pairs of small rationals", sq.clone(), sq, arith),
        pairs("limbs", "all pairs of quotients of boundary limb vectors", lb.clone(), lb, arith),
        pairs("long", "all pairs of quotients of structured long operands", lg.clone(), lg, arith),
        pairs("powers", "all pairs of quotients around powers of two", fs.clone(), fs, arith),
        { let un = un.clone(); let mut base: Vec<Q> = un.iter().step_by(t.pick(3, 1)).cloned().collect(); for l in t.pick(vec![2usize, 3, 5, 8, 13, 21, 34, 41, 65], (2..=60).chain([64, 65, 96, 128]).collect::<Vec<_>>()) { for (a, b) in [(7, 0), (0, 7), (1, 8), (4, 1), (2, 9)] { for m in [1, l / 2, l - 1, l] { base.push(Q::new(Z::new(a == 7, pattern(l, a)), Z::pos(pattern(m.max(1), b)))); } } } let base = qdedup(base); let n = base.len() as u64; const R: u64 = 24;
          Suite::new("related", format!("{} rationals, short and long, each with {} partners related to it: equal, opposite, reciprocal, same numerator or denominator, multiples of the denominator, integers, neighbours", n, R), n * R, move |i, c| {
            let x = &base[(i / R) as usize]; let zi = |k: i128| Z::i(k); let d = Z::pos(x.d.clone()); let nn = if x.n.is_zero() { Z::i(1) } else { x.n.clone() };
            let y = match i % R { 0 => x.clone(), 1 => x.neg(), 2 => Q::new(d.clone(), nn.clone()), 3 => Q::new(d.neg(), nn.clone()), 4 => Q::new(x.n.add(&zi(1)), d.clone()), 5 => Q::new(x.n.sub(&zi(1)), d.clone()), 6 => Q::new(x.n.clone(), d.add(&zi(1))), 7 => Q::new(zi(1), d.clone()), 8 => Q::new(zi(-1), d.clone()), 9 => Q::new(zi(5), d.mul(&zi(6))), 10 => Q::new(zi(-7), d.mul(&d)), 11 => Q::int(d.clone()), 12 => Q::int(nn.clone()), 13 => Q::int(zi(0)), 14 => Q::int(zi(1)), 15 => Q::int(zi(-1)), 16 => x.add(&Q::int(zi(1))), 17 => Q::int(zi(3)).sub(x), 18 => x.mul(x), 19 => Q::new(nn.mul(&zi(4)), d.shl(5)), 20 => Q::new(zi(1), Z::i(1).shl(70)), 21 => Q::int(Z::i(1).shl(100)), 22 => Q::new(nn.mul(&d).add(&zi(1)), d.mul(&zi(3))), _ => Q::new(x.n.shl(64).add(&zi(1)), d.shl(64)) };
            arith(x, &y, c)?; arith(&y, x, c) }) },
        { let lm = t.pick(48u64, 120); Suite::new("near", format!("long quotients of every length up to {} that differ in the last place of numerator or denominator: order and difference", lm), lm * 6 * 4, move |i, c| { let s = split(i, &[lm, 6, 4]); let l = s[0] + 1; let (a, b) = [(7, 0), (0, 0), (8, 7), (0, 3), (1, 7), (2, 9)][s[1]]; let (n, d) = (Z::new(s[2] == 3, pattern(l, a)), Z::pos(pattern(if s[1] % 2 == 0 { l } else { (l + 1) / 2 }, b))); let x = Q::new(n.clone(), d.clone()); let y = match s[2] { 0 => Q::new(n.add(&Z::i(1)), d), 1 => Q::new(n, d.add(&Z::i(1))), 2 => Q::new(n.add(&Z::i(1)), d.add(&Z::i(1))), _ => Q::new(n.sub(&Z::i(1)), d) }; arith(&x, &y, c) }) },
        Suite::new("unary", format!("{} rationals", un.len()), un.len() as u64, move |i, c| unary(&un[i as usize], c)),
    ]
}

// ---------------------------------------------------------------- C21
fn from_f(x: f64, c: &mut Ctx) -> Res {
    c.note(|| format!("f64 {:e} ({:#x})", x, x.to_bits())); c.steps(2); c.state(x.to_bits());
    let r = Rat::from(x);
    if !x.is_finite() { want!(r.is_nan(), "Rat::from({}) is a number", x); return Ok(()); }
    ck!(is_rat(&r, &Q::f64(x)), "Rat::from({:e})", x);
    ck!(is_rat(&Rat::from_f64(x), &Q::f64(x)), "Rat::from_f64({:e})", x);
    let (b, e) = r.to_f64();
    want!(b == x && e, "{:e} -> rational -> {:e}, exact {}", x, b, e);
    want!(x == 0.0 || b.to_bits() == x.to_bits(), "{:e} -> rational -> {:e}", x, b);
    Ok(())
}
fn from_f32(x: f32, c: &mut Ctx) -> Res {
    c.note(|| format!("f32 {:e} ({:#x})", x, x.to_bits())); c.steps(2); c.state(mix(32, x.to_bits() as u64));
    let r = Rat::from(x);
    if !x.is_finite() { want!(r.is_nan(), "Rat::from({}) is a number", x); return Ok(()); }
    ck!(is_rat(&r, &Q::f64(x as f64)), "Rat::from({:e}f32)", x);
    let (b, e) = r.to_f32();
    want!(b == x && e, "{:e} -> rational -> {:e}, exact {}", x, b, e);
    want!(x == 0.0 || b.to_bits() == x.to_bits(), "{:e} -> rational -> {:e}", x, b);
    Ok(())
}
fn to_f(q: &Q, c: &mut Ctx) -> Res {
    c.note(|| format!("to f32 and f64: {:?}", q)); c.steps(2);
    let r = rat(q);
    let (w, a) = to_f64(q, false); let (g, e) = r.to_f64();
    want!(g.to_bits() == w.to_bits() || (g == 0.0 && w == 0.0 && qsign(q) == 0), "{:?} to f64: {:e} ({:#x}), expected {:e} ({:#x})", q, g, g.to_bits(), w, w.to_bits());
    want!(e == (a == Ordering::Equal), "{:?} to f64 = {:e}: exact flag {}", q, g, e);
    let (w3, a) = to_f32(q, false); let (g, e) = r.to_f32();
    want!(g.to_bits() == w3.to_bits() || (g == 0.0 && w3 == 0.0 && qsign(q) == 0), "{:?} to f32: {:e} ({:#x}), expected {:e} ({:#x})", q, g, g.to_bits(), w3, w3.to_bits());
    want!(e == (a == Ordering::Equal), "{:?} to f32 = {:e}: exact flag {}", q, g, e);
    c.state(mix(w.to_bits(), w3.to_bits() as u64));
    Ok(())
}
/// (m + f) * 2^e
fn scaled(neg: bool, m: &N, e: i64) -> Q { if e >= 0 { Q::int(Z::new(neg, m.shl(e as usize))) } else { Q::new(Z::new(neg, m.clone()), Z::pos(N::one().shl((-e) as usize))) } }
pub fn c21(t: Tier) -> Vec<Suite> {
    let mants: Vec<u64> = { let mut v = vec![0u64, 1, 2, 3, 0xf_ffff_ffff_ffff, 0xf_ffff_ffff_fffe, 0x8_0000_0000_0000, 0x8_0000_0000_0001, 0x5_5555_5555_5555, 0xa_aaaa_aaaa_aaaa, 0x1_2345_6789_abcd]; for b in (0..52).step_by(t.pick(9, 1)) { v.push(1 << b); v.push((1u64 << 52) - (1 << b)); } v.sort(); v.dedup(); v };
    let m32: Vec<u32> = { let mut v: Vec<u32> = vec![0, 1, 2, 3, 0x7f_ffff, 0x7f_fffe, 0x40_0000, 0x40_0001, 0x55_5555, 0x2a_aaaa, 0x12_3456]; for b in 0..23 { v.push(1 << b); v.push((1 << 23) - (1 << b)); } if t.thorough() { for h in 0..256 { for l in 0..64 { v.push(h << 15 | l); } } } v.sort(); v.dedup(); v };
    let (n64, n32) = (mants.len(), m32.len());
    // mantissas for the rounding grid: p significant bits plus 2 fraction bits plus a sticky far below
    let grid = |p: usize| -> Vec<N> { let mut v = vec![]; for hi in [N::one().shl(p - 1), N::one().shl(p - 1).add(&N::one()), N::one().shl(p).sub(&N::one()), N::one().shl(p).sub(&N::u(2)), N::one().shl(p - 1).add(&N::u(0x12_3457))] { for f in 0..8u128 { v.push(hi.shl(3).add(&N::u(f))); } } dedup(v) };
    let (g53, g24) = (grid(53), grid(24));
    let e53: Vec<i64> = { let mut v: Vec<i64> = (-1082..=-1060).chain(-1030..=-1015).chain(-60..=60).chain(1015..=1030).collect(); if t.thorough() { v = (-1090..=1035).collect(); } v };
    let e24: Vec<i64> = if t.thorough() { (-160..=140).collect() } else { (-155..=-120).chain(-30..=30).chain(120..=135).collect() };
    let den: i64 = t.pick(1100, 1100);
    let _ = den;
    let sm = small_q(t.pick(60, 140), t.pick(60, 140));
    let scs: Vec<i64> = { let mut v = vec![0i64, 1, -1, 20, -20, 53, -53, 100, -100, 120, -126, -130, -140, -148, -149, -150, -151, 127, 1000, 1018, -1010, -1022, -1030, -1060, -1072, -1074, -1075, -1076, 1023]; if t.thorough() { v.extend(-1090..1030); v.sort(); v.dedup(); } v };
    let (nsm, nsc) = (sm.len(), scs.len());
    let lg = { let mut v = quot(&signed(&patterns([1, 2, 3, 5, t.pick(9, 40)], &[0, 1, 2, 3, 7, 8])), &patterns([1, 2, 3, 4, t.pick(8, 38)], &[0, 1, 2, 3, 7, 9])); v.extend(quot(&ints(-3, 3), &pow2s(1200, 23))); v.extend(quot(&signed(&pow2s(1200, 23)), &[N::one(), N::u(3)])); v.extend(quot(&signed(&pow2s(1100, 61)), &pow2s(1100, 53))); Arc::new(qdedup(v)) };
    let mk = |name: &'static str, g: Vec<N>, es: Vec<i64>, p: i64| { let (ng, ns) = (g.len() as u64, es.len() as u64);
        // variants: exact, slightly above, slightly below (by 2^-80 and 2^-2000 relative), negative
        Suite::new(name, format!("(8m+f) * 2^e with m at mantissa boundaries of {} bits, f in 0..8, {} exponents, exact and moved up/down by a relative 2^-80 and 2^-1200, both signs", p, ns), ng * ns * 5 * 2, move |i, c| {
            let s = split(i, &[ng, ns, 5, 2]); let m = &g[s[0]]; let e = es[s[1]] - p - 2;
            let q = match s[2] { 0 => scaled(s[3] == 1, m, e), 1 => scaled(s[3] == 1, &m.shl(80).add(&N::one()), e - 80), 2 => scaled(s[3] == 1, &m.shl(80).sub(&N::one()), e - 80), 3 => scaled(s[3] == 1, &m.shl(1200).add(&N::one()), e - 1200), _ => scaled(s[3] == 1, &m.shl(1200).sub(&N::one()), e - 1200) };
            to_f(&q, c)
        }) };
    vec![
        Suite::new("f64-round-trip", format!("every biased exponent 0..2048 x {} mantissas x both signs", n64), 2048 * n64 as u64 * 2, move |i, c| { let s = split(i, &[n64 as u64, 2048, 2]); from_f(f64::from_bits(mants[s[0]] | (s[1] as u64) << 52 | (s[2] as u64) << 63), c) }),
        Suite::new("f32-round-trip", format!("every biased exponent 0..256 x {} mantissas x both signs", n32), 256 * n32 as u64 * 2, move |i, c| { let s = split(i, &[n32 as u64, 256, 2]); from_f32(f32::from_bits(m32[s[0]] | (s[1] as u32) << 23 | (s[2] as u32) << 31), c) }),
        mk("f64-rounding", g53, e53, 53),
        mk("f32-rounding", g24, e24, 24),
        Suite::new("small", format!("{} small rationals x {} scalings by powers of two", nsm, nsc), (nsm * nsc) as u64, move |i, c| { let (x, y) = sp2(i, nsm); let e = scs[y]; let q = &sm[x]; let q = if e >= 0 { Q::new(q.n.shl(e as usize), Z::pos(q.d.clone())) } else { Q::new(q.n.clone(), Z::pos(q.d.shl((-e) as usize))) }; to_f(&q, c) }),
        { let num: Vec<N> = pow2s(t.pick(80, 130), 1); let mut den: Vec<N> = (1..t.pick(40u128, 100)).map(N::u).collect(); den.extend(pow2s(t.pick(80, 130), 1)); let den: Vec<N> = dedup(den).into_iter().filter(|d| !d.is_zero()).collect(); let (a, b) = (num.len() as u64, den.len() as u64); Suite::new("powers", format!("{} numerators 2^i+d over {} denominators (small and 2^j+e)", a, b), a * b, move |i, c| { let s = split(i, &[a, b]); if num[s[0]].is_zero() { return Ok(()); } to_f(&Q::new(Z::new(s[0] % 2 == 1, num[s[0]].clone()), Z::pos(den[s[1]].clone())), c) }) },
        { let ln = lens(t.pick(60usize, 200), &[64, 100, 128, 256, 333, 500]); let lm = ln.len() as u64; Suite::new("lengths", format!("quotients with numerators and denominators of every length up to {} limbs and some up to 500, equal and unequal", t.pick(60, 200)), lm * 5 * 5, move |i, c| { let s = split(i, &[lm, 5, 5]); let l = ln[s[0]]; let (a, b) = [(7, 0), (0, 7), (1, 8), (4, 1), (3, 9)][s[1]]; let m = [1, l, (l + 1) / 2, l + 1, (l * 3 + 3) / 4][s[2]]; to_f(&Q::new(Z::new(s[1] % 2 == 1, pattern(l, a)), Z::pos(pattern(m, b))), c)?; to_f(&Q::new(Z::pos(pattern(m, b)), Z::pos(pattern(l, a))), c) }) },
        { let ks: Vec<usize> = t.pick((1..=60).chain((60..700).step_by(29)).chain((690..3400).step_by(107)).chain([4096, 5000]).collect(), (1..700).chain((701..6500).step_by(29)).chain([8192, 8193]).collect()); let n = ks.len() as u64; let es = [0i64, -1, 7, 60, 130, -60, -149, -1074]; let d = [n, 2, 4, 3, es.len() as u64]; Suite::new("far-ties", format!("ties of 24 and 53 bits and numbers above and below them by 2^-k of the last place for {} values of k up to {}, 8 scalings, signs alternating", n, ks[ks.len() - 1]), d.iter().product(), move |i, c| {
            let s = split(i, &d); let p = [24usize, 53][s[1]]; let k = ks[s[0]]; let m = [N::one().shl(p - 1), N::one().shl(p).sub(&N::one()), N::one().shl(p - 1).add(&N::u(2)), N::one().shl(p - 1).add(&N::u(1))][s[2]].shl(1).add(&N::one()).shl(k); let m = match s[3] { 0 => m, 1 => m.add(&N::one()), _ => m.sub(&N::one()) };
            to_f(&scaled(i % 2 == 1, &m, es[s[4]] - k as i64), c) }) },
        Suite::new("long", format!("{} quotients of long operands", lg.len()), lg.len() as u64, move |i, c| to_f(&lg[i as usize], c)),
    ]
}

// ---------------------------------------------------------------- C22
fn show(q: &Q, c: &mut Ctx) -> Res {
    c.note(|| format!("format {:?}", q)); c.steps(8); c.state(q.hash());
    let r = rat(q);
    let sg = if q.n.neg { "-" } else { "" };
    let chk = |got: String, radix: u32, pre: &str, up: bool| -> Res {
        let (mut a, mut b) = (q.n.m.to_radix(radix), q.d.to_radix(radix)); if up { a = a.to_uppercase(); b = b.to_uppercase(); }
        let w = format!("{}{}{}/{}{}", sg, pre, a, pre, b);
        want!(got == w || got == w.replace("0x", "0X"), "formatted as {:?}, expected {:?}", got, w);
        if !pre.is_empty() || radix == 10 { match Rat::from_str(&got) { Ok(p) => ck!(is_rat(&p, q), "parsing {:?}", got), Err(_) => return Err(format!("own output {:?} refused", got)) } }
        Ok(())
    };
    chk(format!("{}", r), 10, "", false)?; chk(format!("{:b}", r), 2, "", false)?; chk(format!("{:o}", r), 8, "", false)?; chk(format!("{:x}", r), 16, "", false)?; chk(format!("{:X}", r), 16, "", true)?;
    chk(format!("{:#b}", r), 2, "0b", false)?; chk(format!("{:#o}", r), 8, "0o", false)?; chk(format!("{:#x}", r), 16, "0x", false)?; chk(format!("{:#X}", r), 16, "0x", true)?;
    Ok(())
}
fn parse(s: &str, c: &mut Ctx) -> Res {
    c.note(|| format!("parse {:?}", s)); c.step();
    match (rat_text(s), Rat::from_str(s)) {
        (P::Ok(q), Ok(r)) => { c.state(q.hash()); ck!(is_rat(&r, &q), "Rat::from_str({:?})", s) }
        (P::Ok(q), Err(_)) => return Err(format!("Rat::from_str({:?}) is refused, expected {:?}", s, q)),
        (P::Err, Ok(r)) => return Err(format!("Rat::from_str({:?}) is accepted as {:?}, expected an error", s, see_rat(&r))),
        (P::Err, Err(_)) => c.state(1),
        (P::Any, _) => c.state(2),
    }
    Ok(())
}
/// exact decimal expansions of points halfway between neighbouring doubles, and of some doubles themselves
fn tie_texts() -> Vec<String> {
    let mut v = vec![];
    for (m, e) in [((1u64 << 53) + 1, -53i32), ((1 << 53) + 3, -53), ((1 << 54) - 1, -54), ((1 << 53) + 1, -60), ((1 << 53) + 1, -120), ((1 << 53) + 1, -400), ((1 << 54) - 1, -700), ((1 << 53) + 1, 3), ((1 << 53) + 1, 0), (1, -1), (3, -2), (1, -1074), (3, -1075), (1, -1075), ((1 << 53) + 3, -1074)] {
        // m * 2^e = m * 5^-e / 10^-e
        if e >= 0 { v.push(format!("{}.", N::u(m as u128).shl(e as usize).to_radix(10))); continue; }
        let k = -e as usize; let d = N::u(m as u128).mul(&N::u(5).pow(k)).to_radix(10); let d = if d.len() <= k { format!("{}{}", "0".repeat(k + 1 - d.len()), d) } else { d };
        v.push(format!("{}.{}", &d[..d.len() - k], &d[d.len() - k..]));
    }
    v
}
pub fn c22(t: Tier) -> Vec<Suite> {
    let mut qs = small_q(t.pick(100, 160), t.pick(100, 160)); qs.extend(quot(&signed(&limb_vecs(&LIMBS4, 2)), &limb_vecs(&[0, 1, 6, 0xffff_ffff], 2))); qs.extend(quot(&signed(&patterns([1, 3, 5, 10], &[0, 1, 7])), &patterns([1, 2, 4, 8], &[0, 2, 7])));
    let qs = Arc::new(qdedup(qs));
    let (n1, f1) = strings(&['0', '1', '2', '/', '-', '+', '.', 'x', 'b', 'e', ' '], t.pick(5, 6));
    let (n2, f2) = strings(&['0', '1', '7', '/', '-', '.', 'e'], t.pick(6, 7));
    let nums: Vec<&'static str> = vec!["0", "1", "2", "3", "6", "12", "255", "4294967296", "18446744073709551616", "340282366920938463463374607431768211456", "0x0", "0x1", "0xff", "0XFFFFFFFFFFFFFFFFF", "0xDeadBeef00000000", "0b0", "0b110", "0B1010", "0o17", "0o777777777777777777777777", "", "x", "0x", "0b2", "0o8", "1a", "0xg", "1 2", "1_0", "é", "−1", "1/2"];
    let sg: [&'static str; 3] = ["", "-", "+"]; let ws: Vec<&'static str> = vec!["", " ", "\t", "\n "];
    let dims = [nums.len() as u64 + 1, nums.len() as u64, 3, 3, 4];
    let ip: Vec<&'static str> = vec!["", "0", "1", "9", "12", "00", "007", "123456789", "4503599627370497", "9007199254740993", "98765432109876543210987654321", "179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123347764797926204144723168738177180919299881250404026184124858368"];
    let fp: Vec<&'static str> = vec!["", "0", "5", "25", "1", "125", "000", "999999999999999999999", "0000000000000000000000001", "50000000000000001"];
    let ep: Vec<&'static str> = vec!["", "e0", "e1", "E-1", "e+5", "e-20", "e22", "e23", "e-300", "e-308", "e-320", "e-330", "e", "e+", "ee", "e1.5", "x"];
    let d3 = [ip.len() as u64, fp.len() as u64, ep.len() as u64, 3];
    vec![
        Suite::new("format", format!("{} rationals in every radix, and parsing back", qs.len()), qs.len() as u64, move |i, c| show(&qs[i as usize], c)),
        { let ln = lens(t.pick(120usize, 300), &[256, 400, 1000, 1500]); let lm = ln.len() as u64; Suite::new("long-texts", format!("fractions whose numerator and denominator have every digit count up to {} and some up to 1500, 4 radices, 5 digit patterns, printed and parsed back", t.pick(120, 300)), lm * 4 * 5, move |i, c| { let s = split(i, &[lm, 4, 5]); let l = ln[s[0]]; let r = [10u32, 16, 8, 2][s[1]];
            let dg = |l: usize, k: usize| -> String { (0..l).map(|j| std::char::from_digit(match k { 0 => r - 1, 1 => (j == 0) as u32, 2 => (j == 0 || j + 1 == l) as u32, 3 => if j == 0 { 1 } else { (j * 7 + 3) as u32 % r }, _ => if j < l / 2 + 1 { r - 1 } else { 0 } }, r).unwrap()).collect() };
            let (n, d) = (dg(l, s[2]), dg((l * 2 / 3).max(1), (s[2] + 2) % 5)); let pre = ["", "0x", "0o", "0b"][s[1]]; let q = Q::new(Z::new(true, N::from_radix(&n, r).unwrap()), Z::pos(N::from_radix(&d, r).unwrap()));
            let txt = format!("-{}{}/{}{}", pre, n, pre, d); c.note(|| format!("parse {:?}", txt)); c.step(); match Rat::from_str(&txt) { Ok(p) => ck!(is_rat(&p, &q), "parsing {:?}", txt), Err(_) => return Err(format!("{:?} refused", txt)) } show(&q, c) }) },
        Suite::new("strings", format!("every string of length <= {} over 11 characters", t.pick(5, 6)), n1, move |i, c| parse(&f1(i), c)),
        Suite::new("strings7", format!("every string of length <= {} over 7 characters", t.pick(6, 7)), n2, move |i, c| parse(&f2(i), c)),
        Suite::new("fractions", "all combinations of 32 numerator and denominator texts, signs and surrounding blanks", dims.iter().product(), move |i, c| { let s = split(i, &dims); let txt = if s[0] == nums.len() { format!("{}{}{}{}", ws[s[4]], sg[s[2]], nums[s[1]], ws[s[4]]) } else { format!("{}{}{}/{}{}{}", ws[s[4]], sg[s[2]], nums[s[0]], sg[s[3]], nums[s[1]], ws[s[4]]) }; parse(&txt, c) }),
        Suite::new("decimals", "all combinations of integer part, fraction, exponent and sign texts", d3.iter().product(), move |i, c| { let s = split(i, &d3); parse(&format!("{}{}.{}{}", sg[s[3]], ip[s[0]], fp[s[1]], ep[s[2]]), c) }),
        { let lz: Vec<usize> = t.pick((0..40).chain((40..1300).step_by(37)).chain(690..780).chain([2000, 5000]).collect(), (0..1400).chain([2000, 3000, 5000, 10000]).collect()); let n = lz.len() as u64; let ts = Arc::new(tie_texts()); let k = ts.len() as u64; Suite::new("long-decimals", format!("{} decimal expansions of values halfway between two doubles, {} lengths of padding up to {}, followed by nothing, 0, 1 or 9, both signs", k, n, lz[lz.len() - 1]), n * k * 4 * 2, move |i, c| { let s = split(i, &[n, k, 4, 2]); let txt = format!("{}{}{}{}", ["", "-"][s[3]], ts[s[1]], "0".repeat(lz[s[0]]), ["", "0", "1", "9"][s[2]]); parse(&txt, c) }) },
    ]
}

fn main() {
    let _ = |x: u32| Nat::from(x);
    mc::engine::main(&[
        Prop { id: "C20", build: c20, assumptions: &[] },
        Prop { id: "C21", build: c21, assumptions: &["the sign of a zero result is not compared (a rational has no negative zero)"] },
        Prop { id: "C22", build: c22, assumptions: &["texts with several signs, blanks after the sign or superfluous decimal zeros, and decimal literals beyond the f64 range are not specified", "the standard library's f64 parser is correctly rounded"] },
    ])
}
