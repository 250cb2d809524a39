//! Properties of integers: C15-C19.
use mc::alpha::*;
use mc::engine::*;
use mc::obs::*;
use mc::refmath::*;
use mc::{ck, want};
use rmath::bigint::BigInt;
use std::sync::Arc;

fn pairs(name: &str, space: &str, a: Vec<Z>, b: Vec<Z>, f: impl Fn(&Z, &Z, &mut Ctx) -> Res + Send + Sync + 'static) -> Suite {
    let (a, b) = (Arc::new(a), Arc::new(b));
    let sp = format!("{} ({} x {} operands)", space, a.len(), b.len());
    Suite::new(name, sp, (a.len() * b.len()) as u64, move |i, c| { let (x, y) = sp2(i, a.len()); f(&a[x], &b[y], c) })
}
/// long operands of every length against partners of characteristic lengths, and operands that differ in one limb, in all sign combinations
fn longs(lo: usize, hi: usize, near: usize, far: &[usize], f: fn(&Z, &Z, &mut Ctx) -> Res) -> Vec<Suite> {
    let far: Vec<usize> = far.iter().cloned().filter(|l| *l > hi).collect(); let fv: Vec<_> = far.iter().flat_map(|&l| ladder(l, l, &[(7, 7), (0, 3), (8, 7), (1, 9)])).collect(); let nf = fv.len() as u64;
    let fname = format!("operands of {:?} words against lengths 1, 2, 3, half, one less, equal and one more, 4 pattern pairs, all signs, both orders", far);
    let v = ladder(lo, hi, &[(0, 0), (7, 7), (0, 3), (1, 0), (5, 6), (8, 4), (2, 9)]); let n = v.len() as u64;
    let w = near_idx(1..=near, &[0, 1, 7, 8], 3); let m = w.len() as u64;
    let run = move |x: N, y: N, s: u64, c: &mut Ctx| { let (x, y) = (Z::new(s & 1 == 1, x), Z::new(s & 2 == 2, y)); if s & 4 == 0 { f(&x, &y, c) } else { f(&y, &x, c) } };
    vec![Suite::new("ladder", format!("every length {}..={} against lengths 1, 2, 3, half, one less, equal and one more, 7 pattern pairs, all signs, both orders", lo, hi), n * 8, move |i, c| { let (l, a, m, b) = v[(i / 8) as usize]; run(pattern(l, a), pattern(m, b), i % 8, c) }),
        Suite::new("near", format!("two operands of every length up to {} that differ in one limb, at every boundary and every third position, 4 fillings, all signs, both orders", near), m * 8, move |i, c| { let (x, y) = near_pair(w[(i / 8) as usize]); run(x, y, i % 8, c) }),
        Suite::new("far-lengths", fname, nf * 8, move |i, c| { let (l, a, m, b) = fv[(i / 8) as usize]; run(pattern(l, a), pattern(m, b), i % 8, c) })]
}
fn ints(lo: i128, hi: i128) -> Vec<Z> { (lo..=hi).map(Z::i).collect() }
const ALL: [usize; NPAT] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];

// ---------------------------------------------------------------- C15
fn arith(x: &Z, y: &Z, c: &mut Ctx) -> Res {
    c.note(|| format!("{:?} , {:?}", x, y));
    let (s, d, p) = (x.add(y), x.sub(y), x.mul(y));
    c.state(mix(s.hash(), mix(d.hash(), p.hash()))); c.steps(6);
    macro_rules! bin { ($op:tt, $opa:tt, $w:expr) => {{
        let (a, b) = (int(x), int(y));
        let r = a.clone() $op b.clone(); ck!(is_int(&r, $w), "{:?} {} {:?}", x, stringify!($op), y);
        ck!(is_int(&a, x), "left operand of {:?} {} {:?} afterwards", x, stringify!($op), y); ck!(is_int(&b, y), "right operand of {:?} {} {:?} afterwards", x, stringify!($op), y);
        let mut a = int(x); a $opa int(y); ck!(is_int(&a, $w), "{:?} {} {:?}", x, stringify!($opa), y);
    }} }
    bin!(+, +=, &s); bin!(-, -=, &d); bin!(*, *=, &p);
    if !y.is_zero() {
        let (q, r) = x.divrem(y); let (eq, er) = x.euclid(y);
        c.state(mix(q.hash(), r.hash())); c.steps(8);
        bin!(/, /=, &q); bin!(%, %=, &r);
        ck!(is_int(&int(x).div_euclid(int(y)), &eq), "{:?}.div_euclid({:?})", x, y);
        ck!(is_int(&int(x).rem_euclid(int(y)), &er), "{:?}.rem_euclid({:?})", x, y);
        let mut a = int(x); a.div_euclid_assign(int(y)); ck!(is_int(&a, &eq), "{:?}.div_euclid_assign({:?})", x, y);
        let mut a = int(x); a.rem_euclid_assign(int(y)); ck!(is_int(&a, &er), "{:?}.rem_euclid_assign({:?})", x, y);
    }
    // ordering
    c.step();
    let (a, b) = (int(x), int(y));
    want!(a.partial_cmp(&b) == Some(x.cmp(y)), "{:?} <=> {:?}: {:?}", x, y, a.partial_cmp(&b));
    want!((a == b) == (x == y), "{:?} == {:?}: {}", x, y, a == b);
    Ok(())
}
fn unary(x: &Z, c: &mut Ctx) -> Res {
    c.note(|| format!("unary operations of {:?}", x));
    c.state(x.hash()); c.steps(8);
    ck!(is_int(&-int(x), &x.neg()), "-({:?})", x);
    ck!(is_int(&int(x).abs(), &x.abs()), "|{:?}|", x);
    ck!(is_int(&int(x).sqr(), &x.mul(x)), "({:?}).sqr()", x);
    let a = int(x); ck!(is_int(&(a.clone() * a.clone()), &x.mul(x)), "{:?} squared by multiplication with itself", x);
    let a = int(x);
    want!(a.signnum() == Some(x.sign()), "signnum of {:?} is {:?}", x, a.signnum());
    want!(a.is_negative() == (x.sign() < 0) && a.is_positive() == (x.sign() > 0) && a.is_natural() == (x.sign() >= 0) && !a.is_nan(), "sign queries of {:?}: {} {} {}", x, a.is_negative(), a.is_positive(), a.is_natural());
    want!(a.bits_len() == x.m.bits().max(1), "bits_len of {:?} is {}", x, a.bits_len());
    let mut b = int(x); b.set_natural(); ck!(is_int(&b, &x.abs()), "set_natural of {:?}", x);
    let mut b = int(x); b.set_negative(); ck!(is_int(&b, &x.abs().neg()), "set_negative of {:?}", x);
    ck!(is_int(&a.deep_clone(), x), "deep clone of {:?}", x);
    for z in [BigInt::from(0), BigInt::from(5) - BigInt::from(5)] {
        let z2 = z.deep_clone();
        c.must_panic("division by zero", || int(x) / z2.deep_clone())?; c.must_panic("remainder by zero", || int(x) % z2.deep_clone())?;
        c.must_panic("euclidean division by zero", || int(x).div_euclid(z2.deep_clone()))?; c.must_panic("euclidean remainder by zero", || int(x).rem_euclid(z2.deep_clone()))?;
        c.must_panic("assigning division by zero", || { let mut a = int(x); a /= z2.deep_clone(); })?; c.must_panic("assigning remainder by zero", || { let mut a = int(x); a %= z2.deep_clone(); })?;
    }
    Ok(())
}
pub fn c15(t: Tier) -> Vec<Suite> {
    let base = { let mut b = limb_vecs(&LIMBS, t.pick(3, 3)); b.extend(limb_vecs(&LIMBS4, t.pick(4, 5))); b.extend(small(12)); dedup(b) };
    let sb = signed(&base);
    let long = signed(&patterns(t.pick((1..=20).chain(30..=36).chain([63, 64, 65]).collect::<Vec<_>>(), (1..=40).chain([63, 64, 65, 80, 81]).collect::<Vec<_>>()), &ALL));
    let mut u = sb.clone(); u.extend(long.clone()); u.extend(ints(-200, 200)); u.extend(signed(&pow2s(t.pick(500, 1000), 1)));
    let u = Arc::new(u);
    let mut v = vec![
        pairs("small", "all pairs of small integers", ints(-t.pick(400, 700), t.pick(400, 700)), ints(-t.pick(400, 700), t.pick(400, 700)), arith),
        pairs("limbs", "all signed pairs of limb vectors over boundary limbs (6 limbs up to length 2, 4 limbs up to length 3; thorough one more)", sb.clone(), sb, arith),
        pairs("long", "all signed pairs of structured long operands", long.clone(), long, arith),
        { let u = u.clone(); Suite::new("unary", format!("{} integers of both signs", u.len()), u.len() as u64, move |i, c| unary(&u[i as usize], c)) },
    ];
    v.extend(longs(20, t.pick(110, 300), t.pick(40, 90), t.pick(&[127, 128, 129, 192, 255, 256, 257][..], &[320, 400, 511, 512, 513, 640]), arith));
    v
}

// ---------------------------------------------------------------- C16
fn bits2(x: &Z, y: &Z, c: &mut Ctx) -> Res {
    c.note(|| format!("bitwise {:?} , {:?}", x, y));
    let (a, o, e, n) = (x.bitop(y, |p, q| p & q), x.bitop(y, |p, q| p | q), x.bitop(y, |p, q| p ^ q), x.bitop(y, |p, q| p & !q));
    c.state(mix(a.hash(), mix(o.hash(), mix(e.hash(), n.hash())))); c.steps(8);
    macro_rules! bin { ($op:tt, $opa:tt, $w:expr) => {{
        let (p, q) = (int(x), int(y));
        ck!(is_int(&(p.clone() $op q.clone()), $w), "{:?} {} {:?}", x, stringify!($op), y);
        ck!(is_int(&p, x), "left operand of {} afterwards", stringify!($op)); ck!(is_int(&q, y), "right operand of {} afterwards", stringify!($op));
        let mut p = int(x); p $opa int(y); ck!(is_int(&p, $w), "{:?} {} {:?}", x, stringify!($opa), y);
    }} }
    bin!(&, &=, &a); bin!(|, |=, &o); bin!(^, ^=, &e);
    ck!(is_int(&int(x).and_not(int(y)), &n), "{:?}.and_not({:?})", x, y);
    let mut p = int(x); p.and_not_assign(int(y)); ck!(is_int(&p, &n), "{:?}.and_not_assign({:?})", x, y);
    Ok(())
}
fn shifts(x: &Z, s: usize, c: &mut Ctx) -> Res {
    c.note(|| format!("shift {:?} by {}", x, s));
    let (l, r) = (x.shl(s), x.shr(s));
    c.state(mix(l.hash(), r.hash())); c.steps(4);
    ck!(is_int(&(int(x) << s), &l), "{:?} << {}", x, s); ck!(is_int(&(int(x) >> s), &r), "{:?} >> {}", x, s);
    let mut a = int(x); a <<= s; ck!(is_int(&a, &l), "{:?} <<= {}", x, s); let mut a = int(x); a >>= s; ck!(is_int(&a, &r), "{:?} >>= {}", x, s);
    Ok(())
}
fn bitq(x: &Z, c: &mut Ctx) -> Res {
    c.note(|| format!("complement and bit queries of {:?}", x));
    let a = int(x); let n = x.m.bits().max(1);
    ck!(is_int(&!a.clone(), &x.neg().sub(&Z::i(1))), "!{:?}", x);
    want!(a.bits_len() == n, "bits_len of {:?}: {}", x, a.bits_len());
    for i in (0..n + 3).chain([n + 31, n + 32, n + 33, n + 64]) {
        c.step();
        let want = if i < n { Some(x.bit(i)) } else { None };
        want!(a.is_set_bit(i) == want, "bit {} of {:?}: {:?}", i, x, a.is_set_bit(i));
    }
    ck!(is_int(&a, x), "operand after queries");
    c.state(x.hash()); Ok(())
}
pub fn c16(t: Tier) -> Vec<Suite> {
    let base = { let mut b = limb_vecs(&LIMBS, t.pick(3, 3)); b.extend(limb_vecs(&LIMBS4, t.pick(4, 5))); b.extend(small(8)); dedup(b) };
    let sb = signed(&base);
    let long = signed(&patterns(t.pick((1..=24).collect::<Vec<_>>(), (1..=32).collect::<Vec<_>>()), &ALL));
    let mut u = sb.clone(); u.extend(long.clone()); u.extend(ints(-300, 300)); u.extend(signed(&pow2s(t.pick(500, 1000), 1)));
    let u = Arc::new(u);
    let sh: Vec<usize> = t.pick((0..=400).collect(), (0..=700).collect());
    let su: Arc<Vec<Z>> = { let mut v = sb.clone(); v.extend(long.clone()); v.extend(signed(&pow2s(130, 1))); Arc::new(v) };
    let ns = sh.len();
    let mut v = vec![
        pairs("small", "all pairs of small integers", ints(-t.pick(400, 700), t.pick(400, 700)), ints(-t.pick(400, 700), t.pick(400, 700)), bits2),
        pairs("limbs", "all signed pairs of limb vectors over boundary limbs", sb.clone(), sb, bits2),
        pairs("long", "all signed pairs of structured long operands", long.clone(), long, bits2),
        { let p = signed(&pow2s(t.pick(200, 300), 1)); pairs("powers", "all signed pairs of 2^i + d, d in -2..2", p.clone(), p, bits2) },
        { let su = su.clone(); Suite::new("shifts", format!("{} signed integers x {} shift counts up to {}", su.len(), ns, sh[ns - 1]), (su.len() * ns) as u64, move |i, c| { let (x, s) = sp2(i, su.len()); shifts(&su[x], sh[s], c) }) },
        { let u = u.clone(); Suite::new("queries", format!("{} signed integers, complement and every bit index", u.len()), u.len() as u64, move |i, c| bitq(&u[i as usize], c)) },
    ];
    v.extend(longs(20, t.pick(110, 300), t.pick(50, 120), &[127, 128, 129, 160, 192, 255, 256, 257, 320, 400, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 2048, 4096], bits2));
    { let b: Vec<Z> = [N::one(), N::u(5), N::new(vec![0, 0, 1, u32::MAX])].iter().flat_map(|n| [false, true].iter().map(move |&s| Z::new(s, n.clone()))).collect(); let ss = million(t); let d = [ss.len() as u64, 6]; v.push(Suite::new("million", format!("6 integers shifted left by {} distances from 2^16 to 1.5 * 2^{}, and back", ss.len(), t.pick(22, 25)), d.iter().product(), move |i, c| { let s = split(i, &d); million_shift(&b[s[1]], ss[s[0]], c) })); }
    { let b: Vec<Z> = limb_vecs(&LIMBS, 3).iter().filter(|n| !n.is_zero()).flat_map(|n| [false, true].iter().map(move |&s| Z::new(s, n.clone()))).collect(); let ss = beyond(); let d = [b.len() as u64, ss.len() as u64]; v.push(Suite::new("beyond", format!("right shifts and bit queries at {} positions from 2^20 to the largest", ss.len()), d.iter().product(), move |i, c| { let s = split(i, &d); shift_beyond(&b[s[0]], ss[s[1]], c) })); }
    { let ks = far_lens(t); let d = [ks.len() as u64, 8, 3, 2]; v.push(Suite::new("far", format!("+-(2^k + 2^j + r) for k in {:?}, 8 positions j, 3 tails r: bits around j, k and every power of two, complement, shifts that reach beyond bit 65536", ks), d.iter().product(), move |i, c| { let s = split(i, &d); far(&Z::new(s[3] == 1, far_val(ks[s[0]], s[1], s[2])), c) })); }
    v
}
fn million_shift(x: &Z, s: usize, c: &mut Ctx) -> Res {
    c.note(|| format!("{:?} shifted by {}", x, s)); c.steps(6); c.state(mix(x.hash(), s as u64));
    let chk = |g: &BigInt, w: &Z| see_int(g).map_or(false, |g| g == *w);
    let l = x.shl(s); let a = int(x) << s; want!(chk(&a, &l), "<< {}", s);
    want!(a.bits_len() == x.m.bits() + s, "<< {}: {} bits", s, a.bits_len());
    let mut b = int(x); b <<= s; want!(chk(&b, &l), "<<= {}", s);
    for i in [0, s / 2, s - 1, s, s + 1, s + x.m.bits() - 1] { if i >= s + x.m.bits() { continue; } want!(a.is_set_bit(i) == Some(l.bit(i)), "<< {}: bit {}", s, i); }
    want!(chk(&(a.clone() >> s), x), "<< {} >> {}", s, s);
    let r = x.shl(1).sub(&Z::i(1)); let mut b = a.clone() - BigInt::from(1u32); b >>= s - 1; want!(chk(&b, &r), "(<< {} - 1) >>= {}", s, s - 1);
    Ok(())
}
fn shift_beyond(x: &Z, s: usize, c: &mut Ctx) -> Res {
    c.note(|| format!("{:?} shifted right by {}", x, s)); c.steps(3); c.state(mix(x.hash(), s as u64));
    let w = if x.neg { Z::i(-1) } else { Z::i(0) };
    ck!(is_int(&(int(x) >> s), &w), "{:?} >> {}", x, s);
    let mut a = int(x); a >>= s; ck!(is_int(&a, &w), "{:?} >>= {}", x, s);
    want!(int(x).is_set_bit(s).is_none(), "bit {} of {:?}", s, x);
    Ok(())
}
fn far(x: &Z, c: &mut Ctx) -> Res {
    let n = x.m.bits(); let low = x.m.tz(); c.note(|| format!("{}, {} bits, lowest set bit {}", if x.neg { "negative" } else { "positive" }, n, low)); c.state(x.hash());
    let a = int(x);
    want!(a.bits_len() == n, "bits_len {}", a.bits_len());
    let mut at: Vec<usize> = (12..18).map(|e| 1usize << e).chain([0, low, n, n / 2]).flat_map(|p| p.saturating_sub(3)..p + 4).collect(); at.sort(); at.dedup();
    for i in at { c.step(); let w = if i < n { Some(x.bit(i)) } else { None }; let g = a.is_set_bit(i); want!(g == w, "bit {}: {:?}, expected {:?}", i, g, w); }
    if is_int(&!a.clone(), &x.neg().sub(&Z::i(1))).is_err() { return Err("complement".into()); }
    for s in [1usize, 33, 4096, 65535, 65536, 65537, n - 1, n, n + 1, low, low + 1] { c.steps(4);
        let (l, r) = (x.shl(s), x.shr(s)); let chk = |g: &BigInt, w: &Z| see_int(g).map_or(false, |g| g == *w);
        want!(chk(&(int(x) << s), &l), "<< {}", s); want!(chk(&(int(x) >> s), &r), ">> {}", s);
        let mut a = int(x); a <<= s; want!(chk(&a, &l), "<<= {}", s); let mut a = int(x); a >>= s; want!(chk(&a, &r), ">>= {}", s);
    }
    Ok(())
}

// ---------------------------------------------------------------- C17
fn gcds(x: &Z, y: &Z, c: &mut Ctx) -> Res {
    c.note(|| format!("gcd and inverse {:?} , {:?}", x, y));
    let (a, b) = (int(x), int(y));
    let (d, u, v) = a.gcd(b.clone());
    let g = Z::pos(x.m.gcd(&y.m));
    c.state(mix(x.hash(), mix(y.hash(), g.hash()))); c.steps(2);
    ck!(is_int(&d, &g), "gcd({:?}, {:?})", x, y);
    let (u, v) = (see_int(&u).map_err(|e| format!("first Bezout coefficient: {}", e))?, see_int(&v).map_err(|e| format!("second Bezout coefficient: {}", e))?);
    want!(x.mul(&u).add(&y.mul(&v)) == g, "gcd({:?}, {:?}): {:?}*{:?} + {:?}*{:?} is not {:?}", x, y, x, u, y, v, g);
    if g == Z::i(1) && y.m > N::one() {
        c.step();
        let i = see_int(&a.mod_inverse(b.clone())).map_err(|e| format!("{:?}.mod_inverse({:?}): {}", x, y, e))?;
        want!(!i.neg && i.m < y.m, "{:?}.mod_inverse({:?}) = {:?} is out of range", x, y, i);
        want!(x.mul(&i).sub(&Z::i(1)).m.rem(&y.m).is_zero(), "{:?}.mod_inverse({:?}) = {:?} is not an inverse", x, y, i);
    }
    ck!(is_int(&a, x), "left operand afterwards"); ck!(is_int(&b, y), "right operand afterwards");
    Ok(())
}
fn congr(a: &Z, b: &Z, n: &Z, c: &mut Ctx) -> Res {
    c.note(|| format!("{:?} * x = {:?} (mod {:?})", a, b, n)); c.step();
    let r = int(a).solve_mod_linear_equation(int(b), int(n));
    let m = &n.m; let g = a.m.gcd(m);
    if !b.m.rem(&g).is_zero() { want!(r.is_none(), "{:?} x = {:?} mod {:?}: has no solution but {:?} were returned", a, b, n, r.map(|v| v.len())); c.state(0); return Ok(()); }
    let v = match r { Some(v) => v, None => return Err(format!("{:?} x = {:?} mod {:?}: solvable but nothing returned", a, b, n)) };
    let mut s = vec![];
    for x in &v { let x = see_int(x)?; want!(!x.neg && x.m < *m, "{:?} x = {:?} mod {:?}: solution {:?} out of range", a, b, n, x); want!(a.mul(&x).sub(b).m.rem(m).is_zero(), "{:?} x = {:?} mod {:?}: {:?} is no solution", a, b, n, x); s.push(x.m); }
    let k = s.len(); s.sort(); s.dedup();
    want!(s.len() == k, "{:?} x = {:?} mod {:?}: repeated solutions", a, b, n);
    want!(N::u(k as u128) == g, "{:?} x = {:?} mod {:?}: {} solutions instead of {:?}", a, b, n, k, g);
    c.state(mix(k as u64, s.first().map_or(0, |x| x.hash()))); Ok(())
}
fn fibs(n: usize) -> Vec<N> { let mut v = vec![N::one(), N::u(2)]; while v.len() < n { let k = v.len(); let s = v[k - 1].add(&v[k - 2]); v.push(s); } v }
pub fn c17(t: Tier) -> Vec<Suite> {
    let base = { let mut b = limb_vecs(&LIMBS, 2); b.extend(limb_vecs(&LIMBS4, t.pick(4, 4))); b.extend(small(8)); dedup(b) };
    let sb = signed(&base);
    let long = signed(&patterns(t.pick((1..=12).collect::<Vec<_>>(), (1..=20).collect::<Vec<_>>()), &[0, 1, 3, 4, 7, 8, 9]));
    let fb = signed(&fibs(t.pick(300, 500)).into_iter().skip(40).collect::<Vec<_>>());
    let k: i128 = t.pick(24, 40); let nn: i128 = t.pick(48, 80);
    let d = [2 * k as u64 + 1, 2 * k as u64 + 1, 2 * nn as u64];
    let big: Arc<Vec<Z>> = Arc::new({ let mut v = ints(-3, 6); v.extend(signed(&limb_vecs(&[0, 1, 6, 0xffff_ffff], t.pick(2, 3)))); v.extend(signed(&[N::u(1 << 40), N::u(3 << 50), N::one().shl(96), N::u(210).shl(64)])); v.retain(|x| !x.is_zero()); let mut h = vec![]; v.retain(|x| if h.contains(x) { false } else { h.push(x.clone()); true }); v });
    let nb = big.len() as u64;
    let mut v = vec![
        pairs("small", "all pairs of small integers", ints(-t.pick(350, 800), t.pick(350, 800)), ints(-t.pick(350, 800), t.pick(350, 800)), gcds),
        pairs("limbs", "all signed pairs of limb vectors over boundary limbs", sb.clone(), sb, gcds),
        pairs("long", "all signed pairs of structured long operands", long.clone(), long, gcds),
        pairs("fibonacci", "all signed pairs of large Fibonacci numbers (longest Euclid runs)", fb.clone(), fb, gcds),
        Suite::new("congruences", format!("a, b in -{}..={}, n in -{}..={} without 0", k, k, nn, nn), d.iter().product(), move |i, c| { let s = split(i, &d); let mut n = s[2] as i128 - nn; if n >= 0 { n += 1; } congr(&Z::i(s[0] as i128 - k), &Z::i(s[1] as i128 - k), &Z::i(n), c) }),
        Suite::new("congruences-limbs", format!("all triples of {} signed multi-limb values whose gcd(a,n) is at most 300", nb), nb * nb * nb, move |i, c| { let s = split(i, &[nb, nb, nb]); let (a, b, n) = (&big[s[0]], &big[s[1]], &big[s[2]]); if a.m.gcd(&n.m) > N::u(300) { return Ok(()); } congr(a, b, n, c) }),
    ];
    v.extend(longs(8, t.pick(22, 44), t.pick(8, 16), t.pick(&[30, 31, 32, 33, 40, 48, 63, 64, 65, 80, 96, 128][..], &[63, 64, 65, 80, 96, 100, 127, 128, 129, 160, 192, 256]), gcds));
    // a large common factor: powers of two around every word boundary and beyond, long odd factors, both together
    { let mut gs: Vec<N> = vec![]; for k in [1usize, 7, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 160, 191, 192, 224, 254, 255, 256, 257, 288, 320, 384, 500, 511, 512, 513, 640, 1000, 1023, 1024, 1025] { gs.push(N::one().shl(k)); } for l in 1..=t.pick(24, 40) { for p in [0, 7] { gs.push(pattern(l, p)); if l % 3 == 0 { gs.push(pattern(l, p).shl(40 * l)); } } }
      let ls = t.pick(vec![1usize, 2, 5, 12, 24, 30, 40], vec![1, 2, 3, 5, 8, 12, 17, 24, 30, 33, 40, 65]); let nl = ls.len() as u64; let gs = Arc::new(gs); let d = [gs.len() as u64, nl, nl, 3];
      v.push(Suite::new("common", format!("operands of {:?} words times a common factor: {} factors (powers of two up to 2^1025, long factors, both), 3 pattern pairs, signs in turn", ls, gs.len()), d.iter().product(), move |i, c| { let s = split(i, &d); let g = &gs[s[0]]; let (x, y) = (pattern(ls[s[1]], [7, 0, 3][s[3]]).mul(g), pattern(ls[s[2]], [4, 7, 9][s[3]]).mul(g)); let k = s.iter().sum::<usize>(); gcds(&Z::new(k & 1 == 1, x), &Z::new(k & 2 == 2, y), c) })); }
    // one step of Euclid's algorithm per index: on the stack of an ordinary thread
    let idx = t.pick(vec![1000u64, 3000, 6000, 12000, 18000, 24000], vec![1000, 3000, 6000, 12000, 18000, 24000, 36000, 48000, 64000]); let ni = idx.len() as u64;
    v.push(Suite::new("deep", format!("neighbouring Fibonacci numbers with indices {:?}, both orders, all signs, on a thread with the default stack", idx), ni * 8, move |i, c| {
        let s = split(i, &[ni, 8]); let (mut a, mut b) = (N::one(), N::u(2)); for _ in 0..idx[s[0]] { let t = a.add(&b); a = b; b = t; }
        c.note(|| format!("gcd of the Fibonacci numbers {} and the next, signs and order {}", idx[s[0]], s[1])); c.step(); c.state(i);
        let (x, y) = if s[1] & 4 == 0 { (a, b) } else { (b, a) }; let (x, y) = (Z::new(s[1] & 1 == 1, x), Z::new(s[1] & 2 == 2, y)); let (p, q) = (x.clone(), y.clone());
        let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || { let (d, u, v) = int(&p).gcd(int(&q)); (see_int(&d), see_int(&u), see_int(&v)) }).unwrap().join();
        let (d, u, v) = match r { Ok((d, u, v)) => (d?, u?, v?), Err(_) => return Err("gcd of long operands panicked".into()) };
        want!(d == Z::i(1), "gcd of neighbouring Fibonacci numbers is {:?}", d); want!(x.mul(&u).add(&y.mul(&v)) == d, "Bezout identity fails for the Fibonacci numbers with index {}", idx[s[0]]); Ok(()) }));
    v
}

// ---------------------------------------------------------------- C18
/// Jacobi symbol by quadratic reciprocity, written from the definition for odd positive n
fn jac(a: &Z, n: &N) -> isize {
    let mut a = a.euclid(&Z::pos(n.clone())).1.m; let mut n = n.clone(); let mut r = 1;
    while !a.is_zero() {
        while !a.is_odd() { a = a.shr(1); let m = n.0[0] & 7; if m == 3 || m == 5 { r = -r; } }
        std::mem::swap(&mut a, &mut n);
        if a.0[0] & 3 == 3 && n.0[0] & 3 == 3 { r = -r; }
        a = a.rem(&n);
    }
    if n == N::one() { r } else { 0 }
}
/// Jacobi symbol straight from the definition: product of Legendre symbols over the prime factors
fn jac_def(a: i64, n: u64) -> isize {
    let mut n = n; let mut r = 1; let mut p = 3;
    while n > 1 { while n % p == 0 { n /= p; let x = a.rem_euclid(p as i64) as u64; if x == 0 { return 0; } let mut e = 1u64; for _ in 0..(p - 1) / 2 { e = e * x % p; } r *= if e == 1 { 1 } else { -1 }; } p += 2; if p * p > n && n > 1 { p = n; } }
    r
}
fn jacobi(a: &Z, b: &Z, c: &mut Ctx) -> Res {
    c.note(|| format!("jacobi({:?}, {:?})", a, b)); c.step();
    let w = jac(a, &b.m) * if b.neg && a.neg { -1 } else { 1 };
    let g = int(a).jacobi(&int(b));
    c.state(mix(a.hash(), mix(b.hash(), w as u64)));
    want!(g == Some(w), "jacobi({:?}, {:?}) = {:?}, expected {}", a, b, g, w); Ok(())
}
fn msqrt(a: &Z, p: &N, c: &mut Ctx) -> Res {
    c.note(|| format!("square root of {:?} modulo the prime {:?}", a, p)); c.step();
    let pz = Z::pos(p.clone());
    let w = jac(a, p);
    let g = int(a).mod_sqrt(&int(&pz));
    match g {
        None => want!(w == -1, "mod_sqrt({:?}, {:?}) answers nothing though it is a residue", a, p),
        Some(r) => { want!(w != -1, "mod_sqrt({:?}, {:?}) answers though it is not a residue", a, p); let r = see_int(&r)?; want!(!r.neg && r.m < *p, "mod_sqrt({:?}, {:?}) = {:?} out of range", a, p, r); want!(r.mul(&r).sub(a).m.rem(p).is_zero(), "mod_sqrt({:?}, {:?}) = {:?} is not a root", a, p, r); c.state(mix(p.hash(), r.hash())); }
    }
    Ok(())
}
fn sieve(n: u64) -> Vec<u64> { (2..n).filter(|&x| (2..).take_while(|d| d * d <= x).all(|d| x % d != 0)).collect() }
pub fn c18(t: Tier) -> Vec<Suite> {
    let (na, nb) = (t.pick(400, 600), t.pick(801, 1201));
    let bl = { let mut b: Vec<N> = limb_vecs(&LIMBS, t.pick(3, 3)); b.extend(limb_vecs(&[1, 3, 5, 7, 0xffff_ffff], 2)); b.extend(patterns(3..=t.pick(8, 12), &[0, 3, 4, 7, 9])); dedup(b) };
    let odd: Vec<Z> = signed(&bl.iter().filter(|n| n.is_odd()).cloned().collect::<Vec<_>>());
    let all: Vec<Z> = signed(&bl);
    let ps: Vec<u64> = sieve(t.pick(700, 1200)).into_iter().filter(|p| *p > 2).collect();
    let tot: u64 = ps.iter().map(|p| 3 * p + 1).sum();
    // primes p = k*2^e + 1 exercise every Tonelli-Shanks depth; others cover the residue classes 3 mod 4 and 5 mod 8
    let bigp: Vec<N> = { let mut v: Vec<N> = vec![65537u128, 12289, 40961, 786433, 7340033, 998244353, 2013265921, 3221225473, 4294967291, 4294967311, 4294967357, 18446744073709551557, 18446744073709551629, 2305843009213693951, 0x1000000000000000D, 6597069766657, 180143985094819841,
            73, 241, 1009, 2689, 8089, 33049, 53881, 87481, 483289, 515761, 1083289, 3818929, 9257329, 22000801, 48473881, 175244281, 427733329, 898716289, 8114538721, // 1 mod 8 and the least non-residue larger than for any prime below
            71, 311, 479, 1559, 5711, 10559, 18191, 31391, 422231, 701399, 366791, 2323, 78278, 4080359, 12537719, 30706079].into_iter().map(N::u).collect();
        for e in [89usize, 107, 127] { v.push(N::one().shl(e).sub(&N::one())); }
        v.push(N::one().shl(255).sub(&N::u(19))); // 5 mod 8
        v.push(N::one().shl(224).sub(&N::one().shl(96)).add(&N::one())); // p224: 2^96 | p-1
        v.push(N::one().shl(256).sub(&N::one().shl(224)).add(&N::one().shl(192)).add(&N::one().shl(96)).sub(&N::one())); // p256
        if t.thorough() { v.push(N::one().shl(521).sub(&N::one())); v.push(N::one().shl(384).sub(&N::one().shl(128)).sub(&N::one().shl(96)).add(&N::one().shl(32)).sub(&N::one())); }
        dedup(v).into_iter().filter(is_prime).collect() };
    let args: Vec<Z> = { let mut v = ints(-20, t.pick(300, 600)); v.extend(signed(&limb_vecs(&LIMBS4, 3))); v };
    let bigp = Arc::new(bigp); let args = Arc::new(args);
    vec![
        Suite::new("definition", format!("a in -{}..={}, odd b in -{}..={}, against the definition (factorisation into Legendre symbols), and b = 0", na, na, nb, nb), (2 * na as u64 + 1) * (nb as u64 + 2), move |i, c| {
            let (x, y) = sp2(i, 2 * na as usize + 1); let a = x as i64 - na;
            c.note(|| format!("jacobi({}, #{})", a, y));
            if y == 0 { c.step(); want!(BigInt::from(a).jacobi(&BigInt::from(0)).is_none(), "jacobi({}, 0)", a); return Ok(()); }
            let b = 2 * (y as i64 - 1) - nb; c.step();
            let w = jac_def(a, b.unsigned_abs()) * if a < 0 && b < 0 { -1 } else { 1 };
            want!(jac(&Z::i(a as i128), &N::u(b.unsigned_abs() as u128)) == jac_def(a, b.unsigned_abs()), "the reference symbols disagree for {} {}", a, b);
            let g = BigInt::from(a).jacobi(&BigInt::from(b));
            c.state(mix(a as u64, b as u64));
            want!(g == Some(w), "jacobi({}, {}) = {:?}, expected {}", a, b, g, w); Ok(())
        }),
        pairs("limbs", "signed multi-limb a x odd multi-limb b", all, odd, jacobi),
        { let mut l = ladder(3, t.pick(40, 80), &[(0, 7), (7, 0), (8, 3), (7, 7), (3, 4), (1, 9)]); let far = t.pick(vec![48usize, 63, 64, 65, 80, 96, 128, 129, 200], vec![96, 100, 127, 128, 129, 160, 192, 200, 255, 256, 257]); for &k in &far { l.extend(ladder(k, k, &[(0, 7), (7, 0), (8, 3)])); } let n = l.len() as u64;
          Suite::new("ladder", format!("every length 3..={} and {:?} of one operand with partner lengths 1, 2, 3, half, one less, equal and one more, up to 6 pattern pairs, every combination of signs, either operand below", t.pick(40, 80), far), n * 8, move |i, c| { let s = split(i, &[n, 8]); let (la, a, lb, b) = l[s[0]]; let (mut x, mut y) = (pattern(la, a), pattern(lb, b)); if s[1] & 4 != 0 { std::mem::swap(&mut x, &mut y); } if !y.is_odd() { y = y.add(&N::one()); } jacobi(&Z::new(s[1] & 1 == 1, x), &Z::new(s[1] & 2 == 2, y), c) }) },
        { let l: Vec<usize> = (1..=t.pick(24, 48)).collect(); let n = l.len() as u64; let dims = [n, 3, 12, 8, 4];
          Suite::new("related", format!("b of every length 1..={} x 3 patterns x a = k*b + r for 12 multiples and 8 remainders, and powers of two", t.pick(24, 48)), dims.iter().product(), move |i, c| { let s = split(i, &dims); let b = { let b = pattern(l[s[0]], [0, 7, 3][s[1]]); if b.is_odd() { b } else { b.add(&N::one()) } };
            let k = [N::zero(), N::one(), N::u(2), N::u(3), N::u(4), N::u(8), N::u(1 << 31), N::u(1 << 32), N::u((1 << 32) + 1), N::one().shl(64), pattern(3, 7), pattern(2, 0)][s[2]].clone();
            let r = [N::zero(), N::one(), N::u(2), N::u(3), N::u(1 << 31), N::one().shl(33), b.sub(&N::one()), b.shr(1)][s[3]].clone();
            jacobi(&Z::new(s[4] & 1 == 1, k.mul(&b).add(&r)), &Z::new(s[4] & 2 == 2, b), c) }) },
        { let n = t.pick(300, 700u64); Suite::new("two-powers", format!("a = 2^i, 3*2^i and 2^i - 1 for i < {}, 16 odd b", n), n * 3 * 16 * 2, move |i, c| { let s = split(i, &[n, 3, 16, 2]); let p = N::one().shl(s[0]); let a = match s[1] { 0 => p, 1 => p.mul(&N::u(3)), _ => p.sub(&N::one()) }; let b = if s[2] < 8 { N::u(2 * s[2] as u128 + 3) } else { pattern(s[2] - 6, [0, 7][s[2] & 1]).bitop(&N::u([1, 3, 5, 7][(s[2] >> 1) & 3]), |a, b| a | b) }; let b = if b.is_odd() { b } else { b.add(&N::one()) }; jacobi(&Z::new(s[3] == 1, a), &Z::pos(b), c) }) },
        Suite::new("roots", format!("every odd prime below {} and every a in -p..=2p", t.pick(700, 1200)), tot, move |mut i, c| { let mut k = 0; while i >= 3 * ps[k] + 1 { i -= 3 * ps[k] + 1; k += 1; } let p = ps[k]; msqrt(&Z::i(i as i128 - p as i128), &N::u(p as u128), c) }),
        { let es = t.pick(vec![40usize, 64, 97, 129, 193], vec![33, 40, 63, 64, 65, 97, 128, 129, 160, 193, 224, 257, 260, 320]);
          let ps: Vec<(usize, N, N)> = es.iter().map(|&e| { let mut k = 3u128; loop { let p = N::u(k).shl(e).add(&N::one()); if [3u32, 5, 7, 11, 13, 17, 19, 23].iter().all(|q| p.divrem_u32(*q).1 != 0) && N::u(2).modpow(&p.sub(&N::one()), &p) == N::one() && is_prime(&p) { return (e, N::u(k), p); } k += 2; } }).collect();
          let xs = t.pick(2u64, 6); let tot: Vec<u64> = ps.iter().map(|x| x.0 as u64 * xs * 2).collect(); let all: u64 = tot.iter().sum();
          Suite::new("orders", format!("primes k*2^e + 1 for e in {:?} x every order of the argument: x^(2^i) and x^(k*2^i) for every i < e and {} bases x", es, xs), all, move |mut i, c| { let mut j = 0; while i >= tot[j] { i -= tot[j]; j += 1; } let (e, k, p) = &ps[j]; let s = split(i, &[*e as u64, xs, 2]); let mut x = N::u([3u128, 5, 7, 10, 11, 13][s[1]]); if s[2] == 1 { x = x.modpow(k, p); } for _ in 0..s[0] { x = x.mul(&x).rem(p); } msqrt(&Z::pos(x), p, c) }) },
        Suite::new("large-roots", format!("{} large primes (all residue classes mod 8, 2-adic depth up to 96) x {} arguments and the argument's square", bigp.len(), args.len()), (bigp.len() * args.len() * 2) as u64, move |i, c| { let s = split(i, &[bigp.len() as u64, args.len() as u64, 2]); let p = &bigp[s[0]]; let a = if s[2] == 0 { args[s[1]].clone() } else { args[s[1]].mul(&args[s[1]]) }; msqrt(&a, p, c) }),
    ]
}
fn is_prime(n: &N) -> bool {
    for p in sieve(100) { if n.divrem_u32(p as u32).1 == 0 { return *n == N::u(p as u128); } }
    let n1 = n.sub(&N::one()); let s = n1.tz(); let d = n1.shr(s);
    'b: for a in sieve(90) { let mut x = N::u(a as u128).modpow(&d, n); if x == N::one() || x == n1 { continue; } for _ in 1..s { x = x.mul(&x).rem(n); if x == n1 { continue 'b; } } return false; }
    true
}

// ---------------------------------------------------------------- C19
fn prod(a: i128, b: i128) -> Z {
    if a > b { return Z::i(1); } if a <= 0 && b >= 0 { return Z::zero(); }
    let mut r = Z::i(1); let mut x = a; while x <= b { r = r.mul(&Z::i(x)); x += 1; } r
}
pub fn c19(t: Tier) -> Vec<Suite> {
    let k: i64 = t.pick(90, 160);
    let n = 2 * k as u64 + 1;
    let mut ends: Vec<i64> = vec![0, 1, 2, -1, -2, i64::MAX, i64::MAX - 1, i64::MAX - 2, i64::MAX - 3, i64::MIN, i64::MIN + 1, i64::MIN + 2, i64::MIN + 3];
    for b in [15, 16, 31, 32, 33, 47, 48, 62] { for d in -3i64..=3 { ends.push((1i64 << b) + d); ends.push(-(1i64 << b) + d); } }
    ends.sort(); ends.dedup();
    let lens: Vec<i64> = vec![-2, -1, 0, 1, 2, 3, 4, 5, 7, 15, 33];
    let (ne, nl) = (ends.len(), lens.len());
    let e2 = Arc::new(ends.clone());
    let bn: i64 = t.pick(220, 500);
    vec![
        Suite::new("ranges", format!("all a, b in -{}..={}", k, k), n * n, move |i, c| { let (x, y) = sp2(i, n as usize); let (a, b) = (x as i64 - k, y as i64 - k); c.note(|| format!("mul_range({}, {})", a, b)); c.step(); let w = prod(a as i128, b as i128); c.state(w.hash()); ck!(is_int(&BigInt::mul_range(a, b), &w), "mul_range({}, {})", a, b); Ok(()) }),
        Suite::new("extreme-ranges", format!("{} starting points up to both ends of i64 x {} lengths", ne, nl), (ne * nl) as u64, move |i, c| { let (x, y) = sp2(i, ne); let a = ends[x]; let b = match a.checked_add(lens[y]) { Some(b) => b, None => return Ok(()) }; c.note(|| format!("mul_range({}, {})", a, b)); c.step(); let w = prod(a as i128, b as i128); c.state(w.hash()); ck!(is_int(&BigInt::mul_range(a, b), &w), "mul_range({}, {})", a, b); Ok(()) }),
        { let mags = magnitudes(63); let n = mags.len() as u64; Suite::new("magnitudes", format!("{} starting points at every eighth of a binary order of magnitude up to 2^63, both signs, lengths 1..=16, 24, 40", n), n * 2 * 18, move |i, c| { let s = split(i, &[n, 2, 18]); let l = if s[2] < 16 { s[2] as i128 } else { [23, 39][s[2] - 16] }; let (a, b) = (mags[s[0]] as i128, mags[s[0]] as i128 + l); if b > i64::MAX as i128 { return Ok(()); } let (a, b) = if s[1] == 1 { (-b, -a) } else { (a, b) }; c.note(|| format!("mul_range({}, {})", a, b)); c.step(); let w = prod(a, b); c.state(w.hash()); ck!(is_int(&BigInt::mul_range(a as i64, b as i64), &w), "mul_range({}, {})", a, b); Ok(()) }) },
        { let st: Vec<i64> = vec![1, 2, 100, 1000, 65530, 1 << 20, (1 << 31) - 100, (1 << 32) - 100, 1 << 40, 1 << 53, i64::MAX - 700]; let n = st.len() as u64; let lm = t.pick(600u64, 700); Suite::new("long-ranges", format!("{} starting points x every length up to {}", n, lm), n * lm, move |i, c| { let s = split(i, &[n, lm]); let (a, b) = (st[s[0]], st[s[0]] + s[1] as i64); c.note(|| format!("mul_range({}, {})", a, b)); c.step(); let w = prod(a as i128, b as i128); c.state(w.hash()); ck!(is_int(&BigInt::mul_range(a, b), &w), "mul_range({}, {})", a, b); Ok(()) }) },
        { let mags = magnitudes(63); let n = mags.len() as u64; Suite::new("binomial-magnitudes", format!("{} values of n at every eighth of a binary order of magnitude up to 2^63, k and n-k up to 20", n), n * 42, move |i, c| { let s = split(i, &[n, 42]); let n = mags[s[0]] as i64; if mags[s[0]] > i64::MAX as u128 { return Ok(()); } let k = if s[1] < 21 { s[1] as i64 } else { n - (s[1] as i64 - 21) }; if k < 0 { return Ok(()); } c.note(|| format!("binomial({}, {})", n, k)); c.step();
            let w = if k > n { Z::zero() } else { let kk = k.min(n - k); let mut w = Z::i(1); for j in 0..kk { w = w.mul(&Z::i((n - j) as i128)).divrem(&Z::i(j as i128 + 1)).0; } w };
            c.state(w.hash()); ck!(is_int(&BigInt::binomial(n, k), &w), "binomial({}, {})", n, k); Ok(()) }) },
        { let st: Vec<(i64, i64)> = t.pick(vec![(1, 2000), (1, 4100), (1, 9000), (1, 13000), (65000, 9000), ((1 << 32) - 2000, 4000), (1 << 40, 3000), (i64::MAX - 2500, 2500), (-4000, 3999), (-(1 << 33), 2500)], (0..24).map(|k| (1i64 << k, 9000)).chain((24..63).map(|k| ((1i64 << k) - 1000, 4500))).chain((32..63).map(|k| (-(1i64 << k) - 7, 2500))).chain([(1, 13000), (1, 20000), (2, 26000)]).collect()); let n = st.len() as u64; Suite::new("huge-ranges", format!("{} ranges of thousands of numbers, products of up to tens of thousands of words", n), n, move |i, c| { let (a, l) = st[i as usize]; let b = a.saturating_add(l); c.note(|| format!("mul_range({}, {})", a, b)); c.step();
            // the reference multiplies two-word pieces and then pairs of them
            let mut p: Vec<N> = vec![]; let mut x = a as i128; while x <= b as i128 { p.push(N::u(x.unsigned_abs())); x += 1; } while p.len() > 1 { p = p.chunks(2).map(|q| if q.len() == 2 { q[0].mul(&q[1]) } else { q[0].clone() }).collect(); }
            let w = Z::new(a < 0 && (b as i128 - a as i128 + 1) % 2 == 1, p.pop().unwrap()); c.state(w.hash()); ck!(is_int(&BigInt::mul_range(a, b), &w), "mul_range({}, {})", a, b); Ok(()) }) },
        Suite::new("empty-or-zero", format!("all pairs of {} extreme endpoints whose range is empty or contains zero", ne), (ne * ne) as u64, move |i, c| { let (x, y) = sp2(i, ne); let (a, b) = (e2[x], e2[y]); if !(a > b || (a <= 0 && b >= 0)) { return Ok(()); } c.note(|| format!("mul_range({}, {})", a, b)); c.step(); let w = if a > b { Z::i(1) } else { Z::zero() }; ck!(is_int(&BigInt::mul_range(a, b), &w), "mul_range({}, {})", a, b); c.state(w.hash()); Ok(()) }),
        Suite::new("binomials", format!("all -30 <= n <= {}, 0 <= k <= max(n, 30) + 3", bn), (bn as u64 + 31) * (bn as u64 + 4), move |i, c| { let (x, y) = sp2(i, bn as usize + 31); let (n, k) = (x as i64 - 30, y as i64); if k > n.max(30) + 3 { return Ok(()); } c.note(|| format!("binomial({}, {})", n, k)); c.step();
            let mut w = Z::i(1); for j in 0..k { w = w.mul(&Z::i((n - j) as i128)).divrem(&Z::i(j as i128 + 1)).0; } if k > n && n >= 0 { w = Z::zero(); }
            c.state(w.hash()); ck!(is_int(&BigInt::binomial(n, k), &w), "binomial({}, {})", n, k); Ok(()) }),
        { let ns: Vec<i64> = t.pick(vec![230, 256, 257, 300, 400, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 3000], (221..=1200).step_by(7).chain([1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 5000]).collect()); let m = ns.len() as u64;
          Suite::new("middle-binomials", format!("{} values of n up to {}, 33 values of k from 0 to n, each with its two neighbours", m, ns[ns.len() - 1]), m * 33 * 3, move |i, c| { let s = split(i, &[m, 33, 3]); let n = ns[s[0]]; let k = n * s[1] as i64 / 32 + s[2] as i64 - 1; if k < 0 { return Ok(()); } c.note(|| format!("binomial({}, {})", n, k)); c.step();
            let w = if k > n { Z::zero() } else { let mut w = Z::i(1); for j in 0..k.min(n - k) { w = Z::pos(w.mul(&Z::i((n - j) as i128)).m.divrem_u32(j as u32 + 1).0); } w };
            c.state(w.hash()); ck!(is_int(&BigInt::binomial(n, k), &w), "binomial({}, {})", n, k); Ok(()) }) },
        Suite::new("large-binomials", "n near 2^16, 2^31, 2^32, 2^40, 2^62, i64::MAX with k and n-k up to 12", 6 * 7 * 26, move |i, c| { let s = split(i, &[6, 7, 26]); let base = [1i64 << 16, 1 << 31, 1 << 32, 1 << 40, 1 << 62, i64::MAX - 3][s[0]]; let n = base - 3 + s[1] as i64; let k = if s[2] < 13 { s[2] as i64 } else { n - (s[2] as i64 - 13) }; c.note(|| format!("binomial({}, {})", n, k)); c.step();
            let kk = k.min(n - k); let mut w = Z::i(1); for j in 0..kk { w = w.mul(&Z::i((n - j) as i128)).divrem(&Z::i(j as i128 + 1)).0; }
            c.state(w.hash()); ck!(is_int(&BigInt::binomial(n, k), &w), "binomial({}, {})", n, k); Ok(()) }),
    ]
}

fn main() {
    mc::engine::main(&[
        Prop { id: "C15", build: c15, assumptions: &[] },
        Prop { id: "C16", build: c16, assumptions: &[] },
        Prop { id: "C17", build: c17, assumptions: &["modular inverses of non-coprime arguments are not specified"] },
        Prop { id: "C18", build: c18, assumptions: &["even b and composite moduli are not specified"] },
        Prop { id: "C19", build: c19, assumptions: &["binomials with negative arguments are not specified"] },
    ])
}
