//! Properties of naturals (with the corresponding integer entry points): C01-C07, C10, C11.
use mc::alpha::*;
use mc::engine::*;
use mc::obs::*;
use mc::refmath::*;
use mc::text::*;
use mc::{ck, want};
use rmath::bigint::{BigInt, Nat};
use std::cmp::Ordering;
use std::str::FromStr;
use std::sync::Arc;

fn pairs(name: &str, space: &str, a: Vec<N>, b: Vec<N>, f: impl Fn(&N, &N, &mut Ctx) -> Res + Send + Sync + 'static) -> Suite {
    let (a, b) = (Arc::new(a), Arc::new(b));
    let sp = format!("{} ({} x {} operands)", space, a.len(), b.len());
    Suite::new(name, sp, (a.len() * b.len()) as u64, move |i, c| { let (x, y) = sp2(i, a.len()); f(&a[x], &b[y], c) })
}
fn singles(name: &str, space: &str, a: Vec<N>, f: impl Fn(&N, &mut Ctx) -> Res + Send + Sync + 'static) -> Suite {
    let a = Arc::new(a);
    let sp = format!("{} ({} operands)", space, a.len());
    Suite::new(name, sp, a.len() as u64, move |i, c| f(&a[i as usize], c))
}
const LPATS: [(usize, usize); 10] = [(0, 0), (7, 7), (0, 3), (1, 0), (5, 6), (8, 5), (4, 9), (2, 2), (7, 0), (6, 8)];
/// long operands of every length against partners of characteristic lengths
fn ladders(lo: usize, hi: usize, f: impl Fn(&N, &N, &mut Ctx) -> Res + Send + Sync + 'static) -> Suite {
    let v = ladder(lo, hi, &LPATS); let n = v.len() as u64;
    Suite::new("ladder", format!("every length {}..={} against lengths 1, 2, 3, half, one less, equal and one more, {} pattern pairs, both orders", lo, hi, LPATS.len()), n * 2, move |i, c| { let (l, a, m, b) = v[(i / 2) as usize]; let (x, y) = (pattern(l, a), pattern(m, b)); if i % 2 == 0 { f(&x, &y, c) } else { f(&y, &x, c) } })
}
/// a few very long operands
fn huge(lens: &[usize], f: impl Fn(&N, &N, &mut Ctx) -> Res + Send + Sync + 'static) -> Suite {
    let v: Vec<_> = lens.iter().flat_map(|&l| ladder(l, l, &[(7, 7), (0, 8), (0, 0), (2, 7)])).collect(); let n = v.len() as u64;
    Suite::new("huge", format!("operands of {:?} words against lengths 1, 2, 3, half, one less, equal and one more, 4 pattern pairs, both orders", lens), n * 2, move |i, c| { let (l, a, m, b) = v[(i / 2) as usize]; let (x, y) = (pattern(l, a), pattern(m, b)); if i % 2 == 0 { f(&x, &y, c) } else { f(&y, &x, c) } })
}
/// long operands that differ in one limb
fn nears(hi: usize, stride: usize, f: impl Fn(&N, &N, &mut Ctx) -> Res + Send + Sync + 'static) -> Suite {
    let v = near_idx(1..=hi, &[0, 1, 4, 7, 8], stride); let n = v.len() as u64;
    Suite::new("near", format!("two operands of every length up to {} that differ in one limb, at every {}position, 5 fillings, lowest or highest bit of the limb, both orders", hi, if stride > 1 { "boundary and every few " } else { "" }), n * 2, move |i, c| { let (x, y) = near_pair(v[(i / 2) as usize]); if i % 2 == 0 { f(&x, &y, c) } else { f(&y, &x, c) } })
}
fn u32s() -> Vec<u32> { let mut v: Vec<u32> = (0..20).collect(); for i in 4..32 { let p = 1u32 << i; v.extend([p - 1, p, p + 1]); } v.extend([u32::MAX - 1, u32::MAX, 1_000_000_007, 0xdead_beef]); v.sort(); v.dedup(); v }

// ---------------------------------------------------------------- C01
fn addsub(x: &N, y: &N, c: &mut Ctx) -> Res {
    c.note(|| format!("add/sub {:?} , {:?}", x, y));
    let s = x.add(y); let d = x.absdiff(y); let ge = x >= y;
    c.state(mix(s.hash(), mix(d.hash(), ge as u64)));
    c.steps(6);
    ck!(is(&(nat(x) + nat(y)), &s), "{:?} + {:?}", x, y);
    let mut a = nat(x); a += nat(y); ck!(is(&a, &s), "{:?} += {:?}", x, y);
    ck!(is(&(nat(x) - nat(y)), &d), "{:?} - {:?}", x, y);
    let mut a = nat(x); a -= nat(y); ck!(is(&a, &d), "{:?} -= {:?}", x, y);
    let (r, g) = nat(x).sub_with_sign(nat(y)); ck!(is(&r, &d), "{:?}.sub_with_sign({:?})", x, y); want!(g == ge, "{:?}.sub_with_sign({:?}): flag {}", x, y, g);
    let mut a = nat(x); let g = a.sub_assign_with_sign(nat(y)); ck!(is(&a, &d), "{:?}.sub_assign_with_sign({:?})", x, y); want!(g == ge, "{:?}.sub_assign_with_sign({:?}): flag {}", x, y, g);
    Ok(())
}
fn addsub_w(x: &N, w: u32, c: &mut Ctx) -> Res {
    c.note(|| format!("add/sub word {:?} , {:#x}", x, w));
    let y = N::u(w as u128); let s = x.add(&y); let d = x.absdiff(&y);
    c.state(mix(s.hash(), d.hash())); c.steps(4);
    ck!(is(&(nat(x) + w), &s), "{:?} + {:#x}u32", x, w);
    let mut a = nat(x); a += w; ck!(is(&a, &s), "{:?} += {:#x}u32", x, w);
    ck!(is(&(nat(x) - w), &d), "{:?} - {:#x}u32", x, w);
    let mut a = nat(x); a -= w; ck!(is(&a, &d), "{:?} -= {:#x}u32", x, w);
    Ok(())
}
fn words(name: &str, a: Vec<N>, f: fn(&N, u32, &mut Ctx) -> Res) -> Suite {
    let a = Arc::new(a); let w = u32s();
    Suite::new(name, format!("{} naturals x {} boundary words", a.len(), w.len()), (a.len() * w.len()) as u64, move |i, c| { let (x, y) = sp2(i, a.len()); f(&a[x], w[y], c) })
}
pub fn c01(t: Tier) -> Vec<Suite> {
    let mut base = limb_vecs(&LIMBS, t.pick(4, 5)); base.extend(small(40)); let base = dedup(base);
    let mut v = vec![
        pairs("pairs", "all pairs of limb vectors of length 0..=4 (thorough 5) over 6 boundary limbs, and small numbers", base.clone(), base.clone(), addsub),
        pairs("small", "all pairs of small numbers", small(t.pick(1500, 3000)), small(t.pick(1500, 3000)), addsub),
        words("word", { let mut b = base.clone(); b.extend(patterns(1..=40, &(0..NPAT).collect::<Vec<_>>())); dedup(b) }, addsub_w),
    ];
    let long = patterns(1..=t.pick(70, 110), &(0..NPAT).collect::<Vec<_>>());
    v.push(pairs("long", "all pairs of structured operands, every length 1..=70 (thorough 110) x 10 patterns", long.clone(), long, addsub));
    let p2 = pow2s(t.pick(520, 1040), 1);
    v.push(pairs("pow2", "all pairs of 2^i+d, |d|<=2", p2.clone(), pow2s(260, t.pick(1, 1)), addsub));
    { let b = holes(1..=t.pick(14, 20), &[0, 1, 0xffff_fffe]); v.push(pairs("holes", "all pairs of constant fillings with one different limb, every length up to 14 (thorough 20), every position", b.clone(), b, addsub)); }
    v.push(huge(&[1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 10000, 65535, 65536, 65537], addsub)); v.push(ladders(60, t.pick(300, 700), addsub)); v.push(nears(t.pick(150, 400), t.pick(3, 1), addsub));
    { let b = limb_vecs(&LIMBS4, t.pick(5, 6)); v.push(pairs("len6", "all pairs of limb vectors up to length 5 (thorough 6) over 4 limbs", b.clone(), b, addsub)); }
    v
}

// ---------------------------------------------------------------- C02
fn mul_all(x: &N, y: &N, c: &mut Ctx) -> Res {
    c.note(|| format!("mul {:?} * {:?}", x, y));
    let p = x.mul(y);
    c.state(p.hash()); c.steps(3);
    ck!(is(&(nat(x) * nat(y)), &p), "{:?} * {:?}", x, y);
    let mut a = nat(x); a *= nat(y); ck!(is(&a, &p), "{:?} *= {:?}", x, y);
    ck!(is(&nat(x).mul_karatsuba(&nat(y)), &p), "{:?}.mul_karatsuba({:?})", x, y);
    if x == y { c.step(); ck!(is(&nat(x).sqr(), &p), "{:?}.sqr()", x); }
    if let [w] = y.0[..] { c.steps(2); ck!(is(&(nat(x) * w), &p), "{:?} * {:#x}u32", x, w); let mut a = nat(x); a *= w; ck!(is(&a, &p), "{:?} *= {:#x}u32", x, w); }
    Ok(())
}
fn mul_w(x: &N, w: u32, c: &mut Ctx) -> Res {
    c.note(|| format!("mul word {:?} * {:#x}", x, w));
    let p = x.mul(&N::u(w as u128)); c.state(p.hash()); c.steps(2);
    ck!(is(&(nat(x) * w), &p), "{:?} * {:#x}u32", x, w); let mut a = nat(x); a *= w; ck!(is(&a, &p), "{:?} *= {:#x}u32", x, w);
    Ok(())
}
fn sqr_one(x: &N, c: &mut Ctx) -> Res {
    c.note(|| format!("sqr {:?}", x));
    let p = x.mul(x); c.state(p.hash()); c.steps(3);
    ck!(is(&nat(x).sqr(), &p), "{:?}.sqr()", x);
    ck!(is(&nat(x).mul_karatsuba(&nat(x)), &p), "{:?}.mul_karatsuba(self)", x);
    if x.0.len() <= 140 { ck!(is(&(nat(x) * nat(x)), &p), "{:?} * self", x); }
    ck!(is_int(&int(&Z::new(true, x.clone())).sqr(), &Z::pos(p)), "(-{:?}).sqr()", x);
    Ok(())
}
pub fn c02(t: Tier) -> Vec<Suite> {
    let base = { let mut b = limb_vecs(&LIMBS, 3); b.extend(small(20)); b.extend(limb_vecs(&[1, 0xffff_ffff], 6)); dedup(b) };
    let mut v = vec![
        pairs("pairs", "all pairs of limb vectors of length 0..=3 over 6 boundary limbs (and 0..=6 over 2)", base.clone(), base.clone(), mul_all),
        words("word", { let mut b = limb_vecs(&LIMBS, 4); b.extend(patterns(1..=40, &[0, 4, 7])); dedup(b) }, mul_w),
        pairs("small", "all pairs of small numbers", small(t.pick(1000, 2500)), small(t.pick(1000, 2500)), mul_all),
    ];
    { let b = holes(1..=t.pick(12, 18), &[0, 1, 0xffff_fffe]); v.push(pairs("holes", "all pairs of constant fillings with one different limb, every length up to 12 (thorough 18), every position", b.clone(), b, mul_all)); }
    { let hl = t.pick(vec![40usize, 41, 45, 80], vec![39, 40, 41, 42, 43, 44, 47, 48, 79, 80, 81, 82, 84, 96, 120, 160]);
      for &l in &hl { let b = holes([l], &[0, 0xffff_fffe]); let a: Vec<N> = b.iter().filter(|n| n.0.len() == l && n.0[0] != 0).cloned().collect(); v.push(pairs(&format!("holes-{}", l), &format!("constant fillings of {} limbs with one different limb at every position", l), a, b, mul_all)); } }
    // every pair of lengths
    let top = t.pick(140, 260);
    let pats: Vec<(usize, usize)> = if t.thorough() { (0..NPAT).flat_map(|a| [0, 3, 5, 6, 7, 8].into_iter().map(move |b| (a, b))).collect() } else { vec![(0, 0), (7, 7), (5, 6), (8, 5), (3, 0), (1, 7), (4, 8), (6, 6), (2, 3)] };
    let np = pats.len() as u64;
    let pats1 = pats.clone();
    v.push(Suite::new("lengths", format!("every pair of operand lengths 1..={} x {} pattern pairs", top, np), (top * top) as u64 * np, move |i, c| {
        let s = split(i, &[np, top as u64, top as u64]); let (a, b) = pats1[s[0]];
        mul_all(&pattern(s[1] + 1, a), &pattern(s[2] + 1, b), c) }));
    let mut big: Vec<usize> = vec![97, 119, 120, 121, 127, 128, 129, 159, 160, 161, 162, 200, 239, 240, 255, 256, 259, 260, 261, 262, 300, 319, 320, 321, 322];
    if t.thorough() { big.extend([400, 479, 480, 512, 519, 520, 521, 522, 600, 639, 640, 641, 642, 700]); }
    let ls: Vec<usize> = { let mut l = vec![1, 2, 3, 19, 20, 21, 39, 40, 41, 42, 43, 78, 79, 80, 81, 82, 83, 84]; l.extend(&big); l };
    let (bn, ln) = (big.len() as u64, ls.len() as u64);
    v.push(Suite::new("large", format!("{} x {} large lengths x {} pattern pairs", bn, ln, np), bn * ln * np, move |i, c| {
        let s = split(i, &[np, bn, ln]); let (a, b) = pats[s[0]];
        let (x, y) = (pattern(big[s[1]], a), pattern(ls[s[2]], b));
        c.note(|| format!("mul {:?} * {:?}", x, y));
        let p = x.mul(&y); c.state(p.hash()); c.steps(2);
        ck!(is(&nat(&x).mul_karatsuba(&nat(&y)), &p), "{:?}.mul_karatsuba({:?})", x, y);
        ck!(is(&nat(&y).mul_karatsuba(&nat(&x)), &p), "{:?}.mul_karatsuba({:?})", y, x);
        if s[1] % 3 == 0 { c.step(); ck!(is(&(nat(&x) * nat(&y)), &p), "{:?} * {:?}", x, y); }
        Ok(()) }));
    v.push(huge(t.pick(&[511, 512, 513, 640, 1023, 1024, 1025, 1280, 2048, 2049][..], &[511, 512, 513, 640, 1023, 1024, 1025, 1279, 1280, 1281, 2048, 2049, 2560, 4096, 4097, 5121]), |x, y, c| {
        c.note(|| format!("mul {:?} * {:?}", x, y)); let p = x.mul(y); c.state(p.hash()); c.steps(2);
        ck!(is(&nat(x).mul_karatsuba(&nat(y)), &p), "{:?}.mul_karatsuba({:?})", x, y); if x.0.len() == y.0.len() { ck!(is(&nat(x).sqr(), &x.mul(x)), "{:?}.sqr()", x); }
        if x.0.len() + y.0.len() < 1300 { c.step(); ck!(is(&(nat(x) * nat(y)), &p), "{:?} * {:?}", x, y); } Ok(()) }));
    let mut sl: Vec<usize> = (1..=t.pick(300, 700)).collect(); sl.extend([160, 200, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 300, 319, 320, 321, 400, 518, 519, 520, 521, 522, 523, 524]);
    if t.thorough() { sl.extend(300..530); sl.extend([600, 640, 700, 1038, 1040, 1041, 1042, 1100, 1300]); } sl.sort(); sl.dedup();
    v.push(singles("sqr", "squares of every length up to 140 (thorough 530) and around the thresholds x 10 patterns", patterns(sl, &(0..NPAT).collect::<Vec<_>>()), sqr_one));
    v.push(singles("sqr-small", "squares of all limb vectors of length 0..=4 over 6 limbs", limb_vecs(&LIMBS, 4), sqr_one));
    // zero-block layouts at the karatsuba split: every placement of a zero block
    let blk = t.pick(vec![40usize, 41, 44, 52, 80, 84, 96], vec![40, 41, 42, 43, 44, 52, 60, 79, 80, 81, 84, 96, 100, 128, 160, 168]);
    let mut lay = vec![];
    for (k, &l) in blk.iter().enumerate() { let st = t.pick(3, 1); for a in (0..l).step_by(st) { for b in (a + 1..=l).step_by(st + 3) { lay.push((k, a, b)); } } }
    let n = lay.len() as u64;
    v.push(Suite::new("zero-blocks", "operands with a zero block at every (start, end) position of lengths around the divide-and-conquer split", n * 3, move |i, c| {
        let (k, a, b) = lay[(i / 3) as usize]; let l = blk[k];
        let mut v = dense(l, 7).0; v.resize(l, 1); for x in &mut v[a..b] { *x = 0; } 
        let x = N::new(v); let y = match i % 3 { 0 => pattern(l, 0), 1 => dense(l + 3, 9), _ => x.clone() };
        c.note(|| format!("mul zero-block {}..{} of {} * pattern {}", a, b, l, i % 3));
        let p = x.mul(&y); c.state(p.hash()); c.steps(2);
        ck!(is(&nat(&x).mul_karatsuba(&nat(&y)), &p), "{:?}.mul_karatsuba({:?})", x, y);
        ck!(is(&nat(&y).mul_karatsuba(&nat(&x)), &p), "{:?}.mul_karatsuba({:?})", y, x);
        Ok(()) }));
    // powers
    let pb = { let mut b = small(40); b.extend(limb_vecs(&LIMBS, 2)); dedup(b) };
    let ne = t.pick(48, 80); let nb = pb.len() as u64;
    v.push(Suite::new("pow", format!("{} bases x exponents 0..{}", nb, ne), nb * ne, move |i, c| {
        let s = split(i, &[nb, ne]); let (x, e) = (&pb[s[0]], s[1]);
        c.note(|| format!("{:?} pow {}", x, e)); let p = x.pow(e); c.state(p.hash()); c.step();
        ck!(is(&nat(x).pow(Nat::from(e)), &p), "{:?}.pow({})", x, e); Ok(()) }));
    let hi: Vec<usize> = (24..t.pick(1100, 2000)).collect(); let nh = hi.len() as u64;
    v.push(Suite::new("pow-high", "bases 0,1,2,3,10 x higher exponents", nh * 5, move |i, c| {
        let x = N::u([0, 1, 2, 3, 10][(i % 5) as usize]); let e = hi[(i / 5) as usize];
        c.note(|| format!("{:?} pow {}", x, e)); let p = x.powbig(&N::u(e as u128)); c.state(p.hash()); c.step();
        ck!(is(&nat(&x).pow(Nat::from(e)), &p), "{:?}.pow({})", x, e); Ok(()) }));
    v
}

// ---------------------------------------------------------------- C03
fn divrem(x: &N, y: &N, c: &mut Ctx) -> Res {
    c.note(|| format!("div/rem {:?} , {:?}", x, y));
    if y.is_zero() {
        c.state(0);
        c.must_panic("division by zero", || nat(x) / nat(y))?; c.must_panic("remainder by zero", || nat(x) % nat(y))?;
        c.must_panic("assigning division by zero", || { let mut a = nat(x); a /= nat(y); })?; return c.must_panic("assigning remainder by zero", || { let mut a = nat(x); a %= nat(y); });
    }
    let (q, r) = x.divrem(y); c.state(mix(q.hash(), r.hash())); c.steps(4);
    ck!(is(&(nat(x) / nat(y)), &q), "{:?} / {:?}", x, y);
    ck!(is(&(nat(x) % nat(y)), &r), "{:?} % {:?}", x, y);
    let mut a = nat(x); a /= nat(y); ck!(is(&a, &q), "{:?} /= {:?}", x, y);
    let mut a = nat(x); a %= nat(y); ck!(is(&a, &r), "{:?} %= {:?}", x, y);
    Ok(())
}
fn divrem_w(x: &N, w: u32, c: &mut Ctx) -> Res {
    c.note(|| format!("div/rem word {:?} , {:#x}", x, w));
    if w == 0 {
        c.state(0);
        c.must_panic("division by zero word", || nat(x) / w)?; c.must_panic("remainder by zero word", || nat(x) % w)?;
        c.must_panic("assigning division by zero word", || { let mut a = nat(x); a /= w; })?; return c.must_panic("assigning remainder by zero word", || { let mut a = nat(x); a %= w; });
    }
    let (q, r) = x.divrem_u32(w); let r = N::u(r as u128); c.state(mix(q.hash(), r.hash())); c.steps(4);
    ck!(is(&(nat(x) / w), &q), "{:?} / {:#x}u32", x, w);
    ck!(is(&(nat(x) % w), &r), "{:?} % {:#x}u32", x, w);
    let mut a = nat(x); a /= w; ck!(is(&a, &q), "{:?} /= {:#x}u32", x, w);
    let mut a = nat(x); a %= w; ck!(is(&a, &r), "{:?} %= {:#x}u32", x, w);
    Ok(())
}
pub fn c03(t: Tier) -> Vec<Suite> {
    let d4 = limb_vecs(&LIMBS, t.pick(4, 4)); let d3 = limb_vecs(&LIMBS, 3);
    let mut v = vec![
        pairs("pairs", "dividends: limb vectors of length 0..=4, divisors: length 0..=3, over 6 boundary limbs", d4.clone(), d3.clone(), divrem),
        pairs("small", "all pairs of small numbers", small(t.pick(800, 2500)), small(t.pick(800, 2500)), divrem),
        words("word", { let mut b = limb_vecs(&LIMBS, 4); b.extend(patterns(1..=30, &[0, 3, 7, 8])); dedup(b) }, divrem_w),
        pairs("pow2", "2^i+d / 2^j+d", pow2s(t.pick(330, 500), t.pick(1, 1)), pow2s(140, t.pick(2, 1)), divrem),
    ];
    // dividends built around a multiple of the divisor
    let ds = limb_vecs(&LIMBS, 2); let qs = limb_vecs(&LIMBS, t.pick(3, 4));
    let (nd, nq) = (ds.len() as u64, qs.len() as u64);
    v.push(Suite::new("multiples", format!("{} divisors x {} quotients x remainders 0,1,d-1 and d-1 above", nd, nq), nd * nq * 3, move |i, c| {
        let s = split(i, &[nd, nq, 3]); let d = &ds[s[0]]; if d.is_zero() { return Ok(()); }
        let p = d.mul(&qs[s[1]]);
        let x = match s[2] { 0 => p, 1 => p.add(&N::one()), _ => p.add(&d.sub(&N::one())) };
        divrem(&x, d, c) }));
    let top = t.pick(30, 44); let np = t.pick(8, 8); let pk = [0usize, 7, 3, 8, 2, 5, 6, 9];
    v.push(Suite::new("lengths", format!("every pair of lengths 1..={} x {}x{} patterns", top, np, np), (top * top * np * np) as u64, move |i, c| {
        let s = split(i, &[np as u64, np as u64, top as u64, top as u64]);
        divrem(&pattern(s[2] + 1, pk[s[0]]), &pattern(s[3] + 1, pk[s[1]]), c) }));
    let lens = t.pick(vec![40, 41, 80, 81, 128, 160], vec![40, 41, 42, 79, 80, 81, 82, 128, 160, 161, 240]);
    let nl = lens.len();
    v.push(Suite::new("large", "large lengths x all smaller boundary lengths x patterns", (nl * nl * 4 * 4) as u64, move |i, c| {
        let s = split(i, &[4, 4, nl as u64, nl as u64]);
        divrem(&pattern(lens[s[2]], pk[s[0]]), &pattern((lens[s[3]] / 2).max(1), pk[s[1]]), c) }));
    { let b = holes(1..=t.pick(14, 20), &[0, 1, 0xffff_fffe]); v.push(pairs("holes", "all pairs of constant fillings with one different limb, every length up to 14 (thorough 20), every position", b.clone(), b, divrem)); }
    v.push(huge(t.pick(&[255, 256, 257, 400, 512][..], &[255, 256, 257, 400, 512, 513, 700, 1024]), divrem)); v.push(ladders(28, t.pick(150, 320), divrem)); v.push(nears(t.pick(60, 120), t.pick(5, 1), divrem));
    v
}

// ---------------------------------------------------------------- C04
fn bitpair(x: &N, y: &N, c: &mut Ctx) -> Res {
    c.note(|| format!("bitwise {:?} , {:?}", x, y));
    let (a, o, e, n) = (x.bitop(y, |a, b| a & b), x.bitop(y, |a, b| a | b), x.bitop(y, |a, b| a ^ b), x.bitop(y, |a, b| a & !b));
    c.state(mix(mix(a.hash(), o.hash()), mix(e.hash(), n.hash()))); c.steps(8);
    ck!(is(&(nat(x) & nat(y)), &a), "{:?} & {:?}", x, y);
    ck!(is(&(nat(x) | nat(y)), &o), "{:?} | {:?}", x, y);
    ck!(is(&(nat(x) ^ nat(y)), &e), "{:?} ^ {:?}", x, y);
    ck!(is(&nat(x).and_not(nat(y)), &n), "{:?} &^ {:?}", x, y);
    let mut t = nat(x); t &= nat(y); ck!(is(&t, &a), "{:?} &= {:?}", x, y);
    let mut t = nat(x); t |= nat(y); ck!(is(&t, &o), "{:?} |= {:?}", x, y);
    let mut t = nat(x); t ^= nat(y); ck!(is(&t, &e), "{:?} ^= {:?}", x, y);
    let mut t = nat(x); t.and_not_assign(nat(y)); ck!(is(&t, &n), "{:?} &^= {:?}", x, y);
    Ok(())
}
fn bitone(x: &N, c: &mut Ctx) -> Res {
    c.note(|| format!("bit queries of {:?}", x));
    let n = nat(x); let bl = x.bits().max(1);
    c.state(x.hash()); c.steps(3);
    want!(n.bits_len() == bl, "{:?}.bits_len() = {}, expected {}", x, n.bits_len(), bl);
    if !x.is_zero() { want!(n.trailling_zeros() == x.tz(), "{:?}.trailling_zeros() = {}", x, n.trailling_zeros()); }
    for i in 0..bl + 70 { c.step(); let w = if i < bl { Some(x.bit(i)) } else { None }; let g = n.is_set_bit(i); want!(g == w, "{:?}.is_set_bit({}) = {:?}, expected {:?}", x, i, g, w); }
    for i in [bl + 1000, usize::MAX / 2, usize::MAX] { c.step(); want!(n.is_set_bit(i).is_none(), "{:?}.is_set_bit({}) answers", x, i); }
    let not = N::one().shl(bl).sub(&N::one()).sub(x);
    ck!(is(&!nat(x), &not), "!{:?}", x);
    Ok(())
}
fn shifts(x: &N, s: usize, c: &mut Ctx) -> Res {
    c.note(|| format!("{:?} << / >> {}", x, s));
    let (l, r) = (x.shl(s), x.shr(s)); c.state(mix(l.hash(), r.hash())); c.steps(4);
    ck!(is(&(nat(x) << s), &l), "{:?} << {}", x, s);
    ck!(is(&(nat(x) >> s), &r), "{:?} >> {}", x, s);
    let mut t = nat(x); t <<= s; ck!(is(&t, &l), "{:?} <<= {}", x, s);
    let mut t = nat(x); t >>= s; ck!(is(&t, &r), "{:?} >>= {}", x, s);
    Ok(())
}
fn far(x: &N, c: &mut Ctx) -> Res {
    let (n, low) = (x.bits(), x.tz()); c.note(|| format!("{} bits, lowest set bit {}", n, low)); c.state(x.hash()); c.steps(3);
    let a = nat(x); let chk = |g: &Nat, w: &N| see(g).map_or(false, |g| g == *w);
    want!(a.bits_len() == n && a.trailling_zeros() == low, "bits_len {}, trailling_zeros {}", a.bits_len(), a.trailling_zeros());
    want!(chk(&!nat(x), &N::one().shl(n).sub(&N::one()).sub(x)), "complement");
    let mut at: Vec<usize> = (12..19).map(|e| 1usize << e).chain([0, low, n, n / 2]).flat_map(|p| p.saturating_sub(3)..p + 4).collect(); at.sort(); at.dedup();
    for i in at { c.step(); let w = if i < n { Some(x.bit(i)) } else { None }; let g = a.is_set_bit(i); want!(g == w, "bit {}: {:?}, expected {:?}", i, g, w); }
    for s in [1usize, 33, 4096, 65535, 65536, 65537, n - 1, n, n + 1, low, low + 1] { c.steps(4);
        let (l, r) = (x.shl(s), x.shr(s));
        want!(chk(&(nat(x) << s), &l), "<< {}", s); want!(chk(&(nat(x) >> s), &r), ">> {}", s);
        let mut a = nat(x); a <<= s; want!(chk(&a, &l), "<<= {}", s); let mut a = nat(x); a >>= s; want!(chk(&a, &r), ">>= {}", s);
    }
    Ok(())
}
fn million_shift(x: &N, s: usize, c: &mut Ctx) -> Res {
    c.note(|| format!("{:?} shifted by {}", x, s)); c.steps(6); c.state(mix(x.hash(), s as u64));
    let l = x.shl(s); let a = nat(x) << s;
    want!(see(&a).map_or(false, |g| g == l), "<< {}", s);
    want!(a.bits_len() == x.bits() + s && a.trailling_zeros() == x.tz() + s, "<< {}: {} bits, {} trailing zeros", s, a.bits_len(), a.trailling_zeros());
    let mut b = nat(x); b <<= s; want!(see(&b).map_or(false, |g| g == l), "<<= {}", s);
    for i in [0, s / 2, s - 1, s, s + 1, s + x.bits() - 1] { if i >= s + x.bits() { continue; } let w = i >= s && x.bit(i - s); want!(a.is_set_bit(i) == Some(w), "<< {}: bit {}", s, i); }
    want!(see(&(a.clone() >> s)).map_or(false, |g| g == *x), "<< {} >> {}", s, s);
    b >>= s - 1; want!(see(&b).map_or(false, |g| g == x.shl(1)), "<<= {} >>= {}", s, s - 1);
    Ok(())
}
fn shift_beyond(x: &N, s: usize, c: &mut Ctx) -> Res {
    c.note(|| format!("{:?} shifted right by {}", x, s)); c.steps(3); c.state(mix(x.hash(), s as u64));
    ck!(is(&(nat(x) >> s), &N::zero()), "{:?} >> {}", x, s);
    let mut a = nat(x); a >>= s; ck!(is(&a, &N::zero()), "{:?} >>= {}", x, s);
    want!(nat(x).is_set_bit(s).is_none(), "bit {} of {:?}", s, x);
    Ok(())
}
pub fn c04(t: Tier) -> Vec<Suite> {
    let b4 = { let mut b = limb_vecs(&LIMBS, 4); b.extend(small(30)); dedup(b) };
    let b3 = limb_vecs(&LIMBS, t.pick(4, 5));
    let ns = t.pick(330, 660);
    let sh = { let mut b = limb_vecs(&LIMBS, t.pick(4, 4)); b.extend(patterns(4..=t.pick(20, 30), &(0..NPAT).collect::<Vec<_>>())); b.extend(small(70)); dedup(b) };
    let nx = sh.len() as u64;
    let long = patterns(1..=t.pick(45, 80), &(0..NPAT).collect::<Vec<_>>());
    vec![
        pairs("bitwise", "all pairs of limb vectors of length 0..=4 x 0..=3 (thorough 4) over 6 boundary limbs", b4.clone(), b3, bitpair),
        pairs("bitwise-small", "all pairs of small numbers", small(t.pick(1100, 3000)), small(t.pick(1100, 3000)), bitpair),
        { let b = holes(1..=t.pick(12, 18), &[0, 1, 0xffff_fffe]); pairs("bitwise-holes", "all pairs of constant fillings with one different limb, every length up to 12 (thorough 18), every position", b.clone(), b, bitpair) },
        pairs("bitwise-long", "every pair of lengths x 10 patterns", long.clone(), long.clone(), bitpair),
        huge(&[1000, 1023, 1024, 1025, 2048, 4096, 10000, 65536], bitpair), ladders(44, t.pick(200, 500), bitpair), nears(t.pick(100, 250), t.pick(3, 1), bitpair),
        { let nl = t.pick(200u64, 500); Suite::new("shifts-long", format!("every length 20..={} x 5 patterns x shift counts around limb multiples, the length and beyond it", nl), (nl - 19) * 5 * 24, move |i, c| { let s = split(i, &[nl - 19, 5, 24]); let l = s[0] + 20; let x = pattern(l, [0, 3, 7, 8, 1][s[1]]); let k = [0, 1, 7, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 16 * l, 16 * l + 5, 32 * l - 33, 32 * l - 32, 32 * l - 31, 32 * l - 1, 32 * l, 32 * l + 1, 32 * l + 40, 1000, 2048][s[2]]; shifts(&x, k, c) }) },
        singles("queries-long", "every bit index of long patterns", patterns((t.pick(46, 80)..=t.pick(150, 300)).step_by(3), &[0, 1, 3, 7, 8]), bitone),
        singles("queries", "every bit index of limb vectors of length 0..=4, 2^i+d, long patterns", { let mut b = b4; b.extend(pow2s(300, 1)); b.extend(long); dedup(b) }, bitone),
        Suite::new("shifts", format!("{} naturals x every shift count 0..{}", nx, ns), nx * ns, move |i, c| { let s = split(i, &[nx, ns]); shifts(&sh[s[0]], s[1], c) }),
        { let b = [N::one(), N::u(5), N::u(0x8000_0001), N::new(vec![0, 0, 1, u32::MAX]), N::new(vec![u32::MAX; 3])]; let ss = million(t); let d = [ss.len() as u64, 5]; Suite::new("million", format!("5 numbers shifted left by {} distances from 2^16 to 1.5 * 2^{}, and back", ss.len(), t.pick(22, 25)), d.iter().product(), move |i, c| { let s = split(i, &d); million_shift(&b[s[1]], ss[s[0]], c) }) },
        { let b = { let mut b = limb_vecs(&LIMBS, 3); b.extend(patterns(4..=12, &(0..NPAT).collect::<Vec<_>>())); b.retain(|x| !x.is_zero()); dedup(b) }; let ss = beyond(); let d = [b.len() as u64, ss.len() as u64]; Suite::new("beyond", format!("right shifts and bit queries at {} positions from 2^20 to the largest, many congruent to small numbers modulo 2^16, 2^21, 2^32 and 2^37", ss.len()), d.iter().product(), move |i, c| { let s = split(i, &d); shift_beyond(&b[s[0]], ss[s[1]], c) }) },
        { let ks = far_lens(t); let d = [ks.len() as u64, 8, 3]; Suite::new("far", format!("2^k + 2^j + r for k in {:?}, 8 positions j, 3 tails r: bits around j, k and every power of two, trailing zeros, complement, shifts that reach beyond bit 65536", ks), d.iter().product(), move |i, c| { let s = split(i, &d); far(&far_val(ks[s[0]], s[1], s[2]), c) }) },
        { let sm = small(t.pick(5000, 20000)); let n = sm.len() as u64; Suite::new("shifts-small", "small numbers x shift counts 0..70 and large counts", n * 76, move |i, c| { let s = split(i, &[n, 76]); let k = if s[1] < 70 { s[1] } else { [127, 128, 129, 1023, 1024, 4096][s[1] - 70] }; shifts(&sm[s[0]], k, c) }) },
    ]
}

// ---------------------------------------------------------------- C05
const ROUTES: usize = 39;
/// produce the number x through the r-th route; None if the route does not apply
fn route(x: &N, r: usize) -> Option<(Nat, &'static str)> {
    let n = || nat(x);
    let small = x.to_u128().map_or(false, |v| v < 1 << 32);
    let w = 0x9e37_79b9u32;
    Some(match r {
        0 => (n(), "limbs"),
        1 => (n() + 0u32, "+0u32"),
        2 => ((n() + 1u32) - 1u32, "+1-1 words"),
        3 => ((n() + w) - w, "+w-w"),
        4 => (n() + nat(&N::zero()), "+0"),
        5 => { let k = x.shl(40).add(&N::u(7)); ((n() + nat(&k)) - nat(&k), "+k-k") }
        6 => { let k = x.add(&N::u(5)); (nat(&k) - nat(&N::u(5)), "(x+5)-5") }
        7 => { let k = N::one().shl(x.bits() + 33); (nat(&k.add(x)) - nat(&k), "(2^k+x)-2^k") }
        8 => { let k = N::one().shl(x.bits() + 33); (nat(&k.sub(x)) - nat(&k), "|(2^k-x)-2^k|") }
        9 => (n() * 1u32, "*1u32"),
        10 => (n() * nat(&N::one()), "*1"),
        11 => ((n() * w) / w, "*w/w"),
        12 => { let k = N::new(vec![7, 1, 0, 3]); ((n() * nat(&k)) / nat(&k), "*k/k") }
        13 => (n() % nat(&x.add(&N::one())), "%(x+1)"),
        14 => { let m = x.add(&N::one()); (nat(&m.mul(&N::u(9)).add(x)) % nat(&m), "(9m+x)%m") }
        15 => ((n() << 32) >> 32, "<<32>>32"),
        16 => ((n() << 37) >> 37, "<<37>>37"),
        17 => ((n() << 64) >> 64, "<<64>>64"),
        18 => ((n() << 1) >> 1, "<<1>>1"),
        19 => (n() | n(), "x|x"),
        20 => (n() & n(), "x&x"),
        21 => { let k = N::one().shl(x.bits() + 40); (nat(&k.add(x)) ^ nat(&k), "xor high") }
        22 => { let k = N::one().shl(x.bits() + 40); (nat(&k.add(x)).and_not(nat(&k)), "and_not high") }
        23 => { let k = N::one().shl(x.bits() + 40).sub(&N::one()); (nat(&x.add(&N::one().shl(x.bits() + 80))) & nat(&k), "mask") }
        24 => { let mut b = x.le_bytes(); b.extend([0, 0, 0, 0, 0]); (Nat::from(&b[..]), "le bytes with zeros") }
        25 => { let mut b = x.le_bytes(); b.extend([0, 0, 0]); b.reverse(); (Nat::from_be_bytes(&b), "be bytes with zeros") }
        26 => { let mut v = x.0.clone(); v.extend([0, 0]); (Nat::from(v), "limbs with zeros") }
        27 => (Nat::from_str(&x.to_radix(10)).ok()?, "decimal"),
        28 => (Nat::from_str(&format!("0x0000000000{}", x.to_radix(16))).ok()?, "hex with zeros"),
        29 => (Nat::from_str(&format!("0b0{}", x.to_radix(2))).ok()?, "binary"),
        30 => (nat(&x.mul(x)).sqrt(), "sqrt of square"),
        31 => (n().pow(nat(&N::one())), "pow 1"),
        32 => { let m = x.add(&N::u(2)); (n().exp(&nat(&N::one()), &nat(&m)), "exp 1") }
        33 if small => (Nat::from(x.to_u128().unwrap()), "u128"),
        // the complement of a number with 1, 32, 64, 101, 200 leading ones
        r @ 34..=38 => { let k = x.bits() + [1, 32, 64, 101, 200][r - 34]; (!nat(&N::one().shl(k).sub(&N::one()).sub(x)), ["complement, 1 leading one", "complement, 32 leading ones", "complement, 64 leading ones", "complement, 101 leading ones", "complement, 200 leading ones"][r - 34]) }
        _ => return None,
    })
}
fn canon(x: &N, c: &mut Ctx) -> Res {
    let d = nat(x);
    for r in 0..ROUTES {
        c.note(|| format!("value {:?} through route {}", x, r));
        let (v, name) = match route(x, r) { Some(v) => v, None => continue };
        c.steps(5); c.state(mix(x.hash(), r as u64));
        ck!(is(&v, x), "{:?} via {}", x, name);
        want!(v == d && d == v, "{:?} via {} is not equal to the same number", x, name);
        want!(v.partial_cmp(&d) == Some(Ordering::Equal) && d.partial_cmp(&v) == Some(Ordering::Equal), "{:?} via {} does not order as equal", x, name);
        want!(v >= d && v <= d && !(v < d) && !(v > d), "{:?} via {}: ordering operators", x, name);
        let up = nat(&x.add(&N::one()));
        want!(v != up && v < up && up > v, "{:?} via {} against its successor", x, name);
    }
    Ok(())
}
fn machine_cmp(n: &Nat, x: &N) -> Res {
    macro_rules! m { ($t:ty) => { { let v: Vec<$t> = vec![0, 1, 2, 127, <$t>::MAX, <$t>::MAX - 1, <$t>::MAX / 2, <$t>::MAX / 2 + 1]; for k in v { let kk = N::u(k as u128);
        want!((*n == k) == (*x == kk), "{:?} == {}{}", x, k, stringify!($t)); want!(n.partial_cmp(&k) == Some(x.cmp(&kk)), "{:?} <=> {}{}", x, k, stringify!($t)); } } } }
    m!(u8); m!(u16); m!(u32); m!(u64); m!(u128); m!(usize);
    Ok(())
}
const IROUTES: usize = 16;
fn iroute(z: &Z, r: usize) -> (BigInt, &'static str) {
    let i = || int(z);
    let k = Z::new(true, N::new(vec![5, 9]));
    match r {
        0 => (i(), "direct"),
        1 => (-(-i()), "double negation"),
        2 => (i() + int(&k) - int(&k), "+k-k"),
        3 => (int(&k) - (int(&k) - i()), "k-(k-z)"),
        4 => (i() * int(&k) / int(&k), "*k/k"),
        5 => ((i() << 33) >> 33, "<<33>>33"),
        6 => (!(!i()), "double complement"),
        7 => (i() % int(&Z::new(true, z.m.add(&N::one()))), "%-(|z|+1)"),
        8 => (int(&z.mul(&Z::i(1000003))) / int(&Z::i(1000003)), "multiple / k"),
        9 => ((i() ^ int(&k)) ^ int(&k), "xor xor"),
        10 => (i() & i(), "z&z"),
        11 => (i() | i(), "z|z"),
        12 => (BigInt::from_str(&z.dec()).unwrap(), "decimal"),
        13 => (int(&z.add(&Z::i(1))) - int(&Z::i(1)), "(z+1)-1"),
        14 => (int(&z.sub(&Z::i(1))) + int(&Z::i(1)), "(z-1)+1"),
        _ => { let n = Z::pos(z.m.add(&N::one())); (i().div_euclid(int(&n)) * int(&n) + i().rem_euclid(int(&n)), "q*n+r") }
    }
}
fn icanon(z: &Z, c: &mut Ctx) -> Res {
    let d = int(z);
    for r in 0..IROUTES {
        c.note(|| format!("integer {:?} through route {}", z, r));
        let (v, name) = iroute(z, r);
        c.steps(4); c.state(mix(z.hash(), r as u64));
        ck!(is_int(&v, z), "{:?} via {}", z, name);
        want!(v == d && d == v && v.partial_cmp(&d) == Some(Ordering::Equal), "{:?} via {} differs from the same number", z, name);
        want!(v.signnum() == Some(z.sign()) && v.is_negative() == z.neg && v.is_natural() != z.neg && v.is_positive() == (z.sign() > 0), "{:?} via {}: sign queries", z, name);
        want!((v == 0u32) == z.is_zero() && (v == 1u32) == (*z == Z::i(1)), "{:?} via {}: == u32", z, name);
    }
    // zero produced as a result is never negative
    c.note(|| format!("zeros from {:?}", z));
    let zz = Z::zero();
    let mut zs: Vec<(BigInt, &str)> = vec![(d.clone() - int(z), "z-z"), (int(z) + int(&z.neg()), "z+(-z)"), (int(z) * int(&zz), "z*0"), (int(&zz) * int(z), "0*z"), (int(z) ^ int(z), "z^z"), (int(z).and_not(int(z)), "z&^z"), (int(z) & int(&zz), "z&0")];
    if !z.is_zero() {
        zs.push((int(&zz) / int(z), "0/z")); zs.push((int(&zz) % int(z), "0%z")); zs.push((int(z) % int(z), "z%z")); zs.push((int(z) % int(&z.neg()), "z%-z")); zs.push((int(&z.mul(&Z::i(3))) % int(z), "3z%z"));
        let big = Z::pos(z.m.mul(&N::u(2)).add(&N::one())); zs.push((int(z) / int(&big), "z/(2|z|+1)")); zs.push((int(z) / int(&big.neg()), "z/-(2|z|+1)")); zs.push((int(z).rem_euclid(int(z)), "z rem_euclid z"));
        zs.push((int(&zz).div_euclid(int(z)), "0 div_euclid z"));
    }
    for (v, name) in zs { c.step(); ck!(is_int(&v, &zz), "{} for z = {:?}", name, z); want!(v == int(&zz) && v == 0u32 && v.partial_cmp(&int(&zz)) == Some(Ordering::Equal), "{} for z = {:?} is not equal to 0", name, z); }
    let mut v = int(&zz); v.set_negative(); ck!(is_int(&v, &zz), "0.set_negative()"); ck!(is_int(&-int(&zz), &zz), "-0");
    let mut v = int(z); v.set_negative(); ck!(is_int(&v, &Z::new(true, z.m.clone())), "set_negative"); v.set_natural(); ck!(is_int(&v, &Z::pos(z.m.clone())), "set_natural");
    Ok(())
}
fn order1(x: &N, y: &N, c: &mut Ctx) -> Res {
    c.note(|| format!("compare {:?} , {:?}", x, y)); c.steps(4);
    let (a, b) = (nat(x), nat(y)); let o = x.cmp(y); c.state(mix(o as i8 as u64, mix(x.0.len() as u64, y.0.len() as u64)));
    want!((a == b) == (o == Ordering::Equal) && (a != b) == (o != Ordering::Equal), "{:?} == {:?}", x, y);
    want!(a.partial_cmp(&b) == Some(o), "{:?} <=> {:?} is {:?}", x, y, a.partial_cmp(&b));
    want!((a < b) == (o == Ordering::Less) && (a > b) == (o == Ordering::Greater) && (a <= b) == (o != Ordering::Greater) && (a >= b) == (o != Ordering::Less), "order operators on {:?} , {:?}", x, y);
    Ok(())
}
/// naturals, and integers of all sign combinations
fn order2(x: &N, y: &N, c: &mut Ctx) -> Res {
    order1(x, y, c)?; order1(x, x, c)?; c.steps(4);
    for s in 0..4 { let (p, q) = (Z::new(s & 1 == 1, x.clone()), Z::new(s & 2 == 2, y.clone())); let (a, b) = (int(&p), int(&q)); let o = p.cmp(&q);
        want!(a.partial_cmp(&b) == Some(o) && (a == b) == (o == Ordering::Equal) && (a < b) == (o == Ordering::Less) && (a > b) == (o == Ordering::Greater), "{:?} <=> {:?} is {:?}", p, q, a.partial_cmp(&b)); }
    Ok(())
}
pub fn c05(t: Tier) -> Vec<Suite> {
    let vals = { let mut b = limb_vecs(&LIMBS, t.pick(4, 4)); b.extend(small(t.pick(2000, 8000))); b.extend(pow2s(t.pick(330, 700), 1)); b.extend(patterns(4..=6, &(0..NPAT).collect::<Vec<_>>())); dedup(b) };
    let cmp = { let mut b = limb_vecs(&LIMBS, t.pick(4, 4)); b.extend(small(20)); b.extend(pow2s(130, 8)); dedup(b) };
    let ints = signed(&{ let mut b = limb_vecs(&LIMBS, t.pick(3, 4)); b.extend(small(60)); b.extend(pow2s(100, 3)); dedup(b) });
    let zi = Arc::new(signed(&{ let mut b = limb_vecs(&LIMBS, 2); b.extend(small(40)); b.extend(pow2s(100, 6)); dedup(b) }));
    let ni = ints.len() as u64; let nz = zi.len() as u64;
    vec![
        singles("routes", "every value through every production route", vals, canon),
        pairs("order", "equality and order of all pairs of naturals", cmp.clone(), cmp.clone(), order1),
        nears(t.pick(200, 400), t.pick(2, 1), order2), ladders(5, t.pick(200, 400), order2), huge(&[1000, 1023, 1024, 1025, 2048, 4096, 10000, 65536], order2),
        { let l = t.pick(26usize, 40); let mut v = vec![]; for n in 2..=l { for a in 1..n { for b in 0..a { v.push((n, a, b)); } } } let k = v.len() as u64; Suite::new("two-limbs", format!("operands of every length up to {} that differ in two limbs in opposite directions: the higher one decides", l), k * 3, move |i, c| { let (n, a, b) = v[(i / 3) as usize]; let mut x = match i % 3 { 0 => vec![5u32; n], 1 => vec![0x8000_0000; n], _ => vec![0xffff_fffe; n] }; let mut y = x.clone(); x[a] += 1; y[b] += 1; order2(&N::new(y.clone()), &N::new(x.clone()), c)?; x[b] -= 1; order2(&N::new(x), &N::new(y), c) }) },
        { let v = patterns((7..=t.pick(60, 120)).chain([100, 127, 128, 129, 160, 161]), &[0, 1, 7, 8]); singles("routes-long", "long values through every production route", v, canon) },
        singles("machine", "naturals against machine integers of every width", { let mut b = cmp; b.extend(pow2s(130, 1)); b.extend(small(300)); dedup(b) }, |x, c| { c.note(|| format!("compare {:?} with machine integers", x)); c.steps(96); c.state(x.hash()); machine_cmp(&nat(x), x) }),
        Suite::new("int-routes", format!("{} integers through every production route; all ways to make zero", ni), ni, move |i, c| icanon(&ints[i as usize], c)),
        Suite::new("int-order", format!("equality and order of all pairs of {} integers", nz), nz * nz, move |i, c| {
            let s = split(i, &[nz, nz]); let (x, y) = (&zi[s[0]], &zi[s[1]]); c.note(|| format!("compare {:?} , {:?}", x, y)); c.steps(2);
            let (a, b) = (int(x), int(y)); let o = x.cmp(y); c.state(mix(o as i8 as u64, mix(x.sign() as u64, y.sign() as u64)));
            want!((a == b) == (o == Ordering::Equal), "{:?} == {:?}", x, y);
            want!(a.partial_cmp(&b) == Some(o), "{:?} <=> {:?} is {:?}", x, y, a.partial_cmp(&b));
            if !y.neg && y.m.0.len() <= 1 { let k = *y.m.0.first().unwrap_or(&0); want!((a == k) == (o == Ordering::Equal), "{:?} == {}u32", x, k); }
            Ok(()) }),
    ]
}

// ---------------------------------------------------------------- C06
fn bytes_case(b: &[u8], c: &mut Ctx) -> Res {
    c.note(|| format!("bytes {:x?}", b));
    let want_le = N::new({ let mut v = vec![0u32; b.len() / 4 + 1]; for (i, &x) in b.iter().enumerate() { v[i / 4] |= (x as u32) << (8 * (i % 4)); } v });
    let rev: Vec<u8> = b.iter().rev().cloned().collect();
    c.steps(8); c.state(want_le.hash());
    ck!(is(&Nat::from_le_bytes(b), &want_le), "Nat::from_le_bytes({:x?})", b);
    ck!(is(&Nat::from_be_bytes(&rev), &want_le), "Nat::from_be_bytes({:x?})", rev);
    ck!(is(&Nat::from(b), &want_le), "Nat::from(&{:x?})", b);
    ck!(is(&Nat::from(b.to_vec()), &want_le), "Nat::from(vec {:x?})", b);
    ck!(is(&Nat::from(&b.to_vec()), &want_le), "Nat::from(&vec {:x?})", b);
    let z = Z::pos(want_le.clone());
    ck!(is_int(&BigInt::from_le_bytes(b), &z), "BigInt::from_le_bytes({:x?})", b);
    ck!(is_int(&BigInt::from_be_bytes(&rev), &z), "BigInt::from_be_bytes({:x?})", rev);
    ck!(is_int(&BigInt::from(b), &z), "BigInt::from(&{:x?})", b);
    ck!(is_int(&BigInt::from(b.to_vec()), &z), "BigInt::from(vec {:x?})", b);
    ck!(is_int(&BigInt::from(&b.to_vec()), &z), "BigInt::from(&vec {:x?})", b);
    export(&want_le, c)
}
fn export(x: &N, c: &mut Ctx) -> Res {
    let le = x.le_bytes(); let mut be = le.clone(); be.reverse();
    c.steps(8);
    let n = nat(x); let i = int(&Z::new(true, x.clone()));
    for (g, w, name) in [(n.to_le_bytes(), &le, "to_le_bytes"), (n.to_be_bytes(), &be, "to_be_bytes"), (i.to_le_bytes(), &le, "BigInt to_le_bytes"), (i.to_be_bytes(), &be, "BigInt to_be_bytes")] { want!(g == *w, "{:?}.{} = {:x?}, expected {:x?}", x, name, g, w); }
    for dirty in [vec![], vec![1u8, 2, 3], vec![9u8; 40]] {
        let mut d = dirty.clone(); n.copy_to_le(&mut d); want!(d == le, "{:?}.copy_to_le(dirty) = {:x?}", x, d);
        let mut d = dirty.clone(); n.copy_to_be(&mut d); want!(d == be, "{:?}.copy_to_be(dirty) = {:x?}", x, d);
        let mut d = dirty.clone(); i.copy_to_le(&mut d); want!(d == le, "BigInt {:?}.copy_to_le(dirty) = {:x?}", x, d);
        let mut d = dirty; i.copy_to_be(&mut d); want!(d == be, "BigInt {:?}.copy_to_be(dirty) = {:x?}", x, d);
    }
    ck!(is(&Nat::from_le_bytes(&n.to_le_bytes()), x), "le round trip"); ck!(is(&Nat::from_be_bytes(&n.to_be_bytes()), x), "be round trip");
    ck!(is(&n.deep_clone(), x), "deep_clone");
    Ok(())
}
fn limbs_case(v: &[u32], c: &mut Ctx) -> Res {
    c.note(|| format!("limbs {:x?}", v));
    let x = N::new(v.to_vec()); c.steps(6); c.state(mix(x.hash(), v.len() as u64));
    ck!(is(&Nat::from(v), &x), "Nat::from(&{:x?})", v); ck!(is(&Nat::from(v.to_vec()), &x), "Nat::from({:x?})", v); ck!(is(&Nat::from(&v.to_vec()), &x), "Nat::from(&vec {:x?})", v);
    let z = Z::pos(x.clone());
    ck!(is_int(&BigInt::from(v), &z), "BigInt::from(&{:x?})", v); ck!(is_int(&BigInt::from(v.to_vec()), &z), "BigInt::from({:x?})", v); ck!(is_int(&BigInt::from(&v.to_vec()), &z), "BigInt::from(&vec {:x?})", v);
    ck!(is_int(&BigInt::from(nat(&x)), &z), "BigInt::from(Nat)");
    export(&x, c)
}
fn machine_case(v: i128, c: &mut Ctx) -> Res {
    c.note(|| format!("machine integer {}", v));
    let z = Z::i(v); c.state(z.hash());
    macro_rules! u { ($($t:ty),*) => { $( if v >= 0 && v as u128 <= <$t>::MAX as u128 { c.steps(2); let k = v as $t; ck!(is(&Nat::from(k), &z.m), "Nat::from({}{})", k, stringify!($t)); ck!(is_int(&BigInt::from(k), &z), "BigInt::from({}{})", k, stringify!($t)); } )* } }
    macro_rules! s { ($($t:ty),*) => { $( if v >= <$t>::MIN as i128 && v <= <$t>::MAX as i128 { c.step(); let k = v as $t; ck!(is_int(&BigInt::from(k), &z), "BigInt::from({}{})", k, stringify!($t)); } )* } }
    u!(u8, u16, u32, u64, u128, usize); s!(i8, i16, i32, i64, i128, isize);
    Ok(())
}
pub fn c06(t: Tier) -> Vec<Suite> {
    let al = [0u8, 1, 0x7f, 0x80, 0xff]; let ml = t.pick(9, 10);
    let mut starts = vec![]; let mut tot = 0u64; for l in 1..=ml { starts.push((tot, l)); tot += 5u64.pow(l); }
    let mut v = vec![Suite::new("bytes", format!("every byte string of length 1..={} over 5 boundary bytes, in both byte orders", ml), tot, move |i, c| {
        let &(s, l) = starts.iter().rev().find(|(s, _)| *s <= i).unwrap(); let mut k = i - s;
        let b: Vec<u8> = (0..l).map(|_| { let r = al[(k % 5) as usize]; k /= 5; r }).collect(); bytes_case(&b, c) })];
    v.push(Suite::new("bytes2", "every byte string of length 1 and 2", 256 + 65536, |i, c| if i < 256 { bytes_case(&[i as u8], c) } else { let i = i - 256; bytes_case(&[i as u8, (i >> 8) as u8], c) }));
    let ll = lens(t.pick(140, 300), &[511, 512, 1000, 1023, 1025, 4099, 8192, 65539]); let nll = ll.len() as u64;
    v.push(Suite::new("bytes-long", format!("every length 1..={} and 8 up to 65539 x 6 patterns x 0..4 superfluous zeros", t.pick(140, 300)), nll * 6 * 5, move |i, c| {
        let s = split(i, &[nll, 6, 5]); let l = ll[s[0]];
        let mut b: Vec<u8> = (0..l).map(|j| match s[1] { 0 => 0xff, 1 => if j + 1 == l { 1 } else { 0 }, 2 => (j * 37 + 11) as u8, 3 => if j == 0 { 0x80 } else { 0 }, 4 => if j % 4 == 3 { 0x80 } else { 0 }, _ => 0 }).collect();
        b.extend(vec![0; s[2]]); bytes_case(&b, c) }));
    let lw = t.pick(6, 7); let lal = [0u32, 1, 0xff, 0x100, 0xffff, 0x1_0000, 0xff_ffff, 0x100_0000, 0x8000_0000, 0xffff_ffff];
    let mut lst = vec![]; let mut lt = 0u64; for l in 1..=lw { lst.push((lt, l)); lt += 10u64.pow(l as u32); }
    v.push(Suite::new("limbs", format!("every limb vector of length 1..={} over 10 byte-boundary limbs, superfluous zero limbs included", lw), lt, move |i, c| {
        let &(s, l) = lst.iter().rev().find(|(s, _)| *s <= i).unwrap(); let mut k = i - s;
        let b: Vec<u32> = (0..l).map(|_| { let r = lal[(k % 10) as usize]; k /= 10; r }).collect(); limbs_case(&b, c) }));
    let lmax = t.pick(300u64, 700);
    v.push(Suite::new("limbs-long", format!("limb vectors of every length 1..={} x 10 patterns x 0..=2 superfluous zero limbs", lmax), lmax * 10 * 3, move |i, c| { let s = split(i, &[lmax, 10, 3]); let mut x = pattern(s[0] + 1, s[1]).0; x.extend(vec![0; s[2]]); limbs_case(&x, c) }));
    let bmax = t.pick(300u64, 700);
    v.push(Suite::new("byte-spikes", format!("byte strings of every length up to {} with a single different byte at every boundary and every seventh position", bmax), bmax * 60, move |i, c| { let s = split(i, &[bmax, 60]); let l = s[0] + 1; let (fill, p) = (s[1] % 2, s[1] / 2); let p = if p < 9 { p } else if p < 18 { match (l + 8).checked_sub(p) { Some(x) => x.min(l.saturating_sub(1)), None => return Ok(()) } } else { (p - 17) * l / 13 }; if p >= l { return Ok(()); } let mut b = vec![if fill == 0 { 0u8 } else { 0xff }; l]; b[p] = if fill == 0 { 0x80 } else { 0x7f }; if fill == 0 { b[l - 1] |= 1; } bytes_case(&b, c) }));
    v.push(Suite::new("nan", "not-a-number exported over buffers with every earlier content length 0..=64", 65, |i, c| { c.note(|| format!("buffer of {} bytes", i)); c.steps(8); c.state(i);
        let (n, z) = (Nat::from_le_bytes(&[]), BigInt::from(Nat::from_le_bytes(&[]))); ck!(if n.is_nan() && z.is_nan() { Ok(()) } else { Err("the empty byte string is a number".to_string()) }, "import");
        want!(n.to_le_bytes().is_empty() && n.to_be_bytes().is_empty() && z.to_le_bytes().is_empty() && z.to_be_bytes().is_empty(), "NaN has bytes");
        for k in 0..4 { let mut d = vec![0xa5u8; i as usize]; match k { 0 => n.copy_to_le(&mut d), 1 => n.copy_to_be(&mut d), 2 => z.copy_to_le(&mut d), _ => z.copy_to_be(&mut d) } want!(d.is_empty(), "copying NaN leaves {} bytes in the buffer", d.len()); }
        Ok(()) }));
    let mut m: Vec<i128> = (-70000..=70000).collect();
    for i in 0..127 { for d in -2i128..=2 { let p = 1i128 << i; for x in [p.checked_add(d), (-p).checked_add(d)].iter().flatten() { m.push(*x); } } }
    m.extend([i128::MIN, i128::MIN + 1, i128::MAX]); m.sort(); m.dedup(); let n = m.len() as u64;
    v.push(Suite::new("machine", "every machine integer in -70000..=70000 and around every power of two, through every width that holds it", n, move |i, c| machine_case(m[i as usize], c)));
    v.push(Suite::new("u128", "the upper half of u128", 129, |i, c| { let k = if i == 128 { u128::MAX } else { u128::MAX - (1u128 << i) }; c.note(|| format!("u128 {}", k)); c.steps(2); let x = N::u(k); c.state(x.hash()); ck!(is(&Nat::from(k), &x), "Nat::from({}u128)", k); ck!(is_int(&BigInt::from(k), &Z::pos(x)), "BigInt::from({}u128)", k); Ok(()) }));
    v
}

// ---------------------------------------------------------------- C07
fn parse_case(s: &str, c: &mut Ctx) -> Res {
    c.note(|| format!("parse {:?}", s)); c.steps(2);
    match (model_parse(s, false), Nat::from_str(s)) {
        (Parse::Ok(z), Ok(n)) => { c.state(z.hash()); ck!(is(&n, &z.m), "Nat::from_str({:?})", s) }
        (Parse::Ok(z), Err(_)) => return Err(format!("Nat::from_str({:?}) is refused, expected {:?}", s, z)),
        (Parse::Err, Ok(n)) => return Err(format!("Nat::from_str({:?}) is accepted as {:?}, expected an error", s, see(&n))),
        (Parse::Any, r) => { c.state(77); if let Ok(n) = r { ck!(see(&n), "Nat::from_str({:?})", s) } }
        _ => { c.state(78) }
    }
    match (model_parse(s, true), BigInt::from_str(s)) {
        (Parse::Ok(z), Ok(n)) => { c.state(z.hash()); ck!(is_int(&n, &z), "BigInt::from_str({:?})", s) }
        (Parse::Ok(z), Err(_)) => return Err(format!("BigInt::from_str({:?}) is refused, expected {:?}", s, z)),
        (Parse::Err, Ok(n)) => return Err(format!("BigInt::from_str({:?}) is accepted as {:?}, expected an error", s, see_int(&n))),
        (Parse::Any, r) => { c.state(77); if let Ok(n) = r { ck!(see_int(&n), "BigInt::from_str({:?})", s) } }
        _ => { c.state(78) }
    }
    Ok(())
}
fn text_case(x: &N, c: &mut Ctx) -> Res {
    c.note(|| format!("format {:?}", x)); c.steps(28); c.state(x.hash());
    let (d, b, o, h) = (x.to_radix(10), x.to_radix(2), x.to_radix(8), x.to_radix(16)); let hu = h.to_uppercase();
    let n = nat(x);
    let m = |sign: &str, v: [String; 10]| -> Res {
        let e = [d.clone(), b.clone(), o.clone(), h.clone(), hu.clone(), d.clone(), format!("0b{}", b), format!("0o{}", o), format!("0x{}", h), format!("0x{}", hu)];
        let names = ["{}", "{:b}", "{:o}", "{:x}", "{:X}", "{:#}", "{:#b}", "{:#o}", "{:#x}", "{:#X}"];
        for i in 0..10 { let w = format!("{}{}", sign, e[i]); let alt = format!("{}{}", sign, e[i].replacen("0x", "0X", 1)); want!(v[i] == w || (i == 9 && v[i] == alt), "formatting {}{:?} with {} gives {:?}, expected {:?}", sign, x, names[i], v[i], w); }
        Ok(())
    };
    macro_rules! all { ($v:expr) => { [format!("{}", $v), format!("{:b}", $v), format!("{:o}", $v), format!("{:x}", $v), format!("{:X}", $v), format!("{:#}", $v), format!("{:#b}", $v), format!("{:#o}", $v), format!("{:#x}", $v), format!("{:#X}", $v)] } }
    m("", all!(n))?;
    m("", all!(int(&Z::pos(x.clone()))))?;
    let z = Z::new(true, x.clone());
    m(if z.neg { "-" } else { "" }, all!(int(&z)))?;
    for s in [d.clone(), format!("0b{}", b), format!("0B{}", b), format!("0o{}", o), format!("0x{}", h), format!("0X{}", hu), format!("0x00{}", h), format!("0b0{}", b), format!("0o000{}", o), format!("+{}", d), format!("  {}\n", d)] {
        ck!(Nat::from_str(&s).map_err(|_| "refused".to_string()).and_then(|v| is(&v, x)), "Nat::from_str({:?})", s);
        ck!(BigInt::from_str(&s).map_err(|_| "refused".to_string()).and_then(|v| is_int(&v, &Z::pos(x.clone()))), "BigInt::from_str({:?})", s);
        if !s.starts_with('+') { let s = format!(" -{} ", s.trim()); ck!(BigInt::from_str(&s).map_err(|_| "refused".to_string()).and_then(|v| is_int(&v, &z)), "BigInt::from_str({:?})", s); }
        // one illegal character anywhere is refused
    }
    Ok(())
}
pub fn c07(t: Tier) -> Vec<Suite> {
    static AL: [char; 16] = ['0', '1', '7', '8', '9', 'a', 'F', 'g', 'x', 'X', 'b', 'o', '+', '-', ' ', '_'];
    static AL2: [char; 6] = ['0', '1', '2', 'x', 'b', 'é'];
    static AL3: [char; 7] = ['0', '9', 'f', 'o', 'B', '-', '.'];
    let (n, f) = strings(&AL, t.pick(5, 6)); let (n2, f2) = strings(&AL2, t.pick(8, 9)); let (n3, f3) = strings(&AL3, t.pick(7, 8));
    let vals = { let mut b = limb_vecs(&LIMBS, 3); b.extend(small(t.pick(20000, 100000))); b.extend(pow2s(t.pick(600, 1000), 1)); b.extend(patterns(4..=t.pick(16, 24), &(0..NPAT).collect::<Vec<_>>())); for i in 0..t.pick(120, 200) { let p = N::u(10).pow(i); b.push(p.clone()); b.push(p.add(&N::one())); b.push(p.sub(&N::one())); } dedup(b) };
    let corrupt = Arc::new(vec!["123456789", "0x123456789abcdef01", "0b1010101010101010101010101010101010101", "0o1234567012345670", "-98765432109876543210", "+7"]);
    let cl: u64 = corrupt.iter().map(|s| s.len() as u64 + 1).sum(); let bad = [' ', 'g', 'z', '-', '+', '.', '_', '/', ':', '@', 'G', '`', '\0', 'é', '٣', 'x', '２'];
    vec![
        Suite::new("strings", format!("every string of length 0..={} over {:?}", t.pick(5, 6), AL), n, move |i, c| parse_case(&f(i), c)),
        Suite::new("strings2", "every longer string over 0 1 2 x b é", n2, move |i, c| parse_case(&f2(i), c)),
        Suite::new("strings3", "every longer string over 0 9 f o B - .", n3, move |i, c| parse_case(&f3(i), c)),
        singles("values", "text of values in every radix, and back", vals, text_case),
        { let ln: Vec<usize> = { let mut v: Vec<usize> = t.pick((1..=260).chain((261..700).step_by(11)).collect(), (1..=1000).collect()); v.extend([1000, 1024, 2047, 2731, 4096, 5000, 9000]); if t.thorough() { v.extend([16384, 20000, 22000]) } v }; let dm = ln.len() as u64; Suite::new("digits-long", format!("digit strings of {} lengths (every length up to 260, thorough 1000; up to {}) x 10 digit patterns x 4 radices, parsed and formatted", dm, ln[ln.len() - 1]), dm * 10 * 4, move |i, c| {
            let s = split(i, &[dm, 10, 4]); let l = ln[s[0]]; let r = [10u32, 16, 8, 2][s[2]]; let top = r - 1;
            let ds: Vec<u32> = (0..l).map(|j| match s[1] { 0 => top, 1 => (j == 0) as u32, 2 => (j == 0 || j + 1 == l) as u32, 3 => if j < l / 2 { top } else { 0 }, 4 => if j == 0 { 1 } else if j < l / 2 { 0 } else { top }, 5 => ((j * 7 + 3) as u32 % r).max((j == 0) as u32), 6 => if j % 9 == 0 { 1 } else { 0 }, 7 => if j == 0 { top } else { (j % 19 == 18) as u32 * top }, 8 => (j == 0 || j == l / 2) as u32, _ => if j == 0 { 1 } else { ((j as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) as u32 % r } }).collect();
            let t: String = ds.iter().map(|d| std::char::from_digit(*d, r).unwrap()).collect(); let x = N::from_radix(&t, r).unwrap();
            c.note(|| format!("{} digits in radix {}, pattern {}", l, r, s[1])); c.steps(3); c.state(x.hash());
            let t = format!("{}{}", ["", "0x", "0o", "0b"][s[2]], t);
            ck!(Nat::from_str(&t).map_err(|_| "refused".to_string()).and_then(|v| is(&v, &x)), "Nat::from_str({:?})", t);
            let z = Z::new(true, x.clone()); let tn = format!("-{}", t); ck!(BigInt::from_str(&tn).map_err(|_| "refused".to_string()).and_then(|v| is_int(&v, &z)), "BigInt::from_str({:?})", tn);
            if s[2] == 0 && l > 1024 { return Ok(()); } // decimal output takes cubic time
            let g = match s[2] { 0 => format!("{:#}", nat(&x)), 1 => format!("{:#x}", nat(&x)), 2 => format!("{:#o}", nat(&x)), _ => format!("{:#b}", nat(&x)) };
            want!(g == t, "{} digits in radix {} formatted as {:?}, expected {:?}", l, r, g, t); Ok(()) }) },
        { let l = t.pick(90usize, 200); let mut v = vec![]; for n in 1..=l { for p in 0..n { v.push((n, p)); } } let k = v.len() as u64; Suite::new("digit-spikes", format!("digit strings of every length up to {} with one different digit at every position, 4 radices", l), k * 8, move |i, c| {
            let (n, p) = v[(i / 8) as usize]; let r = [10u32, 16, 8, 2][(i % 4) as usize]; let ones = i % 8 >= 4;
            let mut ds = vec![if ones { r - 1 } else { 0 }; n]; ds[0] = ds[0].max(1); ds[p] = if ones { if p == 0 { (r - 1).max(1) } else { 0 } } else { 1 };
            let t: String = ds.iter().map(|d| std::char::from_digit(*d, r).unwrap()).collect(); let x = N::from_radix(&t, r).unwrap();
            let t = format!("{}{}", ["", "0x", "0o", "0b"][(i % 4) as usize], t); c.note(|| t.clone()); c.steps(2); c.state(x.hash());
            ck!(Nat::from_str(&t).map_err(|_| "refused".to_string()).and_then(|v| is(&v, &x)), "Nat::from_str({:?})", t);
            let g = match i % 4 { 0 => format!("{:#}", nat(&x)), 1 => format!("{:#x}", nat(&x)), 2 => format!("{:#o}", nat(&x)), _ => format!("{:#b}", nat(&x)) };
            want!(g == t, "formatted as {:?}, expected {:?}", g, t); Ok(()) }) },
        Suite::new("corrupt", "one foreign character inserted at every position of long literals", cl * bad.len() as u64, move |i, c| {
            let ch = bad[(i % bad.len() as u64) as usize]; let mut k = i / bad.len() as u64; let mut it = corrupt.iter(); let mut s = it.next().unwrap();
            while k > s.len() as u64 { k -= s.len() as u64 + 1; s = it.next().unwrap(); }
            let mut u = s.to_string(); u.insert(k as usize, ch); parse_case(&u, c) }),
    ]
}

// ---------------------------------------------------------------- C10
fn exp_case(x: &N, e: &N, m: &N, c: &mut Ctx) -> Res {
    c.note(|| format!("{:?} ^ {:?} mod {:?}", x, e, m)); c.steps(2);
    let w = if m.is_zero() { x.powbig(e) } else { x.modpow(e, m) };
    c.state(w.hash());
    ck!(is(&nat(x).exp(&nat(e), &nat(m)), &w), "{:?}.exp({:?}, {:?})", x, e, m);
    ck!(is(&nat(x).pow_mod(nat(e), nat(m)), &w), "{:?}.pow_mod({:?}, {:?})", x, e, m);
    Ok(())
}
fn iexp_case(x: &Z, e: &Z, m: &Z, c: &mut Ctx) -> Res {
    c.note(|| format!("BigInt {:?} ^ {:?} mod {:?}", x, e, m)); c.step();
    if e.neg && !m.is_zero() && x.m.gcd(&m.m) != N::one() { return Ok(()); }
    let w = if m.is_zero() { if e.sign() <= 0 { Z::i(1) } else { Z::new(x.neg && e.m.is_odd(), x.m.powbig(&e.m)) } } else {
        let mz = m.abs(); let b = x.euclid(&mz).1;
        let b = if e.neg { // inverse by search on the model side: b^(lambda-1) is not available, use extended euclid
            let (mut r0, mut r1, mut s0, mut s1) = (mz.clone(), b.clone(), Z::zero(), Z::i(1));
            while !r1.is_zero() { let (q, r) = r0.divrem(&r1); let s = s0.sub(&q.mul(&s1)); r0 = r1; r1 = r; s0 = s1; s1 = s; }
            s0.euclid(&mz).1 } else { b };
        Z::pos(b.m.modpow(&e.m, &mz.m)) };
    c.state(w.hash());
    ck!(is_int(&int(x).exp(&int(e), &int(m)), &w), "{:?}.exp({:?}, {:?})", x, e, m);
    Ok(())
}
pub fn c10(t: Tier) -> Vec<Suite> {
    let (sb, se, sm) = t.pick((40, 40, 80), (70, 70, 160));
    let mut v = vec![Suite::new("small", format!("bases 0..{} x exponents 0..{} x moduli 0..{}", sb, se, sm), sb * se * sm, move |i, c| { let s = split(i, &[sb, se, sm]); exp_case(&N::u(s[0] as u128), &N::u(s[1] as u128), &N::u(s[2] as u128), c) })];
    let bases = { let mut b = limb_vecs(&[0, 1, 0x8000_0000, 0xffff_ffff], 2); b.extend(small(5)); b.push(N::new(vec![0, 0, 1])); b.push(pattern(3, 0)); b.push(dense(4, 3)); dedup(b) };
    let exps = { let mut b = small(4); b.extend([15, 16, 17, 255, 65537, 0x7fff_ffff, 0xffff_ffff].map(N::u)); b.extend(limb_vecs(&[0, 1, 0x8000_0000, 0xffff_ffff], 2)); b.push(N::new(vec![0x1234_5678, 0x0f0f_0f0f])); b.push(N::new(vec![0, 0x1000_0000])); b.push(N::new(vec![3, 2])); b.push(N::new(vec![0, 0, 1])); b.push(N::new(vec![5, 0, 1])); if t.thorough() { b.push(dense(3, 5)); b.push(N::new(vec![0x1111_1111, 0x1000_0001])); } dedup(b) };
    let mods = { let mut b = limb_vecs(&t.pick(vec![0, 1, 2, 0x8000_0000, 0xffff_ffff], vec![0, 1, 2, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]), 2); b.extend((1..13).map(N::u)); b.extend(limb_vecs(&[0, 1, 0xffff_fffe, 0xffff_ffff], 3).into_iter().filter(|n| n.0.len() == 3).step_by(t.pick(2, 1))); b.push(N::one().shl(64)); b.push(N::one().shl(33)); b.push(dense(3, 1).bitop(&N::one(), |a, b| a | b)); b.push(dense(2, 8)); dedup(b).into_iter().filter(|n| !n.is_zero()).collect::<Vec<_>>() };
    let (nb, ne, nm) = (bases.len() as u64, exps.len() as u64, mods.len() as u64);
    v.push(Suite::new("limbs", format!("{} bases x {} exponents x {} moduli at limb boundaries (odd, even, unit, powers of two; exponents of up to 3 limbs)", nb, ne, nm), nb * ne * nm, move |i, c| { let s = split(i, &[nb, ne, nm]); exp_case(&bases[s[0]], &exps[s[1]], &mods[s[2]], c) }));
    // modulus zero with larger exponents / bases 0 and 1 with multi-limb exponents
    let zb = { let mut b = small(7); b.extend(limb_vecs(&LIMBS, 2)); dedup(b) }; let nz = zb.len() as u64;
    v.push(Suite::new("mod0", "plain power: bases x exponents 0..40", nz * 40, move |i, c| exp_case(&zb[(i % nz) as usize], &N::u((i / nz) as u128), &N::zero(), c)));
    let be = Arc::new({ let mut b = limb_vecs(&LIMBS, 3); b.extend(pow2s(100, 1)); dedup(b) }); let n = be.len() as u64;
    v.push(Suite::new("base01", "bases 0 and 1 with every multi-limb boundary exponent, moduli 0,1,2,7,2^32,2^32+1", n * 12, move |i, c| { let s = split(i, &[2, 6, n]); exp_case(&N::u(s[0] as u128), &be[s[2]], &[N::zero(), N::one(), N::u(2), N::u(7), N::u(1 << 32), N::u((1 << 32) + 1)][s[1]], c) }));
    // longer odd / even moduli
    let ml = t.pick(12, 24); let nlong = (ml * 6 * 4) as u64;
    v.push(Suite::new("long", format!("moduli of every length 1..={} x 6 patterns (odd and even), exponents of 1-3 limbs", ml), nlong, move |i, c| {
        let s = split(i, &[ml as u64, 6, 4]); let l = s[0] + 1;
        let m = pattern(l, [0, 3, 4, 7, 2, 6][s[1]]); if m.0.len() == 1 && m.0[0] == 0 { return Ok(()); }
        let (b, e) = match s[2] { 0 => (pattern(l, 7), N::new(vec![1, 1])), 1 => (m.sub(&N::one()), dense(2, 4)), 2 => (pattern(l + 1, 0), N::new(vec![0xf000_0001, 0x8000_0000])), _ => (dense(l, 6), N::new(vec![0, 0xf, 0])) };
        exp_case(&b, &e, &m, c) }));
    // every length of modulus, base and exponent
    let ml = t.pick(64, 128); let dims = [ml as u64, 5, 4];
    v.push(Suite::new("mod-ladder", format!("moduli of every length 1..={} x 5 patterns (odd and even), bases of the same length, one more and twice it, short exponents", ml), dims.iter().product(), move |i, c| {
        let s = split(i, &dims); let l = s[0] + 1; let m = pattern(l, [0, 3, 7, 5, 8][s[1]]);
        let (b, e) = match s[2] { 0 => (pattern(l, 7), N::new(vec![1, 1])), 1 => (m.sub(&N::one()), N::new(vec![2, 1])), 2 => (pattern(l + 1, 4), N::u(3)), _ => (pattern(2 * l, 7), N::new(vec![6, 0x1000_0000])) };
        exp_case(&b, &e, &m, c) }));
    let fl: Vec<usize> = t.pick(vec![65, 66, 80, 96, 127, 128, 129, 160, 192, 255, 256, 257], vec![129, 144, 160, 191, 192, 193, 224, 255, 256, 257, 300, 384, 511, 512, 513]); let dims = [fl.len() as u64, 5, 5];
    v.push(Suite::new("mod-far", format!("moduli of {:?} words x 5 patterns (odd and even), short and long bases, exponents of 2 to 34 bits", fl), dims.iter().product(), move |i, c| {
        let s = split(i, &dims); let l = fl[s[0]]; let m = match s[1] { 4 => pattern(l, 7).bitop(&N::one(), |a, b| a | b), k => pattern(l, [0, 3, 7, 8][k]) };
        let (b, e) = match s[2] { 0 => (pattern(l, 7), N::new(vec![1, 1])), 1 => (m.sub(&N::one()), N::new(vec![2, 1])), 2 => (pattern(l + 1, 4), N::u(3)), 3 => (pattern(2, 7), N::new(vec![9, 2])), _ => (pattern(2 * l, 7), N::new(vec![6, 0x1000])) };
        exp_case(&b, &e, &m, c) }));
    let el = t.pick(24, 48); let dims = [el as u64, 6, 5, 3];
    v.push(Suite::new("exp-ladder", format!("exponents of every length 1..={} x 6 patterns x moduli of 1, 2, 3, 5 and 8 limbs x 3 patterns", el), dims.iter().product(), move |i, c| {
        let s = split(i, &dims); exp_case(&pattern([1, 2, 3, 5, 8][s[2]], 7), &pattern(s[0] + 1, [0, 1, 2, 4, 7, 8][s[1]]), &pattern([1, 2, 3, 5, 8][s[2]], [0, 7, 2][s[3]]), c) }));
    let xl: Vec<usize> = t.pick(vec![2, 3, 4, 5, 8, 16, 17, 31, 32, 33, 48, 63, 64, 65, 79, 80, 81, 96, 100, 127, 128, 129, 150, 200, 256, 257], (2..=130).chain([150, 160, 191, 192, 193, 200, 255, 256, 257, 300, 400, 511, 512, 513]).collect()); let tops: Vec<u32> = (0..32).step_by(4).flat_map(|b| [1u32 << b, 15 << b, 2 << b]).chain([3, 0x8000_0001, 0x0f00_0000, 0x1000_1000, u32::MAX]).collect();
    let dims = [xl.len() as u64, tops.len() as u64, 4, 4];
    v.push(Suite::new("exp-tops", format!("exponents of {} lengths up to {} words with {} highest words (one digit at every position), 4 fillings below, 4 moduli", xl.len(), xl[xl.len() - 1], tops.len()), dims.iter().product(), move |i, c| {
        let s = split(i, &dims); let l = xl[s[0]]; let mut e = match s[2] { 0 => vec![0; l], 1 => vec![1; l], 2 => vec![u32::MAX; l], _ => { let mut e = pattern(l, 7).0; e.resize(l, 0); e[l / 2] = 0; e } }; e[l - 1] = tops[s[1]];
        exp_case(&N::u(12345), &N::new(e), &[N::u(0xffff_fff1), pattern(2, 0), N::new(vec![0xffff_fff1, 3, 9]), pattern(2, 7).bitop(&N::one(), |a, b| a | b).shl(1)][s[3]], c) }));
    let bl = t.pick(90, 200); let dims = [bl as u64, 4, 6];
    v.push(Suite::new("base-ladder", format!("bases of every length 1..={} x 4 patterns x moduli of 1-5 limbs", bl), dims.iter().product(), move |i, c| {
        let s = split(i, &dims); exp_case(&pattern(s[0] + 1, [0, 2, 7, 8][s[1]]), &N::new(vec![5, 1]), &[N::u(7), N::u(1 << 31), pattern(2, 0), pattern(3, 3), pattern(4, 5), pattern(5, 7)][s[2]], c) }));
    let dims = [96 / 4, 16, 4, 2];
    v.push(Suite::new("windows", "exponents of three limbs with one different hexadecimal digit at every position, among zeros and among ones, 4 moduli", dims.iter().product(), move |i, c| {
        let s = split(i, &dims); let d = N::u(s[1] as u128).shl(4 * s[0]); let e = if s[3] == 0 { N::one().shl(95).bitop(&d, |a, b| a | b) } else { pattern(3, 0).bitop(&N::u(15).shl(4 * s[0]), |a, b| a ^ b).bitop(&d, |a, b| a | b) };
        exp_case(&pattern(3, 7), &e, &[pattern(2, 0), pattern(3, 3), pattern(3, 7).add(&N::one()), N::u(0xffff_fff1)][s[2]], c) }));
    let tz: Vec<usize> = t.pick((0..=140).chain([159, 160, 161, 191, 192, 193, 256, 257, 320, 513]).collect(), (0..=330).chain([383, 384, 385, 511, 512, 513, 640, 1024]).collect()); let dims = [tz.len() as u64, 6, 4, 4, 4];
    v.push(Suite::new("trailing-zeros", format!("exponents k*2^t for {} values of t up to {} and six k (one to two limbs) x bases shorter than, as long as and longer than the modulus x moduli of 1-5 limbs x 4 patterns (odd, even, with a zero low limb)", tz.len(), tz[tz.len() - 1]), dims.iter().product(), move |i, c| {
        let s = split(i, &dims); let l = [1, 2, 3, 5][s[3]]; let m = match s[4] { 0 => pattern(l, 7).bitop(&N::one(), |a, b| a | b), 1 => pattern(l, 0), 2 => pattern(l, 7).bitop(&N::one(), |a, b| a | b).shl(1), _ => pattern(l, 3).shl(32) };
        let b = match s[2] { 0 => N::u(3), 1 => pattern(l, 8).shr(2).add(&N::u(2)), 2 => pattern(l + 1, 7), _ => pattern(l + 3, 4) };
        let k = [N::one(), N::u(3), N::u(5), N::u(0xffff_ffff), N::u((1 << 32) + 1), N::u(0x8000_0000_0000_0001)][s[1]].clone();
        exp_case(&b, &k.shl(tz[s[0]]), &m, c) }));
    // dense residues for small odd word moduli with two-limb exponents (montgomery path, every residue)
    let q = t.pick(vec![3u32, 5, 9, 15, 255, 0xffff_fff1, 0xffff_ffff, 0x8000_0001, 0x7fff_ffff], vec![3u32, 5, 9, 15, 255, 0xffff_fff1, 0xffff_ffff, 0x8000_0001, 0x7fff_ffff, 7, 11, 21, 65537, 0xaaaa_aaab]);
    let nq = q.len() as u64;
    v.push(Suite::new("mont", "word moduli x bases 2..40 x exponents 2^32+k", nq * 40 * 34, move |i, c| { let s = split(i, &[nq, 40, 34]); exp_case(&N::u(s[1] as u128 + 2), &N::u((1u128 << 32) + s[2] as u128), &N::u(q[s[0]] as u128), c) }));
    let r = t.pick(14, 22); let k = (2 * r + 1) as u64;
    v.push(Suite::new("int-small", format!("all integer triples in -{}..={}", r, r), k * k * k, move |i, c| { let s = split(i, &[k, k, k]); iexp_case(&Z::i(s[0] as i128 - r), &Z::i(s[1] as i128 - r), &Z::i(s[2] as i128 - r), c) }));
    let zs = signed(&{ let mut b = limb_vecs(&[0, 1, 0xffff_ffff], 2); b.push(dense(3, 2)); dedup(b) });
    let es = signed(&[N::u(2), N::u(3), N::u(0xffff_ffff), N::new(vec![1, 1]), N::new(vec![2, 3])]);
    let ms = signed(&[N::u(7), N::u(12), N::u(0xffff_ffff), N::new(vec![1, 1]), N::new(vec![0, 1]), N::new(vec![0xffff_ffff, 0xffff_ffff])]);
    let (a, b, d) = (zs.len() as u64, es.len() as u64, ms.len() as u64);
    let il = t.pick(20, 40); let dims = [il as u64, 3, 8, 3];
    v.push(Suite::new("int-ladder", format!("integer moduli of every length 1..={} x 3 patterns x every combination of signs, 3 exponents", il), dims.iter().product(), move |i, c| {
        let s = split(i, &dims); let l = s[0] + 1; let g = |k: usize, m: N| Z::new((s[2] >> k) & 1 == 1, m);
        iexp_case(&g(0, pattern(l, [7, 8, 0][s[1]])), &g(1, [N::u(5), N::new(vec![2, 3]), N::new(vec![1, 0, 1])][s[3]].clone()), &g(2, pattern(l, [0, 7, 2][s[1]])), c) }));
    v.push(Suite::new("int-limbs", "signed boundary bases, exponents and moduli", a * b * d, move |i, c| { let s = split(i, &[a, b, d]); iexp_case(&zs[s[0]], &es[s[1]], &ms[s[2]], c) }));
    v
}

// ---------------------------------------------------------------- C11
fn sqrt_case(x: &N, c: &mut Ctx) -> Res {
    c.note(|| format!("sqrt {:?}", x)); c.steps(2);
    let r = x.isqrt(); let up = r.add(&N::one());
    want!(r.mul(&r) <= *x && *x < up.mul(&up), "model square root");
    c.state(mix(r.hash(), x.sub(&r.mul(&r)).is_zero() as u64));
    ck!(is(&nat(x).sqrt(), &r), "{:?}.sqrt()", x);
    ck!(is_int(&int(&Z::pos(x.clone())).sqrt(), &Z::pos(r)), "BigInt {:?}.sqrt()", x);
    if !x.is_zero() { c.step(); want!(int(&Z::new(true, x.clone())).sqrt().is_nan(), "sqrt of -{:?} is not NaN", x); }
    Ok(())
}
pub fn c11(t: Tier) -> Vec<Suite> {
    let roots = { let mut b = limb_vecs(&LIMBS, t.pick(3, 4)); b.extend(pow2s(t.pick(260, 520), 1)); b.extend(patterns(1..=t.pick(14, 24), &(0..NPAT).collect::<Vec<_>>())); b.extend((0..400u128).map(|i| N::u(65000 + i))); dedup(b) };
    let n = roots.len() as u64;
    vec![
        Suite::new("small", "every number below 1000000 (thorough 8000000)", t.pick(1_000_000, 8_000_000), |i, c| sqrt_case(&N::u(i as u128), c)),
        Suite::new("squares", format!("k^2-1, k^2, k^2+1, k^2+k, k^2+2k for {} roots k", n), n * 5, move |i, c| { let k = &roots[(i % n) as usize]; let q = k.mul(k); let x = match i / n { 0 => { if q.is_zero() { return Ok(()); } q.sub(&N::one()) } 1 => q, 2 => q.add(&N::one()), 3 => q.add(k), _ => q.add(k).add(k) }; sqrt_case(&x, c) }),
        { let lm = t.pick(60usize, 130); let ln: Vec<usize> = lens(lm, &[64, 80, 81, 96, 128, 129, 160, 200, 256, 300]).split_off(13); let n = ln.len() as u64; Suite::new("squares-long", format!("k^2-1, k^2, k^2+2k for roots of every length 14..={} and 10 up to 300 x 8 patterns", lm), n * 8 * 3, move |i, c| { let s = split(i, &[n, 8, 3]); let k = pattern(ln[s[0]], s[1]); let q = k.mul(&k); sqrt_case(&match s[2] { 0 => q.sub(&N::one()), 1 => q, _ => q.add(&k.shl(1)) }, c) }) },
        singles("limbs", "limb vectors of length 0..=4 over boundary limbs, 2^i+d, long patterns", { let mut b = limb_vecs(&LIMBS, 4); b.extend(pow2s(t.pick(700, 1100), 1)); b.extend(patterns(5..=t.pick(24, 40), &[0, 2, 3, 7, 8])); dedup(b) }, sqrt_case),
    ]
}

fn main() {
    mc::engine::main(&[
        Prop { id: "C01", build: c01, assumptions: &[] }, Prop { id: "C02", build: c02, assumptions: &[] }, Prop { id: "C03", build: c03, assumptions: &[] },
        Prop { id: "C04", build: c04, assumptions: &[] }, Prop { id: "C05", build: c05, assumptions: &[] }, Prop { id: "C06", build: c06, assumptions: &["an empty byte or limb sequence denotes not-a-number and is not part of this property"] },
        Prop { id: "C07", build: c07, assumptions: &["decimal literals with superfluous leading zeros and repeated signs are unspecified: they may be refused or accepted"] },
        Prop { id: "C10", build: c10, assumptions: &[] }, Prop { id: "C11", build: c11, assumptions: &[] },
    ])
}
