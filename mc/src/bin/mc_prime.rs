//! Properties of everything driven by a random source: C12 (primality test), C13 (random values), C14 (prime generation).
//! The source is an adversary: all its answer sequences over an alphabet up to a depth are enumerated.
use mc::alpha::*;
use mc::engine::*;
use mc::env::*;
use mc::obs::*;
use mc::refmath::*;
use mc::{ck, want};
use rmath::bigint::{BigInt, Nat};
use std::collections::BTreeSet;
use std::sync::Arc;

fn mulm(a: u64, b: u64, m: u64) -> u64 { (a as u128 * b as u128 % m as u128) as u64 }
fn powm(mut a: u64, mut e: u64, m: u64) -> u64 { let mut r = 1 % m; a %= m; while e > 0 { if e & 1 == 1 { r = mulm(r, a, m); } a = mulm(a, a, m); e >>= 1; } r }
const BASES: [u64; 24] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89];
fn prime64(n: u64) -> bool {
    if n < 2 { return false; }
    for p in BASES { if n % p == 0 { return n == p; } }
    let (s, d) = ((n - 1).trailing_zeros(), (n - 1) >> (n - 1).trailing_zeros());
    'b: for a in &BASES[..12] { let mut x = powm(*a, d, n); if x == 1 || x == n - 1 { continue; } for _ in 1..s { x = mulm(x, x, n); if x == n - 1 { continue 'b; } } return false; }
    true
}
fn prime(n: &N) -> bool {
    if let Some(x) = n.to_u128() { if x >> 64 == 0 { return prime64(x as u64); } }
    for p in BASES { if n.divrem_u32(p as u32).1 == 0 { return false; } }
    let n1 = n.sub(&N::one()); let s = n1.tz(); let d = n1.shr(s);
    'b: for a in BASES { let mut x = N::u(a as u128).modpow(&d, n); if x == N::one() || x == n1 { continue; } for _ in 1..s { x = x.mul(&x).rem(n); if x == n1 { continue 'b; } } return false; }
    true
}
/// the k primes above n
fn primes_after(n: &N, k: usize) -> Vec<N> { let mut v = vec![]; let mut x = n.clone(); if !x.is_odd() { x = x.add(&N::one()); } while v.len() < k { if prime(&x) { v.push(x.clone()); } x = x.add(&N::u(2)); } v }
fn primes_before(n: &N, k: usize) -> Vec<N> { let mut v = vec![]; let mut x = n.clone(); if !x.is_odd() { x = x.sub(&N::one()); } while v.len() < k && x > N::one() { if prime(&x) { v.push(x.clone()); } x = x.sub(&N::u(2)); } v }
fn big_primes(t: Tier) -> Vec<N> {
    let mut v = vec![];
    let k = t.pick(2, 3);
    for b in t.pick(vec![16, 31, 32, 33, 48, 63, 64, 65, 95, 96, 97, 127, 128, 129, 160, 192, 255, 256, 257], (8..200).chain([223, 224, 225, 255, 256, 257, 320, 383, 384, 385, 511, 512, 513]).collect()) {
        let p = N::one().shl(b); v.extend(primes_after(&p, k)); v.extend(primes_before(&p, k)); v.extend(primes_after(&p.add(&N::one().shl(b - 1)), 1));
    }
    for e in [61usize, 89, 107, 127, 521] { v.push(N::one().shl(e).sub(&N::one())); }
    if t.thorough() { for e in [607usize, 1279] { v.push(N::one().shl(e).sub(&N::one())); } }
    // primes with a large power of two in p-1
    for (k, e) in [(3u128, 30usize), (15, 27), (5, 25), (27, 56), (3, 41), (9, 42), (1, 16)] { let p = N::u(k).shl(e).add(&N::one()); if prime(&p) { v.push(p); } }
    dedup(v)
}

fn w(x: u32) -> Ans { Ans::Word(x) }
fn words(v: &[u32]) -> Vec<Ans> { v.iter().map(|&x| w(x)).collect() }
fn uniq(mut v: Vec<u32>) -> Vec<u32> { v.sort(); v.dedup(); v }

// ---------------------------------------------------------------- C12
pub fn c12(t: Tier) -> Vec<Suite> {
    let lim: u64 = t.pick(12_000, 40_000);
    let plim: u64 = t.pick(5_000, 40_000);
    let mut v = vec![];
    v.push(Suite::new("every-witness", format!("every n < {} (primes: < {}), every first witness word below n (all of them when the test draws at all), then a well-behaved tail", lim, plim), lim, move |i, c| {
        let n = i; let p = prime64(n);
        if p && n >= plim { return Ok(()); }
        c.note(|| format!("n = {}: every witness word in 0..n", n));
        let x = Nat::from(n);
        let alpha: Vec<Ans> = (0..n as u32).map(w).collect();
        if n == 0 { c.step(); let r = explore(&words(&[0, 1, 5]), 2, |s| { want!(!Nat::from(0u32).probably_prime_test(0, s), "0 accepted"); Ok(()) }); return r.map(|_| ()); }
        let (mut acc, mut tot) = (0u64, 0u64);
        let mut first = 0u32;
        let r = explore(&alpha, 1, |s| {
            let a = x.probably_prime_test(0, s);
            tot += 1; if a && first != 0 { acc += 1; } first += 1;
            if p { want!(a, "prime {} rejected", n); } else if n < 2 || (n > 2 && n % 2 == 0) { want!(!a, "{} accepted", n); } else if s.draws == 0 { want!(!a, "composite {} accepted without any witness", n); }
            Ok(())
        })?;
        c.steps(r); c.state(mix(n, acc));
        if !p && tot > 1 { want!(acc * 4 <= n - 1, "composite {}: {} of {} witnesses lead to acceptance", n, acc, n - 1); }
        Ok(())
    }));
    // numbers accepted by an (almost) extra strong Lucas test, strong pseudoprimes, Carmichael numbers, squares of primes
    let mut hard: Vec<u64> = vec![989, 3239, 5777, 10877, 27971, 29681, 30739, 31631, 39059, 72389, 73919, 75077, 100127, 113573, 125249, 137549, 137801, 153931, 155819, 161027, 162133, 189419, 218321, 231703, 249331, 370229, 429479, 430127, 459191, 473891, 480689, 600059, 621781, 632249, 635627,
        2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751, 1373653, 294409, 56052361, 118901521, 172947529];
    for p in [59u64, 61, 67, 71, 73, 79, 83, 89, 97, 101, 127, 131, 251, 257] { hard.push(p * p); for q in [61u64, 113, 223, 257, 509, 521] { hard.push(p * q); } if t.thorough() { hard.push(p * p * p); } }
    hard.retain(|&n| !prime64(n) && n < t.pick(700_000, 2_000_000_000)); hard.sort(); hard.dedup();
    let hard = Arc::new(hard);
    { let h = hard.clone(); v.push(Suite::new("hard-composites", format!("{} composites known to fool Lucas, Fermat or base-2 tests, and prime squares and products: every witness (at most {} for the largest)", hard.len(), t.pick(40_000, 400_000)), hard.len() as u64, move |i, c| {
        let n = h[i as usize];
        c.note(|| format!("composite n = {}: every witness word in 0..n", n));
        let x = Nat::from(n);
        let cap = t.pick(40_000u64, 400_000);
        // for larger n the share is bounded on the whole by counting accepted witnesses only
        let alpha: Vec<Ans> = (0..n.min(cap) as u32).map(w).collect();
        let (mut acc, mut k) = (0u64, 0u64);
        let r = explore(&alpha, 1, |s| { let a = x.probably_prime_test(0, s); if s.draws == 0 { want!(!a, "composite {} accepted without any witness", n); } if k > 0 && a { acc += 1; } k += 1; Ok(()) })?;
        c.steps(r); c.state(mix(n, acc));
        want!(acc * 4 <= n - 1, "composite {}: {} of {} witnesses lead to acceptance", n, acc, n - 1);
        Ok(())
    })); }
    // several rounds: a composite is accepted only if each of the drawn witnesses alone leads to acceptance
    { let h: Vec<u64> = hard.iter().cloned().filter(|n| *n < t.pick(200_000, 2_000_000)).collect(); let nh = h.len(); v.push(Suite::new("rounds", format!("{} hard composites, 1-3 extra rounds: every sequence over up to 4 witnesses that lead to acceptance alone and 4 that do not", nh), nh as u64, move |i, c| {
        let n = h[i as usize]; let x = Nat::from(n); c.note(|| format!("composite n = {}", n));
        let one = |k: u64| { let mut s = Fixed { v: vec![k as u32], i: 0 }; x.probably_prime_test(0, &mut s) };
        let mut set: Vec<(u32, bool)> = vec![(1, one(1)), (n as u32 - 1, one(n - 1))]; let (mut l, mut k) = (0, 0);
        for z in 2..n.min(6000) - 1 { let a = one(z); if a && l < 2 { l += 1; set.push((z as u32, true)); } if !a && k < 4 { k += 1; set.push((z as u32, false)); } if l == 2 && k == 4 { break; } }
        let m = set.len() as u64;
        for r in 1..=3usize { for j in 0..m.pow(r as u32 + 1) { let d = split(j, &vec![m; r + 1]); let mut s = Fixed { v: d.iter().map(|&z| set[z].0).collect(), i: 0 }; c.step();
            let a = x.probably_prime_test(r, &mut s); let all = d.iter().all(|&z| set[z].1);
            want!(!a || all, "composite {} accepted in {} rounds with the witnesses {:?}, not all of which lead to acceptance alone", n, r + 1, s.v); } }
        c.state(mix(n, m)); Ok(())
    })); }
    let bp = Arc::new(big_primes(t));
    // a source that keeps giving the same useless answer for a while
    { let lim: u64 = t.pick(300, 2000); let bp: Vec<N> = bp.iter().step_by(t.pick(9, 40)).cloned().collect(); let sm: Vec<N> = (2..lim).filter(|&n| prime64(n)).map(|n| N::u(n as u128)).chain(bp).collect(); let n = sm.len() as u64; let kl = t.pick(40u64, 300); v.push(Suite::new("droughts", format!("{} primes, 1-2 rounds: the source answers 0, 1, p-1, p, 2^32-1 or fails up to {} times in a row before well-behaved words", n, kl - 1), n * kl * 6 * 2, move |i, c| {
        let s = split(i, &[n, kl, 6, 2]); let p = &sm[s[0]]; let l = p.0[0]; let a = [w(0), w(1), w(l.wrapping_sub(1)), w(l), w(u32::MAX), Ans::Fail][s[2]]; c.note(|| format!("prime {:?}, {} times {:?}, {} extra rounds", p, s[1], a, s[3])); c.state(mix(p.hash(), s[1] as u64));
        let x = nat(p); let r = explore(&[a], s[1], |sc| { want!(x.probably_prime_test(s[3], sc), "prime {:?} rejected", p); Ok(()) })?; c.steps(r); Ok(()) })); }
    // p - 1 divisible by a long power of two: every exponent at which k*2^e+1 is prime, and the composites in between
    let pe = t.pick(96usize, 210); let ks: &'static [u128] = t.pick(&[1, 3, 5, 7, 9, 15][..], &[1, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 33, 51, 99, 255, 0xffff_ffff][..]);
    let far: &'static [(u128, usize)] = t.pick(&[(3u128, 189usize), (3, 201), (5, 127), (9, 134), (7, 120), (7, 180), (15, 184), (1, 128)][..], &[(3, 209), (3, 276), (3, 353), (3, 408), (3, 438), (3, 534), (5, 247), (9, 366), (9, 663), (7, 290), (7, 320), (7, 390), (1, 256)][..]);
    let np = (pe * ks.len() + far.len()) as u64;
    v.push(Suite::new("proth", format!("k*2^e+1 for {} values of k x e 1..={} and {} selected longer ones, 1-3 rounds: primes accepted under every one of 14 first answers of the source followed by the well-behaved tail, composites refused for at least half of them", ks.len(), pe, far.len()), np, move |i, c| {
        let i = i as usize; let (k, e) = if i < pe * ks.len() { (ks[i / pe], i % pe + 1) } else { far[i - pe * ks.len()] };
        let n = N::u(k).shl(e).add(&N::one()); let p = prime(&n); let x = nat(&n); c.note(|| format!("{}*2^{}+1, {}", k, e, if p { "prime" } else { "composite" })); c.state(mix(n.hash(), p as u64));
        let firsts = words(&[2u32, 3, 5, 6, 7, 10, 11, 13, 17, 0x1234_5677, 0x7fff_ffff, 0x8000_0001, 0xdead_beef, u32::MAX]); let (mut acc, mut tot) = (0, 0);
        for r in 0..3usize { let d = explore(&firsts, 1, |s| { tot += 1; let got = x.probably_prime_test(r, s);
            if p { want!(got, "prime {}*2^{}+1 rejected in {} rounds", k, e, r + 1); } else if got { acc += 1; } Ok(()) })?; c.steps(d); }
        if !p && tot > 3 { want!(acc * 2 < tot, "composite {}*2^{}+1 accepted {} times out of {}", k, e, acc, tot); }
        Ok(()) }));
    { let bp = bp.clone(); v.push(Suite::new("large-primes", format!("{} primes up to {} bits at and around limb boundaries; every answer sequence of the source of length <= {} over limbs of p, limbs +-1, 0, 1, 2, 2^31, 2^32-1 and failures; 1-3 rounds", bp.len(), t.pick(521, 1279), t.pick(2, 3)), bp.len() as u64 * 3, move |i, c| {
        let (k, r) = sp2(i, bp.len()); let p = &bp[k];
        c.note(|| format!("prime {:?}, {} extra rounds", p, r));
        let mut a = vec![0, 1, 2, 1 << 31, u32::MAX];
        for &l in [p.0[0], p.0[p.0.len() - 1]].iter() { a.extend([l, l.wrapping_sub(1), l.wrapping_sub(2), l.wrapping_add(1)]); }
        let mut a = words(&uniq(a)); a.push(Ans::Fail);
        if p.0.len() > 12 { a = vec![w(0), w(1), w(u32::MAX), Ans::Fail]; }
        let x = nat(p);
        let n = explore(&a, if p.0.len() > 3 { 2 } else { t.pick(2, 3) }, |s| { want!(x.probably_prime_test(r, s), "prime {:?} rejected", p); Ok(()) })?;
        c.steps(n); c.state(p.hash());
        ck!(is(&x, p), "the tested number was changed");
        Ok(())
    })); }
    // numbers far beyond the usual key lengths whose primality is known
    { let m = |e: usize| N::one().shl(e).sub(&N::one()); let pr = |k: u128, e: usize| N::u(k).shl(e).add(&N::one());
      let mut ns: Vec<(String, N, bool)> = vec![]; for e in t.pick(&[607usize, 1279][..], &[607, 1279, 2203, 2281, 3217]) { ns.push((format!("2^{}-1", e), m(*e), true)); } for (k, e) in t.pick(&[(3u128, 534usize), (9, 663), (7, 616), (7, 830), (5, 1947)][..], &[(3, 534), (9, 663), (7, 616), (7, 830), (5, 1947), (3, 2208)]) { ns.push((format!("{}*2^{}+1", k, e), pr(*k, *e), true)); }
      for e in [7usize, 8, 9, 10] { ns.push((format!("2^{}+1", 1 << e), pr(1, 1 << e), false)); } for (a, b) in [(521usize, 521usize), (521, 607), (607, 607), (127, 1279)] { ns.push((format!("(2^{}-1)(2^{}-1)", a, b), m(a).mul(&m(b)), false)); }
      let n = ns.len() as u64; v.push(Suite::new("known", format!("{} primes and composites of 500 to {} bits whose primality is known: primes accepted for every one of 10 first answers of the source (one a failure), with 1 and 2 rounds; composites refused for at least half of them", n, t.pick(1950, 3217)), n * 20, move |i, c| {
        let s = split(i, &[n, 2, 10]); let (k, r) = (s[0], s[1]); let (name, m, p) = &ns[k]; if !p && s[2] > 0 { return Ok(()); } let x = nat(m); c.note(|| format!("{}, {} extra rounds", name, r)); c.state(m.hash());
        let mut al = words(&[1u32, 2, 3, 5, 6, 10, 0x1234_5677, 0x8000_0001, u32::MAX]); al.push(Ans::Fail); if *p { al = vec![al[s[2]]]; } let (mut acc, mut tot) = (0, 0);
        let d = explore(&al, 1, |s| { tot += 1; let got = x.probably_prime_test(r, s); if *p { want!(got, "prime {} rejected", name); } else if got { acc += 1; } Ok(()) })?; c.steps(d);
        if !p { want!(acc * 2 <= tot, "composite {} accepted {} times out of {}", name, acc, tot); } Ok(()) })); }
    // even and composite multi-limb numbers: products of the primes above by 2, 3 .. and of each other
    { let bp = bp.clone(); let facs: Vec<u32> = vec![2, 3, 4, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53]; let nf = facs.len(); v.push(Suite::new("even-and-divisible", "large primes times 2 (must be rejected), and times every prime up to 53 (no witness may be needed or at most a quarter may accept)", (bp.len() * nf) as u64, move |i, c| {
        let (k, f) = sp2(i, bp.len()); let n = bp[k].mul(&N::u(facs[f] as u128));
        c.note(|| format!("composite {:?} = {} * {:?}", n, facs[f], bp[k]));
        let x = nat(&n);
        let even = facs[f] % 2 == 0;
        let mut al = words(&[1, 2, 3, u32::MAX]); al.push(Ans::Fail);
        let r = explore(&al, 1, |s| { let a = x.probably_prime_test(0, s); if even || s.draws == 0 { want!(!a, "composite {:?} accepted", n); } Ok(()) })?;
        c.steps(r); c.state(n.hash()); Ok(())
    })); }
    // every odd number around limb and half-limb boundaries: primes for every one of 6 witnesses, composites must not survive all of them
    { let w0: u64 = t.pick(6000, 40_000); let exps: Vec<usize> = t.pick(vec![17, 31, 32, 33, 40, 48, 63, 64, 65, 80, 96, 128], (14..=130).chain([160, 192, 255, 256, 257]).collect()); let ne = exps.len(); v.push(Suite::new("windows", format!("every odd number within {} of 2^e for {} exponents up to {}; witnesses with top limb zero and low word 2, 3, 5, 7, 11, 13", w0, ne, exps[ne - 1]), ne as u64 * w0, move |i, c| {
        let (k, off) = sp2(i, ne); let b = N::one().shl(exps[k]); let o = 2 * off as u64 + 1;
        let n = if o < w0 { b.add(&N::u(o as u128)) } else { let dn = N::u((o - w0 + (1 - w0 % 2)) as u128); if dn.add(&N::u(2)) >= b { return Ok(()); } b.sub(&dn) };
        if !n.is_odd() { return Ok(()); }
        let p = prime(&n);
        c.note(|| format!("{} {:?}", if p { "prime" } else { "composite" }, n));
        let x = nat(&n); let mut acc = 0u64;
        for wt in [2u32, 3, 5, 7, 11, 13] {
            let mut s = Fixed { v: std::iter::once(wt).chain(std::iter::repeat(0).take(n.0.len() - 1)).collect(), i: 0 };
            c.step();
            let a = x.probably_prime_test(0, &mut s);
            if a { acc += 1; }
            if p { want!(a, "prime {:?} rejected for the witness {}", n, wt); } else if s.i == 0 { want!(!a, "composite {:?} accepted without any witness", n); } else { if !a { break; } }
        }
        if !p { want!(acc < 6, "composite {:?} accepted for each of the witnesses 2, 3, 5, 7, 11, 13", n); }
        c.state(n.hash()); Ok(())
    })); }
    { let lim: u64 = t.pick(4096, 20_000); v.push(Suite::new("adversary", format!("every prime below {}, every answer sequence of length <= 3 over {{0,1,n-1,n,2^32-1,failure}}, 1 and 2 rounds", lim), lim * 2, move |i, c| {
        let (n, r) = (i / 2, (i % 2) as usize);
        if !prime64(n) { return Ok(()); }
        c.note(|| format!("prime {}, {} extra rounds", n, r));
        let mut a = words(&uniq(vec![0, 1, (n - 1) as u32, n as u32, u32::MAX])); a.push(Ans::Fail);
        let x = Nat::from(n);
        let k = explore(&a, 3, |s| { want!(x.probably_prime_test(r, s), "prime {} rejected", n); Ok(()) })?;
        c.steps(k); c.state(n); Ok(())
    })); }
    v
}

// ---------------------------------------------------------------- C13
pub fn c13(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let lim: u64 = t.pick(420, 1000);
    v.push(Suite::new("small-bounds", format!("every bound 0..{}, every sequence of <= 2 answers over all words below the next power of two, words with high bits set, and failures; range, canonical form and reachability of every value", lim), lim * 3, move |i, c| {
        let (n, kind) = (i / 3, i % 3);
        c.note(|| format!("{} bound {}{}", ["natural", "integer", "negative integer"][kind as usize], if kind == 2 { "-" } else { "" }, n));
        let bits = 64 - n.leading_zeros();
        let mut a: Vec<Ans> = (0..(1u32 << bits)).map(w).collect();
        a.extend(words(&[u32::MAX, 1 << bits, (1 << 31) | (n as u32 & 1)])); a.push(Ans::Fail);
        let mut seen = BTreeSet::new();
        let depth = if n > 64 { 1 } else { 2 };
        let k = explore(&a, depth, |s| {
            let (neg, m) = if kind == 0 {
                let b = Nat::from(n); let r = b.random(s);
                ck!(is(&b, &N::u(n as u128)), "the bound was changed");
                if n == 0 { want!(r.is_nan(), "random below 0 is not NaN"); return Ok(()); }
                (false, see(&r)?)
            } else {
                let b = if kind == 2 { -BigInt::from(n) } else { BigInt::from(n) }; let r = b.random(s);
                if n == 0 { want!(r.is_nan(), "random below 0 is not NaN"); return Ok(()); }
                let z = see_int(&r)?; (z.neg, z.m)
            };
            let m = m.to_u128().unwrap_or(u128::MAX);
            want!(m < n as u128, "random number {} not below the bound {}", m, n);
            want!(!neg || kind == 2, "random number below a positive bound is negative");
            want!(kind != 2 || neg || m == 0, "random number above a negative bound is positive");
            seen.insert(m);
            Ok(())
        })?;
        c.steps(k); c.state(mix(n, kind));
        want!(n == 0 || seen.len() as u64 == n, "only {} of the {} values below the bound are reachable", seen.len(), n);
        Ok(())
    }));
    let mut bounds = limb_vecs(&[0, 1, 2, 0x8000_0000, 0xffff_ffff], 3); bounds.extend(pow2s(t.pick(130, 260), 1));
    { bounds.extend(limb_vecs(&[0, 1, 5, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_ffff], 4)); bounds.extend(patterns(t.pick(4..=6, 4..=12), &[0, 1, 2, 3, 7])); }
    bounds.retain(|n| !n.is_zero()); let bounds = Arc::new(dedup(bounds));
    v.push(Suite::new("limb-bounds", format!("{} bounds of 1-{} limbs; every answer sequence of length limbs (limbs+1 up to 2 limbs, at most 7) over the bound's limbs, limbs-1, 0, 2^32-1 and failures; boundary values reachable", bounds.len(), t.pick(6, 12)), bounds.len() as u64 * 2, move |i, c| {
        let (k, neg) = sp2(i, bounds.len()); let n = &bounds[k]; let neg = neg == 1;
        c.note(|| format!("bound {}{:?}", if neg { "-" } else { "" }, n));
        let mut l: Vec<u32> = vec![0, u32::MAX];
        if n.0.len() <= 4 { for &x in &n.0 { l.push(x); l.push(x.wrapping_sub(1)); } } else { l.push(n.0[n.0.len() - 1]); l.push(n.0[0].wrapping_sub(1)); }
        let l = uniq(l);
        let mut a = words(&l); a.push(Ans::Fail);
        let mut seen = BTreeSet::new();
        let depth = if n.0.len() <= 2 { n.0.len() + 1 } else { n.0.len().min(7) };
        let r = explore(&a, depth, |s| {
            let m = if neg { let r = (-BigInt::from(nat(n))).random(s); let z = see_int(&r)?; want!(z.neg || z.is_zero(), "random number above a negative bound is positive"); z.m } else { see(&nat(n).random(s))? };
            want!(m < *n, "random number {:?} not below the bound {:?}", m, n);
            seen.insert(m); Ok(())
        })?;
        c.steps(r); c.state(mix(n.hash(), neg as u64));
        for x in [N::zero(), n.sub(&N::one())] {
            let mut full = x.0.clone(); full.resize(n.0.len(), 0);
            if n.0.len() <= 7 && full.iter().all(|d| l.contains(d)) { want!(seen.contains(&x), "value {:?} below the bound {:?} is not reachable", x, n); }
        }
        Ok(())
    }));
    { let ln = lens(t.pick(40, 100), &[64, 128, 129, 256, 500, 1000]); let dims = [ln.len() as u64, 4, 2]; v.push(Suite::new("long-bounds", format!("bounds of every length 1..={} limbs and some up to 1000 x 4 patterns; every sequence of 4 answers over the bound's top and low limbs, 0, all ones and failures, then a fixed tail", t.pick(40, 100)), dims.iter().product(), move |i, c| {
        let s = split(i, &dims); let n = pattern(ln[s[0]], [0, 2, 3, 7][s[1]]); let neg = s[2] == 1; c.note(|| format!("bound {}{:?}", if neg { "-" } else { "" }, n));
        let mut a = words(&uniq(vec![0, u32::MAX, n.0[0], n.0[n.0.len() - 1], n.0[n.0.len() - 1].wrapping_sub(1)])); a.push(Ans::Fail);
        let r = explore(&a, 4, |s| {
            let m = if neg { let z = see_int(&(-BigInt::from(nat(&n))).random(s))?; want!(z.neg || z.is_zero(), "random number above a negative bound is positive"); z.m } else { see(&nat(&n).random(s))? };
            want!(m < n, "random number {:?} not below the bound {:?}", m, n); Ok(()) })?;
        c.steps(r); c.state(n.hash());
        // the largest and a middle value are reached when the source delivers their words
        for x in [n.sub(&N::one()), n.shr(1), N::zero(), n.shr(33)] { let mut w = x.0.clone(); w.resize(n.0.len(), 0); let tail = vec![0u32; n.0.len()]; let mut le = Fixed { v: [w.clone(), tail.clone()].concat(), i: 0 }; w.reverse(); let mut be = Fixed { v: [w, tail].concat(), i: 0 }; let (p, q) = (see(&nat(&n).random(&mut le))?, see(&nat(&n).random(&mut be))?); want!(p < n && q < n, "random number not below {:?}", n); want!(p == x || q == x, "value {:?} below the bound {:?} is not reachable by delivering its words", x, n); }
        Ok(())
    })); }
    v.push(Suite::new("nan-bound", "NaN bounds", 1, |_, c| { c.steps(2); explore(&words(&[0, 7]), 1, |s| { want!(nat_nan().random(s).is_nan(), "random of NaN"); want!(int_nan().random(s).is_nan(), "random of NaN"); Ok(()) }).map(|_| ()) }));
    v
}

// ---------------------------------------------------------------- C14
fn gen_ok(bits: usize, rounds: usize, s: &mut Script) -> Result<N, String> {
    let p = match Nat::generate_prime(bits, rounds, s) { Ok(p) => p, Err(_) => return Err(format!("generate_prime({}) refused", bits)) };
    let n = see(&p).map_err(|e| format!("generate_prime({}): {}", bits, e))?;
    if n.bits() != bits { return Err(format!("generate_prime({}) returned a number of {} bits: {:?}", bits, n.bits(), n)); }
    if !prime(&n) { return Err(format!("generate_prime({}) returned the composite {:?}", bits, n)); }
    if !top_two(&n, bits) { return Err(format!("generate_prime({}) returned {:?}, whose two top bits are not both set", bits, n)); }
    Ok(n)
}
fn top_two(n: &N, bits: usize) -> bool { n.shr(bits - 2) == N::u(3) }
pub fn c14(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    v.push(Suite::new("too-small", "bit lengths 0 and 1, every answer sequence of length <= 2", 2, |i, c| {
        c.note(|| format!("generate_prime({})", i));
        let mut a = words(&[0, 1, u32::MAX]); a.push(Ans::Fail);
        let n = explore(&a, 2, |s| { want!(Nat::generate_prime(i as usize, 5, s).is_err(), "{} bits accepted", i); Ok(()) })?; c.steps(n); c.state(i); Ok(())
    }));
    let maxb: u64 = t.pick(16, 19);
    v.push(Suite::new("every-first-word", format!("bit lengths 2..={}: every first word below 2^bits (in chunks of 64), then every answer of {{failure, 0, all ones}}", maxb), (2..=maxb).map(|b| (1u64 << b).div_ceil(64)).sum(), move |mut i, c| {
        let mut b = 2; while i >= (1u64 << b).div_ceil(64) { i -= (1u64 << b).div_ceil(64); b += 1; }
        let lo = i * 64; let hi = (lo + 64).min(1 << b);
        c.note(|| format!("generate_prime({}) with first word in {}..{}", b, lo, hi));
        let a: Vec<Ans> = (lo..hi).map(|x| w(x as u32)).collect();
        let mut st = 0;
        let n = explore(&a, 1, |s| { let p = gen_ok(b as usize, 3, s)?; st = mix(st, p.hash()); Ok(()) })?; c.steps(n); c.state(st); Ok(())
    }));
    let sizes: Vec<usize> = t.pick((2..=70).chain([95, 96, 97, 98, 127, 128, 129, 130, 159, 160, 161, 162, 192, 193, 224, 225, 256, 257, 320, 321, 384, 416, 512, 513, 768, 1024]).collect(), (2..=200).chain([223, 224, 225, 226, 255, 256, 257, 258, 289, 320, 321, 353, 384, 385, 511, 512, 513, 767, 768, 769, 1023, 1024, 1025]).collect());
    let max = *sizes.last().unwrap();
    v.push(Suite::new("adversary", format!("{} bit lengths 2..={}; every answer sequence over {{0,1,3,2^31,2^32-2,2^32-1,failure}} of length up to 3", sizes.len(), max), sizes.len() as u64 * 7, move |i, c| {
        let (k, f) = sp2(i, sizes.len()); let b = sizes[k];
        let a = vec![Ans::Fail, w(0), w(1), w(3), w(1 << 31), w(u32::MAX - 1), w(u32::MAX)];
        let f = a[f];
        c.note(|| format!("generate_prime({}), first answer {:x?}", b, f));
        let depth = if b <= 70 { t.pick(2, 3) } else if b <= 130 { t.pick(1, 2) } else { t.pick(0, 1) };
        // the first answer is fixed per case, the following ones are explored
        let mut st = 0;
        let mut fst = |s: &mut Script| -> Result<(), String> { let mut s2 = First { f: Some(f), s }; let p = match Nat::generate_prime(b, 2, &mut s2) { Ok(p) => p, Err(_) => return Err(format!("generate_prime({}) refused", b)) };
            let n = see(&p).map_err(|e| format!("generate_prime({}): {}", b, e))?;
            want!(n.bits() == b, "generate_prime({}) returned a number of {} bits: {:?}", b, n.bits(), n);
            want!(prime(&n), "generate_prime({}) returned the composite {:?}", b, n);
            want!(top_two(&n, b), "generate_prime({}) returned {:?}, whose two top bits are not both set", b, n);
            st = mix(st, n.hash()); Ok(()) };
        let n = explore(&a, depth, |s| fst(s))?;
        c.steps(n); c.state(st); Ok(())
    }));
    v
}
/// the given words over and over
struct Fixed { v: Vec<u32>, i: usize }
impl rmath::rand::Source<u32> for Fixed {
    fn gen(&mut self) -> rmath::rand::Result<u32> { self.i += 1; if self.i > 10_000 { panic!("does not terminate: 10000 numbers drawn"); } Ok(self.v[(self.i - 1) % self.v.len()]) }
    fn reset<Sd: rmath::rand::Seed<u32>>(&mut self, _: &Sd) -> rmath::rand::Result<()> { Ok(()) }
}
impl rmath::rand::IterSource<u32> for Fixed { fn iter_mut(&mut self) -> rmath::rand::Iter<'_, Self, u32> { rmath::rand::Iter::new(self) } }
struct First<'a, 'b> { f: Option<Ans>, s: &'a mut Script<'b> }
impl<'a, 'b> rmath::rand::Source<u32> for First<'a, 'b> {
    fn gen(&mut self) -> rmath::rand::Result<u32> { match self.f.take() { None => self.s.gen(), Some(Ans::Word(x)) => Ok(x), Some(Ans::Fail) => Err(rmath::rand::RandError::new(rmath::rand::RandErrKind::NoNewRandNumberGen, "scripted failure")) } }
    fn reset<Sd: rmath::rand::Seed<u32>>(&mut self, _: &Sd) -> rmath::rand::Result<()> { Ok(()) }
}
impl<'a, 'b> rmath::rand::IterSource<u32> for First<'a, 'b> { fn iter_mut(&mut self) -> rmath::rand::Iter<'_, Self, u32> { rmath::rand::Iter::new(self) } }

fn main() {
    mc::engine::main(&[
        Prop { id: "C12", build: c12, assumptions: &["beyond the enumerated answer prefix the source follows one fixed well-behaved continuation"] },
        Prop { id: "C13", build: c13, assumptions: &["beyond the enumerated answer prefix the source follows one fixed well-behaved continuation", "reachability of multi-limb values is only required for values whose limbs are in the enumerated alphabet"] },
        Prop { id: "C14", build: c14, assumptions: &["beyond the enumerated answer prefix the source follows one fixed well-behaved continuation", "primality of results above 64 bits is decided by 24 Miller-Rabin bases in the reference model"] },
    ])
}
