//! C37: every refusal names its reason.
use mc::alpha::*;
use mc::engine::*;
use mc::env::*;
use mc::obs::*;
use mc::refmath::*;
use mc::text::*;
use mc::want;
use rmath::bigint::{BigInt, Float, Nat, NatError, Rat, RatErrKind, RatError};
use rmath::parse_err::ParseErrKind;
use rmath::rand::{LaggedFibonacciRand, LinearCongruentialRand, MersenneTwisterRand, RandErrKind, RandError, Seed};
use std::error::Error;
use std::fmt;
use std::str::FromStr;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Why { Begin, Later, Either }
/// why an integer text that is malformed is malformed; None where that is not specified
fn why(s: &str, neg_ok: bool) -> Option<Why> {
    let t = s.trim(); let b = t.strip_prefix('+').or(if neg_ok { t.strip_prefix('-') } else { None }).unwrap_or(t);
    let mut it = b.chars();
    let c = match it.next() { None => return Some(Why::Begin), Some(c) => c };
    if c == '+' || c == ' ' { return None; }
    if !c.is_ascii_digit() { return Some(Why::Begin); }
    if c == '0' { return match it.next() { None => None, Some('x' | 'X' | 'b' | 'B' | 'o') => Some(if it.next().is_none() { Why::Begin } else { Why::Later }), _ => Some(Why::Either) }; }
    Some(Why::Later)
}
fn kind_ok(k: ParseErrKind, w: Why) -> bool { match w { Why::Begin => k == ParseErrKind::BeginWithIllegalChar, Why::Later => k == ParseErrKind::IllegalCharEncounter, Why::Either => k == ParseErrKind::BeginWithIllegalChar || k == ParseErrKind::IllegalCharEncounter } }
fn int_text(s: &str, c: &mut Ctx) -> Res {
    c.note(|| format!("parse {:?}", s));
    macro_rules! one { ($t:ty, $neg:expr) => { if let (Parse::Err, Err(e)) = (model_parse(s, $neg), <$t>::from_str(s)) { if let Some(w) = why(s, $neg) { c.step(); c.state(w as u64 * 2 + $neg as u64); want!(kind_ok(e.kind(), w), "{}::from_str({:?}) is refused with {:?}, expected {:?}", stringify!($t), s, e.kind(), w); } } } }
    one!(Nat, false); one!(BigInt, true); Ok(())
}
fn frac_text(s: &str, c: &mut Ctx) -> Res {
    c.note(|| format!("parse {:?}", s));
    if let (P::Err, Err(e)) = (rat_text(s), Rat::from_str(s)) {
        let t = s.trim(); let one = |s: &str| model_parse(s, true);
        let w = if t.contains('.') { RatErrKind::ParseStringWrong } else { match t.find('/') { None => RatErrKind::ParseStringWrong, Some(i) => match (one(&t[..i]), one(&t[i + 1..])) { (Parse::Err, _) | (_, Parse::Err) => RatErrKind::ParseStringWrong, (Parse::Ok(_), _) => RatErrKind::DenominatorIsZero, _ => return Ok(()) } } };
        c.step(); c.state(w as u64); want!(e.kind() == w, "Rat::from_str({:?}) is refused with {:?}, expected {:?}", s, e.kind(), w);
    }
    Ok(())
}
fn flt_text(s: &str, c: &mut Ctx) -> Res {
    c.note(|| format!("parse {:?}", s));
    if let (P::Err, Err(e)) = (float_text(s), Float::from_str(s)) { c.step(); c.state(s.len() as u64); let k = format!("{:?}", e.kind()); want!(k == "ParseStringWrong", "Float::from_str({:?}) is refused with {}, expected ParseStringWrong", s, k); }
    Ok(())
}
fn all_texts(s: &str, c: &mut Ctx) -> Res { int_text(s, c)?; frac_text(s, c)?; flt_text(s, c) }

struct Sd<T>(T);
impl<T: rmath::rand::PrimitiveType + Copy> Seed<T> for Sd<T> { fn seed(&self) -> rmath::rand::Result<T> { Ok(self.0) } }

#[derive(Debug)]
struct Leaf(u64);
impl fmt::Display for Leaf { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "leaf {}", self.0) } }
impl Error for Leaf {}
#[derive(Debug)]
struct Wrap(Leaf);
impl fmt::Display for Wrap { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "wrapped {}", self.0) } }
impl Error for Wrap { fn source(&self) -> Option<&(dyn Error + 'static)> { Some(&self.0) } }

pub fn c37(t: Tier) -> Vec<Suite> {
    static AL: [char; 16] = ['0', '1', '7', '8', '9', 'a', 'F', 'g', 'x', 'X', 'b', 'o', '+', '-', ' ', '_'];
    static AL2: [char; 9] = ['0', '2', '/', '-', '.', 'x', 'b', 'e', 'é'];
    let (n1, f1) = strings(&AL, t.pick(5, 6)); let (n2, f2) = strings(&AL2, t.pick(6, 7));
    let mut v = vec![
        Suite::new("strings", format!("every string of length <= {} over {:?}, parsed as natural, integer, rational and float", t.pick(5, 6), AL), n1, move |i, c| all_texts(&f1(i), c)),
        Suite::new("strings9", format!("every string of length <= {} over {:?}, parsed as natural, integer, rational and float", t.pick(6, 7), AL2), n2, move |i, c| all_texts(&f2(i), c)),
    ];
    { let ls: Vec<usize> = lens(t.pick(70usize, 200), &[255, 256, 257, 400]); let bad = [' ', 'g', 'z', '-', '+', '.', '_', '/', ':', '@', 'G', '`', '\0', 'é', '٣', 'x', '２', '\n', '9', 'f', '2']; let d = [ls.len() as u64, 4, 3, bad.len() as u64];
      v.push(Suite::new("corrupt", format!("literals of {} lengths, 4 radices, 3 signs, one of {} characters inserted at every position", ls.len(), bad.len()), d.iter().product(), move |i, c| { let s = split(i, &d); let (l, r) = (ls[s[0]], [10u32, 16, 8, 2][s[1]]);
        let lit: String = (0..l).map(|j| std::char::from_digit(if j == 0 { 1 } else { (j * 7 + 3) as u32 % r }, r).unwrap()).collect(); let lit = format!("{}{}{}", ["", "-", "+"][s[2]], ["", "0x", "0o", "0b"][s[1]], lit);
        for p in 0..=lit.len() { if p > 12 && p + 12 < lit.len() && p % 8 != 0 && l > 70 { continue; } let mut u = lit.clone(); u.insert(p, bad[s[3]]); int_text(&u, c)?; if l < 40 { frac_text(&format!("{}/3", u), c)?; frac_text(&format!("-7/{}", u), c)?; flt_text(&u, c)?; } } Ok(()) })); }
    let zs: Vec<&'static str> = vec!["0", "-0", "+0", "0x0", "0X000", "0b0", "0B00", "0o0", "-0x0", " 0", "0 ", "-0b0000"];
    { let ns: Vec<String> = ["0", "1", "-1", "+7", "12", "0xff", "-0b101", "0o17", "4294967296", "-18446744073709551616", "0x100000000000000000000000000000000"].iter().map(|s| s.to_string()).chain((1..t.pick(60usize, 300)).map(|l| format!("-{}", "9".repeat(l)))).collect(); let d = [ns.len() as u64, zs.len() as u64];
      v.push(Suite::new("zero-denominators", format!("{} numerators over {} texts for zero", d[0], d[1]), d.iter().product(), move |i, c| { let s = split(i, &d); frac_text(&format!("{}/{}", ns[s[0]], zs[s[1]]), c) })); }
    { let vals = Arc::new({ let mut b = small(300); b.extend(limb_vecs(&LIMBS4, 3)); b.extend(patterns([1, 2, 4, 9, 33], &[0, 1, 2, 7])); dedup(b) }); let n = vals.len() as u64;
      v.push(Suite::new("fractions", format!("{} numerators of both signs over zero, and the inverse of zero reached 5 ways from each", n), n * 2, move |i, c| {
        let z = Z::new(i % 2 == 1, vals[(i / 2) as usize].clone()); c.note(|| format!("{:?} over zero", z)); c.state(z.hash());
        for zero in [BigInt::from(0u32), -BigInt::from(0i32), BigInt::from(5u32) - BigInt::from(5u32), int(&z) - int(&z), BigInt::from(0u32) * int(&z)] { c.step(); match Rat::from_frac_bigint(&int(&z), &zero) { Err(e) => want!(e.kind() == RatErrKind::DenominatorIsZero, "{:?}/0 is refused with {:?}", z, e.kind()), Ok(_) => return Err(format!("{:?}/0 accepted", z)) } }
        if let Some(k) = z.m.to_u128() { if k < 1 << 63 { c.step(); let k = if z.neg { -(k as isize) } else { k as isize }; match Rat::from_frac(k, 0) { Err(e) => want!(e.kind() == RatErrKind::DenominatorIsZero, "from_frac({}, 0) is refused with {:?}", k, e.kind()), Ok(_) => return Err(format!("from_frac({}, 0) accepted", k)) } } }
        let q = Rat::from(int(&z));
        for (k, zero) in [q.deep_clone() - q.deep_clone(), q.deep_clone() * Rat::from(0u32), Rat::from_frac(0, 7).map_err(|_| "0/7 refused")?, -(q.deep_clone() - q.deep_clone()), Rat::from_f64(-0.0)].into_iter().enumerate() { c.step(); match zero.inv() { Err(e) => want!(e.kind() == RatErrKind::NumeratorIsZero, "the inverse of zero #{} is refused with {:?}", k, e.kind()), Ok(_) => return Err(format!("the inverse of zero #{} exists", k)) } }
        Ok(()) })); }
    { let ms: Vec<&'static str> = vec!["1", "-1", "0", "1.5", "+12.25", ".5", "7.", "-0.001", "123456789012345678901234567890"]; let nb: u64 = t.pick(200, 1000); let d = [ms.len() as u64, 2, nb, 4];
      v.push(Suite::new("exponents", format!("{} mantissas, exponents just and far beyond the supported range ({} magnitudes), e and E, all signs", d[0], nb), d.iter().product(), move |i, c| { let s = split(i, &d);
        let b = N::u(1 << 31); let neg = s[3] == 1; let k = s[2]; let x = if k < 40 { b.add(&N::u(k as u128 + neg as u128)) } else if k < 160 { N::one().shl(32 + (k - 40) / 2).sub(&N::u((k % 2) as u128)) } else { N::u(10).pow(10 + (k - 160)) };
        let tx = format!("{}{}{}{}", ms[s[0]], ["e", "E"][s[1]], ["", "-", "+", "+"][s[3]], x.to_radix(10)); if s[3] == 3 { return Ok(()); } c.note(|| format!("parse {:?}", tx)); c.step(); c.state(x.hash());
        match Float::from_str(&tx) { Err(e) => { let (g, w) = (format!("{:?}", e.kind()), if neg { "ExponentUnderflow" } else { "ExponentOverflow" }); want!(g == w, "{:?} is refused with {}, expected {}", tx, g, w); } Ok(_) => return Err(format!("{:?} accepted", tx)) } Ok(()) })); }
    v.push(Suite::new("prime-sizes", "prime sizes below two bits, 0..=70 rounds, every answer sequence of length <= 2 over {0, all ones, failure}", 2 * 71, |i, c| { let (b, r) = ((i % 2) as usize, (i / 2) as usize); c.note(|| format!("generate_prime({}, {})", b, r)); c.state(i);
        let n = explore(&[Ans::Word(0), Ans::Word(u32::MAX), Ans::Fail], 2, |s| match Nat::generate_prime(b, r, s) { Err(e) => { want!(e.kind() == ParseErrKind::InvalidParameters, "generate_prime({}) is refused with {:?}", b, e.kind()); Ok(()) } Ok(_) => Err(format!("generate_prime({}) accepted", b)) })?; c.steps(n); Ok(()) }));
    macro_rules! engines { ($name:expr, $t:ty) => {{
        let w: Vec<$t> = vec![0, 1, 2, 3, 16807, 65536, 0x7fff_ffff, 0x8000_0000, <$t>::MAX - 1, <$t>::MAX]; let k = w.len() as u64; let d = [k, k, k];
        v.push(Suite::new(concat!("lcg-", $name), "linear congruential engines with modulus zero: every multiplier, increment and seed", d.iter().product(), move |i, c| { let s = split(i, &d); c.note(|| format!("a={:#x} c={:#x} seed={:#x}", w[s[0]], w[s[1]], w[s[2]])); c.step(); c.state(i);
            match LinearCongruentialRand::<$t>::new(&Sd(w[s[2]]), w[s[0]], w[s[1]], 0) { Err(e) => want!(e.kind() == RandErrKind::DivisorIsZero, "modulus zero is refused with {:?}", e.kind()), Ok(_) => return Err("modulus zero accepted".into()) } Ok(()) }));
        let bits = <$t>::BITS as $t; let ws: Vec<$t> = vec![0, 1, 2, 24, bits - 1, bits, bits + 1, 2 * bits, 255, <$t>::MAX]; let ls: Vec<$t> = (0..8).chain([24, 1000, <$t>::MAX - 1, <$t>::MAX]).collect(); let d = [ws.len() as u64, ls.len() as u64, ls.len() as u64];
        v.push(Suite::new(concat!("swc-", $name), "subtract-with-carry engines with illegal word sizes and lags", d.iter().product(), move |i, c| { let s = split(i, &d); let (w, a, r) = (ws[s[0]], ls[s[1]], ls[s[2]]); if w >= 1 && w <= bits && 0 < a && a < r { return Ok(()); } c.note(|| format!("w={} s={} r={}", w, a, r)); c.step(); c.state(i);
            match LaggedFibonacciRand::<$t>::new(&Sd(1), w, a, r) { Err(e) => want!(e.kind() == RandErrKind::InvalidRngPara, "w={} s={} r={} is refused with {:?}", w, a, r, e.kind()), Ok(_) => return Err(format!("w={} s={} r={} accepted", w, a, r)) } Ok(()) }));
        // one illegal parameter at a time in otherwise legal twisters, and every pair of them
        let bases: Vec<[$t; 13]> = [(2 as $t, 1 as $t, 1 as $t, 1 as $t), (3, 2, 1, 2), (8, 3, 2, 5), (31, 4, 2, 30), (bits - 1, 3, 1, 7), (bits, 3, 3, 5)].iter().map(|&(w, n, m, r)| { let k = if w == bits { <$t>::MAX } else { (1 << w) - 1 }; [w, n, m, r, k, 1, k, 1, k, w - 1, 1, w - 1, k] }).collect();
        let wrong = move |b: &[$t; 13]| -> Vec<(usize, $t)> { let w = b[0]; let over = |i: usize| -> Vec<(usize, $t)> { if w < bits { vec![(i, 1 << w), (i, <$t>::MAX)] } else { vec![] } }; let mut o = vec![(0, 0), (0, bits + 1), (0, <$t>::MAX), (2, 0), (2, b[1] + 1), (2, <$t>::MAX), (3, 0), (3, w), (3, w + 1), (4, 0), (12, 0), (1, 0)]; for i in [5, 7, 9, 11] { o.extend([(i, w), (i, w + 1), (i, <$t>::MAX)]); } for i in [4, 6, 8, 10, 12] { o.extend(over(i)); } o };
        let mut cases: Vec<[$t; 13]> = vec![]; for b in &bases { let x = wrong(b); for (i, p) in x.iter().enumerate() { for q in &x[i..] { let mut y = *b; y[p.0] = p.1; if q.0 != p.0 { y[q.0] = q.1; } cases.push(y); } } } cases.sort(); cases.dedup(); let n = cases.len() as u64;
        v.push(Suite::new(concat!("mt-", $name), format!("{} twisters with one or two illegal parameters", n), n, move |i, c| { let p = cases[i as usize]; c.note(|| format!("{:?}", p)); c.step(); c.state(i);
            match MersenneTwisterRand::<$t>::new(&Sd(5489), p[0], p[1], p[2], p[3], p[4], (p[5], p[6]), (p[7], p[8]), (p[9], p[10]), p[11], p[12]) { Err(e) => want!(e.kind() == RandErrKind::InvalidRngPara, "{:?} is refused with {:?}", p, e.kind()), Ok(_) => return Err(format!("{:?} accepted", p)) } Ok(()) }));
    }} }
    engines!("u32", u32); engines!("u64", u64); engines!("usize", usize);
    v.push(Suite::new("errors", "every kind of error of every error type x 5 causes: kind, text and cause", 3 * 5 * 5, |i, c| { let s = split(i, &[3, 5, 5]); c.note(|| format!("error type {}, kind {}, cause {}", s[0], s[1], s[2])); c.step(); c.state(i);
        let cause: Box<dyn Error + Send + Sync> = match s[2] { 0 => "some text".into(), 1 => String::new().into(), 2 => Box::new(Leaf(7)), 3 => Box::new(Wrap(Leaf(8))), _ => Box::new(RandError::new(RandErrKind::InnerErr, Wrap(Leaf(9)))) };
        let (text, src) = (["some text", "", "leaf 7", "wrapped leaf 8", "wrapped leaf 9"][s[2]], [None, None, None, Some("leaf 8"), Some("leaf 9")][s[2]]);
        macro_rules! chk { ($t:ident, $k:expr, $others:expr) => {{ let k = $k; let e = $t::new(k, cause); want!(e.kind() == k, "kind {:?} instead of {:?}", e.kind(), k); want!(e.to_string() == text, "{:?} shown as {:?}, expected {:?}", e, e.to_string(), text); let g = e.source().map(|x| x.to_string()); want!(g.as_deref() == src, "{:?} has the cause {:?}, expected {:?}", e, g, src); for (j, o) in $others.iter().enumerate() { want!((format!("{:?}", o) == format!("{:?}", k)) == (j == s[1]) && (*o == k) == (j == s[1]), "kinds {:?} and {:?}", o, k); } }} }
        match s[0] {
            0 => { let ks = [ParseErrKind::BeginWithIllegalChar, ParseErrKind::IllegalCharEncounter, ParseErrKind::InvalidParameters]; if s[1] < 3 { chk!(NatError, ks[s[1]], ks) } }
            1 => { let ks = [RatErrKind::DenominatorIsZero, RatErrKind::NumeratorIsZero, RatErrKind::ParseStringWrong]; if s[1] < 3 { chk!(RatError, ks[s[1]], ks) } }
            _ => { let ks = [RandErrKind::NoNewRandSeedGen, RandErrKind::NoNewRandNumberGen, RandErrKind::DivisorIsZero, RandErrKind::InvalidRngPara, RandErrKind::InnerErr]; chk!(RandError, ks[s[1]], ks) }
        }
        Ok(()) }));
    v
}

fn main() {
    mc::engine::main(&[Prop { id: "C37", build: c37, assumptions: &["which kind a text with several signs or blanks after the sign is refused with, or a zero followed by a character that starts no radix prefix beyond the two kinds for malformed text, is not specified", "where both the parameters and the seed source of a generator are at fault, either may be reported"] }])
}
