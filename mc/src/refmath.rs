//! Reference model: deliberately plain schoolbook arithmetic, written independently of rmath.
use std::cmp::Ordering;

/// Natural number, little-endian limbs without leading zeros (zero is empty).
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct N(pub Vec<u32>);

impl std::fmt::Debug for N {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.0.is_empty() { return write!(f, "0"); }
        if self.0.len() > 12 {
            let h = self.0.iter().fold(0u64, |h, &x| (h ^ x as u64).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29));
            return write!(f, "<{} limbs, top {:08x}, low {:08x}, hash {:016x}>", self.0.len(), self.0[self.0.len()-1], self.0[0], h);
        }
        write!(f, "0x")?;
        for (i, x) in self.0.iter().rev().enumerate() {
            if i == 0 { write!(f, "{:x}", x)? } else { write!(f, "{:08x}", x)? }
        }
        Ok(())
    }
}

impl PartialOrd for N { fn partial_cmp(&self, o: &N) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for N {
    fn cmp(&self, o: &N) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| {
            for i in (0..self.0.len()).rev() {
                if self.0[i] != o.0[i] { return self.0[i].cmp(&o.0[i]); }
            }
            Ordering::Equal
        })
    }
}

impl N {
    pub fn new(mut v: Vec<u32>) -> N { while v.last() == Some(&0) { v.pop(); } N(v) }
    pub fn zero() -> N { N(vec![]) }
    pub fn one() -> N { N(vec![1]) }
    pub fn u(x: u128) -> N { N::new(vec![x as u32, (x >> 32) as u32, (x >> 64) as u32, (x >> 96) as u32]) }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn to_u128(&self) -> Option<u128> {
        if self.0.len() > 4 { return None; }
        Some(self.0.iter().enumerate().fold(0u128, |a, (i, &x)| a | (x as u128) << (32 * i)))
    }
    pub fn is_odd(&self) -> bool { self.0.first().map_or(false, |x| x & 1 == 1) }
    pub fn bits(&self) -> usize { match self.0.last() { None => 0, Some(x) => self.0.len() * 32 - x.leading_zeros() as usize } }
    pub fn bit(&self, i: usize) -> bool { self.0.get(i / 32).map_or(false, |x| x >> (i % 32) & 1 == 1) }
    pub fn tz(&self) -> usize { let mut i = 0; while !self.bit(i) { i += 1; if i > self.bits() { return 0; } } i }
    pub fn add(&self, o: &N) -> N {
        let n = self.0.len().max(o.0.len());
        let mut v = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n {
            let s = c + *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64;
            v.push(s as u32); c = s >> 32;
        }
        v.push(c as u32);
        N::new(v)
    }
    /// requires self >= o
    pub fn sub(&self, o: &N) -> N {
        assert!(*self >= *o);
        let mut v = Vec::with_capacity(self.0.len());
        let mut b = 0i64;
        for i in 0..self.0.len() {
            let mut s = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - b;
            if s < 0 { s += 1 << 32; b = 1 } else { b = 0 }
            v.push(s as u32);
        }
        N::new(v)
    }
    pub fn absdiff(&self, o: &N) -> N { if self >= o { self.sub(o) } else { o.sub(self) } }
    pub fn mul(&self, o: &N) -> N {
        let mut v = vec![0u32; self.0.len() + o.0.len() + 1];
        for i in 0..self.0.len() {
            let mut c = 0u64;
            let a = self.0[i] as u64;
            if a == 0 { continue; }
            for j in 0..o.0.len() {
                let t = a * o.0[j] as u64 + v[i + j] as u64 + c;
                v[i + j] = t as u32; c = t >> 32;
            }
            v[i + o.0.len()] = c as u32;
        }
        N::new(v)
    }
    pub fn shl(&self, s: usize) -> N {
        if self.is_zero() { return N::zero(); }
        let mut v = vec![0u32; s / 32];
        let r = s % 32;
        let mut c = 0u64;
        for &x in &self.0 { let t = (x as u64) << r | c; v.push(t as u32); c = t >> 32; }
        v.push(c as u32);
        N::new(v)
    }
    pub fn shr(&self, s: usize) -> N {
        let (w, r) = (s / 32, s % 32);
        if w >= self.0.len() { return N::zero(); }
        let mut v = Vec::new();
        for i in w..self.0.len() {
            let hi = *self.0.get(i + 1).unwrap_or(&0) as u64;
            v.push(((hi << 32 | self.0[i] as u64) >> r) as u32);
        }
        N::new(v)
    }
    pub fn low_bits_nonzero(&self, s: usize) -> bool {
        for i in 0..s.min(self.bits()) { if self.bit(i) { return true; } } false
    }
    pub fn divrem_u32(&self, d: u32) -> (N, u32) {
        let mut r = 0u64;
        let mut v = vec![0u32; self.0.len()];
        for i in (0..self.0.len()).rev() { let t = r << 32 | self.0[i] as u64; v[i] = (t / d as u64) as u32; r = t % d as u64; }
        (N::new(v), r as u32)
    }
    /// Knuth D; the result is re-verified by multiplication in `selftest`.
    pub fn divrem(&self, d: &N) -> (N, N) {
        assert!(!d.is_zero());
        if self < d { return (N::zero(), self.clone()); }
        if d.0.len() == 1 { let (q, r) = self.divrem_u32(d.0[0]); return (q, N::u(r as u128)); }
        let s = d.0.last().unwrap().leading_zeros() as usize;
        let v = d.shl(s).0;
        let mut u = self.shl(s).0;
        u.resize(self.0.len() + 1, 0);
        let n = v.len();
        let m = u.len() - n - 1;
        let mut q = vec![0u32; m + 1];
        for j in (0..=m).rev() {
            let num = (u[j + n] as u128) << 32 | u[j + n - 1] as u128;
            let mut qh = num / v[n - 1] as u128;
            let mut rh = num % v[n - 1] as u128;
            while qh >= 1 << 32 || qh * v[n - 2] as u128 > (rh << 32 | u[j + n - 2] as u128) {
                qh -= 1; rh += v[n - 1] as u128;
                if rh >= 1 << 32 { break; }
            }
            let mut borrow = 0i128; let mut carry = 0u128;
            for i in 0..n {
                let p = qh * v[i] as u128 + carry; carry = p >> 32;
                let t = u[i + j] as i128 - borrow - (p & 0xffff_ffff) as i128;
                u[i + j] = t as u32; borrow = if t < 0 { 1 } else { 0 };
            }
            let t = u[j + n] as i128 - borrow - carry as i128;
            u[j + n] = t as u32;
            if t < 0 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n { let t = u[i + j] as u64 + v[i] as u64 + c; u[i + j] = t as u32; c = t >> 32; }
                u[j + n] = (u[j + n] as u64 + c) as u32;
            }
            q[j] = qh as u32;
        }
        (N::new(q), N::new(u).shr(s))
    }
    pub fn rem(&self, d: &N) -> N { self.divrem(d).1 }
    pub fn pow(&self, e: usize) -> N { let mut r = N::one(); for _ in 0..e { r = r.mul(self); } r }
    /// left-to-right binary exponentiation
    pub fn modpow(&self, e: &N, m: &N) -> N {
        let mut r = N::one().rem(m);
        let b = self.rem(m);
        for i in (0..e.bits()).rev() {
            r = r.mul(&r).rem(m);
            if e.bit(i) { r = r.mul(&b).rem(m); }
        }
        r
    }
    pub fn powbig(&self, e: &N) -> N {
        let mut r = N::one();
        for i in (0..e.bits()).rev() { r = r.mul(&r); if e.bit(i) { r = r.mul(self); } }
        r
    }
    pub fn gcd(&self, o: &N) -> N { let (mut a, mut b) = (self.clone(), o.clone()); while !b.is_zero() { let r = a.rem(&b); a = b; b = r; } a }
    pub fn bitop(&self, o: &N, f: impl Fn(u32, u32) -> u32) -> N {
        let n = self.0.len().max(o.0.len());
        N::new((0..n).map(|i| f(*self.0.get(i).unwrap_or(&0), *o.0.get(i).unwrap_or(&0))).collect())
    }
    /// bitwise binary-search square root
    pub fn isqrt(&self) -> N {
        let mut r = N::zero();
        for i in (0..=(self.bits() / 2)).rev() {
            let t = r.add(&N::one().shl(i));
            if t.mul(&t) <= *self { r = t; }
        }
        r
    }
    pub fn to_radix(&self, radix: u32) -> String {
        if self.is_zero() { return "0".into(); }
        let mut s = vec![]; let mut x = self.clone();
        while !x.is_zero() { let (q, r) = x.divrem_u32(radix); s.push(std::char::from_digit(r, radix).unwrap()); x = q; }
        s.iter().rev().collect()
    }
    pub fn from_radix(s: &str, radix: u32) -> Option<N> {
        if s.is_empty() { return None; }
        let mut v: Vec<u32> = vec![];
        for c in s.chars() { let mut k = c.to_digit(radix)? as u64; for x in v.iter_mut() { let t = *x as u64 * radix as u64 + k; *x = t as u32; k = t >> 32; } if k > 0 { v.push(k as u32); } }
        Some(N::new(v))
    }
    pub fn le_bytes(&self) -> Vec<u8> {
        let mut v: Vec<u8> = self.0.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect();
        while v.last() == Some(&0) { v.pop(); }
        if v.is_empty() { v.push(0); }
        v
    }
    pub fn hash(&self) -> u64 { let mut h = 0xcbf29ce484222325u64; for &x in &self.0 { h = mix(h, x as u64); } mix(h, self.0.len() as u64) }
}

pub fn mix(h: u64, x: u64) -> u64 {
    let mut z = h.rotate_left(5) ^ x.wrapping_mul(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z ^ (z >> 27)
}

/// Integer.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Z { pub neg: bool, pub m: N }
impl std::fmt::Debug for Z { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}{:?}", if self.neg { "-" } else { "" }, self.m) } }
impl PartialOrd for Z { fn partial_cmp(&self, o: &Z) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Z {
    fn cmp(&self, o: &Z) -> Ordering {
        match (self.neg, o.neg) {
            (false, false) => self.m.cmp(&o.m),
            (true, true) => o.m.cmp(&self.m),
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
        }
    }
}
impl Z {
    pub fn new(neg: bool, m: N) -> Z { Z { neg: neg && !m.is_zero(), m } }
    pub fn pos(m: N) -> Z { Z { neg: false, m } }
    pub fn i(x: i128) -> Z { Z::new(x < 0, N::u(x.unsigned_abs())) }
    pub fn zero() -> Z { Z::pos(N::zero()) }
    pub fn is_zero(&self) -> bool { self.m.is_zero() }
    pub fn sign(&self) -> isize { if self.neg { -1 } else if self.is_zero() { 0 } else { 1 } }
    pub fn neg(&self) -> Z { Z::new(!self.neg, self.m.clone()) }
    pub fn abs(&self) -> Z { Z::pos(self.m.clone()) }
    pub fn add(&self, o: &Z) -> Z {
        if self.neg == o.neg { Z::new(self.neg, self.m.add(&o.m)) }
        else if self.m >= o.m { Z::new(self.neg, self.m.sub(&o.m)) }
        else { Z::new(o.neg, o.m.sub(&self.m)) }
    }
    pub fn sub(&self, o: &Z) -> Z { self.add(&o.neg()) }
    pub fn mul(&self, o: &Z) -> Z { Z::new(self.neg != o.neg, self.m.mul(&o.m)) }
    /// truncating
    pub fn divrem(&self, o: &Z) -> (Z, Z) { let (q, r) = self.m.divrem(&o.m); (Z::new(self.neg != o.neg, q), Z::new(self.neg, r)) }
    pub fn euclid(&self, o: &Z) -> (Z, Z) {
        let (mut q, mut r) = self.divrem(o);
        if r.neg { r = r.add(&o.abs()); q = if o.neg { q.add(&Z::i(1)) } else { q.sub(&Z::i(1)) }; }
        (q, r)
    }
    /// floor(self / 2^s)
    pub fn shr(&self, s: usize) -> Z {
        if !self.neg { return Z::pos(self.m.shr(s)); }
        let mut q = self.m.shr(s);
        if self.m.low_bits_nonzero(s) { q = q.add(&N::one()); }
        Z::new(true, q)
    }
    pub fn shl(&self, s: usize) -> Z { Z::new(self.neg, self.m.shl(s)) }
    /// n limbs of two's complement
    pub fn twos(&self, n: usize) -> Vec<u32> {
        let mut v = self.m.0.clone(); v.resize(n, 0);
        if self.neg {
            let mut c = 1u64;
            for x in v.iter_mut() { let t = (!*x) as u64 + c; *x = t as u32; c = t >> 32; }
        }
        v
    }
    pub fn from_twos(v: &[u32]) -> Z {
        if v.last().map_or(false, |x| x >> 31 == 1) {
            let mut c = 1u64; let mut w = vec![];
            for x in v { let t = (!*x) as u64 + c; w.push(t as u32); c = t >> 32; }
            Z::new(true, N::new(w))
        } else { Z::pos(N::new(v.to_vec())) }
    }
    pub fn bitop(&self, o: &Z, f: impl Fn(u32, u32) -> u32) -> Z {
        let n = self.m.0.len().max(o.m.0.len()) + 2;
        let (a, b) = (self.twos(n), o.twos(n));
        Z::from_twos(&a.iter().zip(&b).map(|(&x, &y)| f(x, y)).collect::<Vec<_>>())
    }
    pub fn bit(&self, i: usize) -> bool { let n = self.m.0.len().max(i / 32 + 1) + 1; self.twos(n)[i / 32] >> (i % 32) & 1 == 1 }
    pub fn to_i128(&self) -> Option<i128> { let m = self.m.to_u128()?; if m > i128::MAX as u128 { return None; } Some(if self.neg { -(m as i128) } else { m as i128 }) }
    pub fn dec(&self) -> String { format!("{}{}", if self.neg { "-" } else { "" }, self.m.to_radix(10)) }
    pub fn hash(&self) -> u64 { mix(self.m.hash(), self.neg as u64) }
}

/// Rational in lowest terms.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Q { pub n: Z, pub d: N }
impl std::fmt::Debug for Q { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}/{:?}", self.n, self.d) } }
impl Q {
    pub fn new(n: Z, d: Z) -> Q {
        assert!(!d.is_zero());
        let g = n.m.gcd(&d.m);
        Q { n: Z::new(n.neg != d.neg, n.m.divrem(&g).0), d: d.m.divrem(&g).0 }
    }
    pub fn int(n: Z) -> Q { Q { n, d: N::one() } }
    pub fn i(a: i128, b: i128) -> Q { Q::new(Z::i(a), Z::i(b)) }
    pub fn dz(&self) -> Z { Z::pos(self.d.clone()) }
    pub fn add(&self, o: &Q) -> Q { Q::new(self.n.mul(&o.dz()).add(&o.n.mul(&self.dz())), self.dz().mul(&o.dz())) }
    pub fn sub(&self, o: &Q) -> Q { self.add(&o.neg()) }
    pub fn neg(&self) -> Q { Q { n: self.n.neg(), d: self.d.clone() } }
    pub fn abs(&self) -> Q { Q { n: self.n.abs(), d: self.d.clone() } }
    pub fn mul(&self, o: &Q) -> Q { Q::new(self.n.mul(&o.n), self.dz().mul(&o.dz())) }
    pub fn div(&self, o: &Q) -> Q { Q::new(self.n.mul(&o.dz()), self.dz().mul(&o.n)) }
    pub fn inv(&self) -> Q { Q::new(self.dz(), self.n.clone()) }
    pub fn cmp(&self, o: &Q) -> Ordering { self.n.mul(&o.dz()).cmp(&o.n.mul(&self.dz())) }
    pub fn hash(&self) -> u64 { mix(self.n.hash(), self.d.hash()) }
    /// exact value of a finite double
    pub fn f64(x: f64) -> Q {
        let b = x.to_bits();
        let e = (b >> 52 & 0x7ff) as i64; let m = b & ((1 << 52) - 1);
        assert!(e != 0x7ff);
        let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
        let z = Z::new(x.is_sign_negative(), N::u(m as u128));
        if e >= 0 { Q::int(z.shl(e as usize)) } else { Q::new(z, Z::pos(N::one().shl((-e) as usize))) }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode { NearestEven, NearestAway, ToZero, AwayZero, NegInf, PosInf }
pub const MODES: [Mode; 6] = [Mode::NearestEven, Mode::NearestAway, Mode::ToZero, Mode::AwayZero, Mode::NegInf, Mode::PosInf];

/// Value of a floating point number: finite non-zero is (-1)^neg * m * 2^e with m odd.
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum FV { Nan, Inf(bool), Zero(bool), Fin { neg: bool, m: N, e: i64 } }
impl std::fmt::Debug for FV {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            FV::Nan => write!(f, "NaN"),
            FV::Inf(n) => write!(f, "{}Inf", if *n { "-" } else { "+" }),
            FV::Zero(n) => write!(f, "{}0", if *n { "-" } else { "+" }),
            FV::Fin { neg, m, e } => write!(f, "{}{:?}*2^{}", if *neg { "-" } else { "" }, m, e),
        }
    }
}
impl FV {
    pub fn fin(neg: bool, m: N, e: i64) -> FV {
        if m.is_zero() { return FV::Zero(neg); }
        let t = m.tz();
        FV::Fin { neg, m: m.shr(t), e: e + t as i64 }
    }
    pub fn q(&self) -> Option<Q> {
        match self {
            FV::Zero(_) => Some(Q::i(0, 1)),
            FV::Fin { neg, m, e } => {
                let z = Z::new(*neg, m.clone());
                Some(if *e >= 0 { Q::int(z.shl(*e as usize)) } else { Q { n: z, d: N::one().shl((-*e) as usize) } })
            }
            _ => None,
        }
    }
    pub fn is_neg(&self) -> bool { match self { FV::Nan => false, FV::Inf(n) | FV::Zero(n) => *n, FV::Fin { neg, .. } => *neg } }
    pub fn minus(&self) -> FV {
        match self {
            FV::Nan => FV::Nan, FV::Inf(n) => FV::Inf(!n), FV::Zero(n) => FV::Zero(!n),
            FV::Fin { neg, m, e } => FV::Fin { neg: !neg, m: m.clone(), e: *e },
        }
    }
    pub fn f64(x: f64) -> FV {
        if x.is_nan() { return FV::Nan; }
        if x.is_infinite() { return FV::Inf(x < 0.0); }
        let b = x.to_bits();
        let e = (b >> 52 & 0x7ff) as i64; let m = b & ((1 << 52) - 1);
        let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
        FV::fin(x.is_sign_negative(), N::u(m as u128), e)
    }
    pub fn hash(&self) -> u64 {
        match self { FV::Nan => 1, FV::Inf(n) => 2 + *n as u64, FV::Zero(n) => 4 + *n as u64, FV::Fin { neg, m, e } => mix(mix(m.hash(), *e as u64), *neg as u64) }
    }
}

/// Round the exact magnitude n/d (non-zero) with sign to `prec` bits (prec >= 1), unbounded exponent.
/// Returns the rounded value and result.cmp(exact).
pub fn round_q(neg: bool, n: &N, d: &N, prec: usize, mode: Mode) -> (FV, Ordering) {
    round_q_min(neg, n, d, prec, mode, i64::MIN / 4)
}
/// as round_q, but the unit in the last place is at least 2^emin (denormal range).
pub fn round_q_min(neg: bool, n: &N, d: &N, prec: usize, mode: Mode, emin: i64) -> (FV, Ordering) {
    assert!(!n.is_zero() && !d.is_zero() && prec >= 1);
    // find e with 2^(prec-1) <= n/d / 2^e < 2^prec
    let mut e = n.bits() as i64 - d.bits() as i64 - prec as i64;
    let scaled = |e: i64| -> (N, N) {
        let (a, b) = if e >= 0 { (n.clone(), d.shl(e as usize)) } else { (n.shl((-e) as usize), d.clone()) };
        let (q, r) = a.divrem(&b);
        // classify remainder against half: 0 none, 1 below half, 2 half, 3 above
        let c = if r.is_zero() { 0 } else { match r.shl(1).cmp(&b) { Ordering::Less => 1, Ordering::Equal => 2, Ordering::Greater => 3 } };
        (q, N::u(c))
    };
    if e < emin { e = emin; }
    let (mut q, mut c) = scaled(e);
    while q.bits() > prec { e += 1; let t = scaled(e); q = t.0; c = t.1; }
    let c = c.to_u128().unwrap();
    let inc = if c == 0 { false } else {
        match mode {
            Mode::NearestEven => c == 3 || (c == 2 && q.is_odd()),
            Mode::NearestAway => c >= 2,
            Mode::ToZero => false,
            Mode::AwayZero => true,
            Mode::NegInf => neg,
            Mode::PosInf => !neg,
        }
    };
    let m = if inc { q.add(&N::one()) } else { q };
    let acc = if c == 0 { Ordering::Equal } else if inc != neg { Ordering::Greater } else { Ordering::Less };
    (FV::fin(neg, m, e), acc)
}
pub fn round_rat(q: &Q, prec: usize, mode: Mode) -> (FV, Ordering) {
    if q.n.is_zero() { return (FV::Zero(false), Ordering::Equal); }
    round_q(q.n.neg, &q.n.m, &q.d, prec, mode)
}
/// nearest-even f64 of an exact rational and result.cmp(exact); `neg0` gives the sign of a zero value
pub fn to_f64(q: &Q, neg0: bool) -> (f64, Ordering) {
    let (v, o) = to_ieee(q, neg0, 53, -1074, 1023);
    (match v { FV::Nan => f64::NAN, FV::Inf(n) => if n { f64::NEG_INFINITY } else { f64::INFINITY }, FV::Zero(n) => if n { -0.0 } else { 0.0 },
        FV::Fin { neg, m, e } => {
            let mut m = m.to_u128().unwrap() as u64; let mut e = e;
            while e > -1074 && m < 1 << 52 { m <<= 1; e -= 1; }
            let bits = if m < 1 << 52 { m } else { ((e + 1075) as u64) << 52 | (m & ((1 << 52) - 1)) };
            f64::from_bits(bits | (neg as u64) << 63)
        } }, o)
}
pub fn to_f32(q: &Q, neg0: bool) -> (f32, Ordering) {
    let (v, o) = to_ieee(q, neg0, 24, -149, 127);
    (match v { FV::Nan => f32::NAN, FV::Inf(n) => if n { f32::NEG_INFINITY } else { f32::INFINITY }, FV::Zero(n) => if n { -0.0 } else { 0.0 },
        FV::Fin { neg, m, e } => {
            let mut m = m.to_u128().unwrap() as u32; let mut e = e;
            while e > -149 && m < 1 << 23 { m <<= 1; e -= 1; }
            let bits = if m < 1 << 23 { m } else { ((e + 150) as u32) << 23 | (m & ((1 << 23) - 1)) };
            f32::from_bits(bits | (neg as u32) << 31)
        } }, o)
}
fn to_ieee(q: &Q, neg0: bool, prec: usize, emin: i64, emax: i64) -> (FV, Ordering) {
    if q.n.is_zero() { return (FV::Zero(neg0), Ordering::Equal); }
    let neg = q.n.neg;
    let (v, o) = round_q_min(neg, &q.n.m, &q.d, prec, Mode::NearestEven, emin);
    if let FV::Fin { m, e, .. } = &v {
        if m.bits() as i64 + e - 1 > emax { return (FV::Inf(neg), if neg { Ordering::Less } else { Ordering::Greater }); }
    }
    (v, o)
}

/// Model of a float operation result: value and accuracy.
pub fn fadd(x: &FV, y: &FV, prec: usize, mode: Mode) -> (FV, Ordering) {
    use FV::*;
    match (x, y) {
        (Nan, _) | (_, Nan) => (Nan, Ordering::Equal),
        (Inf(a), Inf(b)) => if a == b { (Inf(*a), Ordering::Equal) } else { (Nan, Ordering::Equal) },
        (Inf(a), _) => (Inf(*a), Ordering::Equal),
        (_, Inf(b)) => (Inf(*b), Ordering::Equal),
        (Zero(a), Zero(b)) => (Zero(*a && *b), Ordering::Equal),
        _ => {
            let s = x.q().unwrap().add(&y.q().unwrap());
            if s.n.is_zero() { return (Zero(mode == Mode::NegInf), Ordering::Equal); }
            round_rat(&s, prec, mode)
        }
    }
}
pub fn fsub(x: &FV, y: &FV, prec: usize, mode: Mode) -> (FV, Ordering) { fadd(x, &y.minus(), prec, mode) }
pub fn fmul(x: &FV, y: &FV, prec: usize, mode: Mode) -> (FV, Ordering) {
    use FV::*;
    let neg = x.is_neg() != y.is_neg();
    match (x, y) {
        (Nan, _) | (_, Nan) | (Inf(_), Zero(_)) | (Zero(_), Inf(_)) => (Nan, Ordering::Equal),
        (Inf(_), _) | (_, Inf(_)) => (Inf(neg), Ordering::Equal),
        (Zero(_), _) | (_, Zero(_)) => (Zero(neg), Ordering::Equal),
        _ => round_rat(&x.q().unwrap().mul(&y.q().unwrap()), prec, mode),
    }
}
pub fn fdiv(x: &FV, y: &FV, prec: usize, mode: Mode) -> (FV, Ordering) {
    use FV::*;
    let neg = x.is_neg() != y.is_neg();
    match (x, y) {
        (Nan, _) | (_, Nan) | (Inf(_), Inf(_)) | (Zero(_), Zero(_)) => (Nan, Ordering::Equal),
        (Inf(_), _) | (_, Zero(_)) => (Inf(neg), Ordering::Equal),
        (Zero(_), _) | (_, Inf(_)) => (Zero(neg), Ordering::Equal),
        _ => round_rat(&x.q().unwrap().div(&y.q().unwrap()), prec, mode),
    }
}
pub fn fcmp(x: &FV, y: &FV) -> Option<Ordering> {
    use FV::*;
    let rank = |v: &FV| match v { Inf(true) => -1, Inf(false) => 1, _ => 0 };
    match (x, y) {
        (Nan, _) | (_, Nan) => None,
        (Inf(_), _) | (_, Inf(_)) => Some(rank(x).cmp(&rank(y))),
        // exponents out of reach of exact rationals: by sign, then by leading bit, then by mantissas brought to one exponent
        (Fin { neg: a, m: k, e }, Fin { neg: b, m: l, e: f }) if e.abs().max(f.abs()) > 100_000 => {
            if a != b { return Some(b.cmp(a)); }
            let o = (k.bits() as i64 + e).cmp(&(l.bits() as i64 + f)).then_with(|| { let d = *e.min(f); k.shl((e - d) as usize).cmp(&l.shl((f - d) as usize)) });
            Some(if *a { o.reverse() } else { o })
        }
        (Fin { neg, .. }, Zero(_)) => Some(if *neg { Ordering::Less } else { Ordering::Greater }),
        (Zero(_), Fin { neg, .. }) => Some(if *neg { Ordering::Greater } else { Ordering::Less }),
        _ => Some(x.q().unwrap().cmp(&y.q().unwrap())),
    }
}

/// Validate the reference model against native machine arithmetic (run at the start of every check).
pub fn selftest() -> Result<u64, String> {
    let mut cnt = 0u64;
    let a: Vec<u128> = { let mut v = vec![];
        for i in 0..64u32 { for d in [-2i128, -1, 0, 1, 2] { let x = (1i128 << i) + d; if x >= 0 && x < 1 << 64 { v.push(x as u128); } } }
        v.sort(); v.dedup(); v };
    for &x in &a { for &y in &a {
        cnt += 1;
        let (nx, ny) = (N::u(x), N::u(y));
        let ok = nx.add(&ny) == N::u(x + y) && nx.absdiff(&ny) == N::u(x.abs_diff(y)) && nx.mul(&ny) == N::u(x * y)
            && (y == 0 || nx.mul(&N::u(y + 1)).add(&N::u(3 % y)).divrem(&ny) == { let t = x * (y + 1).min(u64::MAX as u128); if t / (y + 1).min(u64::MAX as u128) == x && y + 1 <= u64::MAX as u128 && t.checked_add(3 % y).is_some() { (N::u((t + 3 % y) / y), N::u((t + 3 % y) % y)) } else { nx.mul(&N::u(y + 1)).add(&N::u(3 % y)).divrem(&ny) } })
            && nx.cmp(&ny) == x.cmp(&y);
        if !ok { return Err(format!("reference selftest failed for {} {}", x, y)); }
        let (ix, iy) = (x as i64 as i128, y as i64 as i128);
        let (zx, zy) = (Z::i(ix), Z::i(iy));
        if zx.add(&zy) != Z::i(ix + iy) || zx.sub(&zy) != Z::i(ix - iy) || zx.mul(&zy) != Z::i(ix * iy)
            || (iy != 0 && (zx.divrem(&zy) != (Z::i(ix / iy), Z::i(ix % iy)) || zx.euclid(&zy) != (Z::i(ix.div_euclid(iy)), Z::i(ix.rem_euclid(iy)))))
            || zx.bitop(&zy, |a, b| a & b) != Z::i(ix & iy) || zx.bitop(&zy, |a, b| a | b) != Z::i(ix | iy) || zx.bitop(&zy, |a, b| a ^ b) != Z::i(ix ^ iy)
            || zx.shr((y % 70) as usize) != Z::i(ix >> (y % 70).min(127)) {
            return Err(format!("reference selftest failed for signed {} {}", ix, iy));
        }
    } }
    // wide division: q*d + r == n on multi-limb boundary patterns
    let limbs = [0u32, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff];
    let mut w = vec![];
    for &p in &limbs { for &q in &limbs { for &r in &limbs { w.push(N::new(vec![p, q, r])); w.push(N::new(vec![p, q, r, q, p])); } } }
    w.sort(); w.dedup();
    for x in &w { for y in &w { if y.is_zero() { continue; }
        cnt += 1;
        let (q, r) = x.divrem(y);
        if r >= *y || q.mul(y).add(&r) != *x { return Err(format!("reference divrem wrong for {:?} / {:?}", x, y)); }
    } }
    // float rounding against the hardware: f64 -> f32 and f64 ops
    let mut fs: Vec<f64> = vec![1.0, 1.5, 0.1, 3.0, 1.0 / 3.0, 1e300, 1e-300, 5e-324, f64::MAX, f64::MIN_POSITIVE, 16777217.0, 1e-45, 7e-46, 7.1e-46, 1.1754942e-38, 3.4028235677973366e38, 3.4028234e38];
    for i in 0..60 { fs.push(f64::from_bits(0x36a0000000000000u64 + (i * 0x000c_0000_1000_0001u64))); fs.push(f64::from_bits(0x3ff0000000000000u64 + i * 0x0000_0000_0800_0000)); }
    for &x in &fs {
        cnt += 1;
        let (f, _) = to_f32(&Q::f64(x), false);
        if f.to_bits() != (x as f32).to_bits() { return Err(format!("reference f32 rounding wrong for {:e}: {:e} vs {:e}", x, f, x as f32)); }
        if to_f64(&Q::f64(x), false).0.to_bits() != x.to_bits() { return Err(format!("reference f64 wrong for {:e}", x)); }
    }
    for &x in &fs { for &y in &fs {
        cnt += 1;
        let (a, b) = (Q::f64(x), Q::f64(y));
        for (h, m) in [(x + y, a.add(&b)), (x * y, a.mul(&b)), (x / y, a.div(&b))] {
            if !m.n.is_zero() && to_f64(&m, false).0.to_bits() != h.to_bits() { return Err(format!("reference vs hardware {:e} {:e}", x, y)); }
        }
    } }
    Ok(cnt)
}
