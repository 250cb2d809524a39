//! The specified part of the text grammars, and enumeration of all short strings.
use crate::refmath::*;
pub enum Parse { Ok(Z), Err, Any }
/// The specified part of the integer grammar. `neg` says whether a minus sign is part of the grammar.
pub fn model_parse(s: &str, neg_ok: bool) -> Parse {
    let t = s.trim();
    let (sg, body) = if let Some(r) = t.strip_prefix('+') { (false, r) } else if let (true, Some(r)) = (neg_ok, t.strip_prefix('-')) { (true, r) } else { (false, t) };
    // blanks or further signs between sign and digits are not specified
    if body.chars().any(|c| c == ' ' || c == '+' || c == '-') {
        let digits = body.trim_start_matches(|c| c == ' ' || c == '+');
        if digits.chars().any(|c| c == ' ' || c == '+' || c == '-') || !digits.chars().any(|c| c.is_ascii_digit()) { return Parse::Err; }
        return Parse::Any;
    }
    let (radix, d) = if body.starts_with("0x") || body.starts_with("0X") { (16, &body[2..]) } else if body.starts_with("0b") || body.starts_with("0B") { (2, &body[2..]) } else if body.starts_with("0o") { (8, &body[2..]) } else { (10, body) };
    if radix == 10 && d.len() > 1 && d.starts_with('0') && d.chars().all(|c| c.is_ascii_digit()) { return Parse::Any; } // decimal with superfluous zeros
    match N::from_radix(d, radix) { Some(n) => Parse::Ok(Z::new(sg, n)), None => Parse::Err }
}
pub fn strings(al: &'static [char], max: usize) -> (u64, impl Fn(u64) -> String + Send + Sync) {
    let k = al.len() as u64; let mut st = vec![]; let mut tot = 0; for l in 0..=max { st.push((tot, l)); tot += k.pow(l as u32); }
    (tot, move |i| { let &(s, l) = st.iter().rev().find(|(s, _)| *s <= i).unwrap(); let mut j = i - s; (0..l).map(|_| { let r = al[(j % k) as usize]; j /= k; r }).collect() })
}
pub enum P { Ok(Q), Err, Any }
/// fractions and decimal literals
pub fn rat_text(s: &str) -> P {
    let t = s.trim();
    if t.contains('.') {
        if t.contains('/') { return P::Err; }
        // the decimal literals the specification covers: [sign] digits? '.' digits? [e [sign] digits]
        return match t.parse::<f64>() { Ok(f) if f.is_finite() => P::Ok(Q::f64(f)), Ok(_) => P::Any, Err(_) => P::Err };
    }
    let one = |s: &str| model_parse(s, true);
    match t.find('/') {
        None => match one(t) { Parse::Ok(z) => P::Ok(Q::int(z)), Parse::Err => P::Err, Parse::Any => P::Any },
        Some(i) => match (one(&t[..i]), one(&t[i + 1..])) {
            (Parse::Err, _) | (_, Parse::Err) => P::Err,
            (_, Parse::Ok(d)) if d.is_zero() => P::Err,
            (Parse::Ok(n), Parse::Ok(d)) => P::Ok(Q::new(n, d)),
            _ => P::Any,
        },
    }
}
/// decimal literals: [sign] digits ['.' digits] [e [sign] digits], at least one digit before the exponent
pub fn float_text(s: &str) -> P {
    let t = s.trim();
    let (neg, b) = if let Some(r) = t.strip_prefix('-') { (true, r) } else if let Some(r) = t.strip_prefix('+') { (false, r) } else { (false, t) };
    let dig = |s: &str| s.chars().all(|c| c.is_ascii_digit());
    if b.chars().any(|c| matches!(c, 'x' | 'X' | 'b' | 'B' | 'o')) { return P::Any; } // radix prefixes
    let (mant, ex) = match b.find(|c| c == 'e' || c == 'E') { Some(i) => (&b[..i], Some(&b[i + 1..])), None => (b, None) };
    let (ip, fp) = match mant.find('.') { Some(i) => (&mant[..i], &mant[i + 1..]), None => (mant, "") };
    // blanks and repeated signs are not part of the grammar and not specified either way; anything else is malformed
    let odd = |s: &str| s.chars().any(|c| c == ' ' || c == '+' || c == '-');
    if !dig(fp) || (!dig(ip) && !odd(ip)) { return P::Err; }
    if !dig(ip) { let core = ip.trim_start_matches(|c| c == ' ' || c == '+'); return if dig(core) && !(core.is_empty() && fp.is_empty()) { P::Any } else { P::Err }; }
    if ip.is_empty() && fp.is_empty() { return P::Err; }
    let mut e: i64 = 0;
    if let Some(x) = ex {
        if x.contains(' ') { let core = x.trim_start_matches(|c| c == ' ' || c == '+' || c == '-'); return if !core.is_empty() && dig(core) { P::Any } else { P::Err }; }
        let (en, xd) = if let Some(r) = x.strip_prefix('-') { (true, r) } else if let Some(r) = x.strip_prefix('+') { (false, r) } else { (false, x) };
        if xd.is_empty() { return P::Err; }
        if !dig(xd) { let core = xd.trim_start_matches(|c| c == ' ' || c == '+'); return if !core.is_empty() && dig(core) { P::Any } else { P::Err }; }
        if xd.len() > 1 && xd.starts_with('0') { return P::Any; }
        e = xd.parse::<i64>().unwrap_or(i64::MAX); if en { e = -e; }
        if e.abs() > 40_000 { return P::Any; }
    }
    // a pure integer with superfluous zeros follows the integer grammar, where that is not specified
    if fp.is_empty() && !mant.contains('.') && ex.is_none() && ip.len() > 1 && ip.starts_with('0') { return P::Any; }
    let digits = format!("{}{}", ip, fp);
    let m = Z::new(neg, N::from_radix(&digits, 10).unwrap());
    let k = e - fp.len() as i64;
    let q = if k >= 0 { Q::int(m.mul(&Z::pos(N::u(10).pow(k as usize)))) } else { Q::new(m, Z::pos(N::u(10).pow((-k) as usize))) };
    P::Ok(q)
}
