//! C35: the processor's random instructions (rdrand, rdseed). Every such instruction of this program is replaced at startup by a
//! trapping one; the trap handler answers from the script of the case: no word available, or a chosen word.
use mc::engine::*;
use mc::want;
use rmath::rand::{CryptoRand, DefaultRand, DefaultSeed, IterSource, LaggedFibonacciRand, LinearCongruentialRand, MersenneTwisterRand, PrimitiveType, Result as RResult, Seed, Source};
use std::cell::UnsafeCell;
use std::fmt::Debug;

// ---------------------------------------------------------------- the trap
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ans { Fail, Word(u64) }
const MAXS: usize = 64;
struct Hw { on: bool, script: [Ans; MAXS], len: usize, pos: usize, last: Option<Ans>, bits: u32, seed: bool }
struct Tls(UnsafeCell<Hw>);
thread_local! { static HW: Tls = const { Tls(UnsafeCell::new(Hw { on: false, script: [Ans::Fail; MAXS], len: 0, pos: 0, last: None, bits: 0, seed: false })) }; }
fn hw<R>(f: impl FnOnce(&mut Hw) -> R) -> R { HW.with(|t| f(unsafe { &mut *t.0.get() })) }

#[derive(Clone, Copy)]
struct Site { addr: usize, len: usize, reg: usize, bits: u32, seed: bool }
static mut SITES: Vec<Site> = Vec::new();
#[repr(C)]
struct Sigaction { handler: usize, flags_mask: [u64; 16], flags: i32, restorer: usize }
extern "C" { fn sigaction(sig: i32, act: *const Sigaction, old: *mut Sigaction) -> i32; fn mprotect(a: usize, l: usize, p: i32) -> i32; }

extern "C" fn on_ill(_sig: i32, _info: usize, uc: *mut i64) {
    unsafe {
        let g = uc.add(5); // gregs: r8..r15, rdi, rsi, rbp, rbx, rdx, rax, rcx, rsp, rip, efl
        let rip = *g.add(16) as usize;
        let sites = &*std::ptr::addr_of!(SITES);
        let Some(s) = sites.iter().find(|s| s.addr == rip) else {
            let d = Sigaction { handler: 0, flags_mask: [0; 16], flags: 0, restorer: 0 }; sigaction(4, &d, std::ptr::null_mut()); return;
        };
        let a = hw(|h| { let a = if h.on && h.pos < h.len { h.script[h.pos] } else { Ans::Fail }; h.pos += 1; h.last = Some(match a { Ans::Word(w) if s.bits < 64 => Ans::Word(w & ((1u64 << s.bits) - 1)), a => a }); h.bits = s.bits; h.seed = s.seed; h.last.unwrap() });
        let (w, ok) = match a { Ans::Word(w) => (w, true), Ans::Fail => (0, false) };
        let slot = [13usize, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7][s.reg];
        if s.bits == 16 { *g.add(slot) = (*g.add(slot) & !0xffff) | w as i64 } else { *g.add(slot) = w as i64 }
        *g.add(17) = (*g.add(17) & !0x8d5) | ok as i64; // OF SF ZF AF PF cleared, CF = success
        *g.add(16) += s.len as i64;
    }
}
/// replace every rdrand/rdseed instruction of this program (found by disassembling it) by ud2
fn install() {
    let exe = std::env::current_exe().unwrap();
    let cache = exe.with_extension("rd-sites"); let meta = std::fs::metadata(&exe).unwrap(); let stamp = format!("{} {:?}", meta.len(), meta.modified().unwrap());
    let listing = match std::fs::read_to_string(&cache) { Ok(s) if s.lines().next() == Some(&stamp) => s, _ => {
        let o = std::process::Command::new("objdump").args(["-d", "--section=.text"]).arg(&exe).output().expect("objdump");
        let mut s = stamp.clone() + "\n";
        for l in String::from_utf8_lossy(&o.stdout).lines() { if l.contains("\trdrand ") || l.contains("\trdseed ") { s += l; s.push('\n'); } }
        let _ = std::fs::write(&cache, &s); s } };
    let base = { let m = std::fs::read_to_string("/proc/self/maps").unwrap(); let l = m.lines().find(|l| l.ends_with(exe.to_str().unwrap())).unwrap().to_string(); usize::from_str_radix(l.split('-').next().unwrap(), 16).unwrap() };
    let mut sites = vec![];
    for l in listing.lines().skip(1) {
        let p: Vec<&str> = l.split('\t').collect(); let addr = base + usize::from_str_radix(p[0].trim().trim_end_matches(':'), 16).unwrap();
        let b: Vec<u8> = p[1].split_whitespace().map(|x| u8::from_str_radix(x, 16).unwrap()).collect();
        let k = b.iter().position(|&x| x == 0x0f).unwrap(); let (rex, opsz) = (b[..k].iter().find(|&&x| x & 0xf0 == 0x40).copied().unwrap_or(0), b[..k].contains(&0x66));
        let modrm = b[k + 2]; assert!(b[k + 1] == 0xc7 && b.len() == k + 3);
        let m = unsafe { std::slice::from_raw_parts(addr as *const u8, b.len()) }; assert_eq!(m, &b[..], "disassembly does not match memory");
        sites.push(Site { addr, len: b.len(), reg: (modrm & 7) as usize | ((rex & 1) as usize) << 3, bits: if rex & 8 != 0 { 64 } else if opsz { 16 } else { 32 }, seed: modrm & 0x38 == 0x38 });
    }
    if sites.is_empty() { eprintln!("ERROR: no random instruction found in the program"); std::process::exit(2); }
    unsafe {
        SITES = sites;
        let a = Sigaction { handler: on_ill as *const () as usize, flags_mask: [0; 16], flags: 4, restorer: 0 };
        assert_eq!(sigaction(4, &a, std::ptr::null_mut()), 0);
        for s in (*std::ptr::addr_of!(SITES)).iter() {
            let pg = s.addr & !4095; if mprotect(pg, 8192, 7) != 0 { eprintln!("ERROR: cannot patch the program text"); std::process::exit(2); }
            *(s.addr as *mut u8) = 0x0f; *((s.addr + 1) as *mut u8) = 0x0b;
            mprotect(pg, 8192, 5);
        }
    }
}
/// run one call of the library; the answers it consumed
fn call<R>(f: impl FnOnce() -> R) -> (R, Option<Ans>, usize) {
    hw(|h| h.last = None); let p = hw(|h| h.pos); let r = f(); (r, hw(|h| h.last), hw(|h| h.pos) - p)
}

// ---------------------------------------------------------------- the model: a draw is the word its instruction delivered, or an error
trait Word: PrimitiveType + Copy + PartialEq + Debug + 'static { const BITS: u32; fn v(self) -> u64; }
impl Word for u32 { const BITS: u32 = 32; fn v(self) -> u64 { self as u64 } }
impl Word for u64 { const BITS: u32 = 64; fn v(self) -> u64 { self } }
impl Word for usize { const BITS: u32 = usize::BITS; fn v(self) -> u64 { self as u64 } }
fn judge<T: Word>(what: &str, got: Option<T>, last: Option<Ans>, n: usize) -> Res {
    want!(n > 0, "{}: no random instruction was executed, result {:?}", what, got);
    match (got, last.unwrap()) {
        (None, Ans::Fail) => Ok(()),
        (Some(v), Ans::Word(w)) => { want!(v.v() == w, "{}: {:#x}, but the processor delivered {:#x}", what, v.v(), w); let b = hw(|h| h.bits); want!(b == T::BITS, "{}: a word of {} bits from a {}-bit instruction", what, T::BITS, b); Ok(()) }
        (g, a) => Err(format!("{}: {:?} although the processor answered {:x?}", what, g, a)),
    }
}
struct S0; // the seed these generators are given has no influence
impl<T: Word + From<u8>> Seed<T> for S0 { fn seed(&self) -> RResult<T> { Ok(T::from(9u8)) } }

const OPS: [&str; 6] = ["draw", "iterator: one draw", "iterator: two draws", "iterator: two draws, error cleared between", "reset", "go on with a clone"];
fn source<T: Word + From<u8>, G: Source<T> + IterSource<T> + Clone>(mk: impl Fn() -> RResult<G>, script: &[Ans], ops: &[usize], c: &mut Ctx) -> Res {
    hw(|h| { h.on = true; h.pos = 0; h.len = script.len(); h.script[..script.len()].copy_from_slice(script); });
    let (g, _, n) = call(mk); want!(n == 0, "construction consumed {} random words", n); let mut g = g.map_err(|_| "construction failed".to_string())?;
    for (k, &op) in ops.iter().enumerate() {
        c.step(); let w = format!("operation {} ({})", k, OPS[op]);
        match op {
            0 => { let (r, a, n) = call(|| g.gen()); judge(&w, r.ok(), a, n)?; want!(hw(|h| !h.seed), "{}: the seed instruction was used", w); }
            1 => { let (r, a, n) = call(|| g.iter_mut().next()); judge(&w, r, a, n)?; }
            2 | 3 => {
                let mut it = g.iter_mut();
                let (r, a, n) = call(|| it.next()); judge(&w, r, a, n)?;
                want!(it.last_error().is_some() == r.is_none(), "{}: error latch {} after {:?}", w, it.last_error().is_some(), r);
                if op == 3 { it.clear_error(); want!(it.last_error().is_none(), "{}: the error was not cleared", w); }
                let (r2, a2, n2) = call(|| it.next());
                if r.is_none() && op == 2 { want!(r2.is_none() && n2 == 0, "{}: a stopped iterator went on with {:?}", w, r2); } else { judge(&w, r2, a2, n2)?; }
            }
            4 => { let (r, _, n) = call(|| g.reset(&S0)); want!(r.is_ok() && n == 0, "{}: failed or consumed {} words", w, n); }
            _ => g = g.clone(),
        }
    }
    Ok(())
}
fn seeder<T: Word>(script: &[Ans], calls: usize, c: &mut Ctx) -> Res where DefaultSeed<T>: Seed<T> {
    hw(|h| { h.on = true; h.pos = 0; h.len = script.len(); h.script[..script.len()].copy_from_slice(script); });
    let (s, _, n) = call(|| DefaultSeed::<T>::new()); want!(n == 0, "construction consumed a seed"); let mut s = s.map_err(|_| "construction failed".to_string())?;
    for k in 0..calls { c.step(); if k == calls / 2 { s = s.clone(); } let (r, a, n) = call(|| s.seed()); judge(&format!("seed {}", k), r.ok(), a, n)?; want!(hw(|h| h.seed), "seed {}: taken from the instruction that is not for seeds", k); }
    Ok(())
}
/// an engine seeded from the processor: refused exactly when the processor has no seed, otherwise the same as with the delivered word given directly
struct Fixed<T>(T);
impl<T: PrimitiveType + Copy> Seed<T> for Fixed<T> { fn seed(&self) -> RResult<T> { Ok(self.0) } }
macro_rules! engine { ($t:ty, $new:expr, $script:expr, $c:expr) => {{
    let script: &[Ans] = $script; let hs = DefaultSeed::<$t>::new().map_err(|_| "no seed source".to_string())?;
    hw(|h| { h.on = true; h.pos = 0; h.len = script.len(); h.script[..script.len()].copy_from_slice(script); });
    $c.steps(2);
    let fx = |w: u64| Fixed(w as $t);
    macro_rules! mk { ($sd:expr) => {{ let sd = $sd; let r: RResult<_> = $new(&sd); r }} }
    let (g, a, _) = call(|| { let r: RResult<_> = $new(&hs); r });
    let (mut g, mut r) = match (g, a) { (Ok(g), Some(Ans::Word(w))) => (g, mk!(fx(w)).map_err(|_| "refused".to_string())?), (Err(_), Some(Ans::Fail)) => (mk!(fx(5)).map_err(|_| "refused".to_string())?, mk!(fx(5)).map_err(|_| "refused".to_string())?), (g, a) => return Err(format!("construction {} although the processor answered {:x?}", if g.is_ok() { "succeeded" } else { "failed" }, a)) };
    for _ in 1..script.len() {
        for k in 0..3 { let (x, _, n) = call(|| g.gen().ok()); want!(n == 0, "an engine draw consumed processor randomness"); let y = r.gen().ok(); want!(x == y && x.is_some(), "draw {}: {:x?}, seeded directly {:x?}", k, x, y); }
        $c.steps(4);
        let (q, a, _) = call(|| g.reset(&hs));
        match (q, a) { (Ok(()), Some(Ans::Word(w))) => { r = mk!(fx(w)).map_err(|_| "refused".to_string())?; } (Err(_), Some(Ans::Fail)) => {} (q, a) => return Err(format!("reset {} although the processor answered {:x?}", if q.is_ok() { "succeeded" } else { "failed" }, a)) }
    }
    Ok(())
}} }

const NAMES: [&str; 6] = ["DefaultRand<u32>", "DefaultRand<u64>", "DefaultRand<usize>", "CryptoRand<u32>", "CryptoRand<u64>", "CryptoRand<usize>"];
fn words(al: &[Ans], mut i: u64, n: u32) -> Vec<Ans> { (0..n).map(|k| { let x = al[(i % al.len() as u64) as usize]; i /= al.len() as u64; match x { Ans::Word(1) => Ans::Word(0x9e37_79b9_7f4a_7c15u64.wrapping_mul(2 * k as u64 + 3)), a => a } }).collect() }
fn c35(t: Tier) -> Vec<Suite> {
    let al = [Ans::Fail, Ans::Word(0), Ans::Word(1), Ans::Word(u64::MAX)];
    let d = t.pick(4u32, 5); let mut v = vec![];
    let (na, no) = ((al.len() as u64).pow(d), (OPS.len() as u64).pow(d - 1));
    for (k, name) in NAMES.iter().enumerate() {
        v.push(Suite::new(name, format!("every sequence of {} processor answers (no word, zero, a word of mixed bits, all ones; then no word) x every sequence of {} caller operations ({})", d, d - 1, OPS.join(", ")), na * no, move |i, c| {
            let script = words(&al, i % na, d); let mut o = i / na; let ops: Vec<usize> = (1..d).map(|_| { let x = (o % OPS.len() as u64) as usize; o /= OPS.len() as u64; x }).collect();
            c.note(|| format!("{}: processor answers {:x?}, operations {:?}", NAMES[k], script, ops.iter().map(|&o| OPS[o]).collect::<Vec<_>>())); c.state(i % na);
            match k {
                0 => source::<u32, _>(|| DefaultRand::new(&S0), &script, &ops, c), 1 => source::<u64, _>(|| DefaultRand::new(&S0), &script, &ops, c), 2 => source::<usize, _>(|| DefaultRand::new(&S0), &script, &ops, c),
                3 => source::<u32, _>(|| CryptoRand::new(&S0), &script, &ops, c), 4 => source::<u64, _>(|| CryptoRand::new(&S0), &script, &ops, c), _ => source::<usize, _>(|| CryptoRand::new(&S0), &script, &ops, c),
            }
        }));
    }
    let sd = t.pick(7u32, 9); let ns = (al.len() as u64).pow(sd);
    v.push(Suite::new("seeds", format!("DefaultSeed of each type: every sequence of {} processor answers", sd), ns * 3, move |i, c| { let s = words(&al, i / 3, sd); c.note(|| format!("type {}: processor answers {:x?}", i % 3, s)); c.state(i); match i % 3 { 0 => seeder::<u32>(&s, s.len(), c), 1 => seeder::<u64>(&s, s.len(), c), _ => seeder::<usize>(&s, s.len(), c) } }));
    let ed = t.pick(4u32, 5); let ne = (al.len() as u64).pow(ed);
    v.push(Suite::new("engines", format!("each engine family on each type, constructed and reset {} times from DefaultSeed: every sequence of {} processor answers", ed - 1, ed), ne * 9, move |i, c| {
        let s = words(&al, i / 9, ed); c.note(|| format!("engine {}: processor answers {:x?}", i % 9, s)); c.state(i);
        match i % 9 {
            0 => engine!(u32, |sd| LinearCongruentialRand::<u32>::new(sd, 48271, 7, 2147483647), &s, c), 1 => engine!(u64, |sd| LinearCongruentialRand::<u64>::new(sd, 6364136223846793005, 1442695040888963407, u64::MAX), &s, c), 2 => engine!(usize, |sd| LinearCongruentialRand::<usize>::new(sd, 48271, 7, 2147483647), &s, c),
            3 => engine!(u32, |sd| mt(sd), &s, c), 4 => engine!(u64, |sd| mt64(sd), &s, c), 5 => engine!(usize, |sd| mtus(sd), &s, c),
            6 => engine!(u32, |sd| LaggedFibonacciRand::<u32>::new(sd, 24, 10, 24), &s, c), 7 => engine!(u64, |sd| LaggedFibonacciRand::<u64>::new(sd, 48, 5, 12), &s, c), _ => engine!(usize, |sd| LaggedFibonacciRand::<usize>::new(sd, 48, 5, 12), &s, c),
        } }));
    v
}
fn mt<S: Seed<u32>>(sd: &S) -> RResult<MersenneTwisterRand<u32>> { MersenneTwisterRand::new(sd, 32, 4, 2, 31, 0x9908_b0df, (11, 0xffff_ffff), (7, 0x9d2c_5680), (15, 0xefc6_0000), 18, 1812433253) }
fn mt64<S: Seed<u64>>(sd: &S) -> RResult<MersenneTwisterRand<u64>> { MersenneTwisterRand::new(sd, 64, 4, 2, 31, 0xb502_6f5a_a966_19e9, (29, 0x5555_5555_5555_5555), (17, 0x71d6_7fff_eda6_0000), (37, 0xfff7_eee0_0000_0000), 43, 6364136223846793005) }
fn mtus<S: Seed<usize>>(sd: &S) -> RResult<MersenneTwisterRand<usize>> { MersenneTwisterRand::new(sd, 64, 4, 2, 31, 0xb502_6f5a_a966_19e9, (29, 0x5555_5555_5555_5555), (17, 0x71d6_7fff_eda6_0000), (37, 0xfff7_eee0_0000_0000), 43, 6364136223846793005) }
fn main() {
    install();
    mc::engine::main(&[Prop { id: "C35", build: c35, assumptions: &["rdrand and rdseed leave zero in their destination when they report that no word is available, as the processor manuals state", "every rdrand/rdseed instruction of the checker (found by disassembling it) is replaced by a trapping instruction"] }]);
}
