//! C33/C34/C36: the code used on processors without the x86 kernels.
#![allow(dead_code, unused_imports)]
#[path = "../../mc/src/bin/mc_nat.rs"] mod nat;
#[path = "../../mc/src/bin/mc_int.rs"] mod int;
#[path = "../../mc/src/bin/mc_mix.rs"] mod mix;
use mc::engine::*;
use mc::{ck, want};
use rmath::rand::{CryptoRand, IterSource, Seed, Source};
use std::cell::RefCell;

fn tag(p: &str, v: Vec<Suite>) -> Vec<Suite> { v.into_iter().map(|mut s| { s.name = format!("{}-{}", p, s.name); s }).collect() }
fn c33(t: Tier) -> Vec<Suite> {
    let mut v = tag("add-sub", nat::c01(t)); v.extend(tag("mul", nat::c02(t))); v.extend(tag("div", nat::c03(t))); v.extend(tag("bits", nat::c04(t))); v.extend(tag("pow", nat::c10(t))); v.extend(tag("int", int::c15(t)));
    v.extend(tag("shared", mix::c09(t).into_iter().filter(|s| s.name.starts_with("nat") || s.name.starts_with("int2")).collect()));
    v.extend(tag("nan", mix::c08(t).into_iter().filter(|s| s.name == "nat" || s.name == "int").collect()));
    v
}

// ---------------------------------------------------------------- C34: the operating system's random bytes
/// what the interposed getrandom answers, call by call: n >= 0 bytes delivered, or an error
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ans { Bytes(usize), Error }
struct Os { script: Vec<Ans>, pos: usize, next: u8, delivered: Vec<u8>, asked: Vec<usize> }
thread_local! { static OS: RefCell<Option<Os>> = const { RefCell::new(None) }; }

/// libc's syscall(2): getrandom is answered from the script of this thread when there is one, everything else goes to the kernel.
#[no_mangle]
pub unsafe extern "C" fn syscall(num: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if num == 318 {
        let r = OS.try_with(|o| if let Ok(mut g) = o.try_borrow_mut() { g.as_mut().map(|os| {
            os.asked.push(b);
            let ans = os.script.get(os.pos).copied().unwrap_or(Ans::Bytes(usize::MAX)); os.pos += 1;
            match ans { Ans::Error => -1, Ans::Bytes(n) => { let n = n.min(b); for i in 0..n { os.next = os.next.wrapping_mul(73).wrapping_add(41); *(a as *mut u8).add(i) = os.next; os.delivered.push(os.next); } n as i64 } }
        }) } else { None }).ok().flatten();
        if let Some(r) = r { return r; }
    }
    let mut ret: i64;
    std::arch::asm!("syscall", inlateout("rax") num => ret, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    if ret < 0 && ret >= -4095 { *errno() = (-ret) as i32; ret = -1; }
    ret
}
/// libc's getrandom(3), in case the library asks that way
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize { syscall(318, buf as usize, len, flags as usize, 0, 0, 0) as isize }
extern "C" { #[link_name = "__errno_location"] fn errno() -> *mut i32; }

struct S0;
impl Seed<u32> for S0 { fn seed(&self) -> rmath::rand::Result<u32> { Ok(7) } }
impl Seed<u64> for S0 { fn seed(&self) -> rmath::rand::Result<u64> { Ok(7) } }
impl Seed<usize> for S0 { fn seed(&self) -> rmath::rand::Result<usize> { Ok(7) } }

/// One history: the system's answers and the caller's operations (0 draw, 1 draw through the iterator, 2 reset, 3 go on with a clone).
/// Model: bytes wait in a queue; a draw succeeds iff after the system's answer the queue holds a word, and is then the oldest bytes, little endian.
fn history<T: rmath::rand::PrimitiveType + Copy + PartialEq + std::fmt::Debug, const W: usize>(script: Vec<Ans>, ops: &[usize], le: fn([u8; W]) -> T, c: &mut Ctx) -> Res where CryptoRand<T>: Source<T> + IterSource<T> + Clone, S0: Seed<T> {
    OS.with(|o| *o.borrow_mut() = Some(Os { script, pos: 0, next: 0, delivered: vec![], asked: vec![] }));
    let r = (|| -> Res {
        let mut g = CryptoRand::<T>::new(&S0).map_err(|_| "construction failed".to_string())?;
        let mut used = 0;
        for (k, &op) in ops.iter().enumerate() {
            c.step();
            let v: Option<T> = match op { 0 => g.gen().ok(), 1 => g.iter_mut().next(), 2 => { want!(g.reset(&S0).is_ok(), "reset failed"); continue } _ => { g = g.clone(); continue } };
            let d = OS.with(|o| o.borrow().as_ref().unwrap().delivered.clone());
            let w = if d.len() - used >= W { let mut b = [0u8; W]; b.copy_from_slice(&d[used..used + W]); used += W; Some(le(b)) } else { None };
            want!(v == w, "operation {}: {:x?}, expected {:x?} ({} bytes delivered so far, {} used)", k, v, w, d.len(), used);
        }
        Ok(())
    })();
    OS.with(|o| *o.borrow_mut() = None);
    r
}
fn c34(t: Tier) -> Vec<Suite> {
    let depth = t.pick(5u32, 6);
    let mut v = vec![];
    for (name, w) in [("u32", 4usize), ("u64", 8), ("usize", 8)] {
        let al: Vec<Ans> = if w == 4 { vec![Ans::Error, Ans::Bytes(0), Ans::Bytes(1), Ans::Bytes(2), Ans::Bytes(3), Ans::Bytes(4)] } else { vec![Ans::Error, Ans::Bytes(0), Ans::Bytes(1), Ans::Bytes(4), Ans::Bytes(7), Ans::Bytes(8)] };
        let (na, no) = ((al.len() as u64).pow(depth), 4u64.pow(depth));
        v.push(Suite::new(name, format!("every sequence of {} answers of the system ({:?}) x every sequence of {} caller operations", depth, al, depth), na * no, move |i, c| {
            let (mut a, mut o) = (i % na, i / na);
            let script: Vec<Ans> = (0..depth).map(|_| { let x = al[(a % al.len() as u64) as usize]; a /= al.len() as u64; x }).collect();
            let ops: Vec<usize> = (0..depth).map(|_| { let x = (o % 4) as usize; o /= 4; x }).collect();
            c.note(|| format!("system answers {:?}, operations {:?}", script, ops)); c.state(i % na);
            match name { "u32" => history::<u32, 4>(script, &ops, u32::from_le_bytes, c), "u64" => history::<u64, 8>(script, &ops, u64::from_le_bytes, c), _ => history::<usize, 8>(script, &ops, usize::from_le_bytes, c) }
        }));
    }
    v
}

// ---------------------------------------------------------------- C36: seeds and draws taken from the clock
thread_local! { static CLK: std::cell::Cell<Option<(i64, i64, i64, i64)>> = const { std::cell::Cell::new(None) }; }
/// libc's clock_gettime: the script of this thread (wall clock, monotonic clock) when there is one, otherwise the kernel.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if let Ok(Some((s, n, ms, mn))) = CLK.try_with(|c| c.get()) {
        *ts = if matches!(id, 0 | 5) { [s, n] } else { [ms, mn] };
        return 0;
    }
    syscall(228, id as usize, ts as usize, 0, 0, 0, 0) as i32
}
fn at<R>(clk: (i64, i64, i64, i64), f: impl FnOnce() -> R) -> R {
    struct Off; impl Drop for Off { fn drop(&mut self) { CLK.with(|c| c.set(None)) } }
    let _off = Off; CLK.with(|c| c.set(Some(clk))); f()
}
#[derive(Clone, Copy)]
struct Sd(Option<u64>);
macro_rules! sd { ($($t: ty),*) => { $(impl Seed<$t> for Sd { fn seed(&self) -> rmath::rand::Result<$t> { match self.0 { Some(x) => Ok(x as $t), None => Err(rmath::rand::RandError::new(rmath::rand::RandErrKind::NoNewRandSeedGen, "no seed")) } } })* } }
sd!(u32, u64, usize);
const SECS: &[i64] = &[-62_135_596_801, -2_208_988_800, -86_400, -2, -1, 0, 1, 2, 946_684_799, 1_700_000_000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 253_402_300_800];
const HIGH_US: &[i64] = &[0, 1, 3905];
const NS: &[i64] = &[0, 1, 999];
fn wall(i: u64) -> (i64, i64) { let us = i as i64 % 256; let i = i as usize / 256; let (h, i) = (HIGH_US[i % 3], i / 3); let (n, i) = (NS[i % 3], i / 3); (SECS[i], (h * 256 + us) * 1000 + n) }
const WALLS: u64 = 256 * 9 * SECS.len() as u64;
fn clock_history<T: rmath::rand::PrimitiveType + Copy + PartialEq + std::fmt::Debug>(i: u64, depth: u32, c: &mut Ctx) -> Res
    where rmath::rand::DefaultRand<T>: Source<T> + IterSource<T> + Clone, Sd: Seed<T> {
    use rmath::rand::DefaultRand;
    let clocks = [(1_700_000_000, 123_456_789, 77, 5), (1_700_000_000, 123_456_790, 77, 6), (-3, 999_999_999, 78, 0)];
    let seeds = [Some(0x0123_4567_89ab_cdef), Some(0)];
    let ops = ["draw", "next", "clone", "reset A", "reset B", "reset to a failing seed"];
    let mut k = i; let mut h = vec![];
    for _ in 0..depth { h.push(((k % 6) as usize, (k / 6 % 3) as usize)); k /= 18; }
    c.note(|| format!("history {:?}", h.iter().map(|&(o, q)| format!("{} at {:?}", ops[o], clocks[q])).collect::<Vec<_>>())); c.state(i);
    // the model: since the last (re)start with seed s, the draws are those a fresh generator of s makes at the same times
    let e = |_| "refused although the seed source delivered".to_string();
    let mut g = at(clocks[2], || DefaultRand::<T>::new(&Sd(seeds[0]))).map_err(e)?;
    let mut shadow = at(clocks[0], || DefaultRand::<T>::new(&Sd(seeds[0]))).map_err(e)?;
    for (n, &(o, q)) in h.iter().enumerate() {
        c.step();
        match o {
            0 | 1 => {
                let x = at(clocks[q], || if o == 0 { g.gen().ok() } else { g.iter_mut().next() });
                let y = at(clocks[q], || shadow.gen().ok());
                want!(x.is_some(), "step {}: no draw", n);
                want!(x == y, "step {}: drew {:x?}; a generator started with the same seed draws {:x?} at the same times", n, x, y);
            }
            2 => g = g.clone(),
            3 | 4 => { let s = Sd(seeds[o - 3]); at(clocks[q], || g.reset(&s)).map_err(e)?; shadow = at(clocks[0], || DefaultRand::<T>::new(&s)).map_err(e)?; }
            _ => want!(at(clocks[q], || g.reset(&Sd(None))).is_err(), "step {}: the failure of the seed source was not reported", n),
        }
    }
    Ok(())
}
fn c36(t: Tier) -> Vec<Suite> {
    use rmath::rand::{DefaultRand, DefaultSeed};
    let mut v = vec![];
    v.push(Suite::new("seeds", format!("every wall clock reading of {} seconds (before, at and after the epoch) x microseconds with every low byte x {:?} above it x nanoseconds {:?}", SECS.len(), HIGH_US, NS), WALLS, move |i, c| {
        let (s, n) = wall(i); let clk = (s, n, 1234 + i as i64 % 7, (n * 7) % 1_000_000_000);
        c.note(|| format!("clock {}s {}ns", s, n)); c.state(i); c.step();
        let e = |_| "no seed".to_string();
        let s64 = || -> Result<u64, String> { Seed::<u64>::seed(&DefaultSeed::<u64>::new().map_err(e)?).map_err(e) };
        let a = at(clk, s64)?; let b = at(clk, s64)?;
        want!(a == b, "two seeds taken at the same time differ: {:x} {:x}", a, b);
        at(clk, || -> Result<(), String> {
            let d = DefaultSeed::<u32>::new().map_err(e)?; let (x, y) = (Seed::<u32>::seed(&d).map_err(e)?, Seed::<u32>::seed(&d.clone()).map_err(e)?); want!(x == y, "u32 seeds at the same time differ");
            let d = DefaultSeed::<usize>::new().map_err(e)?; let (x, y) = (Seed::<usize>::seed(&d).map_err(e)?, Seed::<usize>::seed(&d.clone()).map_err(e)?); want!(x == y, "usize seeds at the same time differ");
            Ok(())
        })?;
        // another microsecond, another seed; the neighbours in time are read one after the other
        for dn in [1i64, 1000, 16_000, 256_000] { if n + dn < 1_000_000_000 { let o = at((s, n + dn, clk.2, clk.3), s64)?; want!(o != a, "the clock moved on by {} ns and the seed stayed {:x}", dn, a); } }
        Ok(())
    }));
    v.push(Suite::new("all-distinct", "the 64-bit seeds of every wall clock reading above, pairwise", 1, move |_, c| {
        let mut seen = std::collections::HashMap::new();
        for i in 0..WALLS { let (s, n) = wall(i); c.step(); let x = at((s, n, 9, 9), || Seed::<u64>::seed(&DefaultSeed::<u64>::new().unwrap())).map_err(|_| "no seed".to_string())?;
            if let Some(j) = seen.insert(x, (s, n)) { return Err(format!("the same seed {:x} at {:?} and {:?}", x, j, (s, n))); } }
        c.state(0); Ok(())
    }));
    v.push(Suite::new("draws", "every clock reading above: distinct seeds give distinct draws, and a refused seed is refused", WALLS, move |i, c| {
        let (s, n) = wall(i); let clk = (s, n, 55, 66);
        c.note(|| format!("clock {}s {}ns", s, n)); c.state(i); c.step();
        macro_rules! one { ($t: ty) => {{
            want!(at(clk, || DefaultRand::<$t>::new(&Sd(None)).is_err()), "a generator was made from a failing seed source");
            let mut d = vec![];
            for x in [0u64, 1, 0x8000_0000, 0xffff_ffff, 0x7654_3210] {
                let y: $t = at(clk, || { let mut g = DefaultRand::<$t>::new(&Sd(Some(x))).map_err(|_| "refused")?; g.gen().map_err(|_| "no draw") })?;
                want!(!d.contains(&y), "two seeds give the same draw {:x}", y); d.push(y);
            }
        }} }
        one!(u32); one!(u64); one!(usize); Ok(())
    }));
    let depth = t.pick(5u32, 6);
    for name in ["u32", "u64", "usize"] {
        v.push(Suite::new(name, format!("every sequence of {} operations (draw, iterator draw, clone, reset with either seed, reset with a failing seed), each at any of 3 times, one before the epoch", depth), 18u64.pow(depth), move |i, c| match name {
            "u32" => clock_history::<u32>(i, depth, c), "u64" => clock_history::<u64>(i, depth, c), _ => clock_history::<usize>(i, depth, c) }));
    }
    v
}
fn main() {
    main_(&[
        Prop { id: "C36", build: c36, assumptions: &["clock_gettime is interposed; the clock stands still during one operation"] },
        Prop { id: "C33", build: c33, assumptions: &["the portable path is selected by renaming the target-architecture predicates in a copy of /repo's working tree; it is executed natively, not on a foreign processor"] },
        Prop { id: "C34", build: c34, assumptions: &["getrandom is interposed at libc's syscall(2)"] },
    ])
}
fn main_(p: &[Prop]) { mc::engine::main(p) }
