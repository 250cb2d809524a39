//! Exhaustive exploration engine: enumerates every case of every suite of a property on all cores,
//! compares the implementation with the reference model on each, counts what was covered, and isolates
//! crashes and hangs in a child process.
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{exit, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier { Quick, Thorough }
impl Tier {
    pub fn name(self) -> &'static str { if self == Tier::Quick { "quick" } else { "thorough" } }
    pub fn pick<T>(self, q: T, t: T) -> T { if self == Tier::Quick { q } else { t } }
    pub fn thorough(self) -> bool { self == Tier::Thorough }
}

pub struct Suite {
    pub name: String,
    /// what is enumerated, in words, with its bounds
    pub space: String,
    pub len: u64,
    pub run: Arc<dyn Fn(u64, &mut Ctx) -> Res + Send + Sync>,
}
impl Suite {
    pub fn new(name: &str, space: impl Into<String>, len: u64, run: impl Fn(u64, &mut Ctx) -> Res + Send + Sync + 'static) -> Suite {
        Suite { name: name.into(), space: space.into(), len, run: Arc::new(run) }
    }
}
/// the suites that are explored once more for each of the pasts a number can have (see `obs::Past`)
const WITH_PASTS: [(&str, &[&str]); 18] = [
    ("C01", &["pairs", "long", "near", "ladder", "word"]), ("C02", &["pairs", "word", "holes", "large", "lengths", "sqr", "pow"]),
    ("C03", &["pairs", "word", "lengths", "ladder", "near"]), ("C04", &["bitwise-long", "bitwise-holes", "ladder", "near", "shifts", "shifts-long", "queries", "beyond", "far"]),
    ("C05", &["near", "ladder", "two-limbs", "machine"]), ("C07", &["digit-spikes"]), ("C10", &["limbs", "long", "windows", "exp-ladder", "int-limbs"]), ("C11", &["limbs", "squares"]),
    ("C15", &["limbs", "unary", "ladder", "near"]), ("C16", &["limbs", "ladder", "shifts", "queries", "beyond", "far"]), ("C17", &["limbs", "ladder", "congruences-limbs"]), ("C18", &["ladder", "related", "two-powers"]),
    ("C20", &["extreme-fractions", "unary", "near"]), ("C21", &["lengths", "long"]), ("C22", &["format"]), ("C23", &["routes", "wide"]), ("C24", &["wide"]), ("C25", &["from-big", "far-ties"]),
];
fn with_pasts(mut v: Vec<Suite>, id: &str) -> Vec<Suite> {
    let names = WITH_PASTS.iter().find(|p| p.0 == id).map_or(&[][..], |p| p.1);
    for n in names {
        let s = v.iter().find(|s| s.name == *n).unwrap_or_else(|| panic!("no suite {}", n));
        let (run, len) = (s.run.clone(), s.len); let k = crate::obs::PASTS - 1;
        let space = format!("the cases of {} with operands that were longer before: built with room to spare, shifted up and down, with a longer number added and taken away", n);
        v.push(Suite::new(&format!("{}-past", n), space, len * k as u64, move |i, c| { let p = (i / len) as usize + 1; c.note(|| format!("operands with past {}", p)); let _past = crate::obs::Past::set(p); run(i % len, c) }));
    }
    v
}
pub struct Prop { pub id: &'static str, pub build: fn(Tier) -> Vec<Suite>, pub assumptions: &'static [&'static str] }

#[derive(Default, Clone, Copy)]
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u64(&mut self, x: u64) { self.0 = x.wrapping_mul(0x9E3779B97F4A7C15) }
}
type Set = HashSet<u64, BuildHasherDefault<IdHash>>;
const STATE_CAP: usize = 2_000_000;

pub struct Ctx { pub steps: u64, pub validated: u64, states: Set, pub trace: bool, notes: Vec<String>, live: bool }
impl Ctx {
    fn new(trace: bool, live: bool) -> Ctx { Ctx { steps: 0, validated: 0, states: Set::default(), trace, notes: vec![], live } }
    /// one step of the implementation whose outcome is compared with the model
    #[inline] pub fn step(&mut self) { self.steps += 1; }
    #[inline] pub fn steps(&mut self, n: u64) { self.steps += n; }
    /// a model state (outcome) reached
    #[inline] pub fn state(&mut self, h: u64) { if self.states.len() < STATE_CAP { self.states.insert(h); } }
    /// describe what is about to be executed; evaluated only when a case is being traced
    #[inline] pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.trace { let s = f(); if self.live { eprintln!("  {}", s); } self.notes.push(s); }
    }
    /// the call must panic (and nothing else may happen)
    pub fn must_panic<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Res {
        self.step();
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(_) => Err(format!("{}: returned although it has to panic", what)),
            Err(_) => Ok(()),
        }
    }
}

thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); static QUIET: Cell<u32> = Cell::new(0); }

extern "C" { fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; }

const NSLOT: usize = 64;
struct Slots { p: *mut AtomicU64 }
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
impl Slots {
    fn at(&self, i: usize) -> &AtomicU64 { unsafe { &*self.p.add(i) } }
    fn map(path: &str) -> Slots {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).expect("slot file");
        f.set_len(4096).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap of the slot file");
        Slots { p: p as *mut AtomicU64 }
    }
}

fn run_case(s: &Suite, i: u64, c: &mut Ctx) -> Res {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(|| (s.run)(i, c)));
    QUIET.with(|q| q.set(q.get() - 1));
    match r {
        Ok(r) => r,
        Err(_) => { let m = PANIC.with(|p| p.borrow().clone()); Err(format!("panicked: {}", m)) }
    }
}
/// re-run a case with tracing; returns its trace and outcome
fn trace_case(s: &Suite, i: u64, live: bool) -> (Vec<String>, Res) {
    let mut c = Ctx::new(true, live);
    let r = run_case(s, i, &mut c);
    (c.notes, r)
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() { match ch { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}

/// where evidence, replays and known findings live (MC_VERIF: for trial runs on scratch copies)
fn verif() -> String { std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()) }
fn known_findings(id: &str) -> Vec<String> {
    // lines: "finding: property=<id> case=<exact key>"
    let pre = format!("finding: property={} case=", id);
    std::fs::read_to_string(format!("{}/known_findings.txt", verif())).unwrap_or_default().lines()
        .filter_map(|l| l.strip_prefix(&pre).map(|s| s.trim().to_string())).collect()
}

struct Fail { suite: usize, idx: u64, msg: String, key: String }

fn write_replay(id: &str, tier: Tier, suite: &str, idx: Option<u64>, text: &str) -> String {
    let dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.txt", dir, id, tier.name());
    let mut s = format!("property={}\ntier={}\nsuite={}\n", id, tier.name(), suite);
    if let Some(i) = idx { s.push_str(&format!("index={}\n", i)); }
    s.push_str("---\n"); s.push_str(text); s.push('\n');
    let _ = std::fs::write(&path, s);
    path
}

fn nthreads() -> usize { std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get())).min(NSLOT) }

fn child(p: &Prop, tier: Tier, seed: u64, slots: Arc<Slots>, only: Option<String>) -> i32 {
    let t0 = Instant::now();
    let selfcnt = match crate::refmath::selftest() { Ok(n) => n, Err(e) => { println!("ERROR: reference model self test failed: {}", e); return 2; } };
    let suites: Arc<Vec<Suite>> = Arc::new(with_pasts((p.build)(tier), p.id));
    {
        let mut names = HashSet::new();
        for s in suites.iter() { assert!(names.insert(s.name.clone()), "duplicate suite {}", s.name); }
    }
    let known = known_findings(p.id);
    let nt = nthreads();
    // what is not explored by then stays unexplored, and the evidence says so
    let budget = Duration::from_secs(if tier.thorough() { 810 } else { 600 });
    let hang = Arc::new(AtomicBool::new(false));
    // watchdog
    { let slots = slots.clone(); let hang = hang.clone();
      std::thread::spawn(move || { let mut last = vec![(0u64, Instant::now()); NSLOT]; loop {
        std::thread::sleep(Duration::from_millis(500));
        for i in 0..NSLOT { let v = slots.at(i * 4 + 2).load(Ordering::Relaxed); let act = slots.at(i * 4 + 3).load(Ordering::Relaxed);
            if act == 0 || v != last[i].0 { last[i] = (v, Instant::now()); }
            else if last[i].1.elapsed() > Duration::from_secs(60) { hang.store(true, Ordering::SeqCst); exit(77); } }
      } }); }
    let (mut steps, mut cases, mut validated) = (0u64, 0u64, 0u64);
    let mut all = Set::default();
    let mut samples: Vec<String> = vec![];
    let mut per: Vec<String> = vec![];
    let mut known_seen: Vec<String> = vec![];
    let mut fails: Vec<Fail> = vec![];
    for (si, s) in suites.iter().enumerate() {
        if let Some(o) = &only { if *o != s.name { continue; } }
        let ts = Instant::now();
        let next = Arc::new(AtomicU64::new(0));
        let minfail = Arc::new(AtomicU64::new(u64::MAX));
        let chunk = (s.len / (nt as u64 * 64)).clamp(1, 4096);
        let found: Arc<Mutex<Vec<(u64, String)>>> = Arc::new(Mutex::new(vec![]));
        let kn: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
        let hs: Vec<_> = (0..nt).map(|t| {
            let (suites, next, minfail, found, slots, known, kn) = (suites.clone(), next.clone(), minfail.clone(), found.clone(), slots.clone(), known.clone(), kn.clone());
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let s = &suites[si];
                let mut c = Ctx::new(false, false);
                let mut n = 0u64;
                let mut stamp = 0u64;
                loop {
                    let a = next.fetch_add(chunk, Ordering::Relaxed);
                    if a >= s.len || a > minfail.load(Ordering::Relaxed) || t0.elapsed() > budget { break; }
                    for i in a..(a + chunk).min(s.len) {
                        stamp += 1;
                        slots.at(t * 4).store(si as u64, Ordering::Relaxed); slots.at(t * 4 + 1).store(i, Ordering::Relaxed);
                        slots.at(t * 4 + 2).store(stamp, Ordering::Relaxed); slots.at(t * 4 + 3).store(1, Ordering::Relaxed);
                        n += 1;
                        if let Err(e) = run_case(s, i, &mut c) {
                            let (notes, _) = trace_case(s, i, false);
                            let key = format!("{} :: {}", s.name, notes.last().cloned().unwrap_or_default());
                            if known.contains(&key) { kn.lock().unwrap().push(key); continue; }
                            found.lock().unwrap().push((i, e));
                            minfail.fetch_min(i, Ordering::Relaxed);
                            break;
                        }
                    }
                }
                slots.at(t * 4 + 3).store(0, Ordering::Relaxed);
                (n, c)
            }).unwrap()
        }).collect();
        let (mut ssteps, mut scases) = (0, 0);
        for h in hs { let (n, c) = h.join().expect("worker"); ssteps += c.steps; scases += n; validated += c.validated; for x in c.states { if all.len() < 4 * STATE_CAP { all.insert(x); } } }
        steps += ssteps; cases += scases;
        let mut kn = kn.lock().unwrap().clone(); kn.sort(); kn.dedup(); known_seen.extend(kn);
        let mut f = found.lock().unwrap().clone(); f.sort();
        if let Some((i, e)) = f.first() {
            let (notes, _) = trace_case(s, *i, false);
            let key = format!("{} :: {}", s.name, notes.last().cloned().unwrap_or_default());
            fails.push(Fail { suite: si, idx: *i, msg: format!("{}\ntrace:\n  {}", e, notes.join("\n  ")), key });
        } else {
            for i in [0, s.len / 2, s.len.saturating_sub(1)] { if s.len > 0 && samples.len() < 24 { let (n, _) = trace_case(s, i, false); let mut t = n.iter().take(3).cloned().collect::<Vec<_>>().join("; "); if t.len() > 300 { let mut k = 300; while !t.is_char_boundary(k) { k -= 1; } t.truncate(k); t.push('…'); } samples.push(format!("{}[{}]: {}", s.name, i, t)); } }
        }
        per.push(format!("{{\"suite\":{},\"space\":{},\"cases\":{},\"transitions\":{},\"wall_s\":{:.2}}}", jstr(&s.name), jstr(&s.space), scases, ssteps, ts.elapsed().as_secs_f64()));
        if std::env::var("MC_VERBOSE").is_ok() { eprintln!("{} {}: {} cases {} steps {:.2}s", p.id, s.name, scases, ssteps, ts.elapsed().as_secs_f64()); }
        if !fails.is_empty() && std::env::var("MC_KEEP_GOING").is_err() { break; }
    }
    known_seen.sort(); known_seen.dedup();
    for k in &known_seen { println!("KNOWN-FINDING: property={} {}", p.id, k); }
    let mut assumptions: Vec<String> = p.assumptions.iter().map(|s| jstr(s)).collect();
    assumptions.push(jstr("the reference model in mc/src/refmath.rs is right; it is cross-checked against machine arithmetic at the start of every run"));
    let ev = format!("{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{},\"reference_selftest_cases\":{},\"suites\":[{}],\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        jstr(p.id), jstr(tier.name()), seed, all.len(), steps, if validated > 0 { validated } else { cases }, fails.is_empty() && only.is_none() && t0.elapsed() <= budget, selfcnt, per.join(","), samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","), assumptions.join(","), t0.elapsed().as_secs_f64(), fails.len());
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", verif(), p.id), ev) { println!("ERROR: cannot write evidence: {}", e); return 2; }
    println!("{} {}: {} states, {} transitions, {} cases, {:.1}s", p.id, tier.name(), all.len(), steps, cases, t0.elapsed().as_secs_f64());
    if let Some(f) = fails.first() {
        for f in &fails { println!("case {}[{}] key: {}\n{}", suites[f.suite].name, f.idx, f.key, f.msg); }
        let path = write_replay(p.id, tier, &suites[f.suite].name, Some(f.idx), &f.msg);
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    0
}

fn wait_timeout(c: &mut std::process::Child, secs: u64) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() { return Some(s); }
        if t.elapsed() > Duration::from_secs(secs) { let _ = c.kill(); let _ = c.wait(); return None; }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn crash_evidence(id: &str, tier: Tier, seed: u64, what: &str, t0: Instant) {
    let ev = format!("{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":0,\"exhaustive\":false,\"samples\":[{}]}},\"wall_s\":{:.3},\"violations\":1}}\n", jstr(id), jstr(tier.name()), seed, jstr(what), t0.elapsed().as_secs_f64());
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    let _ = std::fs::write(format!("{}/evidence/{}.json", verif(), id), ev);
}

/// Entry point of every checker binary.
pub fn main(props: &[Prop]) -> ! {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{}{}", m, l));
        if QUIET.with(|l| l.get()) == 0 { eprintln!("panic: {}{}", m, l); }
    }));
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! { eprintln!("usage: {} ID quick|thorough [--suite NAME] | --replay FILE | ID tier --case SUITE INDEX | --list", args[0]); exit(2) };
    let tier_of = |s: &str| match s { "quick" => Tier::Quick, "thorough" => Tier::Thorough, _ => Tier::Quick };
    if args.get(1).map(|s| s.as_str()) == Some("--list") { for p in props { println!("{}", p.id); } exit(0) }
    let (id, tier, mut case, mut only) = if args.get(1).map(|s| s.as_str()) == Some("--replay") {
        let txt = std::fs::read_to_string(args.get(2).unwrap_or_else(|| usage())).unwrap_or_else(|_| usage());
        let get = |k: &str| txt.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix('='))).map(|s| s.to_string());
        (get("property").unwrap_or_default(), tier_of(&get("tier").unwrap_or_default()), get("suite").and_then(|s| get("index").map(|i| (s, i))), None)
    } else {
        if args.len() < 3 { usage() }
        (args[1].clone(), tier_of(&args[2]), None, None)
    };
    let mut is_child = None;
    let mut i = 3;
    while i < args.len() { match args[i].as_str() {
        "--case" => { case = Some((args[i + 1].clone(), args[i + 2].clone())); i += 3; }
        "--suite" => { only = Some(args[i + 1].clone()); i += 2; }
        "--child" => { is_child = Some(args[i + 1].clone()); i += 2; }
        _ => usage(),
    } }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let p = match props.iter().find(|p| p.id == id) { Some(p) => p, None => { eprintln!("unknown property {}", id); exit(2) } };
    if let Some((sn, ix)) = case {
        // one case, traced
        let idx: u64 = ix.parse().unwrap_or_else(|_| usage());
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn({ let build = p.build; move || {
            let suites = build(tier);
            let s = suites.iter().find(|s| s.name == sn).expect("no such suite");
            trace_case(s, idx, true).1
        } }).unwrap();
        match h.join() { Ok(Ok(())) => { println!("case passes"); exit(0) } Ok(Err(e)) => { println!("case fails: {}", e); exit(1) } Err(_) => exit(2) }
    }
    if let Some(slotfile) = is_child { let r = child(p, tier, seed, Arc::new(Slots::map(&slotfile)), only); exit(r); }

    // parent
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let slotfile = std::env::temp_dir().join(format!("mc-slots-{}-{}", std::process::id(), p.id));
    let slotfile = slotfile.to_str().unwrap().to_string();
    let mut crashes = 0;
    loop {
        let _ = std::fs::remove_file(&slotfile);
        let slots = Slots::map(&slotfile);
        let mut cmd = Command::new(&exe);
        cmd.arg(&id).arg(tier.name()).arg("--child").arg(&slotfile);
        if let Some(o) = &only { cmd.arg("--suite").arg(o); }
        let st = cmd.status().expect("spawn child");
        match st.code() {
            Some(c @ 0) | Some(c @ 1) | Some(c @ 2) => { let _ = std::fs::remove_file(&slotfile); exit(c) }
            Some(101) => { let _ = std::fs::remove_file(&slotfile); eprintln!("ERROR: the checker itself panicked"); exit(2) }
            _ => {}
        }
        use std::os::unix::process::ExitStatusExt;
        let how = if st.code() == Some(77) { "a case did not finish within 60 s".to_string() } else { format!("the process died with {}", st.signal().map(|s| format!("signal {}", s)).unwrap_or_else(|| format!("{:?}", st))) };
        let names: Vec<String> = (p.build)(tier).iter().map(|s| s.name.clone()).collect();
        for t in 0..NSLOT {
            if slots.at(t * 4 + 3).load(Ordering::Relaxed) == 0 { continue; }
            let (si, ix) = (slots.at(t * 4).load(Ordering::Relaxed) as usize, slots.at(t * 4 + 1).load(Ordering::Relaxed));
            let name = match names.get(si) { Some(n) => n.clone(), None => continue };
            let mut c = Command::new(&exe).arg(&id).arg(tier.name()).arg("--case").arg(&name).arg(ix.to_string()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn case");
            let mut err = c.stderr.take().unwrap();
            let rd = std::thread::spawn(move || { use std::io::Read; let mut v = vec![]; let mut b = [0u8; 4096]; while let Ok(n) = err.read(&mut b) { if n == 0 { break; } if v.len() < 1 << 16 { v.extend_from_slice(&b[..n]); } } String::from_utf8_lossy(&v).to_string() });
            let st = wait_timeout(&mut c, 60);
            let txt = rd.join().unwrap_or_default();
            let bad = match st { None => Some("does not terminate within 60 s".to_string()), Some(s) if s.code() == Some(0) => None, Some(s) if s.code() == Some(2) => None, Some(s) => Some(format!("crashes: {:?}", s)) };
            if let Some(b) = bad {
                let msg = format!("{}\ntrace:\n{}", b, txt);
                println!("case {}[{}]: {}", name, ix, msg);
                let path = write_replay(&id, tier, &name, Some(ix), &msg);
                crash_evidence(&id, tier, seed, &format!("{}[{}]: {}", name, ix, msg), t0);
                let _ = std::fs::remove_file(&slotfile);
                println!("VIOLATION property={} replay={}", id, path);
                exit(1);
            }
        }
        crashes += 1;
        if crashes >= 2 {
            let _ = std::fs::remove_file(&slotfile);
            if st.signal() == Some(9) || st.code() == Some(77) { eprintln!("ERROR: {}, not reproducible on a single case", how); exit(2) }
            let path = write_replay(&id, tier, "*", None, &format!("{} twice in a row; no single case reproduces it (memory corruption across cases)", how));
            crash_evidence(&id, tier, seed, &how, t0);
            println!("{} twice in a row", how);
            println!("VIOLATION property={} replay={}", id, path);
            exit(1);
        }
    }
}

/// prefix an observation error with the operation it belongs to
#[macro_export]
macro_rules! ck { ($r:expr, $($a:tt)*) => { if let Err(e) = $r { return Err(format!("{}: {}", format!($($a)*), e)); } } }
#[macro_export]
macro_rules! want { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }
pub fn last_panic() -> String { PANIC.with(|p| p.borrow().clone()) }
