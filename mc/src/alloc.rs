//! Global allocator of the harness.
//!  * normally: the system allocator with caps, so that an operation that asks for an absurd amount of
//!    memory aborts this process (and is then confirmed and reported by the parent) instead of
//!    exhausting the sandbox;
//!  * on a thread that switched the fence on: every block lies in its own slot surrounded by
//!    inaccessible guard pages, flush against the page end (mode 1, catches overruns) or the page
//!    start (mode 2, catches underruns); blocks are filled with a pattern when handed out, the unused
//!    slack of the slot is checked when the block is returned.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Alloc;
const MAX_ONE: usize = 1 << 30;
const MAX_TOTAL: usize = 10 << 30;
static TOTAL: AtomicUsize = AtomicUsize::new(0);

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
    fn abort() -> !;
    fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
}

const PAGE: usize = 4096;
/// usable pages per slot, by class; each class has its own region of the arena. A slot is
/// [usable pages][guard page]; the first page of a region is a guard as well.
const NC: usize = 6;
const CLASSES: [usize; NC] = [1, 2, 4, 16, 64, 512];
const PER_REFILL: [usize; NC] = [128, 64, 32, 16, 4, 2];
const REGION: usize = 1 << 35;
/// records of the slots (next free, pointer handed out, size), one region's worth after the slots
const REC: usize = 32;
const RECS: usize = 1 << 28;
const ARENA: usize = REGION * NC + RECS * NC;
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: [AtomicUsize; NC] = [const { AtomicUsize::new(0) }; NC];
/// number of blocks that could not be fenced (size, or no more mappings)
pub static UNFENCED: AtomicUsize = AtomicUsize::new(0);
/// free lists; a thread owns one pool while it lives, and hands it on when it ends
const POOLS: usize = 64;
static POOL_USED: [AtomicUsize; POOLS] = [const { AtomicUsize::new(0) }; POOLS];
static FREE: [[AtomicUsize; NC]; POOLS] = [const { [const { AtomicUsize::new(0) }; NC] }; POOLS];
struct Pool(Cell<usize>);
impl Drop for Pool { fn drop(&mut self) { let p = self.0.get(); if p < POOLS { POOL_USED[p].store(0, Ordering::Release); } } }

thread_local! {
    static MODE: Cell<u8> = const { Cell::new(0) };
    static FILL: Cell<u8> = const { Cell::new(0) };
    static BLOCKS: Cell<u64> = const { Cell::new(0) };
    static POOL: Pool = const { Pool(Cell::new(usize::MAX)) };
}
/// the pool of this thread (None while the thread is being torn down: such blocks are not reused)
fn pool() -> Option<usize> {
    POOL.try_with(|p| {
        if p.0.get() == usize::MAX {
            let i = (0..POOLS).find(|&i| POOL_USED[i].compare_exchange(0, 1, Ordering::AcqRel, Ordering::Acquire).is_ok());
            p.0.set(i.unwrap_or_else(|| die(b"fence: too many threads\n")));
        }
        p.0.get()
    }).ok()
}

/// Run `f` with the fence on. mode 1: end-aligned, mode 2: start-aligned.
pub fn fenced<T>(mode: u8, fill: u8, f: impl FnOnce() -> T) -> T {
    struct G(u8, u8);
    impl Drop for G { fn drop(&mut self) { MODE.with(|m| m.set(self.0)); FILL.with(|m| m.set(self.1)); } }
    let _g = G(MODE.with(|m| m.replace(mode)), FILL.with(|m| m.replace(fill)));
    f()
}
pub fn unfenced<T>(f: impl FnOnce() -> T) -> T { fenced(0, 0, f) }
pub fn blocks() -> u64 { BLOCKS.with(|b| b.get()) }

fn base() -> usize {
    let b = BASE.load(Ordering::Acquire);
    if b != 0 { return b; }
    unsafe {
        // PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
        let p = mmap(std::ptr::null_mut(), ARENA, 0, 0x2 | 0x20 | 0x4000, -1, 0) as usize;
        if p == usize::MAX || mprotect((p + NC * REGION) as *mut u8, RECS * NC, 3) != 0 { die(b"fence arena: mmap failed\n"); }
        match BASE.compare_exchange(0, p, Ordering::AcqRel, Ordering::Acquire) { Ok(_) => p, Err(o) => o }
    }
}
fn die(m: &[u8]) -> ! { unsafe { write(2, m.as_ptr() as *const _, m.len()); abort() } }

fn rec(c: usize, i: usize) -> *mut usize { (base() + NC * REGION + c * RECS + i * REC) as *mut usize }
fn slot(c: usize, i: usize) -> usize { base() + c * REGION + PAGE + i * (CLASSES[c] + 1) * PAGE }
unsafe fn slot_refill(c: usize, pool: usize) -> bool {
    let n = PER_REFILL[c];
    let first = NEXT[c].fetch_add(n, Ordering::AcqRel);
    if (first + n + 1) * (CLASSES[c] + 1) * PAGE > REGION || (first + n) * REC > RECS { return false; }
    for i in first..first + n {
        if mprotect(slot(c, i) as *mut u8, CLASSES[c] * PAGE, 3) != 0 { return i > first; }
        *rec(c, i) = FREE[pool][c].load(Ordering::Relaxed);
        FREE[pool][c].store(i + 1, Ordering::Relaxed);
    }
    true
}
/// size class of a block, None if it is too large for the fence
fn class_of(l: &Layout) -> Option<usize> { CLASSES.iter().position(|p| p * PAGE >= l.size() + l.align()) }
unsafe fn fence_alloc(c: usize, l: Layout) -> Option<*mut u8> {
    let size = l.size();
    let k = pool()?;
    if FREE[k][c].load(Ordering::Relaxed) == 0 && !slot_refill(c, k) { return None; }
    let i = FREE[k][c].load(Ordering::Relaxed) - 1;
    let h = rec(c, i);
    FREE[k][c].store(*h, Ordering::Relaxed);
    let lo = slot(c, i);
    let hi = lo + CLASSES[c] * PAGE;
    let p = if MODE.with(|m| m.get()) == 2 { lo } else { (hi - size) & !(l.align() - 1) };
    // slack carries a canary next to the block (up to 512 bytes on either side), the block the fill pattern
    std::ptr::write_bytes(p as *mut u8, FILL.with(|m| m.get()), size);
    let a = lo.max(p.saturating_sub(512));
    std::ptr::write_bytes(a as *mut u8, 0xC7, p - a);
    let e = (p + size + 512).min(hi);
    std::ptr::write_bytes((p + size) as *mut u8, 0xC7, e - (p + size));
    *h.add(1) = p; *h.add(2) = size;
    BLOCKS.with(|b| b.set(b.get() + 1));
    Some(p as *mut u8)
}
fn in_arena(p: usize) -> bool { let b = BASE.load(Ordering::Acquire); b != 0 && p >= b && p < b + ARENA }
unsafe fn fence_free(p: usize, l: Layout) {
    let size = l.size();
    let off = p - base();
    let c = off / REGION;
    if c >= NC || off % REGION < PAGE { die(b"fence: free of an unknown block\n"); }
    let i = (off % REGION - PAGE) / ((CLASSES[c] + 1) * PAGE);
    let h = rec(c, i);
    if *h.add(1) != p || *h.add(2) != size { die(b"fence: free of an unknown block\n"); }
    let lo = slot(c, i);
    let hi = lo + CLASSES[c] * PAGE;
    for q in lo.max(p.saturating_sub(512))..p { if *(q as *const u8) != 0xC7 { die(b"fence: memory before a block was overwritten\n"); } }
    for q in p + size..(p + size + 512).min(hi) { if *(q as *const u8) != 0xC7 { die(b"fence: memory after a block was overwritten\n"); } }
    *h.add(1) = 0;
    std::ptr::write_bytes(p as *mut u8, 0xDD, size);
    if let Some(k) = pool() { *h = FREE[k][c].load(Ordering::Relaxed); FREE[k][c].store(i + 1, Ordering::Relaxed); }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX_ONE { return std::ptr::null_mut(); }
        if MODE.try_with(|m| m.get()).unwrap_or(0) != 0 { if let Some(p) = class_of(&l).and_then(|c| fence_alloc(c, l)) { return p; } UNFENCED.fetch_add(1, Ordering::Relaxed); }
        if l.size() > 1 << 16 && TOTAL.fetch_add(l.size(), Ordering::Relaxed) > MAX_TOTAL { TOTAL.fetch_sub(l.size(), Ordering::Relaxed); return std::ptr::null_mut(); }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p as usize) { return fence_free(p as usize, l); }
        if l.size() > 1 << 16 { TOTAL.fetch_sub(l.size(), Ordering::Relaxed); }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > MAX_ONE { return std::ptr::null_mut(); }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        if MODE.try_with(|m| m.get()).unwrap_or(0) == 0 && !in_arena(p as usize) {
            if n <= 1 << 16 && l.size() <= 1 << 16 { return System.realloc(p, l, n); }
        }
        let q = self.alloc(nl);
        if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); self.dealloc(p, l); }
        q
    }
}
