//! The random source as an adversarial environment: every call to it is a choice point, and the explorer
//! enumerates all answer sequences over an alphabet up to a depth (depth-first, stateless), continuing each with a
//! fixed well-behaved tail.
use rmath::rand::{IterSource, Iter, RandErrKind, RandError, Seed, Source};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ans { Word(u32), Fail }

pub struct Script<'a> { alpha: &'a [Ans], prefix: Vec<usize>, pos: usize, depth: usize, tail: u64, pub draws: u64, pub log: Vec<Ans> }
pub const MAX_DRAWS: u64 = 100_000;
impl<'a> Script<'a> {
    fn new(alpha: &'a [Ans], prefix: Vec<usize>, depth: usize) -> Script<'a> { Script { alpha, prefix, pos: 0, depth, tail: 0x1234_5678_9abc_def1, draws: 0, log: vec![] } }
    fn tail_word(&mut self) -> u32 { self.tail ^= self.tail << 13; self.tail ^= self.tail >> 7; self.tail ^= self.tail << 17; (self.tail >> 24) as u32 }
}
impl<'a> Source<u32> for Script<'a> {
    fn gen(&mut self) -> rmath::rand::Result<u32> {
        self.draws += 1;
        if self.draws > MAX_DRAWS { panic!("does not terminate: {} numbers drawn from a well-behaved source", MAX_DRAWS); }
        let a = if self.pos < self.depth {
            if self.pos == self.prefix.len() { self.prefix.push(0); }
            self.pos += 1;
            self.alpha[self.prefix[self.pos - 1]]
        } else { Ans::Word(self.tail_word()) };
        if self.log.len() < 16 { self.log.push(a); }
        match a { Ans::Word(w) => Ok(w), Ans::Fail => Err(RandError::new(RandErrKind::NoNewRandNumberGen, "scripted failure")) }
    }
    fn reset<Sd: Seed<u32>>(&mut self, _: &Sd) -> rmath::rand::Result<()> { Ok(()) }
}
impl<'a> IterSource<u32> for Script<'a> { fn iter_mut(&mut self) -> Iter<'_, Self, u32> { Iter::new(self) } }

/// Run `f` once for every answer sequence of length <= depth over `alpha`; the number of executions.
pub fn explore(alpha: &[Ans], depth: usize, mut f: impl FnMut(&mut Script) -> Result<(), String>) -> Result<u64, String> {
    let mut prefix: Vec<usize> = vec![];
    let mut runs = 0;
    loop {
        let mut s = Script::new(alpha, prefix, depth);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut s)));
        runs += 1;
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(format!("{} [source answers {:x?}]", e, s.log)),
            Err(_) => return Err(format!("panicked: {} [source answers {:x?}]", crate::engine::last_panic(), s.log)),
        }
        prefix = s.prefix; prefix.truncate(s.pos);
        loop {
            match prefix.pop() { None => return Ok(runs), Some(k) if k + 1 < alpha.len() => { prefix.push(k + 1); break; } _ => {} }
        }
    }
}
