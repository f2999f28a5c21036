//! Every random choice of a case is a word of its tape: a fixed block of
//! configuration words followed by one fixed-size block per operation. Blocks
//! are decoded against the current state of the run, so any sub-sequence of
//! blocks is a valid case and shrinking is deleting blocks and lowering words.
//! A word of 0 always means "the simplest choice".
use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::TestRunner;
use proptest::prelude::Rng as _;
use serde::{Deserialize, Serialize};

pub const CFGW: usize = 24;
pub const OPW: usize = 14;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Hash)]
pub struct Tape {
    pub cfg: Vec<u32>,
    pub ops: Vec<Vec<u32>>,
}

pub struct Draw<'a> {
    w: &'a [u32],
    i: usize,
    ext: u64,
}

impl<'a> Draw<'a> {
    pub fn new(w: &'a [u32]) -> Self {
        // a block that runs dry keeps going on a generator seeded by its words;
        // an all-zero block stays all zero
        let mut ext = 0u64;
        for x in w {
            ext = ext.rotate_left(7) ^ (*x as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        }
        Self { w, i: 0, ext }
    }
    pub fn word(&mut self) -> u32 {
        if let Some(v) = self.w.get(self.i) {
            self.i += 1;
            *v
        } else if self.ext == 0 {
            0
        } else {
            (splitmix(&mut self.ext) >> 32) as u32
        }
    }
    /// 0..n
    pub fn below(&mut self, n: u32) -> u32 {
        ((self.word() as u64 * n as u64) >> 32) as u32
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u32) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }
    pub fn u64(&mut self) -> u64 {
        ((self.word() as u64) << 32) | self.word() as u64
    }
    /// true with probability num/den; 0 = false
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) >= den - num
    }
    /// index into weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total);
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        w.len() - 1
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.usize(v.len())]
    }
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash2(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut s)
}

#[derive(Clone, Debug)]
pub struct TapeStrategy {
    pub min_ops: usize,
    pub max_ops: usize,
}

impl Strategy for TapeStrategy {
    type Tree = TapeTree;
    type Value = Tape;

    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        let rng = runner.rng();
        let span = (self.max_ops - self.min_ops) as u32 + 1;
        // short cases as often as long ones
        let a = ((rng.next_u32() as u64 * span as u64) >> 32) as usize;
        let b = ((rng.next_u32() as u64 * (a as u64 + 1)) >> 32) as usize;
        let n = self.min_ops + if rng.next_u32() & 1 == 0 { a } else { b };
        let cfg = (0..CFGW).map(|_| rng.next_u32()).collect();
        let ops = (0..n)
            .map(|_| (0..OPW).map(|_| rng.next_u32()).collect())
            .collect();
        Ok(TapeTree::new(Tape { cfg, ops }, self.min_ops))
    }
}

/// Shrinks by deleting runs of operations (long runs first), then by lowering
/// words (to zero, then by halves), until a whole pass changes nothing.
pub struct TapeTree {
    cur: Tape,
    /// what to go back to when the last simplification made the failure vanish
    prev: Option<Tape>,
    min_ops: usize,
    phase: Phase,
    progressed: bool,
    passes: u32,
}

#[derive(Clone, Debug)]
enum Phase {
    Delete { size: usize, at: usize },
    Zero { at: usize },
    Halve { at: usize },
    Done,
}

impl TapeTree {
    pub fn new(t: Tape, min_ops: usize) -> Self {
        let n = t.ops.len();
        Self {
            cur: t,
            prev: None,
            min_ops,
            phase: Phase::Delete { size: (n / 2).max(1), at: 0 },
            progressed: false,
            passes: 0,
        }
    }
    fn words(&self) -> usize {
        self.cur.cfg.len() + self.cur.ops.len() * OPW
    }
    fn word(&mut self, i: usize) -> &mut u32 {
        let c = self.cur.cfg.len();
        if i < c {
            &mut self.cur.cfg[i]
        } else {
            &mut self.cur.ops[(i - c) / OPW][(i - c) % OPW]
        }
    }
}

impl ValueTree for TapeTree {
    type Value = Tape;

    fn current(&self) -> Tape {
        self.cur.clone()
    }

    fn simplify(&mut self) -> bool {
        // reaching here with `prev` set means the last step was kept
        if self.prev.take().is_some() {
            self.progressed = true;
        }
        loop {
            match self.phase.clone() {
                Phase::Delete { size, at } => {
                    let n = self.cur.ops.len();
                    if at >= n || n <= self.min_ops {
                        if size <= 1 || n <= self.min_ops {
                            self.phase = Phase::Zero { at: 0 };
                        } else {
                            self.phase = Phase::Delete { size: size / 2, at: 0 };
                        }
                        continue;
                    }
                    let end = (at + size).min(n);
                    if n - (end - at) < self.min_ops {
                        self.phase = Phase::Delete { size, at: n };
                        continue;
                    }
                    self.prev = Some(self.cur.clone());
                    self.cur.ops.drain(at..end);
                    // stays at `at`; complicate() moves on
                    return true;
                }
                Phase::Zero { at } => {
                    if at >= self.words() {
                        self.phase = Phase::Halve { at: 0 };
                        continue;
                    }
                    self.phase = Phase::Zero { at: at + 1 };
                    if *self.word(at) == 0 {
                        continue;
                    }
                    self.prev = Some(self.cur.clone());
                    *self.word(at) = 0;
                    return true;
                }
                Phase::Halve { at } => {
                    if at >= self.words() {
                        self.passes += 1;
                        if self.progressed && self.passes < 6 {
                            self.progressed = false;
                            let n = self.cur.ops.len();
                            self.phase = Phase::Delete { size: (n / 2).max(1), at: 0 };
                        } else {
                            self.phase = Phase::Done;
                        }
                        continue;
                    }
                    self.phase = Phase::Halve { at: at + 1 };
                    if *self.word(at) == 0 {
                        continue;
                    }
                    self.prev = Some(self.cur.clone());
                    *self.word(at) /= 2;
                    return true;
                }
                Phase::Done => return false,
            }
        }
    }

    fn complicate(&mut self) -> bool {
        match self.prev.take() {
            Some(p) => {
                self.cur = p;
                if let Phase::Delete { size, at } = self.phase.clone() {
                    self.phase = Phase::Delete { size, at: at + size };
                }
                // The caller now asks for the next simplification
                true
            }
            None => false,
        }
    }
}
