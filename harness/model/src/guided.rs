//! Coverage-guided search: a case is the sequence of random choices its generator
//! made. Cases that reach something new in the code are kept, and further ones
//! made by changing some of their choices.

use crate::fw::mix;
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};

/// Number of the first guided worker; the others have lower ones.
pub const FIRST: usize = 32;
/// Cases with more choices than this (bytes) are not kept.
const LONGEST: usize = 1 << 16;
const MOST: usize = 6_000;

/// The choices of one case: recorded ones, then what `tail` generates.
#[derive(Clone, Debug, Default)]
pub struct Made {
    pub focus: u64,
    pub tail: u64,
    pub tape: Vec<u8>,
}

impl Made {
    pub fn tree<S: Strategy>(&self, s: &S) -> Option<(S::Tree, TestRunner)> {
        crate::dict::focus(self.focus);
        let mut seed = vec![];
        seed.extend(self.tail.to_le_bytes());
        seed.extend(mix(self.tail).to_le_bytes());
        seed.extend(&self.tape);
        let cfg = Config { failure_persistence: None, max_global_rejects: 1_000_000, max_local_rejects: 1_000_000, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::PassThrough, &seed));
        let t = s.new_tree(&mut runner).ok()?;
        Some((t, runner))
    }
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    fn below(&mut self, n: usize) -> usize {
        ((u128::from(self.next()) * n as u128) >> 64) as usize
    }
    fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
}

struct Kept {
    made: Made,
    /// reached new code, not only new counts or comparisons
    edges: bool,
    picked: u32,
}

pub struct Search {
    rng: Rng,
    kept: Vec<Kept>,
    /// those that reached new code
    telling: Vec<usize>,
}

impl Search {
    pub fn new(seed: u64) -> Self {
        Self { rng: Rng(seed), kept: vec![], telling: vec![] }
    }

    pub fn len(&self) -> usize {
        self.kept.len()
    }

    pub fn is_empty(&self) -> bool {
        self.kept.is_empty()
    }

    pub fn learn(&mut self, made: Made, mut runner: TestRunner, news: cov::News) {
        if news.edges + news.counts + news.compared == 0 || self.kept.len() >= MOST {
            return;
        }
        let tape = runner.rng().bytes_used();
        if tape.len() > LONGEST {
            return;
        }
        if news.edges > 0 {
            self.telling.push(self.kept.len());
        }
        self.kept.push(Kept { made: Made { tape, ..made }, edges: news.edges > 0, picked: 0 });
    }

    fn pick(&mut self) -> usize {
        let n = self.kept.len();
        match self.rng.below(8) {
            // the latest: a way being followed
            0..=2 => n - 1 - self.rng.below(n.min(24)),
            3 | 4 if !self.telling.is_empty() => {
                let k = self.rng.below(self.telling.len());
                self.telling[k]
            }
            // the one of some that was picked least
            _ => (0..4)
                .map(|_| self.rng.below(n))
                .min_by_key(|i| self.kept[*i].picked / if self.kept[*i].edges { 4 } else { 1 })
                .unwrap_or(0),
        }
    }

    pub fn next(&mut self) -> Made {
        if self.kept.len() < 8 || self.rng.one_in(12) {
            return Made { focus: self.rng.next(), tail: self.rng.next(), tape: vec![] };
        }
        let i = self.pick();
        self.kept[i].picked += 1;
        let mut m = self.kept[i].made.clone();
        m.tail = self.rng.next();
        let mut words: Vec<u32> = m.tape.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
        let times = 1 << self.rng.below(4);
        for _ in 0..times {
            self.change(&mut words);
        }
        if self.rng.one_in(10) {
            m.focus = self.rng.next();
        }
        m.tape = words.iter().flat_map(|w| w.to_le_bytes()).collect();
        m
    }

    fn change(&mut self, w: &mut Vec<u32>) {
        let n = w.len();
        if n == 0 {
            w.push(self.rng.next() as u32);
            return;
        }
        let at = self.rng.below(n);
        match self.rng.below(16) {
            0..=4 => w[at] = self.rng.next() as u32,
            // generators scale a word to their range, so that its upper bits decide
            5..=7 => {
                let d = (1 + self.rng.below(4) as u32).wrapping_shl(31 - self.rng.below(32) as u32);
                w[at] = if self.rng.one_in(2) { w[at].wrapping_add(d) } else { w[at].wrapping_sub(d) };
            }
            8 => w[at] = [0, u32::MAX, 1 << 31, 1 << 24][self.rng.below(4)],
            9 => w[at] = w[self.rng.below(n)],
            10 => {
                let k = (1 + self.rng.below(8)).min(n - at);
                w.drain(at..at + k);
            }
            11 => {
                for _ in 0..=self.rng.below(8) {
                    w.insert(at, self.rng.next() as u32);
                }
            }
            12 => {
                let from = self.rng.below(n);
                let k = (1 + self.rng.below(32)).min(n - from);
                let part = w[from..from + k].to_vec();
                w.splice(at..at, part);
            }
            13 => {
                // exchange a stretch for one at the same place elsewhere
                let other = self.rng.below(self.kept.len());
                let t = &self.kept[other].made.tape;
                let k = 1 + self.rng.below(64);
                let part: Vec<u32> = t.chunks_exact(4).skip(at).take(k).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
                let end = (at + part.len()).min(n);
                w.splice(at..end, part);
            }
            14 => w.truncate(at),
            _ => {
                let k = (1 + self.rng.below(16)).min(n - at);
                for x in &mut w[at..at + k] {
                    *x = self.rng.next() as u32;
                }
            }
        }
        w.truncate(LONGEST / 4);
    }
}
