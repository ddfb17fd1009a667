//! Every decision of a simulated run (schedule, fault, workload, value) is one draw from a
//! [`Source`]. The list of draws *is* the schedule: replaying it reproduces the run exactly, and
//! shrinking a failure means shrinking that list.

use crate::rng::Rng;

pub struct Source {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pos: usize,
    pub log: Vec<u64>,
    /// Every draw is also written here (shared memory), so that it survives the process.
    pub mirror: Option<Mirror>,
}

/// Word 0 counts the draws that follow it.
#[derive(Clone, Copy)]
pub struct Mirror {
    pub ptr: *mut u64,
    pub words: usize,
}

unsafe impl Send for Mirror {}
unsafe impl Sync for Mirror {}

impl Source {
    pub fn random(seed: u64) -> Self {
        Self { rng: Some(Rng::new(seed)), replay: Vec::new(), pos: 0, log: Vec::new(), mirror: None }
    }

    pub fn replay(choices: Vec<u64>) -> Self {
        Self { rng: None, replay: choices, pos: 0, log: Vec::new(), mirror: None }
    }

    /// Uniform draw from `0..n`. `0` is always the simplest alternative.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = if let Some(rng) = &mut self.rng {
            rng.below(n)
        } else {
            let v = self.replay.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
            v % n
        };
        self.log.push(v);
        if let Some(m) = self.mirror {
            let n = self.log.len();
            if n < m.words {
                unsafe {
                    m.ptr.add(n).write_volatile(v);
                    m.ptr.write_volatile(n as u64);
                }
            }
        }
        v
    }

    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }

    /// True with probability `num/den`; the simplest outcome is `false`.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num.min(den)
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.idx(items.len())]
    }

    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|w| u64::from(*w)).sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            let w = u64::from(*w);
            if v < w {
                return i;
            }
            v -= w;
        }
        weights.len() - 1
    }

    pub fn u64(&mut self) -> u64 {
        (self.below(1 << 32) << 32) | self.below(1 << 32)
    }

    /// Small numbers mostly, occasionally up to `max`.
    pub fn skewed(&mut self, max: u64) -> u64 {
        match self.weighted(&[6, 3, 1]) {
            0 => self.below(max.min(4) + 1),
            1 => self.below(max.min(16) + 1),
            _ => self.below(max + 1),
        }
    }

    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            // draw 0 keeps the element in place, so that the simplest schedule is the identity
            let j = i - self.idx(i + 1);
            items.swap(i, j);
        }
    }
}
