//! Choice source: every decision of a run (inputs, schedule, faults) is one draw. A run is
//! its list of draws; replaying the list replays the run, and shrinking edits the list.
use crate::runner::Shared;
use std::sync::atomic::Ordering::SeqCst;

pub struct Src {
    rng: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    shared: &'static Shared,
}

pub fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Src {
    pub fn new(seed: u64, replay: Option<Vec<u64>>, shared: &'static Shared) -> Src {
        Src { rng: seed, replay, pos: 0, shared }
    }
    /// A number in [0, n); 0 is always the simplest choice.
    pub fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0) % n,
            None => {
                self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
                ((mix(self.rng) as u128 * n as u128) >> 64) as u64
            }
        };
        if self.pos < self.shared.choices.len() {
            self.shared.choices[self.pos].store(v, SeqCst);
            self.shared.n_choices.store(self.pos as u64 + 1, SeqCst);
        }
        self.pos += 1;
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.draw((hi - lo + 1) as u64) as i64
    }
    /// true with probability num/den; false is the simple choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// index by weight
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let mut x = self.draw(w.iter().sum());
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        0
    }
    /// signed integer in [-m, m], 0 simplest
    pub fn signed(&mut self, m: i64) -> i64 {
        let v = self.draw(2 * m as u64 + 1) as i64;
        if v % 2 == 0 {
            v / 2
        } else {
            -(v + 1) / 2
        }
    }
    /// multiple of 1/den in [-m, m]
    pub fn dyadic(&mut self, m: i64, den: i64) -> f64 {
        self.signed(m * den) as f64 / den as f64
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.below(i + 1);
            v.swap(i, j);
        }
    }
}
