//! Every decision of a run is one draw from a tape. A fresh tape draws from the PRNG and records what it
//! drew; a replayed tape returns the recorded values, and 0 (always the simplest choice) once it has run out.

use crate::rng::Rng;

pub struct Tape {
    rng: Option<Rng>,
    pub data: Vec<u64>,
    pos: usize,
    /// where draws are copied as they happen (count first), for runs that kill their process
    pub mirror: Option<(*mut u64, usize)>,
}

impl Tape {
    pub fn fresh(seed: u64) -> Tape {
        Tape { rng: Some(Rng::new(seed)), data: Vec::new(), pos: 0, mirror: None }
    }

    pub fn replay(data: Vec<u64>) -> Tape {
        Tape { rng: None, data, pos: 0, mirror: None }
    }

    /// The part of the tape that was used.
    pub fn used(&self) -> Vec<u64> {
        self.data[..self.pos.min(self.data.len())].to_vec()
    }

    /// A value in 0..n; n may be u64::MAX for a seed.
    pub fn draw(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match self.rng.as_mut() {
            Some(rng) => {
                let v = if n <= u32::MAX as u64 { rng.below(n) } else { rng.next() % n };
                self.data.push(v);
                v
            }
            None => {
                let v = self.data.get(self.pos).copied().unwrap_or(0);
                v.min(n - 1)
            }
        };
        self.pos += 1;
        if let Some((p, cap)) = self.mirror {
            if self.pos + 1 < cap {
                // SAFETY: the mapping has room for cap values
                unsafe {
                    *p.add(self.pos) = v;
                    *p = self.pos as u64;
                }
            }
        }
        v
    }

    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.draw(hi_incl - lo + 1)
    }

    /// true with probability num/den; false is the simple case
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }

    pub fn pick<T: Copy>(&mut self, from: &[T]) -> T {
        from[self.draw(from.len() as u64) as usize]
    }

    /// Index drawn with the given weights; index 0 is the simple case.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.draw(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }

    pub fn seed(&mut self) -> u64 {
        self.draw(u64::MAX)
    }
}
