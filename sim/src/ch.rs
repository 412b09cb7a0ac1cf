//! The only source of choice in a simulated run. A run is a function of the tape: drawing reads
//! the tape while replaying, and extends it from a seeded generator while searching. Past the end
//! of a replayed tape every choice is 0, and 0 is always the simplest choice (no fault).

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

pub struct Ch {
    state: u64,
    pub tape: Vec<u64>,
    pos: usize,
    replay: bool,
}
impl Ch {
    pub fn seeded(seed: u64) -> Ch {
        Ch { state: seed, tape: Vec::new(), pos: 0, replay: false }
    }
    pub fn replay(tape: Vec<u64>) -> Ch {
        Ch { state: 0, tape, pos: 0, replay: true }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    pub fn raw(&mut self) -> u64 {
        let v = if self.replay {
            self.tape.get(self.pos).copied().unwrap_or(0)
        } else {
            self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
            let v = mix(self.state);
            self.tape.push(v);
            v
        };
        self.pos += 1;
        v
    }
    /// A choice among n; recorded in reduced form so that the minimiser sees small numbers.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = self.raw() % n;
        if !self.replay {
            *self.tape.last_mut().unwrap() = v;
        }
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.below(den);
        v + num >= den && num > 0
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.idx(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.raw().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        self.bytes(N).try_into().unwrap()
    }
}
