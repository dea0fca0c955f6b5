//! A plain model of the range coder: the interval as numbers, nothing is stored. It serves to pick values
//! that keep a carry undecided for as long as wanted, which drawn values practically never do.

use crate::tape::Rng;

const MIN_LEN: u64 = 1 << 24;

/// Frequencies of the symbols, as both sides adapt them.
#[derive(Clone)]
pub struct Model {
    counts: Vec<u32>,
    dist: Vec<u32>,
    total: u32,
    cycle: u32,
    left: u32,
}

impl Model {
    pub fn new(symbols: u32) -> Model {
        let mut m = Model { counts: vec![1; symbols as usize], dist: vec![0; symbols as usize], total: 0, cycle: symbols, left: 0 };
        m.update();
        m.cycle = (symbols + 6) >> 1;
        m.left = m.cycle;
        m
    }
    pub fn symbols(&self) -> u32 {
        self.counts.len() as u32
    }
    fn update(&mut self) {
        self.total += self.cycle;
        if self.total > 1 << 15 {
            self.total = 0;
            for c in &mut self.counts {
                *c = (*c + 1) >> 1;
                self.total += *c;
            }
        }
        let scale = 0x8000_0000u32 / self.total;
        let mut sum = 0;
        for (d, c) in self.dist.iter_mut().zip(&self.counts) {
            *d = (scale * sum) >> 16;
            sum += *c;
        }
        self.cycle = ((5 * self.cycle) >> 2).min((self.symbols() + 6) << 3);
        self.left = self.cycle;
    }
    fn used(&mut self, sym: u32) {
        self.counts[sym as usize] += 1;
        self.left -= 1;
        if self.left == 0 {
            self.update();
        }
    }
}

#[derive(Clone)]
pub struct BitModel {
    zeros: u32,
    total: u32,
    prob: u32,
    left: u32,
    cycle: u32,
}

impl BitModel {
    pub fn new() -> BitModel {
        BitModel { zeros: 1, total: 2, prob: 1 << 12, left: 4, cycle: 4 }
    }
    fn used(&mut self, bit: u32) {
        if bit == 0 {
            self.zeros += 1;
        }
        self.left -= 1;
        if self.left == 0 {
            self.total += self.cycle;
            if self.total > 1 << 13 {
                self.total = (self.total + 1) >> 1;
                self.zeros = (self.zeros + 1) >> 1;
                if self.zeros == self.total {
                    self.total += 1;
                }
            }
            self.prob = (self.zeros * (0x8000_0000 / self.total)) >> 18;
            self.cycle = ((5 * self.cycle) >> 2).min(64);
            self.left = self.cycle;
        }
    }
}

/// The interval, and the boundary that it is to keep enclosing.
pub struct Chase {
    low: u64,
    len: u64,
    target: Option<u64>,
    /// bytes passed on while it is not decided whether a carry will change them
    pub pending: u64,
    /// stop keeping it open after this many
    pub goal: u64,
    pub longest: u64,
    rng: Rng,
}

impl Chase {
    pub fn new(goal: u64, seed: u64) -> Chase {
        Chase { low: 0, len: 0xffff_ffff, target: None, pending: 0, goal, longest: 0, rng: Rng::new(seed) }
    }
    pub fn restart(&mut self) {
        self.low = 0;
        self.len = 0xffff_ffff;
        self.target = None;
        self.pending = 0;
    }
    fn aim(&mut self) {
        if self.target.is_none() && self.goal > 0 {
            let t = (self.low + self.len / 2) >> 24 << 24;
            if self.low < t && t < self.low + self.len {
                self.target = Some(t);
                self.pending = 0;
            }
        }
    }
    /// -1: all of the part lies below the target, 0: encloses it, 1: not below
    fn side(&self, t: u64, x: u64, len: u64) -> i32 {
        if self.low + x >= t {
            1
        } else if self.low + x + len > t {
            0
        } else {
            -1
        }
    }
    fn step(&mut self, x: u64, len: u64) {
        self.low += x;
        self.len = len;
        if let Some(t) = self.target {
            if self.side(t, 0, len) != 0 {
                self.target = None;
                self.longest = self.longest.max(self.pending);
            }
        }
        self.low &= 0xffff_ffff;
        while self.len < MIN_LEN {
            let b = self.low >> 24 << 24;
            self.low = (self.low - b) << 8;
            self.len <<= 8;
            if let Some(t) = &mut self.target {
                *t = (*t - b) << 8;
                self.pending += 1;
            }
        }
    }
    /// Picks among `n` parts of the interval, part(i) = (start, length).
    fn choose(&mut self, n: u64, part: impl Fn(u64) -> (u64, u64)) -> u64 {
        self.aim();
        let Some(t) = self.target else { return self.rng.below(n) };
        // the parts follow one another
        let (mut a, mut b) = (0, n - 1);
        while a < b {
            let m = (a + b + 1) / 2;
            if self.low + part(m).0 < t {
                a = m;
            } else {
                b = m - 1;
            }
        }
        let (x, l) = part(a);
        let over = self.pending >= self.goal;
        if over || self.side(t, x, l) != 0 {
            // decide it, mostly upwards
            if a + 1 < n && self.rng.below(4) > 0 {
                return a + 1 + self.rng.below(n - a - 1).min(self.rng.below(3));
            }
            return self.rng.below(n);
        }
        a
    }
    pub fn symbol(&mut self, m: &mut Model) -> u32 {
        let n = m.symbols() as u64;
        let len = self.len;
        let unit = len >> 15;
        let part = |i: u64| {
            let x = m.dist[i as usize] as u64 * unit;
            let end = if i + 1 == n { len } else { m.dist[i as usize + 1] as u64 * unit };
            (x, end - x)
        };
        let s = self.choose(n, part);
        let (x, l) = part(s);
        self.step(x, l);
        m.used(s as u32);
        s as u32
    }
    pub fn bit(&mut self, m: &mut BitModel) -> u32 {
        let x = m.prob as u64 * (self.len >> 13);
        let len = self.len;
        let part = |i: u64| if i == 0 { (0, x) } else { (x, len - x) };
        let s = self.choose(2, part);
        let (a, l) = part(s);
        self.step(a, l);
        m.used(s as u32);
        s as u32
    }
    pub fn raw(&mut self, bits: u32) -> u32 {
        if bits > 19 {
            let low = self.raw(16);
            return (self.raw(bits - 16) << 16) | low;
        }
        let unit = self.len >> bits;
        let s = self.choose(1 << bits, |i| (i * unit, unit));
        self.step(s * unit, unit);
        s as u32
    }
}

/// Points of which every layer (pointwise: the whole chunk) keeps a carry open for `goal` bytes.
/// The extra bytes are the only thing that varies.
pub fn carry_points(n: usize, size: usize, extra: usize, layered: bool, goal: u64, seed: u64) -> Vec<u8> {
    let mut pts = vec![0u8; n * size];
    let layers = if layered { extra } else { 1 };
    let per = extra / layers;
    for l in 0..layers {
        let mut ch = Chase::new(goal, seed.wrapping_add(l as u64));
        let mut m = vec![Model::new(256); per];
        let mut last = vec![0u8; per];
        for i in 1..n {
            for k in 0..per {
                last[k] = last[k].wrapping_add(ch.symbol(&mut m[k]) as u8);
                pts[(i + 1) * size - extra + l * per + k] = last[k];
            }
        }
    }
    pts
}
