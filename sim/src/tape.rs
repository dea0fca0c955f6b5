//! Every choice of a run comes from a tape: drawn from a seeded generator while searching, read
//! from a file while replaying. Past its end a tape yields 0, and 0 is the calmest choice at every
//! draw (no fault, no preemption, fewest points), so truncating or zeroing a tape simplifies the run.

use std::io::Write;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[derive(Clone, Debug)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}

#[derive(Clone, Debug)]
enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
}

#[derive(Clone, Debug)]
pub struct Stream {
    mode: Mode,
    pub rec: Vec<u64>,
    cap: usize,
    /// every draw is also written here at once, for runs that may not survive
    sink: Option<std::sync::Arc<std::fs::File>>,
}

impl Stream {
    pub fn random(seed: u64, cap: usize) -> Self {
        Stream { mode: Mode::Random(Rng::new(seed)), rec: Vec::new(), cap, sink: None }
    }
    pub fn replay(v: Vec<u64>, cap: usize) -> Self {
        Stream { mode: Mode::Replay(v), rec: Vec::new(), cap, sink: None }
    }
    pub fn with_sink(mut self, f: std::fs::File) -> Self {
        self.sink = Some(std::sync::Arc::new(f));
        self
    }
    /// A value in 0..n
    pub fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        if self.rec.len() >= self.cap {
            return 0;
        }
        let v = match &mut self.mode {
            Mode::Random(r) => r.below(n),
            Mode::Replay(v) => v.get(self.rec.len()).copied().unwrap_or(0) % n,
        };
        self.rec.push(v);
        if let Some(f) = &self.sink {
            let _ = (&**f).write_all(&v.to_le_bytes());
        }
        v
    }
}
