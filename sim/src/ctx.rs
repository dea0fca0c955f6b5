use crate::tape::{mix, Stream};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

/// What a run found.
#[derive(Clone, Debug)]
pub struct Fail {
    /// Short stable label of the kind of violation; minimisation keeps it.
    pub class: String,
    pub msg: String,
}

impl Fail {
    pub fn new(class: &str, msg: impl Into<String>) -> Fail {
        Fail { class: class.to_string(), msg: msg.into() }
    }
}

pub type Res<T = ()> = Result<T, Fail>;

pub fn fail<T>(class: &str, msg: impl Into<String>) -> Res<T> {
    Err(Fail { class: class.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! bail {
    ($class:expr, $($a:tt)*) => { return $crate::ctx::fail($class, format!($($a)*)) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => { if !$c { return $crate::ctx::fail($class, format!($($a)*)) } };
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub hash: u64,
    pub sched_hash: u64,
}

pub struct Ctx {
    pub main: Stream,
    pub sched: Arc<Mutex<Stream>>,
    pub stats: Stats,
    pub trace: Vec<String>,
    pub verbose: bool,
    pub thorough: bool,
    /// a file of some 65 000 points was drawn
    pub huge: bool,
}

impl Ctx {
    pub fn new(main: Stream, sched: Stream, verbose: bool, thorough: bool) -> Self {
        Ctx {
            main,
            sched: Arc::new(Mutex::new(sched)),
            stats: Stats::default(),
            trace: vec![],
            verbose,
            thorough,
            huge: false,
        }
    }
    /// 0..n, 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        self.main.draw(n)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.main.draw(n as u64) as usize
    }
    /// a..=b, a is the simplest.
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.main.draw(b - a + 1)
    }
    /// true with probability num/den; false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.main.draw(den) >= den - num
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.main.draw(xs.len() as u64) as usize]
    }
    /// A seed for bulk data; 0 is the simplest.
    pub fn seed(&mut self) -> u64 {
        self.main.draw(1 << 32)
    }
    /// A size in 0..=max, small ones more often.
    pub fn size(&mut self, max: usize) -> usize {
        let m = max as u64;
        let r = match self.below(4) {
            0 => self.below(m.min(8) + 1),
            1 => self.below(m.min(60) + 1),
            2 => self.below(m.min(400) + 1),
            _ => self.below(m + 1),
        };
        r as usize
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if n == 0 {
            return;
        }
        match self.stats.counts.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.stats.counts.insert(k.to_string(), n);
            }
        }
    }
    pub fn note(&mut self, v: u64) {
        self.stats.hash = mix(self.stats.hash ^ v);
    }
    pub fn nontrivial(&mut self) {
        self.stats.nontrivial = true;
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.trace.push(s);
        }
    }
}
