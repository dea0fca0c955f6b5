//! The simulated medium: a byte vector behind `Read + Write + Seek` handles, with seeded
//! fragmentation, planned faults, a capacity, crashes, and guards that are checked at every write.

use crate::tape::Rng;
use rayon_core::sim;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

/// Where the medium's first byte lies in the stream. Positions the library sees and stores count
/// from 0; the harness works with positions on the medium. What lies before the base reads as zeros
/// and must not be written.
static BASE: AtomicU64 = AtomicU64::new(0);

pub fn base() -> u64 {
    BASE.load(Ordering::Relaxed)
}
pub fn set_base(b: u64) {
    BASE.store(b, Ordering::Relaxed);
}

/// The operations after which a run counts as endless.
static OP_LIMIT: AtomicU64 = AtomicU64::new(20_000_000);
pub fn set_op_limit(n: u64) {
    OP_LIMIT.store(n, Ordering::Relaxed);
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpKind {
    Read,
    Write,
    Seek,
    Flush,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FaultKind {
    /// The operation fails with this error.
    Err(ErrorKind),
    /// Reads and writes transfer nothing (end of file, or a writer that accepts nothing).
    Zero,
    /// Half of the transfer happens, then the next operation fails.
    ShortThenErr(ErrorKind),
}

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    /// Index of the operation (of those that `on` admits) it strikes.
    pub at: u64,
    pub kind: FaultKind,
    /// How many operations fail from then on.
    pub times: u64,
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub seed: u64,
    /// 0: full transfers; k: each transfer moves 1..=k bytes
    pub max_chunk: u64,
    /// of 256: probability that a transfer is short at all
    pub short_rate: u64,
    /// of 256: probability of an interruption
    pub intr_rate: u64,
}

impl Profile {
    pub fn calm() -> Self {
        Profile { seed: 0, max_chunk: 0, short_rate: 0, intr_rate: 0 }
    }
}

pub struct Inner {
    pub data: Vec<u8>,
    pub ops: u64,
    pub op_limit: u64,
    prof: Profile,
    rng: Rng,
    intr_run: u32,
    pub faults: Vec<Fault>,
    pub fired: u64,
    pending_err: Option<ErrorKind>,
    pub capacity: Option<u64>,
    pub seekable: bool,
    /// not seekable, but tells its position
    pub tells: bool,
    /// The process dies at this operation; a write gets this many of its bytes out first.
    pub crash_at: Option<(u64, u64)>,
    pub crashed: bool,
    /// These bytes (position, contents) must not change.
    pub guards: Vec<(u64, Vec<u8>)>,
    pub guard_hit: Option<String>,
    pub n_read: u64,
    pub n_write: u64,
    pub n_seek: u64,
    pub n_short: u64,
    pub n_intr: u64,
    pub n_enospc: u64,
    pub yield_ops: bool,
    pub log: Option<Vec<String>>,
}

#[derive(Clone)]
pub struct Disk(pub Arc<Mutex<Inner>>);

impl Disk {
    pub fn new(data: Vec<u8>) -> Self {
        Disk(Arc::new(Mutex::new(Inner {
            data,
            ops: 0,
            op_limit: OP_LIMIT.load(Ordering::Relaxed),
            prof: Profile::calm(),
            rng: Rng::new(0),
            intr_run: 0,
            faults: vec![],
            fired: 0,
            pending_err: None,
            capacity: None,
            seekable: true,
            tells: false,
            crash_at: None,
            crashed: false,
            guards: vec![],
            guard_hit: None,
            n_read: 0,
            n_write: 0,
            n_seek: 0,
            n_short: 0,
            n_intr: 0,
            n_enospc: 0,
            yield_ops: false,
            log: None,
        })))
    }
    pub fn profile(self, p: Profile) -> Self {
        {
            let mut i = self.lock();
            i.rng = Rng::new(p.seed);
            i.prof = p;
        }
        self
    }
    pub fn with(self, f: impl FnOnce(&mut Inner)) -> Self {
        f(&mut self.lock());
        self
    }
    pub fn lock(&self) -> std::sync::MutexGuard<'_, Inner> {
        match self.0.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        }
    }
    pub fn open(&self, pos: u64) -> SimFile {
        SimFile { disk: self.clone(), pos: pos + base() }
    }
    pub fn data(&self) -> Vec<u8> {
        self.lock().data.clone()
    }
    pub fn ops(&self) -> u64 {
        self.lock().ops
    }
}

pub struct SimFile {
    pub disk: Disk,
    pub pos: u64,
}

impl Inner {
    fn say(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            if l.len() < 400 {
                l.push(f());
            }
        }
    }
    /// Accounts for the operation and decides whether it fails. Ok(Some(0)) = transfers nothing.
    fn enter(&mut self, k: OpKind, want: usize) -> Result<Option<usize>> {
        let at = self.ops;
        self.ops += 1;
        if self.ops > self.op_limit {
            panic!("SIM-STEP-BOUND: more than {} I/O operations", self.op_limit);
        }
        match k {
            OpKind::Read => self.n_read += 1,
            OpKind::Write => self.n_write += 1,
            OpKind::Seek => self.n_seek += 1,
            OpKind::Flush => {}
        }
        if self.crashed {
            return Err(Error::new(ErrorKind::Other, "sim: process is dead"));
        }
        if let Some((c, _)) = self.crash_at {
            if at >= c && k != OpKind::Write {
                self.crashed = true;
                self.say(|| format!("op {at}: crash at {k:?}"));
                return Err(Error::new(ErrorKind::Other, "sim: crash"));
            }
        }
        if let Some(e) = self.pending_err.take() {
            self.fired += 1;
            self.say(|| format!("op {at}: {k:?} fails after a short transfer: {e:?}"));
            return Err(Error::new(e, "sim: injected"));
        }
        for i in 0..self.faults.len() {
            let f = self.faults[i];
            if at >= f.at && at - f.at < f.times {
                self.fired += 1;
                self.say(|| format!("op {at}: {k:?} of {want} bytes hit by {:?}", f.kind));
                match f.kind {
                    FaultKind::Err(e) => return Err(Error::new(e, "sim: injected")),
                    FaultKind::Zero => {
                        return match k {
                            OpKind::Read | OpKind::Write => Ok(Some(0)),
                            _ => Err(Error::new(ErrorKind::Other, "sim: injected")),
                        }
                    }
                    FaultKind::ShortThenErr(e) => match k {
                        OpKind::Read | OpKind::Write if want > 1 => {
                            self.pending_err = Some(e);
                            return Ok(Some(want / 2));
                        }
                        _ => return Err(Error::new(e, "sim: injected")),
                    },
                }
            }
        }
        if matches!(k, OpKind::Read | OpKind::Write) && want > 0 {
            if self.prof.intr_rate > 0 && self.intr_run < 3 && self.rng.below(256) < self.prof.intr_rate {
                self.intr_run += 1;
                self.n_intr += 1;
                self.say(|| format!("op {at}: {k:?} interrupted"));
                return Err(Error::new(ErrorKind::Interrupted, "sim: interrupted"));
            }
            self.intr_run = 0;
            if self.prof.max_chunk > 0 && self.rng.below(256) < self.prof.short_rate {
                let m = 1 + self.rng.below(self.prof.max_chunk) as usize;
                if m < want {
                    self.n_short += 1;
                    self.say(|| format!("op {at}: {k:?} of {want} bytes moves only {m}"));
                    return Ok(Some(m));
                }
            }
        }
        Ok(None)
    }

    fn put(&mut self, pos: u64, buf: &[u8]) {
        if buf.is_empty() {
            return;
        }
        for (at, g) in &self.guards {
            let (p, e) = (pos.max(*at), (pos + buf.len() as u64).min(*at + g.len() as u64));
            if p < e && self.guard_hit.is_none() {
                let (a, b) = ((p - *at) as usize, (e - *at) as usize);
                let (x, y) = ((p - pos) as usize, (e - pos) as usize);
                if g[a..b] != buf[x..y] {
                    self.guard_hit = Some(format!(
                        "write of {} bytes at {pos} changes protected bytes {}..{}",
                        buf.len(),
                        at,
                        at + g.len() as u64
                    ));
                }
            }
        }
        let end = pos as usize + buf.len();
        if self.data.len() < end {
            self.data.resize(end, 0);
        }
        self.data[pos as usize..end].copy_from_slice(buf);
    }
}

impl SimFile {
    fn maybe_yield(&self) {
        let y = self.disk.lock().yield_ops;
        if y {
            sim::yield_point();
        }
    }
}

impl Read for SimFile {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.maybe_yield();
        let _np = sim::NoPreempt::new();
        let mut i = self.disk.lock();
        let lim = i.enter(OpKind::Read, buf.len())?;
        if self.pos < base() {
            let n = (buf.len() as u64).min(base() - self.pos).min(lim.unwrap_or(usize::MAX) as u64) as usize;
            buf[..n].fill(0);
            self.pos += n as u64;
            return Ok(n);
        }
        let p = (self.pos - base()).min(i.data.len() as u64) as usize;
        let mut n = buf.len().min(i.data.len() - p);
        if let Some(l) = lim {
            n = n.min(l);
        }
        buf[..n].copy_from_slice(&i.data[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Write for SimFile {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.maybe_yield();
        let _np = sim::NoPreempt::new();
        let mut i = self.disk.lock();
        let at = i.ops;
        let lim = i.enter(OpKind::Write, buf.len())?;
        if self.pos < base() || self.pos - base() > 1 << 30 {
            if i.guard_hit.is_none() {
                i.guard_hit = Some(format!("write of {} bytes at {}, far from where the data begins (the medium starts at {})", buf.len(), self.pos, base()));
            }
            return Err(Error::new(ErrorKind::Other, "sim: written far outside"));
        }
        let pos = self.pos - base();
        if let Some((c, torn)) = i.crash_at {
            if at >= c {
                let n = (torn as usize).min(buf.len());
                i.put(pos, &buf[..n]);
                i.crashed = true;
                i.say(|| format!("op {at}: crash, {n} of {} bytes written", buf.len()));
                return Err(Error::new(ErrorKind::Other, "sim: crash"));
            }
        }
        let mut n = buf.len();
        if let Some(l) = lim {
            n = n.min(l);
        }
        if let Some(c) = i.capacity {
            let room = c.saturating_sub(pos) as usize;
            if room == 0 && n > 0 {
                i.n_enospc += 1;
                i.fired += 1;
                i.say(|| format!("op {at}: disk full"));
                return Err(Error::new(ErrorKind::StorageFull, "sim: disk full"));
            }
            n = n.min(room);
        }
        i.put(pos, &buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        let _np = sim::NoPreempt::new();
        let mut i = self.disk.lock();
        i.enter(OpKind::Flush, 0)?;
        Ok(())
    }
}

impl Seek for SimFile {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.maybe_yield();
        let _np = sim::NoPreempt::new();
        let mut i = self.disk.lock();
        if !i.seekable {
            i.enter(OpKind::Seek, 0)?;
            if i.tells && matches!(to, SeekFrom::Current(0)) {
                return Ok(self.pos);
            }
            return Err(Error::new(ErrorKind::Unsupported, "sim: not seekable"));
        }
        i.enter(OpKind::Seek, 0)?;
        let p = match to {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => (i.data.len() as u64 + base()) as i128 + d as i128,
        };
        if p < 0 || p > u64::MAX as i128 / 2 {
            return Err(Error::new(ErrorKind::InvalidInput, "sim: invalid seek"));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

pub trait Src: Read + Seek + Send + Sync {}
impl<T: Read + Seek + Send + Sync> Src for T {}
pub trait Dst: Read + Write + Seek + Send + Sync {}
impl<T: Read + Write + Seek + Send + Sync> Dst for T {}
pub type BoxSrc = Box<dyn Src>;
