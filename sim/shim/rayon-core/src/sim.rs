//! The deterministic scheduler.
//!
//! Every simulated thread is an operating-system thread, but only the one that holds the token
//! runs. The token changes hands at scheduling points only (fork, join, wait, simulated I/O,
//! every n-th allocation, blocking futex waits), and who gets it is decided by the `choose`
//! function of the session, which the harness feeds from its seeded (or replayed) tape.

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

pub const NOT_SIM: usize = usize::MAX;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NOT_SIM) };
    /// > 0: no preemption (scheduler code, harness code)
    static NOPREEMPT: Cell<u32> = const { Cell::new(0) };
    static COUNTDOWN: Cell<u64> = const { Cell::new(0) };
}

/// 0 = allocations are not scheduling points
static ALLOC_FIRED: AtomicU64 = AtomicU64::new(0);
static ALLOC_INTERVAL: AtomicU64 = AtomicU64::new(0);
static NTHREADS: AtomicUsize = AtomicUsize::new(1);

type Choose = Box<dyn FnMut(u64) -> u64 + Send>;

#[derive(Clone, Copy)]
pub(crate) struct Job {
    pub(crate) data: *const (),
    pub(crate) exec: unsafe fn(*const ()),
}
unsafe impl Send for Job {}

#[derive(Clone, Copy)]
enum State {
    /// Can run whenever it gets the token.
    Runnable,
    /// Waits for the flag; may execute pending jobs meanwhile when `steal`.
    Waiting { flag: *const AtomicBool, steal: bool },
    Done,
}
unsafe impl Send for State {}

struct Thread {
    state: State,
    cv: Arc<Condvar>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub decisions: u64,
    pub switches: u64,
    pub steals: u64,
    pub inline_pops: u64,
    pub nested_steals: u64,
    pub jobs: u64,
    pub threads: u64,
    pub futex_waits: u64,
    pub hash: u64,
}

struct St {
    active: bool,
    shutdown: bool,
    threads: Vec<Thread>,
    current: usize,
    pending: Vec<Job>,
    choose: Option<Choose>,
    workers_started: bool,
    os: Vec<std::thread::JoinHandle<()>>,
    stats: Stats,
    shutdown_flag: &'static AtomicBool,
}

static SHUTDOWN: AtomicBool = AtomicBool::new(false);

static ST: Mutex<St> = Mutex::new(St {
    active: false,
    shutdown: false,
    threads: Vec::new(),
    current: 0,
    pending: Vec::new(),
    choose: None,
    workers_started: false,
    os: Vec::new(),
    stats: Stats {
        decisions: 0,
        switches: 0,
        steals: 0,
        inline_pops: 0,
        nested_steals: 0,
        jobs: 0,
        threads: 0,
        futex_waits: 0,
        hash: 0,
    },
    shutdown_flag: &SHUTDOWN,
});

fn st() -> MutexGuard<'static, St> {
    match ST.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    }
}

/// Suppresses preemption (by allocations and futex waits) while it lives.
pub struct NoPreempt(());
impl NoPreempt {
    #[inline]
    pub fn new() -> Self {
        NOPREEMPT.with(|c| c.set(c.get() + 1));
        NoPreempt(())
    }
}
impl Drop for NoPreempt {
    #[inline]
    fn drop(&mut self) {
        NOPREEMPT.with(|c| c.set(c.get() - 1));
    }
}

#[inline]
pub fn me() -> usize {
    ME.with(|m| m.get())
}

/// Inside a session, on a simulated thread that may be preempted right now.
#[inline]
pub fn preemptible() -> bool {
    let r = ME.try_with(|m| m.get());
    matches!(r, Ok(m) if m != NOT_SIM) && NOPREEMPT.with(|c| c.get()) == 0
}

#[inline]
pub fn in_session() -> bool {
    me() != NOT_SIM
}

pub fn num_threads() -> usize {
    if in_session() {
        NTHREADS.load(Ordering::Relaxed)
    } else {
        1
    }
}

impl St {
    fn runnable(&self, t: usize) -> bool {
        match self.threads[t].state {
            State::Runnable => true,
            State::Waiting { flag, steal } => {
                // The owner of the flag is blocked, so the pointer is alive.
                let set = unsafe { (*flag).load(Ordering::SeqCst) };
                set || (steal && !self.pending.is_empty())
            }
            State::Done => false,
        }
    }

    fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        self.stats.decisions += 1;
        let mut c = self.choose.take().expect("choose");
        let r = c(n) % n;
        self.choose = Some(c);
        r
    }

    fn note(&mut self, v: u64) {
        self.stats.hash = (self.stats.hash ^ v.wrapping_add(0x9E37_79B9_7F4A_7C15))
            .wrapping_mul(0x0000_0100_0000_01B3)
            .rotate_left(23);
    }

    /// Picks the next thread. `stay`: the current one comes first when it can run.
    fn pick(&mut self, cur: usize, exclude_cur: bool) -> Option<usize> {
        let n = self.threads.len();
        let mut cands: Vec<usize> = Vec::with_capacity(n);
        if !exclude_cur && self.runnable(cur) {
            cands.push(cur);
        }
        for i in 1..n {
            let t = (cur + i) % n;
            if t != cur && self.runnable(t) {
                cands.push(t);
            }
        }
        if cands.is_empty() {
            return None;
        }
        let i = self.draw(cands.len() as u64) as usize;
        Some(cands[i])
    }
}

fn deadlock() -> ! {
    eprintln!("SIM-DEADLOCK: no simulated thread can make progress");
    std::process::exit(77);
}

/// Hands the token to `t` and waits until this thread gets it again.
fn hand_over(mut g: MutexGuard<'static, St>, me: usize, t: usize) -> MutexGuard<'static, St> {
    if t == me {
        return g;
    }
    g.stats.switches += 1;
    g.note(t as u64);
    g.current = t;
    g.threads[t].cv.notify_one();
    let cv = g.threads[me].cv.clone();
    while g.current != me {
        g = match cv.wait(g) {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        };
    }
    g
}

/// A scheduling point: another runnable thread may go first.
pub fn yield_point() {
    let m = me();
    if m == NOT_SIM || NOPREEMPT.with(|c| c.get()) > 0 {
        return;
    }
    let _np = NoPreempt::new();
    let mut g = st();
    if !g.active {
        return;
    }
    if let Some(t) = g.pick(m, false) {
        drop(hand_over(g, m, t));
    }
}

/// Called by the global allocator of the harness.
#[inline]
pub fn alloc_hook() {
    let iv = ALLOC_INTERVAL.load(Ordering::Relaxed);
    if iv == 0 {
        return;
    }
    let r = ME.try_with(|m| m.get());
    if !matches!(r, Ok(m) if m != NOT_SIM) {
        return;
    }
    if NOPREEMPT.with(|c| c.get()) > 0 {
        return;
    }
    let fire = COUNTDOWN.with(|c| {
        let v = c.get();
        if v == 0 {
            // ever rarer, so that long computations stay affordable
            let k = ALLOC_FIRED.fetch_add(1, Ordering::Relaxed) / 2000;
            c.set(iv << k.min(20));
            true
        } else {
            c.set(v - 1);
            false
        }
    });
    if fire {
        yield_point();
    }
}

/// Called instead of a blocking futex wait. True: another thread ran, re-check the condition.
pub fn futex_wait_hook() -> bool {
    let r = ME.try_with(|m| m.get());
    let m = match r {
        Ok(m) if m != NOT_SIM => m,
        _ => return false,
    };
    if NOPREEMPT.with(|c| c.get()) > 0 {
        return false;
    }
    let _np = NoPreempt::new();
    let mut g = st();
    if !g.active {
        return false;
    }
    g.stats.futex_waits += 1;
    match g.pick(m, true) {
        Some(t) => {
            drop(hand_over(g, m, t));
            true
        }
        None => false,
    }
}

fn worker_main(tid: usize) {
    ME.with(|m| m.set(tid));
    {
        let _np = NoPreempt::new();
        // wait for the token
        let mut g = st();
        let cv = g.threads[tid].cv.clone();
        while g.current != tid {
            g = match cv.wait(g) {
                Ok(g) => g,
                Err(e) => e.into_inner(),
            };
        }
    }
    let flag: *const AtomicBool = &SHUTDOWN;
    wait_flag(flag, true);
    finish_thread(tid);
}

fn finish_thread(tid: usize) {
    let _np = NoPreempt::new();
    ME.with(|m| m.set(NOT_SIM));
    let mut g = st();
    g.threads[tid].state = State::Done;
    match g.pick(tid, true) {
        Some(t) => {
            g.stats.switches += 1;
            g.note(t as u64);
            g.current = t;
            g.threads[t].cv.notify_one();
        }
        None => {
            // thread 0 always exists; it must be waiting for something that cannot happen
            drop(g);
            deadlock();
        }
    }
}

fn start_workers(g: &mut St) {
    if g.workers_started {
        return;
    }
    g.workers_started = true;
    let n = NTHREADS.load(Ordering::Relaxed);
    for _ in 1..n {
        let tid = g.threads.len();
        g.threads.push(Thread {
            state: State::Waiting { flag: &SHUTDOWN, steal: true },
            cv: Arc::new(Condvar::new()),
        });
        g.stats.threads += 1;
        let h = std::thread::Builder::new()
            .name(format!("sim-worker-{tid}"))
            .stack_size(4 << 20)
            .spawn(move || worker_main(tid))
            .expect("spawn");
        g.os.push(h);
    }
}

/// Makes a job available to the other workers.
pub(crate) fn push_job(j: Job) {
    let _np = NoPreempt::new();
    let mut g = st();
    start_workers(&mut g);
    g.stats.jobs += 1;
    g.pending.push(j);
}

/// Takes the job back if nobody started it.
pub(crate) fn take_back(data: *const ()) -> bool {
    let _np = NoPreempt::new();
    let mut g = st();
    if let Some(i) = g.pending.iter().rposition(|j| j.data == data) {
        g.pending.remove(i);
        g.stats.inline_pops += 1;
        true
    } else {
        false
    }
}

/// Blocks until the flag is set, executing pending jobs of others meanwhile when `steal`.
pub(crate) fn wait_flag(flag: *const AtomicBool, steal: bool) {
    let m = me();
    loop {
        let job;
        {
            let _np = NoPreempt::new();
            if unsafe { (*flag).load(Ordering::SeqCst) } {
                return;
            }
            let mut g = st();
            g.threads[m].state = State::Waiting { flag, steal };
            let t = match g.pick(m, false) {
                Some(t) => t,
                None => {
                    drop(g);
                    deadlock();
                }
            };
            g = hand_over(g, m, t);
            g.threads[m].state = State::Runnable;
            if unsafe { (*flag).load(Ordering::SeqCst) } {
                return;
            }
            if steal && !g.pending.is_empty() {
                let n = g.pending.len() as u64;
                let i = g.draw(n) as usize;
                job = Some(g.pending.remove(i));
                if std::ptr::eq(flag, &SHUTDOWN) {
                    g.stats.steals += 1;
                } else {
                    g.stats.nested_steals += 1;
                }
                g.note(1000 + i as u64);
            } else {
                job = None;
            }
        }
        if let Some(j) = job {
            unsafe { (j.exec)(j.data) };
        }
    }
}

pub struct Config {
    pub nthreads: usize,
    pub alloc_interval: u64,
    pub choose: Choose,
}

/// Runs `f` as simulated thread 0 of a new session.
pub fn session<R>(cfg: Config, f: impl FnOnce() -> R) -> (std::thread::Result<R>, Stats) {
    assert!(!in_session(), "sessions do not nest");
    {
        let mut g = st();
        assert!(!g.active);
        g.active = true;
        g.shutdown = false;
        SHUTDOWN.store(false, Ordering::SeqCst);
        g.threads.clear();
        g.threads.push(Thread { state: State::Runnable, cv: Arc::new(Condvar::new()) });
        g.current = 0;
        g.pending.clear();
        g.choose = Some(cfg.choose);
        g.workers_started = false;
        g.stats = Stats::default();
        g.stats.threads = 1;
        let _ = g.shutdown_flag;
    }
    NTHREADS.store(cfg.nthreads.max(1), Ordering::SeqCst);
    ALLOC_FIRED.store(0, Ordering::SeqCst);
    ALLOC_INTERVAL.store(cfg.alloc_interval, Ordering::SeqCst);
    COUNTDOWN.with(|c| c.set(cfg.alloc_interval));
    ME.with(|m| m.set(0));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));

    // Run down: let the workers finish what was spawned and leave.
    let os;
    {
        let _np = NoPreempt::new();
        loop {
            // execute detached jobs that nobody took
            let j = {
                let mut g = st();
                if g.pending.is_empty() {
                    None
                } else {
                    Some(g.pending.remove(0))
                }
            };
            match j {
                Some(j) => unsafe { (j.exec)(j.data) },
                None => break,
            }
        }
        SHUTDOWN.store(true, Ordering::SeqCst);
        let mut g = st();
        g.shutdown = true;
        // give every other thread the token until it is done
        loop {
            let mut next = None;
            for t in 1..g.threads.len() {
                if !matches!(g.threads[t].state, State::Done) {
                    next = Some(t);
                    break;
                }
            }
            match next {
                Some(t) if g.runnable(t) => {
                    g = hand_over(g, 0, t);
                }
                Some(_) => {
                    drop(g);
                    deadlock();
                }
                None => break,
            }
        }
        os = std::mem::take(&mut g.os);
        g.active = false;
    }
    ALLOC_INTERVAL.store(0, Ordering::SeqCst);
    ME.with(|m| m.set(NOT_SIM));
    for h in os {
        let _ = h.join();
    }
    let mut g = st();
    g.choose = None;
    let stats = g.stats.clone();
    (r, stats)
}

/// A simulated client thread (not a pool worker).
pub struct Client {
    flag: Arc<AtomicBool>,
    panic: Arc<Mutex<Option<Box<dyn std::any::Any + Send>>>>,
}

/// Starts a client thread; it competes for the token from now on.
pub fn spawn_client(f: Box<dyn FnOnce() + Send>) -> Client {
    assert!(in_session());
    let _np = NoPreempt::new();
    let flag = Arc::new(AtomicBool::new(false));
    let panic = Arc::new(Mutex::new(None));
    let (fl, pa) = (flag.clone(), panic.clone());
    let mut g = st();
    let tid = g.threads.len();
    g.threads.push(Thread { state: State::Runnable, cv: Arc::new(Condvar::new()) });
    g.stats.threads += 1;
    let h = std::thread::Builder::new()
        .name(format!("sim-client-{tid}"))
        .stack_size(4 << 20)
        .spawn(move || {
            ME.with(|m| m.set(tid));
            {
                let _np = NoPreempt::new();
                let mut g = st();
                let cv = g.threads[tid].cv.clone();
                while g.current != tid {
                    g = match cv.wait(g) {
                        Ok(g) => g,
                        Err(e) => e.into_inner(),
                    };
                }
            }
            let iv = ALLOC_INTERVAL.load(Ordering::Relaxed);
            COUNTDOWN.with(|c| c.set(iv));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            if let Err(e) = r {
                let _np = NoPreempt::new();
                *pa.lock().unwrap() = Some(e);
            }
            fl.store(true, Ordering::SeqCst);
            drop((fl, pa));
            finish_thread(tid);
        })
        .expect("spawn");
    g.os.push(h);
    Client { flag, panic }
}

impl Client {
    /// Waits for the client; a panic of the client is returned.
    pub fn join(self) -> Result<(), Box<dyn std::any::Any + Send>> {
        wait_flag(Arc::as_ptr(&self.flag), false);
        let _np = NoPreempt::new();
        match self.panic.lock().unwrap().take() {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
}
