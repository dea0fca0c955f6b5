//! Simulated sessions: the pool, the clients and who runs when.

use crate::ctx::{Ctx, Fail, Res};
use rayon_core::sim;
use std::sync::Mutex;

pub static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _np = sim::NoPreempt::new();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let mut g = match LAST_PANIC.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        };
        if g.is_none() {
            *g = Some((loc, msg));
        }
    }));
}

pub fn take_panic() -> Fail {
    let _np = sim::NoPreempt::new();
    let p = match LAST_PANIC.lock() {
        Ok(mut g) => g.take(),
        Err(e) => e.into_inner().take(),
    };
    match p {
        Some((loc, msg)) if msg.contains("SIM-STEP-BOUND") => {
            let _ = loc;
            Fail { class: "step-bound".into(), msg }
        }
        Some((loc, msg)) => {
            // the class names the place without the line: lines move
            let file = loc.rsplit_once(':').map(|x| x.0.to_string()).unwrap_or(loc.clone());
            Fail { class: format!("panic in {}", file.rsplit('/').next().unwrap_or("")), msg: format!("panicked at {loc}: {msg}") }
        }
        None => Fail { class: "panic".into(), msg: "panicked".into() },
    }
}

/// Runs `f` as the first simulated thread of a session with a drawn pool size and schedule.
pub fn session<R>(c: &mut Ctx, f: impl FnOnce(&mut Ctx) -> Res<R>) -> Res<R> {
    let nthreads = 1 + c.below(6) as usize;
    // of 256: how often the running thread keeps running at a scheduling point
    let stay = c.pick(&[256u64, 240, 200, 128, 64, 0]);
    let interval = c.pick(&[0u64, 3000, 400, 60, 12, 3]);
    let edges = c.pick(&[0u64, 0, 0, 20_000, 2_000, 150]);
    session_with(c, nthreads, stay, interval, edges, f)
}

pub fn session_with<R>(
    c: &mut Ctx,
    nthreads: usize,
    stay: u64,
    interval: u64,
    edges: u64,
    f: impl FnOnce(&mut Ctx) -> Res<R>,
) -> Res<R> {
    let sched = c.sched.clone();
    let choose = move |n: u64| -> u64 {
        let mut s = match sched.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        };
        let v = s.draw(256);
        // 0 is always "go on"
        if v == 0 || v < stay {
            0
        } else {
            1 + (v % (n - 1).max(1))
        }
        .min(n - 1)
    };
    rayon_core::cov::set_interval(edges);
    let cfg = sim::Config { nthreads, alloc_interval: interval, choose: Box::new(choose) };
    let (r, st) = sim::session(cfg, || f(c));
    rayon_core::cov::set_interval(0);
    c.stats.sched_hash = crate::tape::mix(c.stats.sched_hash ^ st.hash);
    c.count("sessions", 1);
    c.count("scheduling decisions", st.decisions);
    c.count("context switches", st.switches);
    c.count("jobs", st.jobs);
    c.count("jobs stolen", st.steals);
    c.count("jobs stolen while waiting", st.nested_steals);
    c.count("jobs run inline", st.inline_pops);
    c.count("simulated threads", st.threads);
    c.log(|| format!("session: {nthreads} threads, {} decisions, {} switches, {} steals", st.decisions, st.switches, st.steals + st.nested_steals));
    match r {
        Ok(x) => x,
        Err(_) => Err(take_panic()),
    }
}

/// Runs code of the library under test outside a session, turning panics into failures.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Res<R> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(take_panic()),
    }
}
