use crate::checks::{all, Check};
use crate::ctx::{Ctx, Fail, Res};
use crate::tape::{mix, Stream};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

const MAIN_CAP: usize = 200_000;
const SCHED_CAP: usize = 120_000;
const WORKERS: u64 = 8;
/// A run takes milliseconds; no word from a worker for this long is a hang.
const HANG: Duration = Duration::from_secs(90);

fn find(id: &str) -> Check {
    match all().into_iter().find(|k| k.id == id) {
        Some(k) => k,
        None => {
            eprintln!("no check {id}");
            std::process::exit(2)
        }
    }
}

fn seeds(id: &str, base: u64, i: u64) -> (u64, u64) {
    let mut h = mix(base);
    for b in id.bytes() {
        h = mix(h ^ b as u64);
    }
    let a = mix(h ^ i);
    (a, mix(a ^ 0x5c4e_d01e))
}

/// One run, with everything it may have left behind put back.
fn run_one(k: &Check, main: Stream, sched: Stream, verbose: bool, thorough: bool) -> (Res, Ctx) {
    crate::disk::set_base(0);
    crate::disk::set_op_limit(20_000_000);
    let mut c = Ctx::new(main, sched, verbose, thorough);
    crate::alloc::MAX_SINGLE.store(1 << 30, Ordering::Relaxed);
    let _ = crate::sess::LAST_PANIC.lock().map(|mut g| g.take());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (k.run)(&mut c)));
    rayon_core::cov::set_interval(0);
    crate::alloc::MAX_SINGLE.store(1 << 30, Ordering::Relaxed);
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(crate::sess::take_panic()),
    };
    (r, c)
}

fn one_line(s: &str) -> String {
    s.replace(['\n', '\r', '\t'], " ")
}

fn trace_hash(c: &Ctx, r: &Res) -> u64 {
    let mut h = mix(c.stats.hash ^ mix(c.stats.sched_hash));
    for v in c.main.rec.iter() {
        h = mix(h ^ v);
    }
    for (k, v) in &c.stats.counts {
        for b in k.bytes() {
            h = mix(h ^ b as u64);
        }
        h = mix(h ^ v);
    }
    if let Err(f) = r {
        for b in f.msg.bytes() {
            h = mix(h ^ b as u64);
        }
    }
    h
}

pub fn worker(id: &str, thorough: bool, base: u64, from: u64, stride: u64, count: u64, secs: u64) -> i32 {
    crate::sess::install_panic_hook();
    let k = find(id);
    let t0 = Instant::now();
    let mut totals: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = from;
    let out = std::io::stdout();
    let say = |s: String| {
        let mut o = out.lock();
        let _ = o.write_all(s.as_bytes());
        let _ = o.write_all(b"\n");
        let _ = o.flush();
    };
    let mut samples = 0;
    while i < count && t0.elapsed() < Duration::from_secs(secs) {
        say(format!("B {i}"));
        let (a, b) = seeds(id, base, i);
        let verbose = samples < 1 && i >= stride;
        let (r, c) = run_one(&k, Stream::random(a, MAIN_CAP), Stream::random(b, SCHED_CAP), verbose, thorough);
        say(format!("R {i} {:016x} {:016x} {} {:016x}", c.stats.hash ^ mix(c.stats.sched_hash), c.stats.sched_hash, c.stats.nontrivial as u8, trace_hash(&c, &r)));
        if verbose && c.stats.nontrivial {
            samples += 1;
            let t: Vec<String> = c.trace.iter().take(14).map(|s| s.chars().take(300).collect()).collect();
            say(format!("X {}", one_line(&format!("run {i} (seed {a:#x}): {}", t.join("; ")))));
        }
        for (k, v) in &c.stats.counts {
            *totals.entry(k.clone()).or_default() += v;
        }
        if let Err(f) = r {
            say(format!("F {i}\t{}\t{}", one_line(&f.class), one_line(&f.msg)));
            break;
        }
        i += stride;
    }
    for (k, v) in &totals {
        say(format!("C {v} {k}"));
    }
    let (seen, known) = rayon_core::cov::edges();
    say(format!("E {seen} {known} {}", rayon_core::cov::seen_bits().iter().map(|b| format!("{b:02x}")).collect::<String>()));
    say("D".into());
    0
}

pub fn determinism(id: &str, n: u64) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let go = || -> Vec<String> {
        let o = Command::new(&exe).args(["worker", id, "quick", "1", "0", "1", &n.to_string(), "100000"]).output().unwrap();
        String::from_utf8_lossy(&o.stdout).lines().filter(|l| l.starts_with("R ") || l.starts_with("F ") || l.starts_with("C ")).map(|s| s.to_string()).collect()
    };
    let (a, b) = (go(), go());
    let same = a == b;
    println!("{id}: {} lines, {}", a.len(), if same { "identical" } else { "DIFFERENT" });
    if !same {
        for (x, y) in a.iter().zip(&b) {
            if x != y {
                println!("  {x}\n  {y}");
                break;
            }
        }
        return 1;
    }
    0
}

/// Runs a seed while writing its tapes to `path`.main and `path`.sched, as the run may not survive.
/// `before` are the runs to do first in the same process (only when a failure needs them).
pub fn record(id: &str, thorough: bool, base: u64, idx: u64, path: &str, before: &[u64]) -> i32 {
    crate::sess::install_panic_hook();
    let k = find(id);
    prelude(&k, thorough, base, before);
    let (a, b) = seeds(id, base, idx);
    let f = |x: &str| std::fs::File::create(format!("{path}.{x}")).unwrap();
    let tell = std::env::var("LAZSIM_TRACE").is_ok();
    let (r, c) = run_one(&k, Stream::random(a, MAIN_CAP).with_sink(f("main")), Stream::random(b, SCHED_CAP).with_sink(f("sched")), tell, thorough);
    for l in &c.trace {
        println!("  {l}");
    }
    report(&r)
}

/// State that outlives a run is a defect of the library; these runs bring it about.
fn prelude(k: &Check, thorough: bool, base: u64, before: &[u64]) {
    for i in before {
        let (a, b) = seeds(k.id, base, *i);
        let _ = run_one(k, Stream::random(a, MAIN_CAP), Stream::random(b, SCHED_CAP), false, thorough);
    }
}

fn report(r: &Res) -> i32 {
    match r {
        Ok(()) => {
            println!("OK");
            0
        }
        Err(f) => {
            println!("FAIL\t{}\t{}", one_line(&f.class), one_line(&f.msg));
            1
        }
    }
}

// ---------------------------------------------------------------------------------------------
// replay files

#[derive(Clone)]
struct Tapes {
    main: Vec<u64>,
    sched: Vec<u64>,
    /// runs of `base` to do first in the same process
    before: Vec<u64>,
    base: u64,
}

impl Tapes {
    fn trim(&mut self) {
        while self.main.last() == Some(&0) {
            self.main.pop();
        }
        while self.sched.last() == Some(&0) {
            self.sched.pop();
        }
    }
    fn weight(&self) -> (usize, u128) {
        let s = |v: &Vec<u64>| v.iter().map(|x| *x as u128).sum::<u128>();
        (self.main.len() + self.sched.len(), s(&self.main) + s(&self.sched))
    }
}

fn nums(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_replay(path: &Path, id: &str, thorough: bool, t: &Tapes, base: u64, idx: u64, fail: Option<&Fail>, trace: &[String]) {
    let mut s = String::from("{\n");
    s.push_str(&format!(" \"property\": {},\n", esc(id)));
    s.push_str(&format!(" \"tier\": {},\n", esc(if thorough { "thorough" } else { "quick" })));
    s.push_str(&format!(" \"found_with\": \"seed {base} run {idx}\",\n"));
    if let Some(f) = fail {
        s.push_str(&format!(" \"class\": {},\n \"violation\": {},\n", esc(&f.class), esc(&f.msg)));
    }
    if !t.before.is_empty() {
        s.push_str(&format!(" \"base_seed\": [{base}],\n \"runs_before_in_the_same_process\": [{}],\n", nums(&t.before)));
    }
    s.push_str(&format!(" \"main\": [{}],\n \"schedule\": [{}],\n", nums(&t.main), nums(&t.sched)));
    s.push_str(&format!(" \"trace\": [{}]\n}}\n", trace.iter().map(|x| format!("\n  {}", esc(x))).collect::<Vec<_>>().join(",")));
    let _ = std::fs::create_dir_all(path.parent().unwrap());
    std::fs::write(path, s).unwrap();
}

/// Reads back the parts of a replay file that decide a run.
fn read_replay(path: &str) -> Option<(String, bool, Tapes, String)> {
    let s = std::fs::read_to_string(path).ok()?;
    let field = |name: &str| -> Option<String> {
        let k = format!("\"{name}\": ");
        let i = s.find(&k)? + k.len();
        let rest = &s[i..];
        if let Some(r) = rest.strip_prefix('"') {
            let mut o = String::new();
            let mut it = r.chars();
            while let Some(c) = it.next() {
                match c {
                    '"' => break,
                    '\\' => o.push(it.next()?),
                    c => o.push(c),
                }
            }
            Some(o)
        } else {
            let e = rest.find(']')?;
            Some(rest[1..e].to_string())
        }
    };
    let list = |v: String| -> Vec<u64> { v.split(',').filter_map(|x| x.trim().parse().ok()).collect() };
    Some((
        field("property")?,
        field("tier")? == "thorough",
        Tapes {
            main: list(field("main")?),
            sched: list(field("schedule")?),
            before: field("runs_before_in_the_same_process").map(list).unwrap_or_default(),
            base: field("base_seed").map(list).and_then(|v| v.first().copied()).unwrap_or(1),
        },
        field("class").unwrap_or_default(),
    ))
}

pub fn exec(path: &str, tell: bool) -> i32 {
    crate::sess::install_panic_hook();
    let Some((id, thorough, t, class)) = read_replay(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let k = find(&id);
    prelude(&k, thorough, t.base, &t.before);
    let (r, c) = run_one(&k, Stream::replay(t.main, MAIN_CAP), Stream::replay(t.sched, SCHED_CAP), tell, thorough);
    if !tell {
        if std::env::var("LAZSIM_TRACE").is_ok() {
            println!("H {:016x}", trace_hash(&c, &r));
        }
        return report(&r);
    }
    for l in &c.trace {
        println!("  {l}");
    }
    match r {
        Ok(()) => {
            println!("no violation");
            0
        }
        Err(f) => {
            println!("{}: {}", f.class, f.msg);
            if f.class != class && !class.is_empty() {
                println!("(recorded as: {class})");
            }
            println!("VIOLATION property={id} replay={path}");
            1
        }
    }
}

// ---------------------------------------------------------------------------------------------
// the parent

struct Found {
    idx: u64,
    what: String,
}

struct Proc {
    child: Child,
    rx: std::sync::mpsc::Receiver<Option<String>>,
    last: Instant,
    current: u64,
    over: bool,
    done: bool,
}

fn start(id: &str, tier: &str, base: u64, from: u64, stride: u64, count: u64, secs: u64) -> Proc {
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["worker", id, tier, &base.to_string(), &from.to_string(), &stride.to_string(), &count.to_string(), &secs.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("worker");
    let out = child.stdout.take().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            let Ok(l) = l else { break };
            if tx.send(Some(l)).is_err() {
                return;
            }
        }
        let _ = tx.send(None);
    });
    Proc { child, rx, last: Instant::now(), current: from, over: false, done: false }
}

/// What a subprocess run of a tape comes to: None = no violation.
fn outcome(args: &[&str], limit: Duration) -> Option<Fail> {
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("exec");
    let mut out = ch.stdout.take().unwrap();
    let mut err = ch.stderr.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = out.read_to_string(&mut s);
        s
    });
    let he = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = err.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if t0.elapsed() > limit => {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            _ => std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 100 { 1 } else { 10 })),
        }
    };
    let (s, e) = (h.join().unwrap_or_default(), he.join().unwrap_or_default());
    let Some(st) = st else {
        return Some(Fail { class: "hang".into(), msg: format!("no end within {} s", limit.as_secs()) });
    };
    if let Some(l) = s.lines().find(|l| l.starts_with("FAIL\t")) {
        let mut p = l.splitn(3, '\t').skip(1);
        return Some(Fail { class: p.next().unwrap_or("").into(), msg: p.next().unwrap_or("").into() });
    }
    if st.code() == Some(0) {
        return None;
    }
    let tail: String = e.lines().rev().take(3).collect::<Vec<_>>().join(" | ");
    Some(match st.code() {
        Some(77) => Fail { class: "deadlock".into(), msg: format!("all simulated threads are blocked: {tail}") },
        c => {
            use std::os::unix::process::ExitStatusExt;
            let sig = st.signal();
            Fail { class: "process death".into(), msg: format!("the process died (code {c:?}, signal {sig:?}): {tail}") }
        }
    })
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

/// Known findings of a property: (class, fragment of the message) pairs.
fn known(id: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let (p, rest) = l.split_once(' ')?;
            if p != format!("property={id}") {
                return None;
            }
            let (class, frag) = rest.split_once(" :: ")?;
            Some((class.trim().to_string(), frag.trim().to_string()))
        })
        .collect()
}

pub fn check(id: &str, thorough: bool) -> i32 {
    let k = find(id);
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if thorough { "thorough" } else { "quick" };
    let count = std::env::var("LAZSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { k.thorough } else { k.quick });
    let secs: u64 = std::env::var("LAZSIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 50 });
    let t0 = Instant::now();
    let mut ps: Vec<Proc> = (0..WORKERS).map(|w| start(id, tier, base, w, WORKERS, count, secs)).collect();
    let mut found: Vec<Found> = vec![];
    let mut runs = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut totals: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut bits: Vec<u8> = vec![];
    let mut edges_known = 0u64;
    let mut harness_error = None;
    loop {
        let mut busy = false;
        for p in ps.iter_mut() {
            while !p.over {
                match p.rx.try_recv() {
                    Ok(Some(l)) => {
                        p.last = Instant::now();
                        let (kind, rest) = (l.chars().next().unwrap_or(' '), l.get(2..).unwrap_or(""));
                        match kind {
                            'B' => p.current = rest.parse().unwrap_or(0),
                            'R' => {
                                runs += 1;
                                let v: Vec<&str> = rest.split(' ').collect();
                                if v.len() >= 4 {
                                    if v[3] == "1" {
                                        distinct.insert(u64::from_str_radix(v[1], 16).unwrap_or(0));
                                    }
                                    let s = u64::from_str_radix(v[2], 16).unwrap_or(0);
                                    if s != 0 {
                                        scheds.insert(s);
                                    }
                                }
                            }
                            'X' => {
                                if samples.len() < 4 {
                                    samples.push(rest.to_string())
                                }
                            }
                            'F' => {
                                let mut it = rest.splitn(3, '\t');
                                let idx = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                                let class = it.next().unwrap_or("").to_string();
                                let msg = it.next().unwrap_or("").to_string();
                                found.push(Found { idx, what: format!("{class}: {msg}") });
                            }
                            'C' => {
                                if let Some((n, k)) = rest.split_once(' ') {
                                    *totals.entry(k.to_string()).or_default() += n.parse::<u64>().unwrap_or(0);
                                }
                            }
                            'E' => {
                                let v: Vec<&str> = rest.split(' ').collect();
                                if v.len() == 3 {
                                    edges_known = v[1].parse().unwrap_or(0);
                                    let b: Vec<u8> = (0..v[2].len() / 2).map(|i| u8::from_str_radix(&v[2][2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
                                    if bits.len() < b.len() {
                                        bits.resize(b.len(), 0);
                                    }
                                    for (x, y) in bits.iter_mut().zip(b) {
                                        *x |= y;
                                    }
                                }
                            }
                            'D' => p.done = true,
                            _ => {}
                        }
                    }
                    Ok(None) => {
                        p.over = true;
                        let st = p.child.wait();
                        if !p.done {
                            found.push(Found { idx: p.current, what: format!("the worker process died: {st:?}") });
                        }
                    }
                    Err(std::sync::mpsc::TryRecvError::Empty) => {
                        if p.last.elapsed() > HANG {
                            let _ = p.child.kill();
                            let _ = p.child.wait();
                            p.over = true;
                            found.push(Found { idx: p.current, what: format!("no progress for {} s", HANG.as_secs()) });
                        } else {
                            busy = true;
                        }
                        break;
                    }
                    Err(_) => {
                        p.over = true;
                    }
                }
            }
        }
        if !found.is_empty() {
            // first come, first reported
            for p in ps.iter_mut() {
                if !p.over {
                    let _ = p.child.kill();
                    let _ = p.child.wait();
                    p.over = true;
                }
            }
            break;
        }
        if !busy {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let search_s = t0.elapsed().as_secs_f64();

    let mut violation: Option<(PathBuf, Fail)> = None;
    found.sort_by_key(|f| f.idx);
    if let Some(f) = found.first() {
        match settle_violation(id, thorough, tier, base, f) {
            Ok(v) => violation = Some(v),
            Err(e) => harness_error = Some(e),
        }
    }

    let wall = t0.elapsed().as_secs_f64();
    let seen: u32 = bits.iter().map(|b| b.count_ones()).sum();
    let mut ev = String::from("{\n");
    ev.push_str(&format!(" \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n", esc(id), esc(tier), base as i64 & i64::MAX));
    ev.push_str(" \"coverage\": {\n");
    ev.push_str(&format!("  \"evaluations\": {runs},\n  \"distinct_nontrivial\": {},\n", distinct.len()));
    ev.push_str(&format!("  \"rule\": {},\n", esc(&format!("one evaluation is one simulated run decided by one seed: {}; distinct by a hash of the drawn case, its I/O operations and its schedule", k.rule))));
    ev.push_str(&format!("  \"samples\": [{}],\n", samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")));
    ev.push_str(&format!("  \"runs_per_hour\": {},\n", (runs as f64 * 3600.0 / search_s.max(0.001)) as u64));
    ev.push_str(&format!("  \"seeds\": {},\n", esc(&format!("run i of 0..{count} is decided by hash({base}, {id}, i)"))));
    ev.push_str(&format!("  \"distinct_interleavings\": {},\n  \"interleaving_measure\": \"hash of the sequence of (scheduling point, chosen thread) of all sessions of a run\",\n", scheds.len()));
    ev.push_str(&format!("  \"edges_covered\": {seen}, \"edges_known\": {edges_known}, \"edge_measure\": \"control-flow edges of the library and its instances in the harness (SanitizerCoverage guards)\",\n"));
    let io: u64 = ["reads", "writes", "seeks"].iter().map(|k| totals.get(*k).copied().unwrap_or(0)).sum();
    ev.push_str(&format!("  \"simulated_time\": {},\n", esc(&format!("the library has no clock; logical time covered: {io} I/O operations and {} scheduling decisions", totals.get("scheduling decisions").copied().unwrap_or(0)))));
    let faults: Vec<String> = totals.iter().filter(|(k, _)| k.starts_with("fault: ")).map(|(k, v)| format!("{}: {v}", esc(&k[7..]))).collect();
    ev.push_str(&format!("  \"faults_injected\": {{{}}},\n", faults.join(", ")));
    let other: Vec<String> = totals.iter().filter(|(k, _)| !k.starts_with("fault: ")).map(|(k, v)| format!("{}: {v}", esc(k))).collect();
    ev.push_str(&format!("  \"counts\": {{{}}},\n", other.join(", ")));
    ev.push_str(&format!("  \"real_code\": \"all of /repo's library (release build, overflow checks off as shipped), rayon's iterators\",\n  \"stubs\": {}\n }},\n", esc(k.stubs)));
    ev.push_str(" \"assumptions\": [\"sampled, not exhaustive: holds for the seeds run\", \"preemption happens at allocations, stream operations, pool operations and (in some sessions) at control-flow edges, under sequential consistency\"],\n");
    ev.push_str(&format!(" \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n", violation.is_some() as u8));
    let evd = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    if let Err(e) = std::fs::write(evd.join(format!("{id}.json")), ev) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    println!("{id} {tier}: {runs} runs in {search_s:.1} s, {} distinct non-trivial, {} interleavings, {seen} edges", distinct.len(), scheds.len());
    for (c, m) in known(id) {
        println!("KNOWN-FINDING: property={id} {c}: {m}");
    }
    if let Some((p, f)) = violation {
        println!("{}: {}", f.class, f.msg);
        println!("VIOLATION property={id} replay={}", p.display());
        return 1;
    }
    if let Some(e) = harness_error {
        println!("harness error: {e}");
        return 2;
    }
    if runs == 0 {
        println!("harness error: no runs");
        return 2;
    }
    0
}

/// Reproduces a finding from its seed, minimises it and writes the replay file.
fn settle_violation(id: &str, thorough: bool, tier: &str, base: u64, f: &Found) -> Result<(PathBuf, Fail), String> {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let tmp = dir.join(format!("{id}-tmp-{}", std::process::id()));
    let tmps = tmp.to_string_lossy().to_string();
    let limit = Duration::from_secs(100);
    let record = |before: &[u64], limit: Duration| outcome(&["record", id, tier, &base.to_string(), &f.idx.to_string(), &tmps, &nums(before)], limit);
    let mut before: Vec<u64> = vec![];
    let mut first = record(&before, limit);
    if first.is_none() {
        // Something outlives a run: do again what the worker did before
        before = (f.idx % WORKERS..f.idx).step_by(WORKERS as usize).collect();
        first = record(&before, Duration::from_secs(200));
        let t0 = Instant::now();
        let mut size = before.len().div_ceil(2);
        while first.is_some() && before.len() > 1 && t0.elapsed() < Duration::from_secs(120) {
            let mut smaller = false;
            let mut i = 0;
            while i < before.len() && t0.elapsed() < Duration::from_secs(120) {
                let mut c = before.clone();
                c.drain(i..(i + size).min(c.len()));
                let r = record(&c, limit);
                if r.as_ref().map(|r| &r.class) == first.as_ref().map(|r| &r.class) {
                    before = c;
                    smaller = true;
                } else {
                    i += size;
                }
            }
            if size == 1 && !smaller {
                break;
            }
            size = (size / 2).max(1);
        }
        if first.is_some() {
            first = record(&before, limit);
        }
    }
    let get = |x: &str| -> Vec<u64> {
        let p = format!("{tmps}.{x}");
        let b = std::fs::read(&p).unwrap_or_default();
        let _ = std::fs::remove_file(&p);
        b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
    };
    let mut t = Tapes { main: get("main"), sched: get("sched"), before, base };
    let Some(first) = first else {
        return Err(format!("run {} of seed {base} failed in a worker ({}) but not when repeated", f.idx, f.what));
    };
    t.trim();
    let probe = tmp.with_extension("json");
    let probes = probe.to_string_lossy().to_string();
    let mut tries = 0;
    let t0 = Instant::now();
    let slow = first.class == "hang";
    let budget = if slow { Duration::from_secs(5) } else { Duration::from_secs(40) };
    let run = |t: &Tapes| -> Option<Fail> {
        write_replay(&probe, id, thorough, t, base, f.idx, None, &[]);
        outcome(&["exec", &probes], if slow { limit } else { Duration::from_secs(20) })
    };
    let mut best = t.clone();
    let mut fail;
    match run(&best) {
        Some(x) if x.class == first.class => fail = x,
        other => {
            let _ = std::fs::remove_file(&probe);
            return Err(format!("replaying the recorded tapes of run {} gave {:?} instead of {:?}", f.idx, other.map(|f| f.class), first));
        }
    }
    if !slow {
        minimise(&mut best, |cand| {
            if tries >= 500 || t0.elapsed() > budget {
                return None;
            }
            tries += 1;
            match run(cand) {
                Some(x) if x.class == first.class => {
                    fail = x;
                    Some(true)
                }
                _ => Some(false),
            }
        });
    }
    let _ = std::fs::remove_file(&probe);
    let path = dir.join(format!("{id}-seed{base}-run{}.json", f.idx));
    // the minimised run, told step by step (a run that kills its process tells nothing)
    write_replay(&path, id, thorough, &best, base, f.idx, Some(&fail), &[]);
    let told = Command::new(std::env::current_exe().unwrap())
        .args(["replay", &path.to_string_lossy()])
        .stderr(Stdio::null())
        .stdin(Stdio::null())
        .output()
        .map(|o| String::from_utf8_lossy(&o.stdout).to_string())
        .unwrap_or_default();
    let trace: Vec<String> = told.lines().filter_map(|l| l.strip_prefix("  ")).take(300).map(|s| s.to_string()).collect();
    write_replay(&path, id, thorough, &best, base, f.idx, Some(&fail), &trace);
    if !best.before.is_empty() {
        println!("needs {} earlier runs in the same process: state outlives a session", best.before.len());
    }
    println!("minimised in {tries} runs from {:?} to {:?} (length, weight)", t.weight(), best.weight());
    Ok((path, fail))
}

/// `ok` says whether a candidate still fails the same way, or None when time is up.
fn minimise(best: &mut Tapes, mut ok: impl FnMut(&Tapes) -> Option<bool>) {
    let mut attempt = |best: &mut Tapes, mut c: Tapes| -> Option<bool> {
        c.trim();
        if c.weight() >= best.weight() {
            return Some(false);
        }
        let r = ok(&c)?;
        if r {
            *best = c;
        }
        Some(r)
    };
    macro_rules! t {
        ($c:expr) => {
            match attempt(best, $c) {
                Some(r) => r,
                None => return,
            }
        };
    }
    // no preemption at all, then ever less of the schedule
    let c = Tapes { sched: vec![], ..best.clone() };
    if !t!(c) {
        let mut keep = best.sched.len() / 2;
        while keep < best.sched.len() {
            let c = Tapes { sched: best.sched[..keep].to_vec(), ..best.clone() };
            if !t!(c) {
                keep += ((best.sched.len() - keep) / 2).max(1);
                if best.sched.len() - keep < best.sched.len() / 16 + 1 {
                    break;
                }
            } else {
                keep = best.sched.len() / 2;
            }
        }
    }
    for which in [1, 0, 1, 0] {
        let len = if which == 0 { best.main.len() } else { best.sched.len() };
        // zero, then delete, blocks of shrinking size
        let mut size = (len / 2).max(1);
        loop {
            let mut i = 0;
            loop {
                let v = if which == 0 { &best.main } else { &best.sched };
                if i >= v.len() {
                    break;
                }
                let e = (i + size).min(v.len());
                if v[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut (if which == 0 { &mut c.main } else { &mut c.sched })[i..e] {
                        *x = 0;
                    }
                    t!(c);
                }
                if which == 0 {
                    let v = &best.main;
                    if i < v.len() {
                        let e = (i + size).min(v.len());
                        let mut c = best.clone();
                        c.main.drain(i..e);
                        if t!(c) {
                            continue;
                        }
                    }
                }
                i += size;
            }
            if size == 1 || (which == 1 && size < best.sched.len() / 64 + 1) {
                break;
            }
            size = (size / 2).max(1);
        }
    }
    // lower the remaining values
    let mut i = 0;
    while i < best.main.len() {
        let mut v = best.main[i];
        for _ in 0..8 {
            if v == 0 {
                break;
            }
            let mut c = best.clone();
            c.main[i] = v / 2;
            if i < best.main.len() && t!(c) {
                v /= 2;
            } else {
                break;
            }
            if i >= best.main.len() {
                break;
            }
        }
        if i < best.main.len() && best.main[i] > 0 {
            let mut c = best.clone();
            c.main[i] -= 1;
            t!(c);
        }
        i += 1;
    }
}
