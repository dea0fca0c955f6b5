use super::reading::{drawn_prefix, history, open_reader};
use crate::ctx::{fail, Ctx, Fail, Res};
use crate::disk::*;
use crate::files::*;
use crate::gen::*;
use crate::sess::{guarded, session, session_with, take_panic};
use crate::tape::Rng;
use crate::{bail, ensure};
use rayon_core::sim;
use std::collections::VecDeque;
use std::io::{ErrorKind, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------------------------------------
// P21

macro_rules! golden {
    ($($n:literal),*) => {
        const GOLDEN: &[(&str, &[u8], &[u8])] = &[$((
            $n,
            include_bytes!(concat!("../../data/", $n, ".las")),
            include_bytes!(concat!("../../data/", $n, ".laz")),
        )),*];
    };
}
golden!("extra-bytes", "point-color", "point-time-color", "point-time", "point-version-1-point-wise", "point10");

struct LasInfo {
    fmt: u8,
    size: usize,
    n: usize,
    off: usize,
    vlr: Vec<u8>,
}

fn las_info(d: &[u8]) -> LasInfo {
    let u16at = |p: usize| u16::from_le_bytes(d[p..p + 2].try_into().unwrap());
    let u32at = |p: usize| u32::from_le_bytes(d[p..p + 4].try_into().unwrap());
    let hs = u16at(94) as usize;
    let off = u32at(96) as usize;
    let mut p = hs;
    let mut vlr = vec![];
    for _ in 0..u32at(100) {
        let len = u16at(p + 20) as usize;
        if u16at(p + 18) == 22204 {
            vlr = d[p + 54..p + 54 + len].to_vec();
        }
        p += 54 + len;
    }
    LasInfo { fmt: d[104] & 0x3f, size: u16at(105) as usize, n: u32at(107) as usize, off, vlr }
}

fn golden(c: &mut Ctx) -> Res {
    let (name, las, laz_file) = GOLDEN[c.usize(GOLDEN.len())];
    let a = las_info(las);
    let b = las_info(laz_file);
    assert_eq!(a.n, b.n);
    let pts = las[a.off..a.off + a.n * a.size].to_vec();
    let vlr = laz::LazVlr::read_from(&b.vlr[..]).or_else(|e| fail("vlr", format!("{name}: {e}")))?;
    ensure!(vlr.items_size() as usize == a.size, "vlr", "{name}: items of {} bytes instead of {}", vlr.items_size(), a.size);
    c.log(|| format!("sample {name}: format {}, {} points", a.fmt, a.n));
    c.count("sample files read", 1);
    let chunked = u16::from_le_bytes([b.vlr[0], b.vlr[1]]) != 1;
    let rd = if chunked { c.pick(&[Rd::Seq, Rd::Par]) } else { Rd::Seq };
    let prof = draw_profile(c);
    let d = Disk::new(laz_file.to_vec()).profile(prof);
    let fmt = Fmt { id: a.fmt, ver: 2, extra: 0, mix: 0 };
    // only counts and slices of this are used
    let spec = Spec { fmt, layout: Layout::Fixed(vlr.chunk_size()), n: a.n, pts, ps: a.size };
    let steps = if chunked { c.usize(5) } else { 0 };
    let body = |c: &mut Ctx| -> Res {
        let src = open_src(c, &d, b.off as u64);
        let mut r = match Reader::open(rd, src, vlr.clone()) {
            Ok(r) => r,
            Err(e) => bail!("open-error", "{name}: {e}"),
        };
        if steps == 0 {
            read_through(c, &mut r, &spec, None)
        } else {
            history(c, &mut r, &spec, None, steps).map(|_| ())
        }
    };
    match rd {
        Rd::Seq => guarded(|| body(c))??,
        Rd::Par => session(c, body)?,
    }
    absorb(c, &d);
    if chunked {
        // compress its points again, the frozen decoder must agree
        let out = Disk::new(vec![]);
        let res = guarded(|| laz::compress_buffer(&mut out.open(0), &spec.pts, vlr.clone()))?;
        if let Err(e) = res {
            bail!("write-error", "{name}: {e}");
        }
        let rv = laz_ref::LazVlr::read_from(&b.vlr[..]).unwrap();
        let mut back = vec![0u8; spec.pts.len()];
        if let Err(e) = guarded(|| laz_ref::decompress_buffer(&out.data(), &mut back, rv))? {
            bail!("exchange", "{name}: frozen decoder: {e}");
        }
        same_points(&back, &spec.pts, spec.ps, 0, "frozen decoder on a recompressed sample")?;
    }
    c.nontrivial();
    Ok(())
}

pub fn p21(c: &mut Ctx) -> Res {
    if c.chance(1, 12) {
        return golden(c);
    }
    let spec = draw_spec(c, &Want { max: 700, lay: Lay::All, huge: true, ..Default::default() });
    let prefix = drawn_prefix(c);
    let start = prefix.len();
    if c.chance(1, 2) && !spec.layout.single() {
        // current encoder, frozen decoder (chunk by chunk and front to back)
        let via = match spec.layout {
            Layout::Variable(_) => Via::Seq,
            _ => c.pick(&[Via::Seq, Via::SeqBuf]),
        };
        let plan = draw_plan(c, &spec, via);
        let data = guarded(|| write_plain(c, &spec, &plan, &prefix))??;
        verify_file(&data, start as u64, &spec)?;
        if !spec.counts().contains(&0) || !spec.layout.variable() {
            let mut cur = std::io::Cursor::new(&data[..]);
            cur.set_position(start as u64);
            let mut back = vec![0u8; spec.pts.len()];
            let r = guarded(|| -> Result<(), String> {
                let mut r = laz_ref::LasZipDecompressor::new(cur, spec.ref_vlr()).map_err(|e| e.to_string())?;
                r.decompress_many(&mut back).map_err(|e| e.to_string())
            })?;
            if let Err(e) = r {
                bail!("exchange", "frozen decoder: {e} ({})", spec.describe());
            }
            same_points(&back, &spec.pts, spec.ps, 0, "frozen decoder")?;
        }
    } else {
        // frozen encoder, current decoders
        let data = write_ref(&spec, &prefix);
        let prof = draw_profile(c);
        let d = Disk::new(data).profile(prof);
        guarded(|| -> Res {
            let mut r = open_reader(c, Rd::Seq, &d, start as u64, &spec, None)?;
            read_through(c, &mut r, &spec, None)
        })??;
        absorb(c, &d);
    }
    if spec.n >= 2 {
        c.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// P22

trait Actor: Send {
    /// One call into the library; true when finished.
    fn step(&mut self) -> Res<bool>;
    fn name(&self) -> String;
}

enum Wk {
    Seq(laz::LasZipCompressor<'static, BoxW>),
    Par(laz::ParLasZipCompressor<BoxW>),
}

struct Writer {
    id: usize,
    w: Option<Wk>,
    plan: Plan,
    spec: Arc<Spec>,
    next: usize,
    disk: Disk,
    start: usize,
    want: Vec<u8>,
}

impl Actor for Writer {
    fn name(&self) -> String {
        format!("writer {} ({:?})", self.id, self.plan.via)
    }
    fn step(&mut self) -> Res<bool> {
        fn er(e: impl std::fmt::Display) -> Fail {
            Fail::new("write-error", e.to_string())
        }
        let Some(w) = self.w.as_mut() else {
            let dst: BoxW = Box::new(self.disk.open(self.start as u64));
            self.w = Some(match self.plan.via {
                Via::Par => Wk::Par(laz::ParLasZipCompressor::new(dst, self.spec.vlr()).map_err(er)?),
                _ => Wk::Seq(laz::LasZipCompressor::new(dst, self.spec.vlr()).map_err(er)?),
            });
            return Ok(false);
        };
        let s = &self.spec;
        if self.next == self.plan.segs.len() {
            match w {
                Wk::Seq(w) => w.done().map_err(er)?,
                Wk::Par(w) => w.done().map_err(er)?,
            }
            let got = self.disk.data();
            ensure!(
                got == self.want,
                "influence",
                "{}: {} bytes differ from the {} written alone ({})",
                self.name(),
                got.len(),
                self.want.len(),
                self.spec.describe()
            );
            return Ok(true);
        }
        let g = &self.plan.segs[self.next];
        self.next += 1;
        let r = match w {
            Wk::Seq(w) => match g {
                Seg::Reserve => w.reserve_offset_to_chunk_table(),
                Seg::One(i) => w.compress_one(s.point(*i)),
                Seg::Many(a, b) => w.compress_many(s.slice(*a, *b)),
                Seg::Finish => w.finish_current_chunk(),
                Seg::Chunks(v) => w.compress_chunks(v.iter().map(|(a, b)| s.slice(*a, *b))),
            },
            Wk::Par(w) => match g {
                Seg::Reserve => w.reserve_offset_to_chunk_table(),
                Seg::One(i) => w.compress_many(s.point(*i)),
                Seg::Many(a, b) => w.compress_many(s.slice(*a, *b)),
                Seg::Finish => Ok(()),
                Seg::Chunks(v) => {
                    let v: Vec<&[u8]> = v.iter().map(|(a, b)| s.slice(*a, *b)).collect();
                    w.compress_chunks(v)
                }
            },
        };
        r.map_err(er)?;
        Ok(false)
    }
}

struct ReaderA {
    id: usize,
    rd: Rd,
    r: Option<Reader>,
    disk: Disk,
    start: usize,
    spec: Arc<Spec>,
    calls: Vec<(Option<usize>, usize)>,
    next: usize,
    pos: usize,
}

impl Actor for ReaderA {
    fn name(&self) -> String {
        format!("reader {} ({:?})", self.id, self.rd)
    }
    fn step(&mut self) -> Res<bool> {
        let Some(r) = self.r.as_mut() else {
            let src: BoxSrc = Box::new(self.disk.open(self.start as u64));
            self.r = Some(Reader::open(self.rd, src, self.spec.vlr()).or_else(|e| fail("open-error", e))?);
            return Ok(self.calls.is_empty());
        };
        let (s, k) = self.calls[self.next];
        self.next += 1;
        if let Some(i) = s {
            r.seek(i as u64).or_else(|e| fail("seek-error", e))?;
            self.pos = i;
        } else {
            expect_read(r, &self.spec, self.pos, k, false, None).map_err(|mut f| {
                f.msg = format!("reader {} ({:?}): {} ({})", self.id, self.rd, f.msg, self.spec.describe());
                f
            })?;
            self.pos += k;
        }
        Ok(self.next == self.calls.len())
    }
}

/// A neighbour that may fail at any time and is given up then.
struct Unlucky(Box<dyn Actor>);

impl Actor for Unlucky {
    fn name(&self) -> String {
        format!("unlucky {}", self.0.name())
    }
    fn step(&mut self) -> Res<bool> {
        match crate::sess::guarded(|| self.0.step()) {
            Ok(Ok(done)) => Ok(done),
            _ => Ok(true),
        }
    }
}

/// Everything in one call.
struct Job(String, Option<Box<dyn FnOnce() -> Res + Send>>);

impl Actor for Job {
    fn name(&self) -> String {
        self.0.clone()
    }
    fn step(&mut self) -> Res<bool> {
        if let Some(f) = self.1.take() {
            f()?;
        }
        Ok(true)
    }
}

fn draw_job(c: &mut Ctx, id: usize, spec: Arc<Spec>) -> Res<Job> {
    let at = drawn_prefix(c);
    let start = at.len() as u64;
    let data = write_ref(&spec, &at);
    match c.below(4) {
        0 => {
            let ap = c.pick(&[super::append::Ap::Seq, super::append::Ap::Par]);
            let r = super::append::draw_round(c, ap, &spec, 120);
            let new = draw_points(c, &spec.fmt.clone(), r.add);
            let alone = Disk::new(data.clone());
            let ok = session_with(c, 1, 256, 0, 0, |_| Ok(super::append::exec_round(&r, spec.vlr(), Box::new(alone.open(start)), &new, spec.ps).is_ok()))?;
            Ok(Job(
                format!("appender {id} ({ap:?})"),
                Some(Box::new(move || {
                    let d = Disk::new(data);
                    let got = super::append::exec_round(&r, spec.vlr(), Box::new(d.open(start)), &new, spec.ps).is_ok();
                    ensure!(got == ok && d.data() == alone.data(), "influence", "appender {id} left something else than alone ({})", spec.describe());
                    Ok(())
                })),
            ))
        }
        1 if !spec.layout.variable() => Ok(Job(
            format!("one-shot writer {id}"),
            Some(Box::new(move || {
                let mut d = std::io::Cursor::new(at.clone());
                d.set_position(start);
                let r = if id % 2 == 0 {
                    laz::compress_buffer(&mut d, &spec.pts, spec.vlr())
                } else {
                    laz::par_compress_buffer(&mut d, &spec.pts, &spec.vlr())
                };
                if let Err(e) = r {
                    bail!("write-error", "one-shot writer {id}: {e}");
                }
                verify_file(&d.into_inner(), start, &spec).map(|_| ())
            })),
        )),
        _ => Ok(Job(
            format!("one-shot reader {id}"),
            Some(Box::new(move || {
                let mut out = vec![0xa5u8; spec.pts.len()];
                let data = write_ref(&spec, &[]);
                let r = if id % 2 == 0 {
                    laz::decompress_buffer(&data, &mut out, spec.vlr())
                } else {
                    laz::par_decompress_buffer(&data, &mut out, &spec.vlr())
                };
                if let Err(e) = r {
                    bail!("read-error", "one-shot reader {id}: {e}");
                }
                same_points(&out, &spec.pts, spec.ps, 0, &format!("one-shot reader {id}"))
            })),
        )),
    }
}

struct Shared {
    queue: Mutex<VecDeque<Box<dyn Actor>>>,
    fail: Mutex<Option<Fail>>,
    handovers: std::sync::atomic::AtomicU64,
    last: Mutex<Vec<(String, usize)>>,
}

fn client(sh: &Shared, who: usize, seed: u64) {
    let mut r = Rng::new(seed);
    loop {
        let a = sh.queue.lock().unwrap().pop_front();
        let Some(mut a) = a else { return };
        {
            let mut l = sh.last.lock().unwrap();
            let n = a.name();
            match l.iter_mut().find(|x| x.0 == n) {
                Some(x) => {
                    if x.1 != who {
                        sh.handovers.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    }
                    x.1 = who;
                }
                None => l.push((n, who)),
            }
        }
        let mut done = false;
        for _ in 0..1 + r.below(3) {
            match a.step() {
                Ok(x) => done = x,
                Err(f) => {
                    let mut g = sh.fail.lock().unwrap();
                    if g.is_none() {
                        *g = Some(f);
                    }
                    return;
                }
            }
            sim::yield_point();
            if done {
                break;
            }
        }
        if !done {
            sh.queue.lock().unwrap().push_back(a);
        }
        sim::yield_point();
    }
}

pub fn p22(c: &mut Ctx) -> Res {
    let k = 2 + c.usize(4);
    let mut actors: Vec<(Box<dyn Actor>, Option<Disk>)> = vec![];
    let mut disks = vec![];
    let alike = c.chance(1, 2);
    let mut first: Option<Fmt> = None;
    for id in 0..k {
        // what the same items with other sizes bring about must not be mixed up either
        let fmt = match first {
            Some(f) if alike => Some(Fmt { extra: c.pick(&[0, 1, 2, 5, f.extra]).max((f.mix != 0) as u16), ..f }),
            _ => None,
        };
        let spec = Arc::new(draw_spec(c, &Want { max: 250, min: 1, fmt, ..Default::default() }));
        first = first.or(Some(spec.fmt));
        if c.chance(1, 4) {
            actors.push((Box::new(draw_job(c, id, spec)?), None));
            continue;
        }
        let prefix = drawn_prefix(c);
        let prof = draw_profile(c);
        let y = c.chance(1, 2);
        if c.chance(1, 2) {
            let via = c.pick(&[Via::Seq, Via::Seq, Via::Par]);
            let plan = Plan { by_trait: false, ..draw_plan(c, &spec, via) };
            let alone = Disk::new(prefix.clone());
            let r = session_with(c, 1, 256, 0, 0, |_| Ok(exec_plan(&plan, &spec, Box::new(alone.open(prefix.len() as u64))).is_ok()))?;
            ensure!(r, "write-error", "writing alone failed ({})", spec.describe());
            verify_file(&alone.data(), prefix.len() as u64, &spec)?;
            let disk = Disk::new(prefix.clone()).profile(prof).with(|i| i.yield_ops = y);
            disks.push(disk.clone());
            let d = Some(disk.clone());
            actors.push((Box::new(Writer { id, w: None, plan, spec, next: 0, disk, start: prefix.len(), want: alone.data() }), d));
        } else {
            let data = write_ref(&spec, &prefix);
            let rd = c.pick(&[Rd::Seq, Rd::Seq, Rd::Par]);
            let cs = typical_cs(&spec);
            let mut calls = vec![];
            let mut p = 0;
            for _ in 0..3 + c.usize(8) {
                if p >= spec.n || c.chance(1, 4) {
                    let i = super::reading::draw_index(c, &spec);
                    calls.push((Some(i), 0));
                    p = i;
                }
                let n = draw_k(c, spec.n - p, cs);
                calls.push((None, n));
                p += n;
            }
            let disk = Disk::new(data).profile(prof).with(|i| i.yield_ops = y);
            disks.push(disk.clone());
            let d = Some(disk.clone());
            actors.push((Box::new(ReaderA { id, rd, r: None, disk, start: prefix.len(), spec, calls, next: 0, pos: 0 }), d));
        }
    }
    let mut rest = vec![];
    let mut unlucky = 0;
    for (a, d) in actors.into_iter() {
        let Some(d) = d else {
            rest.push(a);
            continue;
        };
        if c.chance(1, 4) {
            d.lock().faults = vec![Fault { at: c.size(60) as u64, kind: c.pick(&[FaultKind::Err(std::io::ErrorKind::Other), FaultKind::Zero]), times: c.pick(&[1, u64::MAX]) }];
            unlucky += 1;
            rest.push(Box::new(Unlucky(a)) as Box<dyn Actor>);
        } else {
            rest.push(a);
        }
    }
    let actors = rest;
    c.count("neighbours that fail", unlucky);
    let clients = 2 + c.usize(3);
    let seed = c.seed();
    c.log(|| format!("{} on {clients} threads", actors.iter().map(|a| a.name()).collect::<Vec<_>>().join(", ")));
    let sh = Arc::new(Shared {
        queue: Mutex::new(actors.into_iter().collect()),
        fail: Mutex::new(None),
        handovers: Default::default(),
        last: Default::default(),
    });
    let switches = c.stats.counts.get("context switches").copied().unwrap_or(0);
    session(c, |_| {
        let mut hs = vec![];
        for i in 1..clients {
            let sh = sh.clone();
            hs.push(sim::spawn_client(Box::new(move || client(&sh, i, seed ^ i as u64))));
        }
        client(&sh, 0, seed);
        for h in hs {
            if h.join().is_err() {
                return Err(take_panic());
            }
        }
        let f = sh.fail.lock().unwrap().take();
        match f {
            Some(f) => Err(f),
            None => Ok(()),
        }
    })?;
    for d in &disks {
        absorb(c, d);
    }
    let ho = sh.handovers.load(std::sync::atomic::Ordering::Relaxed);
    c.count("hand-overs between threads", ho);
    let sw = c.stats.counts.get("context switches").copied().unwrap_or(0) - switches;
    if ho > 0 || sw > 0 {
        c.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// P23

fn through(c: &mut Ctx, vlr: &laz::LazVlr) -> Res<Vec<u8>> {
    let p = draw_profile(c);
    let d = Disk::new(vec![]).profile(p);
    let mut w = open_dst(c, &d, 0);
    if let Err(e) = vlr.write_to(&mut w).and_then(|_| w.flush()) {
        bail!("vlr", "writing failed: {e}");
    }
    drop(w);
    absorb(c, &d);
    Ok(d.data())
}

fn from(c: &mut Ctx, b: &[u8], tail: usize) -> Res<laz::LazVlr> {
    let p = draw_profile(c);
    let mut b = b.to_vec();
    let n = b.len();
    b.extend(std::iter::repeat(0xEEu8).take(tail));
    let d = Disk::new(b).profile(p);
    let r = match c.below(3) {
        0 => laz::LazVlr::from_buffer(&d.data()),
        1 => laz::LazVlr::read_from(d.open(0)),
        _ => {
            let mut f = d.open(0);
            let v = laz::LazVlr::read_from(&mut f);
            ensure!(f.pos == n as u64 || v.is_err(), "vlr", "reading a record of {n} bytes took {}", f.pos);
            v
        }
    };
    absorb(c, &d);
    match r {
        Ok(v) => Ok(v),
        Err(e) => bail!("vlr", "reading a stored record failed: {e}"),
    }
}

fn typed_items(id: u8, ver: u16, extra: u16) -> Option<Vec<laz::LazItem>> {
    use laz::las::*;
    use laz::LazItemRecordBuilder as B;
    Some(match (id, ver) {
        (0, 1) => B::version_1_of::<Point0>(extra),
        (1, 1) => B::version_1_of::<Point1>(extra),
        (2, 1) => B::version_1_of::<Point2>(extra),
        (3, 1) => B::version_1_of::<Point3>(extra),
        (4, 1) => B::version_1_of::<Point4>(extra),
        (5, 1) => B::version_1_of::<Point5>(extra),
        (0, 2) => B::version_2_of::<Point0>(extra),
        (1, 2) => B::version_2_of::<Point1>(extra),
        (2, 2) => B::version_2_of::<Point2>(extra),
        (3, 2) => B::version_2_of::<Point3>(extra),
        (4, 2) => B::version_2_of::<Point4>(extra),
        (5, 2) => B::version_2_of::<Point5>(extra),
        (6, 3) => B::version_3_of::<Point6>(extra),
        (7, 3) => B::version_3_of::<Point7>(extra),
        (8, 3) => B::version_3_of::<Point8>(extra),
        (9, 3) => B::version_3_of::<Point9>(extra),
        (10, 3) => B::version_3_of::<Point10>(extra),
        (6, 4) => B::version_4_of::<Point6>(extra),
        (7, 4) => B::version_4_of::<Point7>(extra),
        (8, 4) => B::version_4_of::<Point8>(extra),
        (9, 4) => B::version_4_of::<Point9>(extra),
        (10, 4) => B::version_4_of::<Point10>(extra),
        _ => return None,
    })
}

pub fn p23(c: &mut Ctx) -> Res {
    match c.below(3) {
        // any record: stored and read back unchanged, cut off: an error
        0 => {
            let seed = c.seed();
            let mut r = Rng::new(seed);
            let mut b = vec![];
            b.extend_from_slice(&(r.below(4) as u16).to_le_bytes());
            b.extend_from_slice(&(r.next() as u16).to_le_bytes());
            b.extend_from_slice(&(r.next() as u32).to_le_bytes());
            b.extend_from_slice(&(r.next() as u32).to_le_bytes());
            b.extend_from_slice(&((r.next() >> r.below(32)) as u32).max(1).to_le_bytes());
            b.extend_from_slice(&r.next().to_le_bytes());
            b.extend_from_slice(&r.next().to_le_bytes());
            let k = c.usize(8);
            b.extend_from_slice(&(k as u16).to_le_bytes());
            for _ in 0..k {
                let (t, s) = [(0u16, 1 + r.below(3000) as u16), (6, 20), (7, 8), (8, 6), (9, 29), (10, 30), (11, 6), (12, 8), (13, 29), (14, 1 + r.below(3000) as u16)][r.below(10) as usize];
                b.extend_from_slice(&t.to_le_bytes());
                b.extend_from_slice(&s.to_le_bytes());
                b.extend_from_slice(&(r.next() as u16).to_le_bytes());
            }
            c.note(seed);
            c.log(|| format!("record {b:02x?}"));
            let tail = c.usize(20);
            let v = from(c, &b, tail)?;
            ensure!(v.items().len() == k, "vlr", "{} items instead of {k}", v.items().len());
            let back = through(c, &v)?;
            ensure!(back == b, "vlr", "stored record changed: {back:02x?} from {b:02x?}");
            let v2 = from(c, &back, 0)?;
            ensure!(v == v2, "vlr", "record read back differs: {v2:?} from {v:?}");
            for cut in 0..b.len() {
                let p = if cut % 7 == 0 { draw_profile(c) } else { Profile::calm() };
                let d = Disk::new(b[..cut].to_vec()).profile(p);
                if let Ok(x) = laz::LazVlr::read_from(d.open(0)) {
                    bail!("vlr-cut", "the first {cut} of {} bytes are read as a record: {x:?}", b.len());
                }
                c.count("fault: record cut off", 1);
            }
            if k >= 2 {
                c.nontrivial();
            }
        }
        // failures while storing and reading
        1 => {
            let spec = draw_spec(c, &Want { max: 0, ..Default::default() });
            let v = spec.vlr();
            let b = spec.layout.vlr_bytes(&spec.fmt);
            let p = draw_profile(c);
            let kind = c.pick(&[FaultKind::Err(ErrorKind::Other), FaultKind::Zero, FaultKind::ShortThenErr(ErrorKind::Other)]);
            let times = c.pick(&[u64::MAX, 1]);
            let at = c.below(40);
            let d = Disk::new(vec![]).profile(p.clone()).with(|i| i.faults = vec![Fault { at, kind, times }]);
            let r = v.write_to(&mut d.open(0));
            if r.is_ok() {
                ensure!(d.data() == b, "vlr", "writing reported success, stored {:02x?} instead of {b:02x?}", d.data());
            }
            let struck = d.lock().fired > 0;
            absorb(c, &d);
            let at = c.below(40);
            let d = Disk::new(b.clone()).profile(p).with(|i| i.faults = vec![Fault { at, kind, times }]);
            if let Ok(x) = laz::LazVlr::read_from(d.open(0)) {
                ensure!(x == v, "vlr", "reading reported success, got {x:?} instead of {v:?}");
            }
            if struck || d.lock().fired > 0 {
                c.nontrivial();
            }
            absorb(c, &d);
        }
        // records made by the builders describe the data completely
        _ => {
            let mut spec = draw_spec(c, &Want { max: 150, standard: true, ..Default::default() });
            let default = c.chance(1, 2);
            if default && matches!(spec.fmt.ver, 1 | 4) {
                spec.fmt.ver = if spec.fmt.layered() { 3 } else { 2 };
            }
            let f = spec.fmt;
            let items = if default && c.chance(1, 2) {
                // one by one
                use laz::LazItemType as T;
                let mut b = laz::LazItemRecordBuilder::new();
                for (code, size, _) in f.items() {
                    b.add_item(match code {
                        0 => T::Byte(size),
                        6 => T::Point10,
                        7 => T::GpsTime,
                        8 => T::RGB12,
                        9 => T::WavePacket13,
                        10 => T::Point14,
                        11 => T::RGB14,
                        12 => T::RGBNIR14,
                        13 => T::WavePacket14,
                        _ => T::Byte14(size),
                    });
                }
                b.build()
            } else if default {
                laz::LazItemRecordBuilder::default_for_point_format_id(f.id, f.extra).or_else(|e| fail("vlr", e.to_string()))?
            } else {
                typed_items(f.id, f.ver, f.extra).unwrap()
            };
            for (i, w) in items.iter().zip(f.items()) {
                ensure!(i.size() == w.1 && i.version() == w.2, "vlr", "item {:?} of {} bytes, version {}, instead of {w:?}", i.item_type(), i.size(), i.version());
            }
            let b = match (c.below(3), default) {
                (2, _) => laz::LazVlrBuilder::default().with_laz_items(items),
                (0, true) => laz::LazVlrBuilder::default().with_point_format(f.id, f.extra).or_else(|e| fail("vlr", e.to_string()))?,
                _ => laz::LazVlrBuilder::new(items),
            };
            let vlr = match &spec.layout {
                Layout::Fixed(k) => b.with_fixed_chunk_size(*k),
                _ => b.with_variable_chunk_size(),
            }
            .build();
            let bytes = through(c, &vlr)?;
            let want = spec.layout.vlr_bytes(&f);
            ensure!(bytes[8..] == want[8..] && bytes[..4] == want[..4], "vlr", "the built record is stored as {bytes:02x?}, the format asks for {want:02x?} ({})", spec.describe());
            ensure!(vlr.items_size() as usize == spec.ps, "vlr", "items_size {} instead of {}", vlr.items_size(), spec.ps);
            let v2 = from(c, &bytes, 0)?;
            ensure!(v2 == vlr, "vlr", "record read back differs: {v2:?} from {vlr:?}");
            // compressed under the built record, decompressed under the stored one
            let d = Disk::new(vec![]);
            let r = guarded(|| -> Result<(), String> {
                let mut w = laz::LasZipCompressor::new(d.open(0), vlr).map_err(|e| e.to_string())?;
                match &spec.layout {
                    Layout::Variable(g) => {
                        let mut p = 0;
                        let mut v = vec![];
                        for x in g {
                            v.push(spec.slice(p, p + x));
                            p += x;
                        }
                        w.compress_chunks(v).map_err(|e| e.to_string())?;
                    }
                    _ => w.compress_many(&spec.pts).map_err(|e| e.to_string())?,
                }
                w.done().map_err(|e| e.to_string())
            })?;
            if let Err(e) = r {
                bail!("write-error", "{e} ({})", spec.describe());
            }
            guarded(|| -> Res {
                let src: BoxSrc = Box::new(d.open(0));
                let mut r = Reader::open(Rd::Seq, src, v2.clone()).or_else(|e| fail("open-error", e))?;
                read_through(c, &mut r, &spec, None)
            })??;
            if f.items().len() >= 2 {
                c.nontrivial();
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// P24

pub fn las_header(c: &mut Ctx, spec: &Spec, compressed: bool, minor: u8, header_extra: usize, before: &[Vec<u8>], gap: usize, fill: u64) -> Vec<u8> {
    let base = match minor {
        0..=2 => 227,
        3 => 235,
        _ => 375,
    };
    let hs = base + header_extra;
    let mut r = Rng::new(fill);
    let mut h: Vec<u8> = (0..hs).map(|_| r.next() as u8).collect();
    h[..4].copy_from_slice(b"LASF");
    h[24] = 1;
    h[25] = minor;
    h[94..96].copy_from_slice(&(hs as u16).to_le_bytes());
    let mut vlrs = before.to_vec();
    if compressed {
        let rec = spec.layout.vlr_bytes(&spec.fmt);
        let mut v = vec![0u8; 54];
        let id = b"laszip encoded";
        v[2..2 + id.len()].copy_from_slice(id);
        v[18..20].copy_from_slice(&22204u16.to_le_bytes());
        v[20..22].copy_from_slice(&(rec.len() as u16).to_le_bytes());
        v.extend(rec);
        let at = (fill % (vlrs.len() as u64 + 1)) as usize;
        vlrs.insert(at, v);
    }
    let off = hs + vlrs.iter().map(|v| v.len()).sum::<usize>() + gap;
    h[96..100].copy_from_slice(&(off as u32).to_le_bytes());
    h[100..104].copy_from_slice(&(vlrs.len() as u32).to_le_bytes());
    h[104] = spec.fmt.las_id() | if compressed { 0x80 } else { 0 };
    h[105..107].copy_from_slice(&(spec.ps as u16).to_le_bytes());
    let legacy = if minor >= 4 && (spec.fmt.id >= 6 || fill & 1 == 1) { 0 } else { spec.n as u32 };
    h[107..111].copy_from_slice(&legacy.to_le_bytes());
    if minor >= 4 {
        h[247..255].copy_from_slice(&(spec.n as u64).to_le_bytes());
    }
    for v in vlrs {
        h.extend(v);
    }
    let g = junk_fixed(gap, fill);
    h.extend(g);
    let _ = c;
    h
}

pub fn junk_fixed(n: usize, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed ^ 77);
    (0..n).map(|_| r.next() as u8).collect()
}

/// The way of those who take header and records into their own hands.
fn header_functions(c: &mut Ctx, file: &[u8], hlen: usize, compressed: bool, spec: &Spec) -> Res {
    use laz::las::file::*;
    let prof = draw_profile(c);
    let want = if compressed { Some(spec.vlr()) } else { None };
    let two = c.chance(1, 2);
    let d = Disk::new(file.to_vec()).profile(prof.clone());
    if !two && c.chance(1, 2) {
        let d0 = Disk::new(file.to_vec()).profile(prof.clone());
        guarded(|| read_header_and_vlrs(&mut d0.open(0)).is_ok())?;
        let kind = c.pick(&[FaultKind::Err(ErrorKind::Other), FaultKind::Zero, FaultKind::ShortThenErr(ErrorKind::BrokenPipe)]);
        if c.chance(1, 4) {
            // one failure at each operation in turn
            for at in 0..d0.ops().min(300) {
                let d = Disk::new(file.to_vec()).profile(prof.clone());
                d.lock().faults = vec![Fault { at, kind, times: 1 }];
                let mut f = d.open(0);
                if let Ok((h, v)) = guarded(|| read_header_and_vlrs(&mut f))? {
                    let at_points = f.pos - crate::disk::base() == hlen as u64 && h.offset_to_points as usize == hlen;
                    ensure!(at_points && v == want, "header", "operation {at} fails once ({kind:?}) and read_header_and_vlrs returns {v:?} instead of {want:?}, or leaves the stream elsewhere than at the points");
                }
            }
            c.count("opening with a failure at each operation in turn", 1);
            return Ok(());
        }
        let at = super::faults::draw_op(c, d0.ops());
        let times = c.pick(&[u64::MAX, 1]);
        c.log(|| format!("operation {at} of read_header_and_vlrs fails: {kind:?} {times} times"));
        d.lock().faults = vec![Fault { at, kind, times }];
    }
    let res = guarded(|| -> std::io::Result<_> {
        let mut f = d.open(0);
        let (h, v) = if two {
            let h = QuickHeader::read_from(&mut f)?;
            f.seek(SeekFrom::Start(h.header_size as u64))?;
            let v = read_vlrs_and_get_laszip_vlr(&mut f, &h);
            f.seek(SeekFrom::Start(h.offset_to_points as u64))?;
            (h, v)
        } else {
            read_header_and_vlrs(&mut f)?
        };
        Ok((f.pos - crate::disk::base(), v, h.offset_to_points))
    })?;
    let (at, vlr, off) = match res {
        Ok(r) => r,
        Err(_) if d.lock().fired > 0 => {
            absorb(c, &d);
            return Ok(());
        }
        Err(e) => return fail("header", format!("reading header and records: {e}")),
    };
    ensure!(at == hlen as u64 && off as usize == hlen, "header", "the points are said to start at {off}, the stream is at {at}, they start at {hlen}");
    ensure!(vlr == want, "header", "the record found is {vlr:?} instead of {want:?}");
    absorb(c, &d);
    Ok(())
}

pub fn p24(c: &mut Ctx) -> Res {
    let spec = draw_spec(c, &Want { max: 300, lay: Lay::All, standard: true, ..Default::default() });
    let minor = if spec.fmt.id >= 6 { 4 } else { c.below(5) as u8 };
    let header_extra = c.pick(&[0usize, 0, 1, 17, 300]);
    let mut before = vec![];
    let special = c.below(4);
    for i in 0..c.usize(4) {
        let n = c.size(400);
        let mut v = vec![0u8; 54 + n];
        let fill = junk_fixed(54 + n, i as u64 + n as u64);
        v.copy_from_slice(&fill);
        v[20..22].copy_from_slice(&(n as u16).to_le_bytes());
        v[18..20].copy_from_slice(&(100 + i as u16).to_le_bytes());
        if special == 1 {
            // the same number under another name, the same name under another number
            if i % 2 == 0 {
                v[2..18].copy_from_slice(b"someone else\0\0\0\0");
                v[18..20].copy_from_slice(&22204u16.to_le_bytes());
            } else {
                v[2..18].copy_from_slice(b"laszip encoded\0\0");
                v[18..20].copy_from_slice(&2u16.to_le_bytes());
            }
        }
        if special == 2 {
            // short names: a reader that slips a few bytes finds no nonsense
            v[2..18].copy_from_slice(b"x\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0");
            v[22..54].fill(0);
        }
        before.push(v);
    }
    let gap = c.size(60);
    let fill = c.seed();
    c.log(|| format!("LAS 1.{minor}, header +{header_extra}, {} records before the points, gap {gap}", before.len()));
    let h_las = las_header(c, &spec, false, minor, header_extra, &before, gap, fill);
    let h_laz = las_header(c, &spec, true, minor, header_extra, &before, gap, fill);
    let mut las = h_las.clone();
    las.extend_from_slice(&spec.pts);
    let mut laz_file = make_file(c, &spec, &h_laz)?;
    let tail = junk(c, 50);
    las.extend_from_slice(&tail);
    laz_file.extend_from_slice(&tail);
    for (compressed, file, hlen) in [(false, las, h_las.len()), (true, laz_file, h_laz.len())] {
        let prof = draw_profile(c);
        let v = c.verbose;
        let cut = if c.chance(1, 6) && spec.n > 0 {
            // inside the point data; a cut-off table is not the points' failure
            let k = hlen + 8 + c.usize(file.len() - hlen);
            Some(k.min(file.len()))
        } else if c.chance(1, 12) {
            // inside the header or its records
            Some(c.usize(hlen + 8))
        } else {
            None
        };
        let mut file = file;
        if let Some(k) = cut {
            file.truncate(k);
            c.count("fault: source cut off", 1);
        }
        let len = file.len();
        // opening with unreadable tables of formats that need one is outside this property
        if cut.is_some() && compressed && spec.layout.variable() && !spec.fmt.layered() {
            continue;
        }
        if cut.is_none() && c.chance(2, 3) {
            header_functions(c, &file, hlen, compressed, &spec)?;
        }
        let faulty = cut.is_none() && c.chance(1, 3);
        let opening = cut.is_none() && !faulty && c.chance(1, 5);
        let ops = if opening {
            let d = Disk::new(file.clone()).profile(prof.clone());
            guarded(|| laz::las::file::SimpleReader::new(Box::new(d.open(0))).is_ok())?;
            d.ops()
        } else {
            0
        };
        let d = Disk::new(file).profile(prof).with(|i| {
            if v {
                i.log = Some(vec![]);
            }
        });
        let src = open_src(c, &d, 0);
        if opening {
            let kind = c.pick(&[FaultKind::Err(ErrorKind::Other), FaultKind::Zero, FaultKind::ShortThenErr(ErrorKind::BrokenPipe), FaultKind::Err(ErrorKind::Interrupted)]);
            let at = super::faults::draw_op(c, ops);
            // a medium that is interrupted for ever keeps std's own loops busy
            let times = if matches!(kind, FaultKind::Err(ErrorKind::Interrupted)) { 1 } else { c.pick(&[u64::MAX, 1]) };
            c.log(|| format!("operation {at} while opening fails: {kind:?} {times} times"));
            d.lock().faults = vec![Fault { at, kind, times }];
        }
        let whole = c.chance(1, 4);
        let res = guarded(|| -> Res<bool> {
            let mut r = match laz::las::file::SimpleReader::new(src) {
                Ok(r) => r,
                Err(e) => {
                    ensure!(d.lock().fired > 0 || cut.is_some(), "open-error", "SimpleReader::new: {e} ({})", spec.describe());
                    return Ok(true);
                }
            };
            ensure!(r.header.num_extra_bytes() == spec.fmt.extra, "header", "{} extra bytes instead of {}", r.header.num_extra_bytes(), spec.fmt.extra);
            ensure!(r.header.num_points == spec.n as u64, "header", "{} points announced instead of {}", r.header.num_points, spec.n);
            ensure!(r.header.point_format_id == spec.fmt.las_id(), "header", "point format {} instead of {}", r.header.point_format_id, spec.fmt.las_id());
            if faulty {
                let at = d.ops() + c.below(60);
                let kind = c.pick(&[FaultKind::Err(ErrorKind::Other), FaultKind::Zero, FaultKind::ShortThenErr(ErrorKind::BrokenPipe)]);
                let times = c.pick(&[u64::MAX, 1]);
                c.log(|| format!("operation {at} fails: {kind:?} {times} times"));
                d.lock().faults = vec![Fault { at, kind, times }];
            }
            let may_fail = |d: &Disk| d.lock().fired > 0 || cut.is_some();
            if whole {
                let mut buf = vec![];
                match r.read_to_end(&mut buf) {
                    Ok(k) => {
                        ensure!(k == spec.n, "points", "read_to_end returns {k} points instead of {}", spec.n);
                        same_points(&buf, &spec.pts, spec.ps, 0, "read_to_end")?;
                    }
                    Err(e) => {
                        ensure!(may_fail(&d), "read-error", "read_to_end: {e} ({})", spec.describe());
                        return Ok(true);
                    }
                }
            } else {
                for i in 0..spec.n {
                    match r.read_next() {
                        Some(Ok(p)) => same_points(p, spec.point(i), spec.ps, i, "read_next")?,
                        Some(Err(e)) => {
                            ensure!(may_fail(&d), "read-error", "point {i} of {}: {e} (compressed: {compressed}; {})", spec.n, spec.describe());
                            return Ok(true);
                        }
                        None => bail!("points", "the end is reported after {i} of {} points (compressed: {compressed})", spec.n),
                    }
                }
            }
            for _ in 0..2 {
                ensure!(r.read_next().is_none(), "points", "more than {} points", spec.n);
            }
            Ok(false)
        })?;
        match res {
            Ok(failed) => c.count("reads ended by a failure", failed as u64),
            Err(mut f) => {
                f.msg = format!("{} (compressed: {compressed}, file of {len} bytes, cut {cut:?}, header {hlen}; {})", f.msg, spec.describe());
                return Err(f);
            }
        }
        absorb(c, &d);
    }
    if spec.n >= 2 {
        c.nontrivial();
    }
    Ok(())
}
