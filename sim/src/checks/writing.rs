use crate::ctx::{Ctx, Res};
use crate::disk::*;
use crate::files::*;
use crate::gen::*;
use crate::sess::{guarded, session};
use crate::{bail, ensure};
use std::io::{ErrorKind, Seek, SeekFrom, Write};

fn small_prefix(c: &mut Ctx) -> Vec<u8> {
    if c.chance(1, 2) {
        junk(c, 300)
    } else {
        vec![]
    }
}

/// Writes by the plan through an imperfect stream.
fn write_disturbed(c: &mut Ctx, spec: &Spec, plan: &Plan, prefix: &[u8]) -> Res<Vec<u8>> {
    let p = draw_profile(c);
    let v = c.verbose;
    let d = Disk::new(prefix.to_vec()).profile(p).with(|i| {
        if v {
            i.log = Some(vec![])
        }
    });
    let dst = open_dst(c, &d, prefix.len() as u64);
    match exec_plan(plan, spec, dst) {
        Ok(mut w) => {
            if let Err(e) = w.flush() {
                bail!("write-error", "flush: {e}");
            }
        }
        Err(x) => bail!("write-error", "{} failed: {} ({})", x.step, x.err, spec.describe()),
    }
    absorb(c, &d);
    Ok(d.data())
}

/// Points made so that the entropy coder can long not tell whether a carry will change what it has put out.
fn carry_spec(c: &mut Ctx) -> Spec {
    let layered = c.chance(1, 2);
    let extra = c.range(1, 3) as u16;
    let fmt = if layered {
        Fmt { id: 6, ver: c.pick(&[3, 4]), extra, mix: 0 }
    } else {
        Fmt { id: 0, ver: c.pick(&[2, 1]), extra, mix: 5 }
    };
    let goal = c.range(100, 12000);
    let n = goal as usize * (12 + c.usize(5)) / 10 / if layered { 1 } else { extra as usize };
    let layout = match c.below(3) {
        0 => Layout::Fixed(50_000),
        1 => Layout::Variable(vec![n]),
        _ if layered => Layout::Fixed(n as u32),
        _ => Layout::Single(50_000),
    };
    let seed = c.seed();
    let ps = fmt.size();
    let pts = crate::coder::carry_points(n, ps, extra as usize, layered, goal, seed);
    let s = Spec { fmt, layout, n, pts, ps };
    c.note(seed ^ goal << 40);
    c.log(|| format!("{}, extra bytes that leave a carry open for {goal} bytes, seed {seed}", s.describe()));
    c.count("chunks with a long open carry", 1);
    s
}

pub fn p01(c: &mut Ctx) -> Res {
    let spec = if c.chance(1, 150) { carry_spec(c) } else { draw_spec(c, &Want { lay: Lay::All, max: 900, huge: true, ..Default::default() }) };
    let prefix = small_prefix(c);
    let data = if spec.layout.single() {
        // produced by the current code, then stripped of slot and table
        let s2 = Spec { layout: Layout::Fixed(spec.n as u32 + 1), ..spec.clone() };
        let plan = draw_plan(c, &s2, Via::Seq);
        let all = write_disturbed(c, &s2, &plan, &[])?;
        let t = stored_pos(&all, 0) as usize;
        ensure!(t >= 8 && t <= all.len(), "table", "stored table position {t} of {} bytes", all.len());
        [&prefix[..], &all[8..t]].concat()
    } else {
        let via = c.pick(&[Via::Seq, Via::Seq, Via::Seq, Via::SeqBuf]);
        let via = if spec.layout.variable() { Via::Seq } else { via };
        let plan = draw_plan(c, &spec, via);
        let mut d = write_disturbed(c, &spec, &plan, &prefix)?;
        if c.chance(1, 3) {
            d.extend(junk(c, 60));
        }
        d
    };
    let p = draw_profile(c);
    let imperfect = p.max_chunk > 0 || p.intr_rate > 0;
    let d = Disk::new(data).profile(p);
    let src = open_src(c, &d, prefix.len() as u64);
    let mut r = match Reader::open(Rd::Seq, src, spec.vlr()) {
        Ok(r) => r,
        Err(e) => bail!("open-error", "opening failed: {e} ({})", spec.describe()),
    };
    read_through(c, &mut r, &spec, None)?;
    drop(r);
    absorb(c, &d);
    if spec.n >= 2 && (imperfect || spec.counts().len() > 1) {
        c.nontrivial();
    }
    Ok(())
}

fn chunk_bytes<'a>(data: &'a [u8], p: &Parsed) -> Vec<(usize, &'a [u8])> {
    p.chunks
        .iter()
        .filter(|k| k.count > 0)
        .map(|k| (k.count, &data[k.off as usize..(k.off + k.len) as usize]))
        .collect()
}

fn simple_plan(spec: &Spec) -> Plan {
    let mut segs = vec![];
    match &spec.layout {
        Layout::Variable(g) => {
            let mut p = 0;
            for (i, &x) in g.iter().enumerate() {
                segs.push(Seg::Many(p, p + x));
                p += x;
                if i + 1 < g.len() {
                    segs.push(Seg::Finish);
                }
            }
        }
        _ => segs.push(Seg::Many(0, spec.n)),
    }
    Plan { via: Via::Seq, segs, by_trait: false }
}

fn same_files(c: &mut Ctx, spec: &Spec, a: &[u8], pa: usize, b: &[u8], pb: usize) -> Res {
    // table positions count from the start of the file
    if !spec.layout.variable() && spec.n > 0 && pa == pb {
        if a[pa..] != b[pb..] {
            let i = a[pa..].iter().zip(&b[pb..]).position(|(x, y)| x != y);
            bail!(
                "bytes",
                "the two ways of writing give different bytes: lengths {} and {}, first difference at {:?} ({})",
                a.len() - pa,
                b.len() - pb,
                i,
                spec.describe()
            );
        }
    }
    let ra = parse(a, pa as u64, &spec.fmt, &spec.layout, spec.n)?;
    let rb = parse(b, pb as u64, &spec.fmt, &spec.layout, spec.n)?;
    let (ca, cb) = (chunk_bytes(a, &ra), chunk_bytes(b, &rb));
    ensure!(ca.len() == cb.len(), "bytes", "{} and {} chunks with points", ca.len(), cb.len());
    for (i, (x, y)) in ca.iter().zip(&cb).enumerate() {
        ensure!(x.0 == y.0, "bytes", "chunk {i} has {} and {} points", x.0, y.0);
        ensure!(x.1 == y.1, "bytes", "the bytes of chunk {i} differ ({} and {} bytes)", x.1.len(), y.1.len());
    }
    let _ = c;
    Ok(())
}

pub fn p02(c: &mut Ctx) -> Res {
    let spec = draw_spec(c, &Want { max: 600, huge: true, ..Default::default() });
    let base_plan = simple_plan(&spec);
    let base = guarded(|| exec_on_memory(&base_plan, &spec))??;
    let via = draw_via(c, &spec);
    let plan = draw_plan(c, &spec, via);
    let alt = match via {
        Via::Seq | Via::SeqBuf => write_disturbed(c, &spec, &plan, &[])?,
        _ => session(c, |c| write_disturbed(c, &spec, &plan, &[]))?,
    };
    same_files(c, &spec, &base, 0, &alt, 0)?;
    // no leakage between chunks: one drawn chunk alone gives the same bytes
    let parsed = parse(&alt, 0, &spec.fmt, &spec.layout, spec.n)?;
    let full: Vec<usize> = (0..parsed.chunks.len()).filter(|i| parsed.chunks[*i].count > 0).collect();
    if !full.is_empty() {
        for _ in 0..2 {
            let i = full[c.usize(full.len())];
            let from: usize = parsed.chunks[..i].iter().map(|k| k.count).sum();
            let k = &parsed.chunks[i];
            let alone = Spec {
                fmt: spec.fmt,
                layout: match &spec.layout {
                    Layout::Variable(_) => Layout::Variable(vec![k.count]),
                    l => l.clone(),
                },
                n: k.count,
                pts: spec.slice(from, from + k.count).to_vec(),
                ps: spec.ps,
            };
            let b = guarded(|| exec_on_memory(&simple_plan(&alone), &alone))??;
            let pa = parse(&b, 0, &alone.fmt, &alone.layout, alone.n)?;
            let own = &alt[k.off as usize..(k.off + k.len) as usize];
            let al = &b[pa.chunks[0].off as usize..(pa.chunks[0].off + pa.chunks[0].len) as usize];
            ensure!(own == al, "leak", "chunk {i} of {} points differs from the same points compressed alone ({} and {} bytes)", k.count, own.len(), al.len());
        }
    }
    if spec.n >= 2 {
        c.nontrivial();
    }
    Ok(())
}

fn exec_on_memory(plan: &Plan, spec: &Spec) -> Res<Vec<u8>> {
    let d = Disk::new(vec![]);
    match exec_plan(plan, spec, Box::new(d.open(0))) {
        Ok(_) => Ok(d.data()),
        Err(x) => bail!("write-error", "{} failed on a perfect stream: {} ({})", x.step, x.err, spec.describe()),
    }
}

pub fn p03(c: &mut Ctx) -> Res {
    draw_base(c);
    let spec = draw_spec(c, &Want { lay: Lay::Variable, max: 500, huge: true, ..Default::default() });
    let prefix = small_prefix(c);
    let via = draw_via(c, &spec);
    let plan = draw_plan(c, &spec, via);
    let mut data = session(c, |c| write_disturbed(c, &spec, &plan, &prefix))?;
    let start = prefix.len() as u64;
    verify_file(&data, start, &spec)?;
    if c.chance(1, 3) {
        data.extend(junk(c, 60));
    }
    for rd in [Rd::Seq, Rd::Par] {
        let p = draw_profile(c);
        let d = Disk::new(data.clone()).profile(p);
        session(c, |c| {
            let src = open_src(c, &d, start);
            let mut r = match Reader::open(rd, src, spec.vlr()) {
                Ok(r) => r,
                Err(e) => bail!("open-error", "{rd:?}: opening failed: {e}"),
            };
            read_through(c, &mut r, &spec, None)
        })?;
        absorb(c, &d);
    }
    if spec.counts().iter().filter(|x| **x > 0).count() >= 2 {
        c.nontrivial();
    }
    Ok(())
}

pub fn p04(c: &mut Ctx) -> Res {
    draw_base(c);
    let spec = draw_spec(c, &Want { max: 700, huge: true, ..Default::default() });
    let prefix = small_prefix(c);
    let base = guarded(|| {
        let d = Disk::new(prefix.clone());
        match exec_plan(&simple_plan(&spec), &spec, Box::new(d.open(prefix.len() as u64))) {
            Ok(_) => Ok(d.data()),
            Err(x) => bail!("write-error", "sequential: {} failed: {}", x.step, x.err),
        }
    })??;
    let via = if !spec.layout.variable() && c.chance(1, 4) { Via::ParBuf } else { Via::Par };
    let plan = draw_plan(c, &spec, via);
    let before = c.stats.counts.get("jobs").copied().unwrap_or(0);
    let par = session(c, |c| write_disturbed(c, &spec, &plan, &prefix))?;
    same_files(c, &spec, &base, prefix.len(), &par, prefix.len())?;
    verify_file(&par, prefix.len() as u64, &spec)?;
    let jobs = c.stats.counts.get("jobs").copied().unwrap_or(0) - before;
    if spec.counts().len() >= 2 && jobs > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// Checks the current code's own view of the table against the frozen one.
fn own_table(data: &[u8], start: u64, spec: &Spec, p: &Parsed) -> Res {
    let d = Disk::new(data.to_vec());
    let mut f = d.open(start);
    let t = match laz::laszip::ChunkTable::read_from(&mut f, &spec.vlr()) {
        Ok(t) => t,
        Err(e) => bail!("table", "ChunkTable::read_from failed: {e}"),
    };
    ensure!(f.pos == base() + start + 8, "table", "ChunkTable::read_from leaves the position at {} instead of {}", f.pos, base() + start + 8);
    ensure!(t.len() == p.chunks.len(), "table", "ChunkTable::read_from finds {} chunks instead of {}", t.len(), p.chunks.len());
    for (i, k) in p.chunks.iter().enumerate() {
        ensure!(t[i].byte_count == k.len, "table", "entry {i}: {} bytes instead of {}", t[i].byte_count, k.len);
        let want = match spec.layout {
            Layout::Fixed(cs) => cs as u64,
            _ => k.count as u64,
        };
        ensure!(t[i].point_count == want, "table", "entry {i}: {} points instead of {want}", t[i].point_count);
    }
    Ok(())
}

pub fn p10(c: &mut Ctx) -> Res {
    draw_base(c);
    let spec = draw_spec(c, &Want { max: 500, huge: true, ..Default::default() });
    let start = if c.chance(1, 2) { c.size(5000) } else { 0 };
    let after = if c.chance(1, 2) { c.size(20_000) } else { 0 };
    let seed = c.seed();
    let mut rng = crate::tape::Rng::new(seed);
    let medium: Vec<u8> = (0..start + after).map(|_| rng.next() as u8).collect();
    c.log(|| format!("writing starts at {start} of {} existing bytes", medium.len()));
    let appended = c.chance(1, 3);
    let (data, spec) = if appended {
        super::append::appended_file(c, spec, &medium, start)?
    } else {
        let via = draw_via(c, &spec);
        let plan = draw_plan(c, &spec, via);
        let p = draw_profile(c);
        let d = Disk::new(medium).profile(p);
        session(c, |c| {
            let dst = open_dst(c, &d, start as u64);
            match exec_plan(&plan, &spec, dst) {
                Ok(mut w) => w.flush().or_else(|e| crate::ctx::fail("write-error", format!("flush: {e}"))),
                Err(x) => crate::ctx::fail("write-error", format!("{} failed: {}", x.step, x.err)),
            }
        })?;
        absorb(c, &d);
        (d.data(), spec)
    };
    let p = if appended {
        let p = parse(&data, start as u64, &spec.fmt, &spec.layout, spec.n)?;
        same_points(&p.points(), &spec.pts, spec.ps, 0, "frozen decoder")?;
        p
    } else {
        verify_file(&data, start as u64, &spec)?
    };
    own_table(&data, start as u64, &spec, &p)?;
    // the table format itself, both ways
    if c.chance(1, 4) {
        table_exchange(c)?;
    }
    if p.chunks.len() >= 2 {
        c.nontrivial();
    }
    Ok(())
}

fn table_exchange(c: &mut Ctx) -> Res {
    let n = if c.chance(1, 60) { c.usize(70_000) } else { c.size(300) };
    let seed = c.seed();
    let mut r = crate::tape::Rng::new(seed);
    let var = c.chance(1, 2);
    let fmt = Fmt { id: 0, ver: 2, extra: 0, mix: 0 };
    let vb = vlr_bytes(&fmt, 2, if var { u32::MAX } else { 7 });
    let vlr = laz::LazVlr::read_from(&vb[..]).unwrap();
    let rvlr = laz_ref::LazVlr::read_from(&vb[..]).unwrap();
    let mut t = laz::laszip::ChunkTable::default();
    let mut rt = laz_ref::laszip::ChunkTable::default();
    let sh = 32 + r.below(29);
    for _ in 0..n {
        let (p, b) = (r.next() >> sh, r.next() >> sh);
        t.push(laz::laszip::ChunkTableEntry { point_count: p, byte_count: b });
        rt.push(laz_ref::laszip::ChunkTableEntry { point_count: p, byte_count: b });
    }
    let mut out = vec![];
    let mut rout = vec![];
    t.write_to(&mut out, &vlr).or_else(|e| crate::ctx::fail("table", format!("write_to: {e}")))?;
    rt.write_to(&mut rout, &rvlr).unwrap();
    let len = out.len();
    let pad = [0u8; 16];
    out.extend(pad);
    rout.extend(pad);
    let a = laz_ref::laszip::ChunkTable::read(&mut std::io::Cursor::new(&out), var)
        .or_else(|e| crate::ctx::fail("table", format!("frozen reader on a table of {n} entries: {e}")))?;
    let b = laz::laszip::ChunkTable::read(&mut std::io::Cursor::new(&rout), var)
        .or_else(|e| crate::ctx::fail("table", format!("table of {n} entries from the frozen writer: {e}")))?;
    ensure!(a.len() == n && b.len() == n, "table", "{} and {} entries instead of {n}", a.len(), b.len());
    for i in 0..n {
        let w = &t[i];
        let wp = if var { w.point_count } else { 0 };
        ensure!(a[i].byte_count as u32 as u64 == w.byte_count && a[i].point_count as u32 as u64 == wp, "table", "written entry {i} of {n} differs: {:?} for {w:?}", a[i]);
        ensure!(b[i].byte_count == w.byte_count && b[i].point_count == wp, "table", "read entry {i} of {n} differs: {:?} for {w:?}", b[i]);
    }

    // written and read through streams that are cut off, fail, or only come in pieces
    let fault = |c: &mut Ctx| {
        let kind = c.pick(&[FaultKind::Err(ErrorKind::Other), FaultKind::Zero, FaultKind::ShortThenErr(ErrorKind::Other)]);
        Fault { at: c.below(12), kind, times: c.pick(&[1u64, u64::MAX]) }
    };
    let what = c.below(4);
    let p = draw_profile(c);
    let d = Disk::new(vec![]).profile(p).with(|i| {
        if what == 1 {
            i.faults = vec![fault(c)]
        }
    });
    let r = crate::sess::guarded(|| t.write_to(d.open(0), &vlr))?;
    if r.is_ok() || what != 1 {
        r.or_else(|e| crate::ctx::fail("table", format!("write_to an imperfect stream: {e}")))?;
        ensure!(d.data() == out[..len], "table", "writing a table of {n} entries reported success, but {} bytes differ from the {len} expected", d.data().len());
    }
    absorb(c, &d);
    let p = draw_profile(c);
    let cut = if what == 2 { c.usize(len) } else { len };
    let d = Disk::new(out[..cut].to_vec()).profile(p).with(|i| {
        if what == 3 {
            i.faults = vec![fault(c)]
        }
    });
    let r = crate::sess::guarded(|| laz::laszip::ChunkTable::read(&mut d.open(0), var))?;
    let fired = d.lock().fired > 0;
    match r {
        Ok(x) => {
            ensure!(cut == len, "table-cut", "{cut} of the {len} bytes of a table of {n} entries are read as a table of {}", x.len());
            ensure!(x.len() == n && (0..n).all(|i| x[i].byte_count == t[i].byte_count && x[i].point_count == if var { t[i].point_count } else { 0 }), "table", "table of {n} entries read wrongly");
        }
        Err(e) => ensure!(fired || cut < len, "table", "reading from an imperfect stream: {e}"),
    }
    if cut < len {
        c.count("fault: table cut off", 1);
    }
    absorb(c, &d);
    Ok(())
}

pub fn p11(c: &mut Ctx) -> Res {
    draw_base(c);
    if c.chance(1, 2) {
        return super::append::p11_append(c);
    }
    let spec = draw_spec(c, &Want { max: 400, huge: true, ..Default::default() });
    let start = c.size(3000);
    let after = if c.chance(1, 2) { c.size(12_000) } else { 0 };
    let seed = c.seed();
    let mut rng = crate::tape::Rng::new(seed);
    let medium: Vec<u8> = (0..start + after).map(|_| rng.next() as u8).collect();
    let via = draw_via(c, &spec);
    let plan = draw_plan(c, &spec, via);
    let p = draw_profile(c);
    let guard = medium[..start].to_vec();
    let d = Disk::new(medium).profile(p).with(|i| i.guards = vec![(0, guard)]);
    let tail = junk(c, 40);
    session(c, |c| {
        let dst = open_dst(c, &d, start as u64);
        let mut w = match exec_plan(&plan, &spec, dst) {
            Ok(w) => w,
            Err(x) => bail!("write-error", "{} failed: {}", x.step, x.err),
        };
        end_position(&mut w, &d, start as u64, &spec, after == 0, &tail)
    })?;
    if let Some(g) = d.lock().guard_hit.clone() {
        bail!("foreign", "{g} ({})", spec.describe());
    }
    absorb(c, &d);
    verify_file(&d.data(), start as u64, &spec)?;
    if start > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// The stream must stand just behind the table: more data goes there without harm.
pub fn end_position<W: Write + Seek>(w: &mut W, d: &Disk, start: u64, spec: &Spec, fresh: bool, tail: &[u8]) -> Res {
    let io = |r: std::io::Result<u64>| r.or_else(|e| crate::ctx::fail("write-error", format!("{e}")));
    let pos = io(w.seek(SeekFrom::Current(0)))?.wrapping_sub(base());
    io(w.flush().map(|_| 0))?;
    let data = d.data();
    if fresh {
        ensure!(pos == data.len() as u64, "position", "finished at {pos}, but the file ends at {}", data.len());
    }
    let s = start as usize;
    ensure!(data.len() >= s + 8, "position", "no table slot");
    let tp = stored_pos(&data, s) as u64;
    ensure!(tp < data.len() as u64 && tp >= start + 8, "position", "stored table position {tp}");
    let k = u32::from_le_bytes(data[tp as usize + 4..tp as usize + 8].try_into().unwrap()) as u64;
    // far above what coding k entries can take
    let most = tp + 8 + if k > 0 { 16 + 20 * k } else { 0 };
    ensure!(pos >= tp + 8 && pos <= most, "position", "finished at {pos}, the table of {k} chunks is at {tp}");
    if !tail.is_empty() {
        io(w.write_all(tail).map(|_| 0))?;
        io(w.flush().map(|_| 0))?;
    }
    let _ = spec;
    Ok(())
}
