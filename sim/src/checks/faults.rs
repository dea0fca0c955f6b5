use super::append::{after_round, draw_round, exec_round, settle, Ap};
use super::reading::{draw_index, drawn_prefix};
use crate::ctx::{Ctx, Res};
use crate::disk::*;
use crate::files::*;
use crate::gen::*;
use crate::sess::{guarded, session, session_with};
use crate::{bail, ensure};
use std::io::ErrorKind;

fn draw_kind(c: &mut Ctx) -> FaultKind {
    let e = c.pick(&[ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::StorageFull, ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe, ErrorKind::WouldBlock]);
    match c.below(3) {
        0 => FaultKind::Err(e),
        1 => FaultKind::ShortThenErr(e),
        _ => FaultKind::Zero,
    }
}

fn logging(v: bool) -> impl FnOnce(&mut Inner) {
    move |i: &mut Inner| {
        if v {
            i.log = Some(vec![]);
        }
    }
}

/// The operation to strike: the last ones finish the file and deserve their share.
pub fn draw_op(c: &mut Ctx, ops: u64) -> u64 {
    if ops == 0 {
        return 0;
    }
    match c.below(4) {
        0 => ops - 1 - c.below(ops.min(20)),
        1 => c.below(ops.min(12)),
        _ => c.below(ops),
    }
}

/// The operations at which a failure is to strike, one run of the client for each:
/// mostly a drawn one, once in a while each of them in turn.
pub fn draw_ops(c: &mut Ctx, ops: u64, n: usize) -> Vec<u64> {
    if ops > 0 && n <= 350 && c.chance(1, 40) {
        return each_op(c, ops);
    }
    vec![draw_op(c, ops)]
}

pub fn each_op(c: &mut Ctx, ops: u64) -> Vec<u64> {
    c.count("runs with a failure at each operation in turn", 1);
    let step = 1 + ops / 120;
    let first = c.below(step);
    (0..ops).skip(first as usize).step_by(step as usize).collect()
}

pub fn p15(c: &mut Ctx) -> Res {
    draw_base(c);
    let spec = draw_spec(c, &Want { max: 350, ..Default::default() });
    let prefix = drawn_prefix(c);
    let start = prefix.len();
    let prof = draw_profile(c);
    let v = c.verbose;
    if c.chance(1, 3) {
        // an appender
        let data = make_file(c, &spec, &prefix)?;
        let ap = c.pick(&[Ap::Seq, Ap::Par]);
        let r = draw_round(c, ap, &spec, 250);
        let new = draw_points(c, &spec.fmt.clone(), r.add);
        let d0 = Disk::new(data.clone()).profile(prof.clone());
        let dry = session_with(c, 1, 256, 0, 0, |_| Ok(exec_round(&r, spec.vlr(), Box::new(d0.open(start as u64)), &new, spec.ps).is_ok()));
        if !matches!(dry, Ok(true)) {
            c.count("undisturbed append failed (left to P12 and P13)", 1);
            return Ok(());
        }
        for (cap, faults) in plan_write_faults(c, &d0, start, spec.n) {
            let d = Disk::new(data.clone()).profile(prof.clone()).with(logging(v));
            d.lock().capacity = cap;
            d.lock().faults = faults;
            let res = session(c, |_| Ok(exec_round(&r, spec.vlr(), Box::new(d.open(start as u64)), &new, spec.ps).err().map(|e| format!("{}: {}", e.step, e.err))))?;
            absorb(c, &d);
            if res.is_none() {
                let mut after = after_round(&spec, &r, &new);
                if let Err(f) = settle(&d.data(), start as u64, &mut after) {
                    bail!("unreported", "{:?}: every call of the append succeeded, but: {} ({}, {} failures injected)", r.ap, f.msg, f.class, d.lock().fired);
                }
            }
            if d.lock().fired > 0 {
                c.nontrivial();
            }
        }
        return Ok(());
    }
    let via = draw_via(c, &spec);
    let plan = draw_plan(c, &spec, via);
    let d0 = Disk::new(prefix.clone()).profile(prof.clone());
    let dry = session_with(c, 1, 256, 0, 0, |_| Ok(exec_plan(&plan, &spec, Box::new(d0.open(start as u64))).is_ok()));
    if !matches!(dry, Ok(true)) {
        c.count("undisturbed writer failed (left to P01 to P04)", 1);
        return Ok(());
    }
    for (cap, faults) in plan_write_faults(c, &d0, start, spec.n) {
        let d = Disk::new(prefix.clone()).profile(prof.clone()).with(logging(v));
        d.lock().capacity = cap;
        d.lock().faults = faults;
        let res = session(c, |_| Ok(exec_plan(&plan, &spec, Box::new(d.open(start as u64))).err().map(|e| format!("{}: {}", e.step, e.err))))?;
        absorb(c, &d);
        if res.is_none() {
            if let Err(f) = verify_file(&d.data(), start as u64, &spec) {
                bail!("unreported", "{:?}: every call of the writer succeeded, but: {} ({}, {} failures injected)", plan.via, f.msg, f.class, d.lock().fired);
            }
        }
        if d.lock().fired > 0 {
            c.nontrivial();
        }
    }
    Ok(())
}

fn plan_write_faults(c: &mut Ctx, d0: &Disk, start: usize, n: usize) -> Vec<(Option<u64>, Vec<Fault>)> {
    let ops = d0.ops();
    if c.chance(1, 4) {
        let total = d0.data().len();
        let cap = start as u64 + c.below((total - start) as u64 + 1);
        c.log(|| format!("medium full at {cap} of {total} bytes"));
        return vec![(Some(cap), vec![])];
    }
    let ats = draw_ops(c, ops, n);
    let kind = draw_kind(c);
    let times = c.pick(&[u64::MAX, u64::MAX, 1, 2]);
    c.log(|| format!("operation {ats:?} of {ops} fails: {kind:?}, {times} times"));
    ats.into_iter().map(|at| (None, vec![Fault { at, kind, times }])).collect()
}

pub fn p16(c: &mut Ctx) -> Res {
    let one_shot = c.chance(1, 4);
    if !one_shot {
        draw_base(c);
    }
    let lay = if one_shot { Lay::FixedOrVariable } else { Lay::All };
    let spec = draw_spec(c, &Want { max: 400, lay, ..Default::default() });
    let prefix = if one_shot { vec![] } else { drawn_prefix(c) };
    let start = prefix.len();
    let mut data = make_file(c, &spec, &prefix)?;
    let single = spec.layout.single();
    let full = data.len();
    let cut = if one_shot || c.chance(1, 2) {
        let span = full - start;
        let k = match c.below(4) {
            0 => c.usize(span.min(40)),
            1 => c.usize(span.min(12)) + 1,
            _ => c.usize(span + 1),
        };
        // counted from the end when drawn small
        Some(full - k.min(span))
    } else {
        None
    };
    if let Some(k) = cut {
        data.truncate(k);
        c.count("fault: source cut off", 1);
        c.log(|| format!("source ends at {k} of {full} bytes"));
    }
    if cut.is_none() && c.chance(1, 2) {
        // something to take for points where there are none
        let n = 50 + c.usize(1500);
        let f = c.seed();
        data.extend(super::misc::junk_fixed(n, f));
    }
    if one_shot {
        let ps = spec.ps;
        for par in [false, true] {
            let m = if c.chance(1, 2) { spec.n } else { c.size(spec.n) };
            let mut out = vec![0x5Au8; m * ps];
            let r = if par {
                session(c, |_| Ok(laz::par_decompress_buffer(&data, &mut out, &spec.vlr())))?
            } else {
                guarded(|| laz::decompress_buffer(&data, &mut out, spec.vlr()))?
            };
            if r.is_ok() {
                same_points(&out, spec.slice(0, m), ps, 0, if par { "par_decompress_buffer on a cut buffer" } else { "decompress_buffer on a cut buffer" }).map_err(wrong)?;
            }
        }
        if spec.n > 0 {
            c.nontrivial();
        }
        return Ok(());
    }
    let rd = if single { Rd::Seq } else { c.pick(&[Rd::Seq, Rd::Par]) };
    let prof = draw_profile(c);
    // drawn once: the calls of the reading client
    let mut calls = vec![];
    let mut p = 0;
    let cs = typical_cs(&spec);
    let seeks = !single && c.chance(1, 3);
    for _ in 0..40 {
        if spec.n == 0 {
            break;
        }
        if seeks && c.chance(1, 3) {
            let i = draw_index(c, &spec);
            calls.push((Some(i), 0));
            p = i;
        }
        if p >= spec.n {
            break;
        }
        let k = draw_k(c, spec.n - p, cs);
        calls.push((None, k));
        p += k;
    }
    let singly = c.chance(1, 3);
    let run = |d: &Disk| -> Res<usize> {
        let src: BoxSrc = Box::new(d.open(start as u64));
        let mut r = match Reader::open(rd, src, spec.vlr()) {
            Ok(r) => r,
            Err(_) => return Ok(0),
        };
        let mut pos = 0;
        let mut got = 0;
        // nothing is asked of a reader that failed, but that it neither crashes nor hangs
        let mut failed = 0;
        for (s, k) in &calls {
            if failed > 3 {
                break;
            }
            match s {
                Some(i) => {
                    if r.seek(*i as u64).is_err() {
                        failed += 1;
                    }
                    pos = *i;
                }
                None => match read_k(&mut r, spec.ps, *k, singly && *k < 200) {
                    Ok(_) if failed > 0 => {}
                    Ok(v) => {
                        same_points(&v, spec.slice(pos, pos + k), spec.ps, pos, "read").map_err(wrong)?;
                        pos += k;
                        got += k;
                    }
                    Err(_) => failed += 1,
                },
            }
        }
        Ok(got)
    };
    let v = c.verbose;
    let mut plans = vec![vec![]];
    if cut.is_none() || c.chance(1, 8) {
        let d0 = Disk::new(data.clone()).profile(prof.clone());
        let only_open = c.chance(1, 4);
        let _ = session_with(c, 1, 256, 0, 0, |_| {
            if only_open {
                return Ok(Reader::open(rd, Box::new(d0.open(start as u64)), spec.vlr()).map(|_| 0).unwrap_or(0));
            }
            run(&d0)
        });
        let ops = d0.ops();
        let ats = draw_ops(c, ops, spec.n);
        let kind = draw_kind(c);
        let times = c.pick(&[u64::MAX, 1, 1, 2]);
        c.log(|| format!("operation {ats:?} of {ops} fails: {kind:?}, {times} times"));
        plans = ats.into_iter().map(|at| vec![Fault { at, kind, times }]).collect();
    }
    c.log(|| format!("{rd:?}: {calls:?}"));
    for faults in plans {
        let d = Disk::new(data.clone()).profile(prof.clone()).with(logging(v));
        d.lock().faults = faults;
        match rd {
            Rd::Seq => guarded(|| run(&d))??,
            Rd::Par => session(c, |_| run(&d))?,
        };
        absorb(c, &d);
        if spec.n > 0 && (cut.is_some() || d.lock().fired > 0) {
            c.nontrivial();
        }
    }
    Ok(())
}

fn wrong(mut f: crate::ctx::Fail) -> crate::ctx::Fail {
    f.class = "wrong-point".into();
    f
}

pub fn p17(c: &mut Ctx) -> Res {
    draw_base(c);
    let spec = draw_spec(c, &Want { max: 500, min: 1, ..Default::default() });
    let prefix = drawn_prefix(c);
    let start = prefix.len() as u64;
    let data = make_file(c, &spec, &prefix)?;
    let rd = c.pick(&[Rd::Seq, Rd::Par]);
    let prof = draw_profile(c);
    let v = c.verbose;
    let d = Disk::new(data).profile(prof).with(logging(v));
    let cs = typical_cs(&spec);
    let steps = 3 + c.usize(10);
    let body = |c: &mut Ctx| -> Res<u64> {
        let mut r = super::reading::open_reader(c, rd, &d, start, &spec, None)?;
        let mut pos = Some(0usize);
        let mut failed = false;
        let mut recovered = 0;
        for _ in 0..steps {
            if c.chance(1, 3) {
                let near = c.pick(&[1u64, 4, 30, 300]);
                let at = d.ops() + c.below(near);
                let kind = draw_kind(c);
                let times = 1 + c.below(3);
                c.log(|| format!("operation {at} will fail: {kind:?}, {times} times"));
                let mut i = d.lock();
                i.faults.retain(|f| f.at + f.times > at.saturating_sub(50));
                i.faults.push(Fault { at, kind, times });
            }
            let before = d.lock().fired;
            let excused = |d: &Disk| d.lock().fired > before;
            if pos.is_none() || pos == Some(spec.n) || c.chance(1, 3) {
                let i = draw_index(c, &spec);
                c.log(|| format!("seek {i}"));
                match r.seek(i as u64) {
                    Ok(()) => pos = Some(i),
                    Err(e) => {
                        ensure!(excused(&d), "not-recovered", "{rd:?}: seek to {i} failed without a failure of the source (one before: {failed}): {e} ({})", spec.describe());
                        pos = None;
                        failed = true;
                        continue;
                    }
                }
            }
            let p = pos.unwrap();
            let k = draw_k(c, spec.n - p, cs);
            let singly = k <= 40 && c.chance(1, 3);
            c.log(|| format!("read {k} at {p}"));
            match read_k(&mut r, spec.ps, k, singly) {
                Ok(v) => {
                    same_points(&v, spec.slice(p, p + k), spec.ps, p, "read").map_err(|mut f| {
                        f.class = "not-recovered".into();
                        f.msg = format!("{rd:?}, after a transient failure: {failed}: {} ({})", f.msg, spec.describe());
                        f
                    })?;
                    pos = Some(p + k);
                    if failed && k > 0 {
                        recovered += 1;
                    }
                }
                Err(e) => {
                    ensure!(
                        excused(&d),
                        "not-recovered",
                        "{rd:?}: reading {k} points at {p} failed without a failure of the source (one before: {failed}): {e} ({})",
                        spec.describe()
                    );
                    pos = None;
                    failed = true;
                }
            }
        }
        Ok(recovered)
    };
    let rec = match rd {
        Rd::Seq => guarded(|| body(c))??,
        Rd::Par => session(c, body)?,
    };
    absorb(c, &d);
    if rec > 0 {
        c.nontrivial();
    }
    Ok(())
}

pub fn p18(c: &mut Ctx) -> Res {
    draw_base(c);
    let spec = draw_spec(c, &Want { max: 500, min: 1, lay: Lay::Fixed, ..Default::default() });
    let prefix = drawn_prefix(c);
    let start = prefix.len();
    let prof = draw_profile(c);
    let via = draw_via(c, &spec);
    let plan = draw_plan(c, &spec, via);
    let d0 = Disk::new(prefix.clone()).profile(prof.clone());
    let dry = session_with(c, 1, 256, 0, 0, |_| Ok(exec_plan(&plan, &spec, Box::new(d0.open(start as u64))).is_ok()));
    let whole = d0.data();
    let parsed = match (dry, guarded(|| verify_file(&whole, start as u64, &spec))) {
        (Ok(true), Ok(Ok(p))) => p,
        _ => {
            c.count("undisturbed writer failed (left to P01 to P04)", 1);
            return Ok(());
        }
    };
    let ops = d0.ops();
    let ats = draw_ops(c, ops, spec.n);
    let torn = match c.below(3) {
        0 => 0,
        1 => c.below(9),
        _ => c.below(3000),
    };
    let v = c.verbose;
    for at in ats {
        let d = Disk::new(prefix.clone()).profile(prof.clone()).with(logging(v)).with(|i| i.crash_at = Some((at, torn)));
        c.log(|| format!("crash at operation {at} of {ops}, {torn} bytes of that write arrive"));
        session(c, |_| Ok(exec_plan(&plan, &spec, Box::new(d.open(start as u64))).is_ok()))?;
        absorb(c, &d);
        let medium = d.data();
        let complete: usize = parsed.chunks.iter().filter(|k| (k.off + k.len) as usize <= medium.len() && medium.len() >= start + 8).map(|k| k.count).sum();
        let (got, why) = guarded(|| super::append::read_prefix(&medium, start, &spec, spec.n, c))??;
        if got < complete {
            // bytes that happen to look like a table position can make opening fail
            let slot = stored_pos(&medium, start);
            let by_accident = match super::append::resolve_table(&medium, start) {
                Some(t) => t as u64 != parsed.table_pos && (t as usize) < medium.len(),
                None => false,
            };
            if by_accident && slot != parsed.table_pos as i64 {
                c.count("chance table positions (completeness not required)", 1);
            } else {
                bail!(
                    "lost",
                    "{:?}: only {got} of {complete} points of completely written chunks can be read after a crash at operation {at} of {ops} ({} bytes on the medium, slot {slot}): {why} ({})",
                    plan.via,
                    medium.len(),
                    spec.describe()
                );
            }
        }
        if medium.len() > start + 8 {
            c.nontrivial();
        }
    }
    Ok(())
}

/// The damaged chunk (and those around it) through the parallel function: points only where
/// the sequential reader gives the same points, never points where that one reports an error.
fn damaged_alone(c: &mut Ctx, data: &[u8], start: u64, spec: &Spec, parsed: &Parsed, bad: usize, first: usize) -> Res {
    let a = bad - c.usize(bad.min(2) + 1);
    let e = (bad + 1 + c.usize(3)).min(parsed.chunks.len());
    let chunks = &parsed.chunks[a..e];
    let n: usize = chunks.iter().map(|k| k.count).sum();
    let first = first - parsed.chunks[a..bad].iter().map(|k| k.count).sum::<usize>();
    let cs = typical_cs(spec);
    let ents: Vec<_> = chunks
        .iter()
        .map(|k| laz::laszip::ChunkTableEntry { point_count: if spec.layout.variable() { k.count as u64 } else { cs as u64 }, byte_count: k.len })
        .collect();
    let from = chunks[0].off as usize;
    let body = &data[from..from + ents.iter().map(|k| k.byte_count as usize).sum::<usize>()];
    let mut out = vec![0x5Au8; n * spec.ps];
    let got = session(c, |_| Ok(laz::par_decompress(body, &mut out, &spec.vlr(), &ents).is_ok()))?;
    if !got {
        c.count("damage reported by par_decompress", 1);
        return Ok(());
    }
    let want = guarded(|| {
        let mut r = laz::LasZipDecompressor::new(Disk::new(data.to_vec()).open(start), spec.vlr()).map_err(|e| e.to_string())?;
        let mut out = vec![0u8; n * spec.ps];
        // reading on from a damaged chunk may go on anywhere, so each is sought
        let mut p = 0;
        for k in chunks.iter().filter(|k| k.count > 0) {
            r.seek((first + p) as u64).map_err(|e| e.to_string())?;
            r.decompress_many(&mut out[p * spec.ps..(p + k.count) * spec.ps]).map_err(|e| e.to_string())?;
            p += k.count;
        }
        Ok::<_, String>(out)
    })?;
    match want {
        Err(m) => bail!("hidden", "par_decompress gives {n} points of chunks {a} to {e} (chunk {bad} damaged) for which the sequential reader reports: {m} ({})", spec.describe()),
        Ok(w) => same_points(&out, &w, spec.ps, first, "par_decompress of a damaged chunk").map_err(|mut f| {
            f.class = "hidden".into();
            f
        }),
    }
}

pub fn p25(c: &mut Ctx) -> Res {
    draw_base(c);
    let spec = draw_spec(c, &Want { max: 400, min: 2, ..Default::default() });
    let prefix = drawn_prefix(c);
    let start = prefix.len() as u64;
    let mut data = make_file(c, &spec, &prefix)?;
    let parsed = parse(&data, start, &spec.fmt, &spec.layout, spec.n)?;
    let with_points: Vec<usize> = (0..parsed.chunks.len()).filter(|i| parsed.chunks[*i].count > 0).collect();
    if with_points.len() < 2 {
        return Ok(());
    }
    let bad = with_points[c.usize(with_points.len())];
    let firsts: Vec<usize> = parsed
        .chunks
        .iter()
        .scan(0, |s, k| {
            let f = *s;
            *s += k.count;
            Some(f)
        })
        .collect();
    let k = &parsed.chunks[bad];
    let (off, len) = (k.off as usize, k.len as usize);
    let before = data[off..off + len].to_vec();
    let seed = c.seed();
    let mut rng = crate::tape::Rng::new(seed);
    let how = c.below(5);
    match how {
        0 => data[off + rng.below(len as u64) as usize] ^= 1 << rng.below(8),
        1 => {
            for _ in 0..1 + rng.below(8) {
                data[off + rng.below(len as u64) as usize] = rng.next() as u8;
            }
        }
        2 => {
            for b in &mut data[off..off + len] {
                *b = rng.next() as u8;
            }
        }
        3 => {
            let v = if rng.below(2) == 0 { 0 } else { 0xff };
            let a = rng.below(len as u64) as usize;
            let e = a + 1 + rng.below((len - a) as u64) as usize;
            for b in &mut data[off + a..off + e] {
                *b = v;
            }
        }
        _ => {
            // the sizes and counts that lead a layered chunk
            let a = (spec.ps).min(len - 1);
            let e = (a + 60).min(len);
            let i = a + rng.below((e - a) as u64) as usize;
            data[off + i] = rng.next() as u8 | 0x80;
        }
    }
    if data[off..off + len] == before[..] {
        return Ok(());
    }
    c.count("fault: stored bytes damaged", 1);
    c.log(|| format!("chunk {bad} of {} ({} points, {len} bytes at {off}) damaged, kind {how} seed {seed}", parsed.chunks.len(), k.count));
    let good: Vec<usize> = with_points.iter().copied().filter(|i| *i != bad).collect();
    let rd = c.pick(&[Rd::Seq, Rd::Par]);
    let bound = 4096 + 64 * data.len() as u64 + 200_000;
    if c.chance(1, 3) {
        damaged_alone(c, &data, start, &spec, &parsed, bad, firsts[bad])?;
    }
    let d = Disk::new(data).with(|i| i.op_limit = bound);
    let steps = 2 + c.usize(8);
    let body = |c: &mut Ctx| -> Res<u64> {
        let mut r = super::reading::open_reader(c, rd, &d, start, &spec, None)?;
        let mut touched = 0;
        for _ in 0..steps {
            if c.chance(1, 3) {
                // the damaged chunk itself: any outcome, in bounded time and memory
                let i = firsts[bad] + c.usize(k.count);
                c.log(|| format!("seek {i} and read in the damaged chunk"));
                let n = 1 + c.usize(firsts[bad] + k.count - i);
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    if r.seek(i as u64).is_ok() {
                        let _ = read_k(&mut r, spec.ps, n, false);
                    }
                }));
                touched += 1;
                if res.is_err() {
                    return Err(crate::sess::take_panic());
                }
            }
            // a run of undamaged chunks
            let g = good[c.usize(good.len())];
            let mut end = g;
            while end + 1 < parsed.chunks.len() && end + 1 != bad {
                end += 1;
            }
            let last = firsts[end] + parsed.chunks[end].count;
            let i = firsts[g] + c.usize(parsed.chunks[g].count);
            let n = draw_k(c, last - i, typical_cs(&spec));
            c.log(|| format!("seek {i} and read {n} in undamaged chunks"));
            if let Err(e) = r.seek(i as u64) {
                bail!("spread", "{rd:?}: seek to {i} in undamaged chunk {g} failed: {e} (damage in chunk {bad}; {})", spec.describe());
            }
            match read_k(&mut r, spec.ps, n, n <= 30) {
                Ok(v) => same_points(&v, spec.slice(i, i + n), spec.ps, i, "undamaged chunk").map_err(|mut f| {
                    f.class = "spread".into();
                    f.msg = format!("{rd:?}: {} (damage in chunk {bad}; {})", f.msg, spec.describe());
                    f
                })?,
                Err(e) => bail!("spread", "{rd:?}: reading {n} points at {i} in undamaged chunks from {g} failed: {e} (damage in chunk {bad}; {})", spec.describe()),
            }
        }
        Ok(touched)
    };
    crate::alloc::PEAK_SINGLE.store(0, std::sync::atomic::Ordering::Relaxed);
    let limit = 256usize << 20;
    crate::alloc::MAX_SINGLE.store(limit, std::sync::atomic::Ordering::Relaxed);
    let r = match rd {
        Rd::Seq => guarded(|| body(c)).and_then(|x| x),
        Rd::Par => session(c, body),
    };
    r?;
    absorb(c, &d);
    c.nontrivial();
    Ok(())
}
