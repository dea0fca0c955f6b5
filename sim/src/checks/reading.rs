use crate::ctx::{Ctx, Res};
use crate::disk::*;
use crate::files::*;
use crate::gen::*;
use crate::sess::{guarded, session};
use crate::{bail, ensure};

pub fn drawn_prefix(c: &mut Ctx) -> Vec<u8> {
    if c.chance(1, 2) {
        junk(c, 300)
    } else {
        vec![]
    }
}

pub fn with_tail(c: &mut Ctx, mut data: Vec<u8>, max: usize) -> Vec<u8> {
    if c.chance(1, 3) {
        data.extend(junk(c, max));
    }
    data
}

pub fn open_reader(c: &mut Ctx, rd: Rd, d: &Disk, start: u64, spec: &Spec, sel: Option<u32>) -> Res<Reader> {
    let src = open_src(c, d, start);
    let r = match sel {
        None => Reader::open(rd, src, spec.vlr()),
        Some(s) => Reader::open_sel(rd, src, spec.vlr(), s),
    };
    match r {
        Ok(r) => Ok(r),
        Err(e) => bail!("open-error", "{rd:?}: opening failed: {e} ({})", spec.describe()),
    }
}

pub fn p05(c: &mut Ctx) -> Res {
    draw_base(c);
    let spec = draw_spec(c, &Want { max: 900, huge: true, ..Default::default() });
    let prefix = drawn_prefix(c);
    let data = make_file(c, &spec, &prefix)?;
    let data = with_tail(c, data, 60);
    let p = draw_profile(c);
    let d = Disk::new(data).profile(p);
    session(c, |c| {
        let mut r = open_reader(c, Rd::Par, &d, prefix.len() as u64, &spec, None)?;
        read_through(c, &mut r, &spec, None)
    })?;
    absorb(c, &d);
    if spec.counts().iter().filter(|x| **x > 0).count() >= 2 {
        c.nontrivial();
    }
    Ok(())
}

pub fn p06(c: &mut Ctx) -> Res {
    let mut spec = draw_spec(c, &Want { max: 500, lay: Lay::Fixed, huge: true, ..Default::default() });
    // counts at and around multiples of the chunk size
    if let (Layout::Fixed(cs), true) = (&spec.layout, c.chance(1, 3)) {
        let cs = *cs as usize;
        if cs <= 500 {
            let n = (cs * c.usize(4) + c.usize(3)).saturating_sub(1);
            spec.pts = draw_points(c, &spec.fmt.clone(), n);
            spec.n = n;
            c.log(|| format!("{n} points"));
        }
    }
    let ps = spec.ps;
    // streaming and one-shot writers give the same bytes
    let mem = |c: &mut Ctx, plan: &Plan, prefix: &[u8]| write_plain(c, &spec, plan, prefix);
    let prefix = drawn_prefix(c);
    let plan = draw_plan(c, &spec, Via::Seq);
    let a = mem(c, &plan, &prefix)?;
    let b = mem(c, &Plan { via: Via::SeqBuf, segs: vec![], by_trait: false }, &prefix)?;
    ensure!(a == b, "bytes", "compress_buffer and LasZipCompressor differ: {} and {} bytes ({})", b.len(), a.len(), spec.describe());
    let plan = draw_plan(c, &spec, Via::Par);
    let (pa, pb) = session(c, |c| {
        let pa = write_plain(c, &spec, &plan, &prefix)?;
        let pb = write_plain(c, &spec, &Plan { via: Via::ParBuf, segs: vec![], by_trait: false }, &prefix)?;
        Ok((pa, pb))
    })?;
    ensure!(pa == pb, "bytes", "par_compress_buffer and ParLasZipCompressor differ: {} and {} bytes ({})", pb.len(), pa.len(), spec.describe());
    verify_file(&b, prefix.len() as u64, &spec)?;
    verify_file(&pb, prefix.len() as u64, &spec)?;

    // one-shot readers, with files that start at 0
    if c.chance(1, 3) {
        let mut s2 = draw_spec(c, &Want { max: 500, lay: Lay::All, huge: true, ..Default::default() });
        std::mem::swap(&mut spec, &mut s2);
    }
    let ps = if spec.ps != ps { spec.ps } else { ps };
    let data = write_ref(&spec, &[]);
    let data = with_tail(c, data, 60);
    for round in 0..2 {
        let m = match c.below(6) {
            0 | 1 => spec.n,
            2 => 0,
            3 => spec.n.saturating_sub(1),
            4 => (typical_cs(&spec) * c.usize(3) + c.usize(3)).saturating_sub(1).min(spec.n),
            _ => c.size(spec.n),
        };
        c.log(|| format!("decompressing into a buffer of {m} points"));
        let single = spec.layout.single();
        if round == 0 || single {
            let mut out = vec![0x5Au8; m * ps];
            let r = guarded(|| laz::decompress_buffer(&data, &mut out, spec.vlr()))?;
            if let Err(e) = r {
                bail!("read-error", "decompress_buffer for {m} of {} points: {e} ({})", spec.n, spec.describe());
            }
            same_points(&out, spec.slice(0, m), ps, 0, "decompress_buffer")?;
        } else {
            let mut out = vec![0x5Au8; m * ps];
            let r = session(c, |_| Ok(laz::par_decompress_buffer(&data, &mut out, &spec.vlr())))?;
            if let Err(e) = r {
                bail!("read-error", "par_decompress_buffer for {m} of {} points: {e} ({})", spec.n, spec.describe());
            }
            same_points(&out, spec.slice(0, m), ps, 0, "par_decompress_buffer")?;
            // the same on the bare chunks, with the table given
            let p = parse(&data, 0, &spec.fmt, &spec.layout, spec.n)?;
            let cs = typical_cs(&spec);
            let ents: Vec<_> = p
                .chunks
                .iter()
                .map(|k| laz::laszip::ChunkTableEntry {
                    point_count: if spec.layout.variable() { k.count as u64 } else { cs as u64 },
                    byte_count: k.len,
                })
                .collect();
            let mut out = vec![0x5Au8; m * ps];
            let body = &data[8..p.table_pos as usize];
            let sel = c.chance(1, 2);
            let r = session(c, |_| {
                Ok(if sel {
                    laz::par_decompress_selective(body, &mut out, &spec.vlr(), &ents, laz::DecompressionSelection::all())
                } else {
                    laz::par_decompress(body, &mut out, &spec.vlr(), &ents)
                })
            })?;
            if let Err(e) = r {
                bail!("read-error", "par_decompress for {m} of {} points: {e} ({})", spec.n, spec.describe());
            }
            same_points(&out, spec.slice(0, m), ps, 0, "par_decompress")?;
        }
    }
    if spec.n >= 2 {
        c.nontrivial();
    }
    Ok(())
}

/// An existing point, often at a chunk's edge.
pub fn draw_index(c: &mut Ctx, spec: &Spec) -> usize {
    let n = spec.n;
    match c.below(6) {
        0 => c.usize(n),
        1 => 0,
        2 => n - 1,
        3 => n.saturating_sub(1 + c.usize(8)).min(n - 1),
        _ => {
            let counts = spec.counts();
            let i = c.usize(counts.len());
            let b: usize = counts[..i].iter().sum();
            (b + c.usize(3)).saturating_sub(1).min(n - 1)
        }
    }
}

/// A drawn history of seeks and reads; returns how many seeks were followed by a read.
pub fn history(c: &mut Ctx, r: &mut Reader, spec: &Spec, mask: Option<&[u8]>, steps: usize) -> Res<u64> {
    let cs = typical_cs(spec);
    let mut pos = 0usize;
    let mut used = 0;
    if spec.n == 0 {
        return Ok(0);
    }
    let mut sought = false;
    for _ in 0..steps {
        if pos >= spec.n || c.chance(1, 2) {
            let i = draw_index(c, spec);
            c.log(|| format!("seek {i}"));
            if let Err(e) = r.seek(i as u64) {
                bail!("seek-error", "seek to {i} of {} failed: {e} ({})", spec.n, spec.describe());
            }
            pos = i;
            sought = true;
        }
        let k = draw_k(c, spec.n - pos, cs);
        let singly = k <= 40 && c.chance(1, 3);
        c.log(|| format!("read {k} at {pos}"));
        expect_read(r, spec, pos, k, singly, mask).map_err(|mut f| {
            f.msg = format!("{} ({})", f.msg, spec.describe());
            f
        })?;
        pos += k;
        if sought && k > 0 {
            used += 1;
            sought = false;
        }
    }
    Ok(used)
}

fn access(c: &mut Ctx, rd: Rd) -> Res {
    draw_base(c);
    let spec = draw_spec(c, &Want { max: 700, min: 1, huge: true, ..Default::default() });
    let prefix = drawn_prefix(c);
    let data = make_file(c, &spec, &prefix)?;
    let data = with_tail(c, data, 60);
    let p = draw_profile(c);
    let d = Disk::new(data).profile(p);
    let steps = 1 + c.usize(10);
    let body = |c: &mut Ctx| {
        let mut r = open_reader(c, rd, &d, prefix.len() as u64, &spec, None)?;
        history(c, &mut r, &spec, None, steps)
    };
    let used = match rd {
        Rd::Seq => guarded(|| body(c))??,
        Rd::Par => session(c, body)?,
    };
    absorb(c, &d);
    if used > 0 {
        c.nontrivial();
    }
    Ok(())
}

pub fn p07(c: &mut Ctx) -> Res {
    access(c, Rd::Seq)
}

pub fn p08(c: &mut Ctx) -> Res {
    access(c, Rd::Par)
}

pub fn p09(c: &mut Ctx) -> Res {
    draw_base(c);
    let spec = draw_spec(c, &Want { max: 400, huge: true, ..Default::default() });
    let prefix = drawn_prefix(c);
    let mut data = make_file(c, &spec, &prefix)?;
    let chunks = parse(&data, prefix.len() as u64, &spec.fmt, &spec.layout, spec.n)?.chunks.len();
    if c.chance(1, 2) {
        data.extend(junk(c, 6000));
    }
    let cs = typical_cs(&spec);
    let covered = match spec.layout {
        // the last chunk does not tell how many points it holds
        Layout::Fixed(k) if !spec.fmt.layered() => chunks * k as usize,
        _ => spec.n,
    };
    let rd = c.pick(&[Rd::Seq, Rd::Par]);
    let p = draw_profile(c);
    let d = Disk::new(data).profile(p);
    let steps = 2 + c.usize(10);
    let body = |c: &mut Ctx| -> Res<u64> {
        let mut r = open_reader(c, rd, &d, prefix.len() as u64, &spec, None)?;
        // None: the position is not defined until the next seek
        let mut pos = Some(0usize);
        let mut outside = false;
        let mut recovered = 0;
        for _ in 0..steps {
            match c.below(4) {
                // seek to an existing point and read on
                0 | 1 if spec.n > 0 => {
                    let i = draw_index(c, &spec);
                    c.log(|| format!("seek {i}"));
                    if let Err(e) = r.seek(i as u64) {
                        bail!("seek-error", "seek back to {i} of {} failed: {e} ({})", spec.n, spec.describe());
                    }
                    let k = draw_k(c, spec.n - i, cs);
                    let singly = k <= 40 && c.chance(1, 3);
                    c.log(|| format!("read {k} at {i}"));
                    expect_read(&mut r, &spec, i, k, singly, None).map_err(|mut f| {
                        f.msg = format!("{} (out-of-range request before: {outside}; {})", f.msg, spec.describe());
                        f
                    })?;
                    pos = Some(i + k);
                    if outside {
                        recovered += 1;
                    }
                }
                // ask for more than the table covers
                2 => {
                    let Some(at) = pos else { continue };
                    if covered - at.min(covered) > 3000 {
                        continue;
                    }
                    let k = covered - at + 1 + c.pick(&[0, 0, 1, 7, 60]);
                    let singly = c.chance(1, 4);
                    c.log(|| format!("read {k} at {at}, past the {covered} covered"));
                    // existing points asked for one by one still come
                    if let Ok(_) = read_k(&mut r, spec.ps, k, singly) {
                        bail!(
                            "invented",
                            "{rd:?}: {k} points at {at} returned, but the table covers only {covered} ({})",
                            spec.describe()
                        );
                    }
                    pos = None;
                    outside = true;
                }
                // seek outside and read
                _ => {
                    let i = match c.below(6) {
                        0 => covered as u64,
                        1 => covered as u64 + 1,
                        2 => (covered + cs) as u64,
                        3 => u64::MAX,
                        4 => covered as u64 + c.below(1 << 40),
                        // may be inside a last chunk that is not full: anything but harm
                        _ => spec.n as u64 + c.below(4),
                    };
                    let inside_last = i < covered as u64;
                    c.log(|| format!("seek {i}, past the {covered} covered"));
                    let s = r.seek(i);
                    let k = 1 + c.usize(3);
                    c.log(|| format!("read {k}, seek said {s:?}"));
                    let got = read_k(&mut r, spec.ps, k, false);
                    if got.is_ok() && s.is_ok() && !inside_last {
                        bail!("invented", "{rd:?}: seek to {i} and reading {k} points succeeded, the table covers {covered} ({})", spec.describe());
                    }
                    pos = None;
                    outside = true;
                }
            }
        }
        Ok(recovered)
    };
    let rec = match rd {
        Rd::Seq => guarded(|| body(c))??,
        Rd::Par => session(c, body)?,
    };
    absorb(c, &d);
    if rec > 0 {
        c.nontrivial();
    }
    Ok(())
}

pub fn p19(c: &mut Ctx) -> Res {
    draw_base(c);
    let no_seek = c.chance(1, 2);
    let spec = if no_seek {
        let mut s = draw_spec(c, &Want { max: 500, lay: Lay::All, huge: true, ..Default::default() });
        if s.layout.variable() && !s.fmt.layered() {
            s.layout = Layout::Fixed(draw_chunk_size(c, s.n).max((s.n / 160) as u32 + 1));
        }
        s
    } else {
        draw_spec(c, &Want { max: 500, huge: true, ..Default::default() })
    };
    let prefix = drawn_prefix(c);
    let start = prefix.len();
    let mut data = make_file(c, &spec, &prefix)?;
    if no_seek {
        let tells = c.chance(1, 3);
        let p = draw_profile(c);
        if !spec.layout.single() && c.chance(1, 3) {
            // as such writers leave it
            let tp = data[start..start + 8].to_vec();
            data[start..start + 8].copy_from_slice(&(-1i64).to_le_bytes());
            data.extend(tp);
        }
        let d = Disk::new(data).profile(p).with(|i| {
            i.seekable = false;
            i.tells = tells;
        });
        c.log(|| format!("source cannot seek, tells its position: {tells}"));
        // empty groups end a layered file's chunk sequence only through the table
        guarded(|| -> Res {
            let mut r = open_reader(c, Rd::Seq, &d, start as u64, &spec, None)?;
            read_through(c, &mut r, &spec, None)
        })??;
        absorb(c, &d);
        c.count("sources that cannot seek", 1);
        if spec.n >= 2 {
            c.nontrivial();
        }
        return Ok(());
    }
    let tp = data[start..start + 8].to_vec();
    let slot = c.pick(&[-1i64, 0, i64::MIN, start as i64 + base() as i64]);
    data[start..start + 8].copy_from_slice(&slot.to_le_bytes());
    if c.chance(1, 3) {
        data.extend(junk(c, 40));
    }
    data.extend(tp);
    c.log(|| format!("slot holds {slot}, table position is in the last eight bytes"));
    c.count("tables found through the last eight bytes", 1);
    let rd = c.pick(&[Rd::Seq, Rd::Par]);
    let p = draw_profile(c);
    let d = Disk::new(data.clone()).profile(p);
    let steps = c.usize(6);
    let body = |c: &mut Ctx| -> Res {
        let mut r = open_reader(c, rd, &d, start as u64, &spec, None)?;
        if steps == 0 {
            read_through(c, &mut r, &spec, None)
        } else {
            history(c, &mut r, &spec, None, steps).map(|_| ())
        }
    };
    match rd {
        Rd::Seq => guarded(|| body(c))??,
        Rd::Par => session(c, body)?,
    };
    absorb(c, &d);
    if spec.n >= 2 {
        c.nontrivial();
    }
    Ok(())
}

pub fn p20(c: &mut Ctx) -> Res {
    let fam = if c.chance(1, 8) { Family::Pointwise } else { Family::Layered };
    let spec = draw_spec(c, &Want { fam, max: 500, lay: Lay::All, huge: true, ..Default::default() });
    let sel = match c.below(5) {
        0 => 0,
        1 => 1 << c.below(12),
        2 => 0xfff & !(1 << c.below(12)),
        3 => u32::MAX,
        _ => c.below(1 << 12) as u32,
    };
    let mask = spec.fmt.mask(sel);
    c.log(|| format!("selection {sel:#014b}"));
    c.note(sel as u64);
    let prefix = drawn_prefix(c);
    let data = make_file(c, &spec, &prefix)?;
    let single = spec.layout.single();
    let rd = if single { Rd::Seq } else { c.pick(&[Rd::Seq, Rd::Par]) };
    let p = draw_profile(c);
    let no_seek = rd == Rd::Seq && (single || spec.fmt.layered() || !spec.layout.variable()) && c.chance(1, 6);
    let d = Disk::new(data).profile(p).with(|i| i.seekable = !no_seek);
    let steps = if single || no_seek { 0 } else { c.usize(6) };
    let body = |c: &mut Ctx| -> Res {
        let mut r = open_reader(c, rd, &d, prefix.len() as u64, &spec, Some(sel))?;
        if steps == 0 {
            read_through(c, &mut r, &spec, Some(&mask))
        } else {
            history(c, &mut r, &spec, Some(&mask), steps).map(|_| ())
        }
    };
    match rd {
        Rd::Seq => guarded(|| body(c))??,
        Rd::Par => session(c, body)?,
    };
    absorb(c, &d);
    let optional: u32 = spec.fmt.fields().iter().map(|f| f.sel).fold(0, |a, b| a | b);
    if spec.fmt.layered() && spec.n >= 2 && sel & optional != 0 && sel & optional != optional {
        c.nontrivial();
    }
    Ok(())
}
