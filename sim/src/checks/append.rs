use super::reading::{drawn_prefix, history};
use crate::ctx::{Ctx, Res};
use crate::disk::*;
use crate::files::*;
use crate::gen::*;
use crate::sess::{guarded, session};
use crate::{bail, ensure};
use std::io::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ap {
    Seq,
    Par,
}

/// One round: keep the first `keep` points, add `add` more by these calls.
#[derive(Clone, Debug)]
pub struct Round {
    pub ap: Ap,
    pub keep: usize,
    /// what the appender is told: `keep`, or more than there is
    pub ask: u64,
    pub add: usize,
    /// ranges relative to the added points
    pub segs: Vec<Seg>,
}

pub fn draw_round(c: &mut Ctx, ap: Ap, spec: &Spec, max_add: usize) -> Round {
    let n = spec.n;
    let keep = match c.below(6) {
        0..=2 => n,
        3 => n.saturating_sub(1),
        4 => c.size(n),
        _ => {
            // around a chunk edge
            let counts = spec.counts();
            if counts.is_empty() {
                0
            } else {
                let i = c.usize(counts.len());
                let b: usize = counts[..i].iter().sum();
                (b + c.usize(3)).saturating_sub(1).min(n)
            }
        }
    };
    // A number that is too large means all points, wherever the file itself tells how many
    // there are: not in a last pointwise chunk of unstated size.
    let known = match spec.layout {
        Layout::Fixed(k) => spec.fmt.layered() || n % (k as usize) == 0,
        _ => true,
    };
    let (keep, ask) = if known && c.chance(1, 10) {
        let over = c.pick(&[1, 2, typical_cs(spec) as u64, 1_000_000, u64::from(u32::MAX), u64::MAX - n as u64]);
        (n, n as u64 + over)
    } else {
        (keep, keep as u64)
    };
    let add = match c.below(6) {
        0 => 0,
        1 => 1.min(max_add),
        2 => typical_cs(spec).min(max_add),
        _ => c.size(max_add),
    };
    let add = match spec.layout {
        Layout::Fixed(k) => add.min((k as usize).saturating_mul(chunk_cap(c, &spec.fmt))),
        _ => add,
    };
    let mut segs = vec![];
    match spec.layout {
        Layout::Variable(_) => {
            let g = draw_groups(c, add);
            let mut p = 0;
            let ranges: Vec<(usize, usize)> = g
                .iter()
                .map(|x| {
                    let r = (p, p + x);
                    p += x;
                    r
                })
                .collect();
            let mut i = 0;
            while i < ranges.len() {
                if ap == Ap::Par || c.chance(1, 2) {
                    let k = 1 + c.usize(ranges.len() - i);
                    segs.push(Seg::Chunks(ranges[i..i + k].to_vec()));
                    i += k;
                } else {
                    let (a, b) = ranges[i];
                    let m = a + c.usize(b - a + 1);
                    segs.push(Seg::Many(a, m));
                    segs.push(Seg::Many(m, b));
                    i += 1;
                    if i < ranges.len() || c.chance(1, 2) {
                        segs.push(Seg::Finish);
                    }
                }
            }
        }
        _ => {
            let mut p = 0;
            let cs = typical_cs(spec);
            let mut calls = 0;
            while p < add {
                calls += 1;
                let left = add - p;
                let k = if calls > 8 { left } else { draw_k(c, left, cs).max(1) };
                if k == 1 && ap == Ap::Seq && c.chance(1, 2) {
                    segs.push(Seg::One(p));
                } else {
                    segs.push(Seg::Many(p, p + k));
                }
                p += k;
            }
            if c.chance(1, 8) {
                segs.push(Seg::Many(add, add));
            }
        }
    }
    c.log(|| format!("append {ap:?}: keep {keep} of {n} (told {ask}), add {add}: {segs:?}"));
    Round { ap, keep, ask, add, segs }
}

fn e<T, E: std::fmt::Display>(r: Result<T, E>, step: impl FnOnce() -> String) -> Result<T, WErr> {
    r.map_err(|x| WErr { step: step(), err: x.to_string() })
}

pub type BoxRW = Box<dyn Dst>;

/// Carries the round out up to and including the finishing call.
pub fn exec_round(r: &Round, vlr: laz::LazVlr, dst: BoxRW, pts: &[u8], ps: usize) -> Result<BoxRW, WErr> {
    let s = |a: usize, b: usize| &pts[a * ps..b * ps];
    match r.ap {
        Ap::Seq => {
            let mut w = e(laz::LasZipAppender::new(dst, vlr, r.ask), || format!("LasZipAppender::new({})", r.ask))?;
            for g in &r.segs {
                match g {
                    Seg::One(i) => e(w.compress_one(s(*i, *i + 1)), || format!("{g:?}"))?,
                    Seg::Many(a, b) => e(w.compress_many(s(*a, *b)), || format!("{g:?}"))?,
                    Seg::Chunks(v) => e(w.compress_chunks(v.iter().map(|(a, b)| s(*a, *b))), || format!("{g:?}"))?,
                    Seg::Finish => e(w.finish_current_chunk(), || format!("{g:?}"))?,
                    Seg::Reserve => {}
                }
            }
            e(w.done(), || "done".into())?;
            Ok(w.into_inner())
        }
        Ap::Par => {
            let mut w = e(laz::ParLasZipAppender::new(dst, vlr, r.ask), || format!("ParLasZipAppender::new({})", r.ask))?;
            for g in &r.segs {
                match g {
                    Seg::One(i) => e(w.compress_many(s(*i, *i + 1)), || format!("{g:?}"))?,
                    Seg::Many(a, b) => e(w.compress_many(s(*a, *b)), || format!("{g:?}"))?,
                    Seg::Chunks(v) => {
                        let v: Vec<&[u8]> = v.iter().map(|(a, b)| s(*a, *b)).collect();
                        e(w.compress_chunks(v), || format!("{g:?}"))?
                    }
                    Seg::Finish | Seg::Reserve => {}
                }
            }
            e(w.done(), || "done".into())?;
            Ok(w.into_inner())
        }
    }
}

fn sub_spec(spec: &Spec, n: usize) -> Spec {
    let layout = match &spec.layout {
        Layout::Variable(g) => {
            let mut left = n;
            let mut v = vec![];
            for &x in g {
                let k = x.min(left);
                v.push(k);
                left -= k;
            }
            while v.last() == Some(&0) {
                v.pop();
            }
            Layout::Variable(v)
        }
        l => l.clone(),
    };
    Spec { fmt: spec.fmt, layout, n, pts: spec.slice(0, n).to_vec(), ps: spec.ps }
}

/// What the file must hold after a round; the groups are taken from the file's table.
pub fn after_round(spec: &Spec, r: &Round, new: &[u8]) -> Spec {
    let mut pts = spec.slice(0, r.keep).to_vec();
    pts.extend_from_slice(new);
    Spec { fmt: spec.fmt, layout: spec.layout.clone(), n: r.keep + r.add, pts, ps: spec.ps }
}

/// Checks table and points with frozen code and fixes the group sizes of `spec`.
pub fn settle(data: &[u8], start: u64, spec: &mut Spec) -> Res<Parsed> {
    let p = parse(data, start, &spec.fmt, &spec.layout, spec.n)?;
    same_points(&p.points(), &spec.pts, spec.ps, 0, "frozen decoder after appending")?;
    if spec.layout.variable() {
        spec.layout = Layout::Variable(p.chunks.iter().map(|k| k.count).collect());
    }
    Ok(p)
}

/// Runs one round on the medium. Must be called inside a session for parallel rounds.
fn run_round(c: &mut Ctx, d: &Disk, start: u64, spec: &Spec, r: &Round, new: &[u8], tail: &[u8], fresh: bool) -> Res {
    let f = d.open(start);
    let _ = c;
    match exec_round(r, spec.vlr(), Box::new(f), new, spec.ps) {
        Ok(mut w) => {
            if let Err(e) = w.flush() {
                bail!("write-error", "flush: {e}");
            }
            super::writing::end_position(&mut w, d, start, spec, fresh, tail)
        }
        Err(x) => bail!("write-error", "{:?}: {} failed: {} (keeping {} of {}, adding {}; {})", r.ap, x.step, x.err, r.keep, spec.n, r.add, spec.describe()),
    }
}

/// Writes a drawn part of the points, appends the rest in drawn rounds.
pub fn appended_file(c: &mut Ctx, spec: Spec, medium: &[u8], start: usize) -> Res<(Vec<u8>, Spec)> {
    let first = c.size(spec.n);
    let mut cur = sub_spec(&spec, first);
    let base = write_ref(&cur, &medium[..start]);
    let mut m = base.clone();
    if medium.len() > m.len() {
        m.extend_from_slice(&medium[base.len()..]);
    }
    let mut data = m;
    let mut done = first;
    let mut rounds = 0;
    while done < spec.n || rounds == 0 {
        rounds += 1;
        let ap = c.pick(&[Ap::Seq, Ap::Par]);
        let left = spec.n - done;
        let mut r = draw_round(c, ap, &cur, left);
        if r.add == 0 && rounds > 3 {
            r.add = left;
            r.segs = if cur.layout.variable() { vec![Seg::Chunks(vec![(0, left)])] } else { vec![Seg::Many(0, left)] };
        }
        let new = spec.slice(done, done + r.add).to_vec();
        done += r.add;
        let p = draw_profile(c);
        let d = Disk::new(data).profile(p);
        session(c, |c| run_round(c, &d, start as u64, &cur, &r, &new, &[], false))?;
        absorb(c, &d);
        data = d.data();
        cur = after_round(&cur, &r, &new);
        settle(&data, start as u64, &mut cur)?;
        if rounds > 6 {
            break;
        }
    }
    Ok((data, cur))
}

pub fn p11_append(c: &mut Ctx) -> Res {
    let spec = draw_spec(c, &Want { max: 400, ..Default::default() });
    let prefix = junk(c, 3000);
    let start = prefix.len();
    let data = make_file(c, &spec, &prefix)?;
    let ap = c.pick(&[Ap::Seq, Ap::Par]);
    let r = draw_round(c, ap, &spec, 300);
    let new = draw_points(c, &spec.fmt.clone(), r.add);
    // chunks wholly before the last kept point stay as they are
    let parsed = parse(&data, start as u64, &spec.fmt, &spec.layout, spec.n)?;
    let kept_end = kept_end(&parsed, r.keep, start);
    let guards = vec![
        (0u64, prefix.clone()),
        (start as u64 + 8, data[start + 8..kept_end].to_vec()),
    ];
    let p = draw_profile(c);
    let d = Disk::new(data).profile(p).with(|i| i.guards = guards);
    let tail = junk(c, 40);
    session(c, |c| run_round(c, &d, start as u64, &spec, &r, &new, &tail, false))?;
    if let Some(g) = d.lock().guard_hit.clone() {
        bail!("foreign", "{:?}: {g} ({})", r.ap, spec.describe());
    }
    absorb(c, &d);
    let mut after = after_round(&spec, &r, &new);
    settle(&d.data(), start as u64, &mut after)?;
    if start > 0 || kept_end > start + 8 {
        c.nontrivial();
    }
    Ok(())
}

/// End of the chunks that lie wholly before the chunk of the last kept point.
pub fn kept_end(p: &Parsed, keep: usize, start: usize) -> usize {
    let mut end = start + 8;
    let mut n = 0;
    for k in &p.chunks {
        if n + k.count >= keep {
            break;
        }
        n += k.count;
        end = (k.off + k.len) as usize;
    }
    end
}

fn rounds(c: &mut Ctx, par: bool) -> Res {
    draw_base(c);
    let spec = draw_spec(c, &Want { max: 350, huge: true, ..Default::default() });
    let prefix = drawn_prefix(c);
    let start = prefix.len() as u64;
    let mut data = make_file(c, &spec, &prefix)?;
    let mut cur = spec;
    let k = 1 + c.usize(4);
    let mut real = false;
    let at_end = c.chance(1, 6);
    for i in 0..k {
        let ap = if !par {
            Ap::Seq
        } else if c.chance(1, 4) {
            Ap::Seq
        } else {
            Ap::Par
        };
        if at_end && i == 0 {
            // a first writer that left the table position behind the table
            let s = start as usize;
            let tp = data[s..s + 8].to_vec();
            data[s..s + 8].copy_from_slice(&(-1i64).to_le_bytes());
            data.extend(tp);
        }
        let r = draw_round(c, ap, &cur, 250);
        let new = draw_points(c, &cur.fmt.clone(), r.add);
        let p = draw_profile(c);
        let d = Disk::new(data).profile(p);
        if ap == Ap::Seq {
            guarded(|| run_round(c, &d, start, &cur, &r, &new, &[], false))??;
        } else {
            session(c, |c| run_round(c, &d, start, &cur, &r, &new, &[], false))?;
        }
        absorb(c, &d);
        data = d.data();
        if r.keep > 0 && r.add > 0 && (!par || ap == Ap::Par) {
            real = true;
        }
        cur = after_round(&cur, &r, &new);
        settle(&data, start, &mut cur)?;
        if c.chance(1, 5) {
            data.extend(junk(c, 30));
        }
    }
    // every way of reading
    for rd in [Rd::Seq, Rd::Par] {
        let p = draw_profile(c);
        let d = Disk::new(data.clone()).profile(p);
        let steps = c.usize(6);
        session(c, |c| {
            let mut r = super::reading::open_reader(c, rd, &d, start, &cur, None)?;
            if steps == 0 || cur.n == 0 {
                read_through(c, &mut r, &cur, None)
            } else {
                history(c, &mut r, &cur, None, steps).map(|_| ())
            }
        })?;
        absorb(c, &d);
    }
    if real {
        c.nontrivial();
    }
    Ok(())
}

pub fn p12(c: &mut Ctx) -> Res {
    rounds(c, false)
}

pub fn p13(c: &mut Ctx) -> Res {
    rounds(c, true)
}

/// Where a reader will look for the table, as the format defines it.
pub fn resolve_table(data: &[u8], start: usize) -> Option<i64> {
    if data.len() < start + 8 {
        return None;
    }
    let s = stored_pos(data, start);
    if s > start as i64 {
        return Some(s);
    }
    let l = data.len();
    let s = stored_pos(data, l - 8);
    if s > start as i64 {
        Some(s)
    } else {
        None
    }
}

/// Reads one point after the other until an error or all; returns how many came, all right.
pub fn read_prefix(data: &[u8], start: usize, spec: &Spec, want: usize, c: &mut Ctx) -> Res<(usize, String)> {
    let d = Disk::new(data.to_vec());
    let src: BoxSrc = Box::new(d.open(start as u64));
    let mut r = match Reader::open(Rd::Seq, src, spec.vlr()) {
        Ok(r) => r,
        Err(e) => return Ok((0, format!("opening: {e}"))),
    };
    let mut got = 0;
    let mut out = vec![0u8; spec.ps];
    let mut why = String::new();
    for i in 0..want {
        match r.one(&mut out) {
            Ok(()) => {
                ensure!(
                    out == spec.point(i),
                    "wrong-point",
                    "point {i} is wrong: got {out:02x?} want {:02x?} ({})",
                    spec.point(i),
                    spec.describe()
                );
                got += 1;
            }
            Err(e) => {
                why = e;
                break;
            }
        }
    }
    drop(r);
    absorb(c, &d);
    Ok((got, why))
}

pub fn p14(c: &mut Ctx) -> Res {
    draw_base(c);
    let lay = if c.chance(1, 4) { Lay::Variable } else { Lay::Fixed };
    let spec = draw_spec(c, &Want { max: 350, min: 1, lay, ..Default::default() });
    let prefix = drawn_prefix(c);
    let start = prefix.len();
    let data = make_file(c, &spec, &prefix)?;
    let parsed = parse(&data, start as u64, &spec.fmt, &spec.layout, spec.n)?;
    let ap = c.pick(&[Ap::Seq, Ap::Par]);
    let r = draw_round(c, ap, &spec, 250);
    let new = draw_points(c, &spec.fmt.clone(), r.add);
    let prof = draw_profile(c);
    // how many operations an undisturbed append takes
    let d0 = Disk::new(data.clone()).profile(prof.clone());
    let dry = crate::sess::session_with(c, 1, 256, 0, 0, |_| Ok(exec_round(&r, spec.vlr(), Box::new(d0.open(start as u64)), &new, spec.ps).is_ok()));
    // an append that fails undisturbed is the business of P12 and P13
    if !matches!(dry, Ok(true)) {
        c.count("undisturbed append failed (left to P12 and P13)", 1);
        return Ok(());
    }
    let ops = d0.ops();
    let ats = if ops > 0 && spec.n <= 350 && c.chance(1, 40) { super::faults::each_op(c, ops) } else { vec![c.below(ops + 1)] };
    let crash = c.chance(1, 2);
    let torn = match c.below(3) {
        0 => 0,
        1 => c.below(9),
        _ => c.below(2000),
    };
    let kind = c.pick(&[
        FaultKind::Err(std::io::ErrorKind::Other),
        FaultKind::ShortThenErr(std::io::ErrorKind::Other),
        FaultKind::Zero,
    ]);
    let v = c.verbose;
    for at in ats {
        let d = Disk::new(data.clone()).profile(prof.clone()).with(|i| {
            if v {
                i.log = Some(vec![]);
            }
            if crash {
                i.crash_at = Some((at, torn));
            } else {
                i.faults = vec![Fault { at, kind, times: u64::MAX }];
            }
        });
        c.log(|| format!("{} at operation {at} of {ops}, torn {torn}, kind {kind:?}", if crash { "crash" } else { "failure" }));
        let done = session(c, |_| Ok(exec_round(&r, spec.vlr(), Box::new(d.open(start as u64)), &new, spec.ps).is_ok()))?;
        absorb(c, &d);
        let medium = d.data();
        let struck = d.lock().crashed || d.lock().fired > 0;
        let ke = kept_end(&parsed, r.keep, start);
        ensure!(
            medium.len() >= ke && medium[start + 8..ke] == data[start + 8..ke] && medium[..start] == data[..start],
            "kept-bytes",
            "{:?}: bytes of kept chunks changed by an append stopped at operation {at} (keeping {} of {} points; {})",
            r.ap,
            r.keep,
            spec.n,
            spec.describe()
        );
        let kept_points: usize = parsed.chunks.iter().filter(|k| ((k.off + k.len) as usize) <= ke && k.count > 0).map(|k| k.count).sum();
        let kept_points = kept_points.min(r.keep);
        if done {
            let mut after = after_round(&spec, &r, &new);
            settle(&medium, start as u64, &mut after)?;
        } else if !spec.layout.variable() && kept_points > 0 {
            let (got, why) = guarded(|| read_prefix(&medium, start, &spec, kept_points, c))??;
            // bytes that happen to look like a table position can make opening fail
            let slot = stored_pos(&medium, start);
            let old = stored_pos(&data, start);
            let by_accident = slot != old && resolve_table(&medium, start).map(|t| (t as usize) < medium.len() && t != slot || t == slot && !plausible(&d0, start, slot)).unwrap_or(false);
            if by_accident {
                c.count("chance table positions (completeness not required)", 1);
            } else {
                ensure!(
                    got == kept_points,
                    "lost",
                    "{:?}: only {got} of the {kept_points} points of kept chunks can be read after an append stopped at operation {at} of {ops}: {why} ({})",
                    r.ap,
                    spec.describe()
                );
            }
        }
        if struck && kept_points > 0 {
            c.nontrivial();
        }
    }
    Ok(())
}

/// The table position the undisturbed append ends with.
fn plausible(finished: &Disk, start: usize, slot: i64) -> bool {
    let d = finished.data();
    stored_pos(&d, start) == slot
}

