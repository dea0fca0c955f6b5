//! Writing and reading files through every interface, and the independent view of a file.

use crate::ctx::{fail, Ctx, Res};
use crate::disk::*;
use crate::gen::*;
use crate::{bail, ensure};
use laz::laszip::LazCompressor;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

pub trait Wr: Write + Seek + Send + Sync {}
impl<T: Write + Seek + Send + Sync> Wr for T {}
pub type BoxW = Box<dyn Wr>;

pub fn draw_profile(c: &mut Ctx) -> Profile {
    if !c.chance(3, 5) {
        return Profile::calm();
    }
    let seed = c.seed();
    let max_chunk = c.pick(&[0u64, 1000, 97, 13, 3, 1]);
    // a transfer for every few bytes of megabytes takes too long
    let max_chunk = if c.huge && max_chunk > 0 { max_chunk.max(500) } else { max_chunk };
    let short_rate = if max_chunk == 0 { 0 } else { c.pick(&[20u64, 100, 200, 256]) };
    let intr_rate = c.pick(&[0u64, 0, 10, 60]);
    c.log(|| format!("stream: transfers of at most {max_chunk} bytes at rate {short_rate}/256, interruptions at {intr_rate}/256, seed {seed}"));
    Profile { seed, max_chunk, short_rate, intr_rate }
}

/// Sometimes the medium lies far into a big stream.
pub fn draw_base(c: &mut Ctx) {
    if !c.chance(1, 4) {
        return;
    }
    let b = match c.below(6) {
        0 => (1u64 << 32) - 1 - c.below(3000),
        1 => (1u64 << 31) - 1 - c.below(3000),
        2 => 1 << 32,
        3 => 1 << 40,
        4 => (1 << 62) + c.below(1 << 32),
        _ => c.below(1 << 44),
    };
    c.log(|| format!("the medium lies at {b} of the stream"));
    c.count("media far into a stream", 1);
    set_base(b);
}

pub fn absorb(c: &mut Ctx, d: &Disk) {
    let i = d.lock();
    c.count("reads", i.n_read);
    c.count("writes", i.n_write);
    c.count("seeks", i.n_seek);
    c.count("fault: short transfer", i.n_short);
    c.count("fault: interruption", i.n_intr);
    c.count("fault: injected failure", i.fired - i.n_enospc);
    c.count("fault: disk full", i.n_enospc);
    if i.crashed {
        c.count("fault: crash", 1);
    }
    c.note(i.ops);
    if let (true, Some(l)) = (c.verbose, &i.log) {
        for s in l {
            c.trace.push(s.clone());
        }
    }
}

/// A readable handle, sometimes buffered as a user would have it.
pub fn open_src(c: &mut Ctx, d: &Disk, pos: u64) -> BoxSrc {
    let f = d.open(pos);
    if c.chance(1, 4) {
        let cap = c.pick(&[8192usize, 64, 7, 1]);
        c.log(|| format!("source behind a BufReader of {cap} bytes"));
        Box::new(std::io::BufReader::with_capacity(cap, f))
    } else {
        Box::new(f)
    }
}

pub fn open_dst(c: &mut Ctx, d: &Disk, pos: u64) -> BoxW {
    let f = d.open(pos);
    if c.chance(1, 4) {
        let cap = c.pick(&[8192usize, 64, 7, 1]);
        c.log(|| format!("destination behind a BufWriter of {cap} bytes"));
        Box::new(std::io::BufWriter::with_capacity(cap, f))
    } else {
        Box::new(f)
    }
}

// ---------------------------------------------------------------------------------------------
// Writing

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Via {
    Seq,
    SeqBuf,
    Par,
    ParBuf,
}

#[derive(Clone, Debug)]
pub enum Seg {
    Reserve,
    One(usize),
    Many(usize, usize),
    Finish,
    Chunks(Vec<(usize, usize)>),
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub via: Via,
    pub segs: Vec<Seg>,
    /// use the trait methods instead of the inherent ones
    pub by_trait: bool,
}

pub fn draw_via(c: &mut Ctx, spec: &Spec) -> Via {
    match spec.layout {
        Layout::Fixed(_) => c.pick(&[Via::Seq, Via::Seq, Via::Par, Via::Par, Via::SeqBuf, Via::ParBuf]),
        _ => c.pick(&[Via::Seq, Via::Par]),
    }
}

/// Splits a..b into calls.
fn split(c: &mut Ctx, a: usize, b: usize, cs: usize, out: &mut Vec<Seg>) {
    let mut p = a;
    let style = c.below(4);
    let mut calls = 0;
    while p < b {
        calls += 1;
        let left = b - p;
        let k = if style == 0 || calls > 40 {
            left
        } else {
            match c.below(6) {
                0 => left,
                1 => 1,
                2 => c.size(left).max(1),
                3 => cs.min(left),
                4 => (cs.saturating_sub(1)).clamp(1, left),
                _ => (cs + 1).min(left),
            }
        };
        if style == 3 && c.chance(1, 6) {
            out.push(Seg::Many(p, p));
        }
        if k == 1 && c.chance(1, 2) {
            out.push(Seg::One(p));
        } else {
            out.push(Seg::Many(p, p + k));
        }
        p += k;
    }
}

pub fn draw_plan(c: &mut Ctx, spec: &Spec, via: Via) -> Plan {
    let mut segs = vec![];
    if matches!(via, Via::SeqBuf | Via::ParBuf) {
        return Plan { via, segs, by_trait: false };
    }
    let by_trait = c.chance(1, 4);
    if c.chance(1, 3) {
        segs.push(Seg::Reserve);
    }
    match &spec.layout {
        Layout::Single(_) => unreachable!(),
        Layout::Fixed(k) => split(c, 0, spec.n, *k as usize, &mut segs),
        Layout::Variable(g) => {
            let mut ranges = vec![];
            let mut p = 0;
            for &x in g {
                ranges.push((p, p + x));
                p += x;
            }
            let mut i = 0;
            while i < ranges.len() {
                let as_chunks = via == Via::Par || c.chance(1, 2);
                if as_chunks {
                    let k = 1 + c.usize(ranges.len() - i);
                    let k = if c.chance(1, 2) { k } else { ranges.len() - i };
                    segs.push(Seg::Chunks(ranges[i..i + k].to_vec()));
                    i += k;
                } else {
                    let (a, b) = ranges[i];
                    split(c, a, b, 10, &mut segs);
                    i += 1;
                    if i < ranges.len() || c.chance(1, 2) {
                        segs.push(Seg::Finish);
                    }
                }
            }
        }
    }
    c.log(|| format!("writer {via:?}: {}", brief(&segs)));
    Plan { via, segs, by_trait }
}

fn brief(s: &[Seg]) -> String {
    let mut o: Vec<String> = s.iter().take(30).map(|x| format!("{x:?}")).collect();
    if s.len() > 30 {
        o.push(format!("... {} calls", s.len()));
    }
    o.join(" ")
}

pub struct WErr {
    pub step: String,
    pub err: String,
}

fn e<T, E: std::fmt::Display>(r: Result<T, E>, step: impl FnOnce() -> String) -> Result<T, WErr> {
    r.map_err(|x| WErr { step: step(), err: x.to_string() })
}

/// Carries the plan out up to and including the finishing call.
pub fn exec_plan(plan: &Plan, spec: &Spec, mut dst: BoxW) -> Result<BoxW, WErr> {
    let vlr = spec.vlr();
    match plan.via {
        Via::SeqBuf => {
            e(laz::compress_buffer(&mut dst, &spec.pts, vlr), || "compress_buffer".into())?;
            Ok(dst)
        }
        Via::ParBuf => {
            e(laz::par_compress_buffer(&mut dst, &spec.pts, &vlr), || "par_compress_buffer".into())?;
            Ok(dst)
        }
        Via::Seq => {
            let mut w = e(laz::LasZipCompressor::new(dst, vlr), || "new".into())?;
            for s in &plan.segs {
                match s {
                    Seg::Reserve if plan.by_trait => e(LazCompressor::reserve_offset_to_chunk_table(&mut w), || format!("{s:?}"))?,
                    Seg::Reserve => e(w.reserve_offset_to_chunk_table(), || format!("{s:?}"))?,
                    Seg::One(i) if plan.by_trait => e(LazCompressor::compress_one(&mut w, spec.point(*i)), || format!("{s:?}"))?,
                    Seg::One(i) => e(w.compress_one(spec.point(*i)), || format!("{s:?}"))?,
                    Seg::Many(a, b) if plan.by_trait => e(LazCompressor::compress_many(&mut w, spec.slice(*a, *b)), || format!("{s:?}"))?,
                    Seg::Many(a, b) => e(w.compress_many(spec.slice(*a, *b)), || format!("{s:?}"))?,
                    Seg::Finish => e(w.finish_current_chunk(), || format!("{s:?}"))?,
                    Seg::Chunks(v) => e(w.compress_chunks(v.iter().map(|(a, b)| spec.slice(*a, *b))), || format!("{s:?}"))?,
                }
            }
            if plan.by_trait {
                e(LazCompressor::done(&mut w), || "done".into())?;
            } else {
                e(w.done(), || "done".into())?;
            }
            Ok(w.into_inner())
        }
        Via::Par => {
            let mut w = e(laz::ParLasZipCompressor::new(dst, vlr), || "new".into())?;
            for s in &plan.segs {
                match s {
                    Seg::Reserve => e(w.reserve_offset_to_chunk_table(), || format!("{s:?}"))?,
                    Seg::One(i) => e(LazCompressor::compress_one(&mut w, spec.point(*i)), || format!("{s:?}"))?,
                    Seg::Many(a, b) if plan.by_trait => e(LazCompressor::compress_many(&mut w, spec.slice(*a, *b)), || format!("{s:?}"))?,
                    Seg::Many(a, b) => e(w.compress_many(spec.slice(*a, *b)), || format!("{s:?}"))?,
                    Seg::Finish => unreachable!(),
                    Seg::Chunks(v) => {
                        let v: Vec<&[u8]> = v.iter().map(|(a, b)| spec.slice(*a, *b)).collect();
                        e(w.compress_chunks(v), || format!("{s:?}"))?
                    }
                }
            }
            e(w.done(), || "done".into())?;
            Ok(w.into_inner())
        }
    }
}

/// Writes with the current code into memory behind `prefix`; any failure is a violation.
pub fn write_plain(c: &mut Ctx, spec: &Spec, plan: &Plan, prefix: &[u8]) -> Res<Vec<u8>> {
    let d = Disk::new(prefix.to_vec());
    let dst: BoxW = Box::new(d.open(prefix.len() as u64));
    match exec_plan(plan, spec, dst) {
        Ok(_) => {}
        Err(x) => bail!("write-error", "{} failed on a perfect stream: {} ({})", x.step, x.err, spec.describe()),
    }
    absorb(c, &d);
    Ok(d.data())
}

/// The same file as the frozen encoder of the released format writes it.
pub fn write_ref(spec: &Spec, prefix: &[u8]) -> Vec<u8> {
    let mut v = write_ref_at_0(spec, prefix);
    if !spec.layout.single() {
        let s = prefix.len();
        let t = i64::from_le_bytes(v[s..s + 8].try_into().unwrap()) + base() as i64;
        v[s..s + 8].copy_from_slice(&t.to_le_bytes());
    }
    v
}

fn write_ref_at_0(spec: &Spec, prefix: &[u8]) -> Vec<u8> {
    let mut cur = Cursor::new(prefix.to_vec());
    cur.seek(SeekFrom::End(0)).unwrap();
    if spec.layout.single() {
        // one chunk, no slot, no table
        let s2 = Spec { layout: Layout::Fixed(spec.n.max(1) as u32 + 1), ..spec.clone() };
        let all = write_ref_at_0(&s2, &[]);
        let t = i64::from_le_bytes(all[..8].try_into().unwrap()) as usize;
        let mut o = prefix.to_vec();
        if spec.n > 0 {
            o.extend_from_slice(&all[8..t]);
        }
        return o;
    }
    let mut w = laz_ref::LasZipCompressor::new(cur, spec.ref_vlr()).unwrap();
    w.reserve_offset_to_chunk_table().unwrap();
    match &spec.layout {
        Layout::Variable(g) => {
            let mut p = 0;
            let k = g.len();
            for (i, &x) in g.iter().enumerate() {
                w.compress_many(spec.slice(p, p + x)).unwrap();
                p += x;
                if i + 1 < k {
                    w.finish_current_chunk().unwrap();
                }
            }
        }
        _ => w.compress_many(&spec.pts).unwrap(),
    }
    w.done().unwrap();
    w.into_inner().into_inner()
}

/// A finished file of any origin, for checks that read.
pub fn make_file(c: &mut Ctx, spec: &Spec, prefix: &[u8]) -> Res<Vec<u8>> {
    if spec.layout.single() || c.chance(1, 2) {
        c.count("inputs written by the frozen encoder", 1);
        return Ok(write_ref(spec, prefix));
    }
    // one of the current writers, on one simulated thread
    let via = draw_via(c, spec);
    let plan = draw_plan(c, spec, via);
    let r = crate::sess::session_with(c, 1, 256, 0, 0, |c| write_plain(c, spec, &plan, prefix));
    // A broken writer is the business of the writers' properties: readers get a good file.
    let start = prefix.len() as u64;
    match r {
        Ok(d) if matches!(crate::sess::guarded(|| verify_file(&d, start, spec)), Ok(Ok(_))) => Ok(d),
        _ => {
            c.count("inputs replaced because the writer failed", 1);
            Ok(write_ref(spec, prefix))
        }
    }
}

pub fn junk(c: &mut Ctx, max: usize) -> Vec<u8> {
    let n = c.size(max);
    let seed = c.seed();
    let mut r = crate::tape::Rng::new(seed);
    (0..n).map(|_| r.next() as u8).collect()
}

// ---------------------------------------------------------------------------------------------
// The independent view

#[derive(Clone, Debug)]
pub struct Chunk {
    pub off: u64,
    pub len: u64,
    pub count: usize,
    pub pts: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Parsed {
    pub table_pos: u64,
    pub chunks: Vec<Chunk>,
}

impl Parsed {
    pub fn points(&self) -> Vec<u8> {
        self.chunks.iter().flat_map(|c| c.pts.iter().copied()).collect()
    }
    /// without chunks that hold no points
    pub fn counts_nonempty(&self) -> Vec<usize> {
        self.chunks.iter().map(|c| c.count).filter(|c| *c > 0).collect()
    }
}

pub fn ref_decode_chunk(vlr: &laz_ref::LazVlr, layered: bool, data: &[u8], count: usize) -> Result<Vec<u8>, String> {
    use laz_ref::record::*;
    let ps = vlr.items_size() as usize;
    let mut out = vec![0u8; ps * count];
    if count == 0 {
        return Ok(out);
    }
    let cur = Cursor::new(data);
    let r = if layered {
        let mut d = LayeredPointRecordDecompressor::new(cur);
        d.set_fields_from(vlr.items()).map_err(|e| e.to_string())?;
        d.decompress_many(&mut out)
    } else {
        let mut d = SequentialPointRecordDecompressor::new(cur);
        d.set_fields_from(vlr.items()).map_err(|e| e.to_string())?;
        d.decompress_many(&mut out)
    };
    r.map_err(|e| e.to_string())?;
    Ok(out)
}

/// A table position as stored at `at`, as a position on the medium.
pub fn stored_pos(data: &[u8], at: usize) -> i64 {
    i64::from_le_bytes(data[at..at + 8].try_into().unwrap()).saturating_sub(base() as i64)
}

/// Reads a file (not of the single-chunk form) with frozen code only, chunk by chunk.
/// `n` is the number of points the file must hold; every claim the table makes is checked.
pub fn parse(data: &[u8], start: u64, spec_fmt: &Fmt, layout: &Layout, n: usize) -> Res<Parsed> {
    let s = start as usize;
    ensure!(data.len() >= s + 8, "table", "file of {} bytes has no table slot at {s}", data.len());
    let tp = stored_pos(data, s);
    ensure!(
        tp >= start as i64 + 8 && (tp as usize) + 8 <= data.len(),
        "table",
        "stored table position {tp} is outside the file (data start {s}, file {} bytes)",
        data.len()
    );
    let vb = layout.vlr_bytes(spec_fmt);
    let vlr = laz_ref::LazVlr::read_from(&vb[..]).unwrap();
    let mut cur = Cursor::new(data);
    cur.set_position(tp as u64);
    let nchunks = u32::from_le_bytes(data[tp as usize + 4..tp as usize + 8].try_into().unwrap());
    ensure!((nchunks as usize) < data.len(), "table", "table claims {nchunks} chunks");
    let table = match laz_ref::laszip::ChunkTable::read(&mut cur, layout.variable()) {
        Ok(t) => t,
        Err(e) => bail!("table", "chunk table at {tp} cannot be read: {e}"),
    };
    let mut chunks = vec![];
    let mut off = start + 8;
    let k = table.len();
    let mut left = n;
    for i in 0..k {
        let ent = table[i];
        let count = match layout {
            Layout::Variable(_) => ent.point_count as usize,
            Layout::Fixed(c) => (*c as usize).min(left),
            Layout::Single(_) => unreachable!(),
        };
        ensure!(
            off + ent.byte_count <= tp as u64,
            "table",
            "chunk {i} of {} bytes at {off} reaches past the table at {tp}",
            ent.byte_count
        );
        ensure!(count <= left, "table", "the table lists more than {n} points");
        left -= count;
        let d = &data[off as usize..(off + ent.byte_count) as usize];
        let pts = match ref_decode_chunk(&vlr, spec_fmt.layered(), d, count) {
            Ok(p) => p,
            Err(e) => return fail("chunk", format!("chunk {i} ({count} points in {} bytes at {off}) cannot be decoded on its own: {e}", ent.byte_count)),
        };
        chunks.push(Chunk { off, len: ent.byte_count, count, pts });
        off += ent.byte_count;
    }
    ensure!(off == tp as u64, "table", "chunk sizes add up to {off}, the table is at {tp}");
    ensure!(left == 0, "table", "{left} of {n} points are not covered by the table's {k} chunks");
    if let Layout::Fixed(cs) = layout {
        let want = n.div_ceil(*cs as usize);
        ensure!(k == want || (n == 0 && k <= 1), "table", "{k} chunks listed for {n} points in chunks of {cs}");
    }
    Ok(Parsed { table_pos: tp as u64, chunks })
}

/// parse + all points right + requested groups
pub fn verify_file(data: &[u8], start: u64, spec: &Spec) -> Res<Parsed> {
    let p = parse(data, start, &spec.fmt, &spec.layout, spec.n)?;
    same_points(&p.points(), &spec.pts, spec.ps, 0, "frozen decoder")?;
    if let Layout::Variable(g) = &spec.layout {
        let got: Vec<usize> = p.chunks.iter().map(|c| c.count).collect();
        let ok = got == *g || (got.len() == g.len() + 1 && got[..g.len()] == g[..] && got[g.len()] == 0);
        ensure!(ok, "groups", "requested groups {g:?}, the file has {got:?}");
    }
    Ok(p)
}

pub fn same_points(got: &[u8], want: &[u8], ps: usize, first: usize, who: &str) -> Res {
    if got == want {
        return Ok(());
    }
    if got.len() != want.len() {
        bail!("points", "{who}: {} points instead of {}", got.len() / ps, want.len() / ps);
    }
    let b = got.iter().zip(want).position(|(a, b)| a != b).unwrap();
    let i = b / ps;
    bail!(
        "points",
        "{who}: point {} differs at byte {}: got {:02x?} want {:02x?}",
        first + i,
        b % ps,
        &got[i * ps..(i + 1) * ps],
        &want[i * ps..(i + 1) * ps]
    )
}

// ---------------------------------------------------------------------------------------------
// Reading

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rd {
    Seq,
    Par,
}

/// The selection as a user makes it: bits, or the fields wanted one by one, or those left out.
pub fn selection(sel: u32) -> laz::DecompressionSelection {
    use laz::DecompressionSelection as S;
    let steps: [(fn(S) -> S, fn(S) -> S); 12] = [
        (S::decompress_z, S::skip_z),
        (S::decompress_classification, S::skip_classification),
        (S::decompress_flags, S::skip_flags),
        (S::decompress_intensity, S::skip_intensity),
        (S::decompress_scan_angle, S::skip_scan_angle),
        (S::decompress_user_data, S::skip_user_data),
        (S::decompress_point_source_id, S::skip_point_source_id),
        (S::decompress_gps_time, S::skip_gps_time),
        (S::decompress_rgb, S::skip_rgb),
        (S::decompress_nir, S::skip_nir),
        (S::decompress_wavepacket, S::skip_wavepacket),
        (S::decompress_extra_bytes, S::skip_extra_bytes),
    ];
    let on = |i: usize| sel >> i & 1 == 1;
    match sel.count_ones() % 3 {
        0 => S(sel),
        1 => (0..12).fold(S::base(), |s, i| if on(i) { steps[i].0(s) } else { s }),
        // what is wanted is asked for again
        _ => (0..12).fold(S::all(), |s, i| if on(i) { steps[i].0(s) } else { steps[i].1(s) }),
    }
}

pub enum Reader {
    Seq(laz::LasZipDecompressor<'static, BoxSrc>),
    Par(laz::ParLasZipDecompressor<BoxSrc>),
}

pub type RErr = String;

impl Reader {
    pub fn open(rd: Rd, src: BoxSrc, vlr: laz::LazVlr) -> Result<Reader, RErr> {
        match rd {
            Rd::Seq => laz::LasZipDecompressor::new(src, vlr).map(Reader::Seq).map_err(|e| e.to_string()),
            Rd::Par => laz::ParLasZipDecompressor::new(src, vlr).map(Reader::Par).map_err(|e| e.to_string()),
        }
    }
    pub fn open_sel(rd: Rd, src: BoxSrc, vlr: laz::LazVlr, sel: u32) -> Result<Reader, RErr> {
        let s = selection(sel);
        match rd {
            Rd::Seq => laz::LasZipDecompressor::selective(src, vlr, s).map(Reader::Seq).map_err(|e| e.to_string()),
            Rd::Par => laz::ParLasZipDecompressor::selective(src, vlr, s).map(Reader::Par).map_err(|e| e.to_string()),
        }
    }
    // some calls go through the trait
    pub fn many(&mut self, out: &mut [u8]) -> Result<(), RErr> {
        let t = out.len() % 3 == 1;
        match self {
            Reader::Seq(r) if t => laz::LazDecompressor::decompress_many(r, out).map_err(|e| e.to_string()),
            Reader::Par(r) if t => laz::LazDecompressor::decompress_many(r, out).map_err(|e| e.to_string()),
            Reader::Seq(r) => r.decompress_many(out).map_err(|e| e.to_string()),
            Reader::Par(r) => r.decompress_many(out).map_err(|e| e.to_string()),
        }
    }
    pub fn one(&mut self, out: &mut [u8]) -> Result<(), RErr> {
        match self {
            Reader::Seq(r) if out.len() % 3 == 1 => laz::LazDecompressor::decompress_one(r, out).map_err(|e| e.to_string()),
            Reader::Seq(r) => r.decompress_one(out).map_err(|e| e.to_string()),
            Reader::Par(r) => laz::LazDecompressor::decompress_one(r, out).map_err(|e| e.to_string()),
        }
    }
    pub fn seek(&mut self, i: u64) -> Result<(), RErr> {
        match self {
            Reader::Seq(r) if i % 3 == 1 => laz::LazDecompressor::seek(r, i).map_err(|e| e.to_string()),
            Reader::Par(r) if i % 3 == 1 => laz::LazDecompressor::seek(r, i).map_err(|e| e.to_string()),
            Reader::Seq(r) => r.seek(i).map_err(|e| e.to_string()),
            Reader::Par(r) => r.seek(i).map_err(|e| e.to_string()),
        }
    }
}

/// Reads `k` points in one call (or one by one).
pub fn read_k(r: &mut Reader, ps: usize, k: usize, singly: bool) -> Result<Vec<u8>, RErr> {
    let mut out = vec![0xA5u8; ps * k];
    if singly {
        for p in out.chunks_exact_mut(ps) {
            r.one(p)?;
        }
    } else {
        r.many(&mut out)?;
    }
    Ok(out)
}

pub fn draw_k(c: &mut Ctx, left: usize, cs: usize) -> usize {
    (match c.below(7) {
        0 => left,
        1 => 1,
        2 => c.size(left),
        3 => cs,
        4 => cs.saturating_sub(1),
        5 => cs + 1,
        _ => c.size(left.min(cs * 3 + 1)),
    })
    .min(left)
}

pub fn typical_cs(spec: &Spec) -> usize {
    match &spec.layout {
        Layout::Fixed(k) => *k as usize,
        Layout::Variable(v) => v.iter().copied().find(|x| *x > 0).unwrap_or(1),
        Layout::Single(_) => spec.n.max(1),
    }
}

/// Reads everything in drawn portions; every portion must be right.
pub fn read_through(c: &mut Ctx, r: &mut Reader, spec: &Spec, mask: Option<&[u8]>) -> Res {
    let mut p = 0;
    let cs = typical_cs(spec);
    let style = c.below(3);
    let mut calls = 0;
    while p < spec.n {
        calls += 1;
        let left = spec.n - p;
        let k = if style == 0 || calls > 60 { left } else { draw_k(c, left, cs) };
        let singly = k <= 40 && c.chance(1, 3);
        expect_read(r, spec, p, k, singly, mask)?;
        p += k;
    }
    Ok(())
}

pub fn expect_read(r: &mut Reader, spec: &Spec, p: usize, k: usize, singly: bool, mask: Option<&[u8]>) -> Res {
    match read_k(r, spec.ps, k, singly) {
        Ok(got) => match mask {
            None => same_points(&got, spec.slice(p, p + k), spec.ps, p, "read"),
            Some(m) => same_masked(&got, spec.slice(p, p + k), m, p),
        },
        Err(e) => fail("read-error", format!("reading points {p}..{} of {} failed: {e}", p + k, spec.n)),
    }
}

pub fn same_masked(got: &[u8], want: &[u8], mask: &[u8], first: usize) -> Res {
    let ps = mask.len();
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let m = mask[i % ps];
        if g & m != w & m {
            let j = i / ps;
            bail!(
                "points",
                "selected bits of point {} differ at byte {} (mask {m:02x}): got {:02x?} want {:02x?}",
                first + j,
                i % ps,
                &got[j * ps..(j + 1) * ps],
                &want[j * ps..(j + 1) * ps]
            );
        }
    }
    Ok(())
}

/// Shifts the stored table position as if the data began elsewhere.
pub fn read_exact_at<R: Read + Seek>(r: &mut R, pos: u64, n: usize) -> std::io::Result<Vec<u8>> {
    r.seek(SeekFrom::Start(pos))?;
    let mut v = vec![0; n];
    r.read_exact(&mut v)?;
    Ok(v)
}
