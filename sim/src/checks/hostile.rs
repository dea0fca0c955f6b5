//! P27: whatever bytes are stored, the library answers with points or errors.

use crate::ctx::{Ctx, Res};
use crate::disk::{BoxSrc, Disk};
use crate::files::*;
use crate::gen::*;
use crate::sess::{guarded, session};
use crate::tape::Rng;

const CAP: usize = 256 << 20;

fn odd(r: &mut Rng, near: u64) -> u64 {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => near.wrapping_add(1),
        3 => near.wrapping_sub(1),
        4 => u64::MAX,
        5 => u32::MAX as u64,
        6 => u32::MAX as u64 - 1,
        7 => 1 << 31,
        8 => i64::MAX as u64,
        9 => near.wrapping_add(r.below(16)).wrapping_sub(8),
        10 => r.below(70_000),
        _ => r.next() >> r.below(64),
    }
}

fn put(b: &mut [u8], at: usize, n: usize, v: u64) {
    if at + n <= b.len() {
        b[at..at + n].copy_from_slice(&v.to_le_bytes()[..n]);
    }
}

fn get(b: &[u8], at: usize, n: usize) -> u64 {
    let mut v = [0u8; 8];
    if at + n <= b.len() {
        v[..n].copy_from_slice(&b[at..at + n]);
    }
    u64::from_le_bytes(v)
}

/// The description of the points, some field of it or some byte of it changed.
fn damage_record(r: &mut Rng, b: &mut Vec<u8>) -> String {
    match r.below(10) {
        0 => {
            let i = r.below(b.len() as u64) as usize;
            b[i] ^= 1 << r.below(8);
            format!("bit of byte {i}")
        }
        1 => {
            let n = r.below(b.len() as u64) as usize;
            b.truncate(n);
            format!("cut at {n}")
        }
        2 => {
            // compressor, coder, version, options, chunk size, counts
            let (at, n) = [(0usize, 2usize), (2, 2), (4, 1), (6, 2), (8, 4), (12, 4), (16, 8), (24, 8)][r.below(8) as usize];
            let v = match at {
                0 => r.below(5),
                _ => odd(r, get(b, at, n)),
            };
            put(b, at, n, v);
            format!("{n} bytes at {at} are {v:#x}")
        }
        3 | 4 => {
            let v = [0, 1, 2, u32::MAX as u64, u32::MAX as u64 - 1, 1 << 31, 100_000_000, r.below(1000)][r.below(8) as usize];
            put(b, 12, 4, v);
            format!("chunk size {v}")
        }
        5 => {
            let v = match r.below(3) {
                0 => 0,
                1 => r.below(20),
                _ => odd(r, get(b, 32, 2)),
            };
            put(b, 32, 2, v);
            format!("{} items", v as u16)
        }
        6 => {
            // another order of the items, or one of them twice
            let k = get(b, 32, 2) as usize;
            if k >= 1 && b.len() >= 34 + 6 * k {
                let (x, y) = (r.below(k as u64) as usize, r.below(k as u64) as usize);
                let (a, z) = (b[34 + 6 * x..40 + 6 * x].to_vec(), b[34 + 6 * y..40 + 6 * y].to_vec());
                if r.below(2) == 0 {
                    b[34 + 6 * x..40 + 6 * x].copy_from_slice(&z);
                    b[34 + 6 * y..40 + 6 * y].copy_from_slice(&a);
                } else {
                    b.extend(a);
                    put(b, 32, 2, k as u64 + 1);
                }
            }
            "items moved".into()
        }
        _ => {
            // type, size or version of an item
            let k = get(b, 32, 2).clamp(1, 6);
            let at = 34 + 6 * r.below(k) as usize;
            let f = r.below(3) as usize;
            let v = match f {
                0 => r.below(16),
                1 => match r.below(3) {
                    0 => r.below(40),
                    1 => [0, 65535, 30000, 6, 8, 20, 29, 30][r.below(8) as usize],
                    _ => odd(r, get(b, at + 2, 2)),
                },
                _ => r.below(6),
            };
            put(b, at + 2 * f, 2, v);
            format!("field {f} of an item is {}", v as u16)
        }
    }
}

fn damage_data(r: &mut Rng, d: &mut Vec<u8>, start: usize, chunks: &[(usize, usize)], table: usize, ps: usize) -> String {
    let len = d.len();
    match r.below(11) {
        0 => {
            let n = start + r.below((len - start) as u64 + 1) as usize;
            d.truncate(n);
            format!("cut at {n}")
        }
        1 => {
            let n = 1 + r.below(60);
            for _ in 0..n {
                d.push(r.next() as u8);
            }
            format!("{n} bytes more")
        }
        2 | 3 => {
            let v = match r.below(5) {
                0 => odd(r, table as u64),
                1 => start as u64 + r.below((len - start) as u64 + 20),
                2 => len as u64 - r.below(30).min(len as u64),
                _ => odd(r, get(d, start, 8)),
            };
            put(d, start, 8, v);
            format!("the table position is {v:#x}")
        }
        4 | 5 => {
            let (at, what) = if r.below(3) == 0 { (table, "version") } else { (table + 4, "count") };
            let v = odd(r, get(d, at, 4));
            put(d, at, 4, v);
            format!("the table's {what} is {:#x}", v as u32)
        }
        6 | 7 => {
            if table + 8 < len {
                let a = table + 8 + r.below((len - table - 8) as u64) as usize;
                let e = (a + 1 + r.below(12) as usize).min(len);
                let z = r.below(4);
                for b in &mut d[a..e] {
                    *b = match z {
                        0 => 0,
                        1 => 0xff,
                        _ => r.next() as u8,
                    };
                }
            }
            "table entries".into()
        }
        8 if !chunks.is_empty() => {
            // what leads a layered chunk: a count and sizes of layers
            let (off, l) = chunks[r.below(chunks.len() as u64) as usize];
            let at = off + ps + 4 * r.below(14) as usize;
            if at + 4 <= off + l {
                let v = odd(r, get(d, at, 4));
                put(d, at, 4, v);
            }
            "head of a chunk".into()
        }
        9 if len > start + 16 => {
            let a = start + 8 + r.below((len - start - 9) as u64) as usize;
            let e = (a + 1 + r.below(40) as usize).min(len);
            let v = if r.below(2) == 0 { 0 } else { 0xff };
            for b in &mut d[a..e] {
                *b = v;
            }
            format!("bytes {a}..{e} are {v:#x}")
        }
        _ => {
            for _ in 0..1 + r.below(4) {
                let i = start + r.below((len - start).max(1) as u64) as usize;
                if i < len {
                    d[i] = r.next() as u8;
                }
            }
            "single bytes".into()
        }
    }
}

pub fn p27(c: &mut Ctx) -> Res {
    let spec = draw_spec(c, &Want { max: 200, lay: Lay::All, ..Default::default() });
    crate::alloc::PEAK_SINGLE.store(0, std::sync::atomic::Ordering::Relaxed);
    crate::alloc::MAX_SINGLE.store(CAP, std::sync::atomic::Ordering::Relaxed);
    if c.chance(1, 5) {
        return whole_file(c, &spec);
    }
    draw_base(c);
    let prefix = super::reading::drawn_prefix(c);
    let start = prefix.len();
    let mut data = make_file(c, &spec, &prefix)?;
    let (chunks, table) = if matches!(spec.layout, Layout::Single(_)) {
        (vec![(start, data.len() - start)], data.len())
    } else {
        let p = parse(&data, start as u64, &spec.fmt, &spec.layout, spec.n)?;
        let t = (stored_pos(&data, start) as usize).min(data.len());
        (p.chunks.iter().map(|k| (k.off as usize, k.len as usize)).collect(), t)
    };
    let mut rec = spec.layout.vlr_bytes(&spec.fmt);
    let mut r = Rng::new(c.seed());
    let mut what = vec![];
    let n_damage = 1 + c.below(3);
    for _ in 0..n_damage {
        if c.chance(1, 2) && rec.len() >= 34 {
            what.push(format!("record: {}", damage_record(&mut r, &mut rec)));
        } else if data.len() > start + 8 {
            what.push(damage_data(&mut r, &mut data, start, &chunks, table, spec.ps));
        }
    }
    c.log(|| format!("damage: {}", what.join("; ")));
    c.count("fault: stored bytes damaged", what.len() as u64);
    let vlr = match guarded(|| laz::LazVlr::read_from(&rec[..]))? {
        Ok(v) => v,
        Err(e) => {
            c.log(|| format!("the record is refused: {e}"));
            c.count("records refused", 1);
            c.nontrivial();
            return Ok(());
        }
    };
    let ps = guarded(|| vlr.items_size())? as usize;
    // the caller's buffers: as many points as there could be, and a few more
    let room = (2 * spec.n + 10).min((4 << 20) / ps.max(1)).max(1);
    let bound = 100_000 + 64 * data.len() as u64;
    let len = data.len() as u64;
    let d = Disk::new(data).with(|i| {
        i.op_limit = bound * 20;
        i.capacity = Some(len + (1 << 20));
    });
    let src = || -> BoxSrc { Box::new(d.open(start as u64)) };
    let mode = c.below(10);
    let steps = 1 + c.usize(6);
    let mut refused = false;
    let n_total = spec.n as u64;
    let mut body = |c: &mut Ctx| -> Res {
        match mode {
            0 | 1 | 2 | 3 => {
                let rd = if mode % 2 == 0 { Rd::Seq } else { Rd::Par };
                let sel = if c.chance(1, 4) { c.below(1 << 12) as u32 } else { u32::MAX };
                let mut rdr = match Reader::open_sel(rd, src(), vlr.clone(), sel) {
                    Ok(x) => x,
                    Err(e) => {
                        c.log(|| format!("{rd:?} refuses: {e}"));
                        refused = true;
                        return Ok(());
                    }
                };
                for _ in 0..steps {
                    if c.chance(1, 2) {
                        let i = match c.below(8) {
                            7 => u64::MAX,
                            6 => u64::MAX / 2,
                            5 => u32::MAX as u64,
                            _ => c.below(2 * n_total + 100),
                        };
                        let res = rdr.seek(i);
                        c.log(|| format!("seek {i}: {res:?}"));
                    }
                    let k = c.usize(room) + 1;
                    let singly = c.chance(1, 4);
                    let res = read_k(&mut rdr, ps, k, singly).map(|v| v.len());
                    c.log(|| format!("read {k}: {res:?}"));
                }
            }
            4 => {
                let bytes = d.data();
                let from = if c.chance(1, 8) { (start + 1 + c.usize(9)).min(bytes.len()) } else { start };
                let mut out = vec![0u8; ps * (c.usize(room) + 1)];
                if crate::disk::base() == 0 {
                    let par = c.chance(1, 2);
                    // these want the position relative to what they are given
                    let mut b = bytes[from..].to_vec();
                    if b.len() >= 8 {
                        let v = stored_pos(&bytes, start).wrapping_sub(start as i64);
                        b[..8].copy_from_slice(&v.to_le_bytes());
                    }
                    let res = if par { laz::par_decompress_buffer(&b, &mut out, &vlr) } else { laz::decompress_buffer(&b, &mut out, vlr.clone()) };
                    c.log(|| format!("one-shot, parallel {par}: {:?}", res.map_err(|e| e.to_string())));
                }
            }
            9 => {
                // the caller's own table does not fit the data
                let bytes = d.data();
                let body = &bytes[(start + 8).min(bytes.len())..];
                let mut ents: Vec<laz::laszip::ChunkTableEntry> =
                    chunks.iter().map(|k| laz::laszip::ChunkTableEntry { point_count: 1 + c.below(40), byte_count: k.1 as u64 }).collect();
                for _ in 0..c.usize(4) {
                    let i = c.usize(ents.len() + 1);
                    let wild = c.pick(&[0u64, 1, 7, 1000, u32::MAX as u64, 1 << 40, u64::MAX / 2, u64::MAX]);
                    if i == ents.len() {
                        ents.push(laz::laszip::ChunkTableEntry { point_count: wild, byte_count: c.pick(&[0u64, 4, 30]) });
                    } else if c.chance(1, 2) {
                        ents[i].point_count = wild;
                    } else {
                        ents[i].byte_count = wild;
                    }
                }
                let mut out = vec![0u8; ps * (c.usize(room) + 1)];
                c.log(|| format!("one-shot with {ents:?}"));
                let res = laz::par_decompress(body, &mut out, &vlr, &ents);
                c.log(|| format!("{:?}", res.map_err(|e| e.to_string())));
            }
            5 => {
                let mut s = src();
                let res = laz::laszip::ChunkTable::read_from(&mut s, &vlr).map(|t| t.len());
                c.log(|| format!("table: {:?}", res.map_err(|e| e.to_string())));
            }
            8 => {
                // what was read serves as the description for writing
                let add = c.usize(40).min(room);
                let pts = vec![9u8; ps * add];
                let var = vlr.uses_variable_size_chunks();
                let out = Disk::new(vec![]).with(|i| i.op_limit = bound * 20);
                let which = c.below(4);
                let e = |x: laz::LasZipError| x.to_string();
                let i = |x: std::io::Error| x.to_string();
                let res = (|| -> Result<(), String> {
                    let mut h = out.open(0);
                    match which {
                        0 => {
                            let mut w = laz::LasZipCompressor::new(h, vlr.clone()).map_err(e)?;
                            w.compress_many(&pts).map_err(i)?;
                            if var {
                                w.finish_current_chunk().map_err(i)?;
                            }
                            w.done().map_err(i)
                        }
                        1 => {
                            let mut w = laz::ParLasZipCompressor::new(h, vlr.clone()).map_err(e)?;
                            if var {
                                w.compress_chunks(vec![&pts[..], &pts[..]]).map_err(i)?;
                            } else {
                                w.compress_many(&pts).map_err(i)?;
                            }
                            w.done().map_err(e)
                        }
                        2 if !var => laz::par_compress_buffer(&mut h, &pts, &vlr).map_err(e),
                        _ => laz::compress_buffer(&mut h, &pts, vlr.clone()).map_err(e),
                    }
                })();
                c.log(|| format!("write {add} points, way {which}: {res:?}"));
            }
            _ => {
                let keep = match c.below(6) {
                    0 => n_total,
                    1 => 0,
                    2 => u64::MAX,
                    3 => n_total + 1 + c.below(300),
                    4 => u32::MAX as u64 * 3,
                    _ => c.below(n_total + 1),
                };
                let add = c.usize(12).min(room);
                let pts = vec![7u8; ps * add];
                let var = vlr.uses_variable_size_chunks();
                let h: BoxRWSrc = Box::new(d.open(start as u64));
                let res = if mode == 6 {
                    (|| -> Result<(), String> {
                        let mut w = laz::LasZipAppender::new(h, vlr.clone(), keep).map_err(|e| e.to_string())?;
                        w.compress_many(&pts).map_err(|e| e.to_string())?;
                        if var {
                            w.finish_current_chunk().map_err(|e| e.to_string())?;
                        }
                        w.done().map_err(|e| e.to_string())
                    })()
                } else {
                    (|| -> Result<(), String> {
                        let mut w = laz::ParLasZipAppender::new(h, vlr.clone(), keep).map_err(|e| e.to_string())?;
                        if var {
                            w.compress_chunks(vec![&pts[..]]).map_err(|e| e.to_string())?;
                        } else {
                            w.compress_many(&pts).map_err(|e| e.to_string())?;
                        }
                        w.done().map_err(|e| e.to_string())
                    })()
                };
                c.log(|| format!("append (parallel {}) keeping {keep}, adding {add}: {res:?}", mode == 7));
            }
        }
        Ok(())
    };
    let r = if matches!(mode, 1 | 3 | 4 | 7 | 8) { session(c, &mut body) } else { guarded(|| body(c)).and_then(|x| x) };
    let mem = crate::alloc::PEAK_SINGLE.load(std::sync::atomic::Ordering::Relaxed);
    c.log(|| format!("largest allocation {mem}"));
    if let Err(mut f) = r {
        f.msg = format!("{} (mode {mode}; damage: {}; {})", f.msg, what.join("; "), spec.describe());
        return Err(f);
    }
    c.count("media refused on opening", refused as u64);
    absorb(c, &d);
    c.nontrivial();
    Ok(())
}

type BoxRWSrc = Box<dyn crate::disk::Dst>;

/// A LAS or LAZ file with damage anywhere, mostly in what leads the points.
fn whole_file(c: &mut Ctx, spec: &Spec) -> Res {
    let minor = if spec.fmt.id >= 6 { 4 } else { c.below(5) as u8 };
    let compressed = c.chance(3, 4);
    let fill = c.seed();
    let before: Vec<Vec<u8>> = (0..c.usize(3))
        .map(|i| {
            let mut v = vec![0x41u8; 54 + 9 * i];
            v[20..22].copy_from_slice(&(9 * i as u16).to_le_bytes());
            v
        })
        .collect();
    let h = super::misc::las_header(c, spec, compressed, minor, 0, &before, 0, fill);
    let mut file = if compressed {
        make_file(c, spec, &h)?
    } else {
        let mut f = h.clone();
        f.extend_from_slice(&spec.pts);
        f
    };
    let mut r = Rng::new(c.seed());
    let mut what = vec![];
    for _ in 0..1 + c.below(3) {
        let s = match r.below(5) {
            0 | 1 => {
                // version, header size, position of the points, number of records, format, size, counts
                let (at, n) = [(24usize, 1usize), (25, 1), (94, 2), (96, 4), (100, 4), (104, 1), (105, 2), (107, 4), (247, 8)][r.below(9) as usize];
                let v = match at {
                    104 => (r.below(12)) | [0, 0x80, 0x40, 0xc0][r.below(4) as usize],
                    _ => odd(&mut r, get(&file, at, n)),
                };
                put(&mut file, at, n, v);
                format!("{n} header bytes at {at}: {v:#x}")
            }
            2 => {
                let i = r.below(h.len() as u64) as usize;
                if i < file.len() {
                    file[i] = r.next() as u8;
                }
                format!("byte {i}")
            }
            3 => {
                let i = r.below(file.len() as u64 + 1) as usize;
                file.truncate(i);
                format!("cut at {i}")
            }
            _ => {
                // inside the description of the points, wherever it lies
                let pat = b"laszip encoded";
                if let Some(p) = file.windows(pat.len()).position(|w| w == pat) {
                    let at = p - 2 + 54;
                    let end = (at + 34 + 24).min(file.len());
                    if at < end {
                        let mut rec = file[at..end].to_vec();
                        let n = rec.len();
                        let s = damage_record(&mut r, &mut rec);
                        rec.resize(n, 0);
                        file[at..end].copy_from_slice(&rec);
                        format!("record: {s}")
                    } else {
                        String::new()
                    }
                } else {
                    String::new()
                }
            }
        };
        what.push(s);
        if file.is_empty() {
            break;
        }
    }
    c.log(|| format!("LAS 1.{minor} file (compressed: {compressed}), damage: {}", what.join("; ")));
    c.count("fault: stored bytes damaged", what.len() as u64);
    let bound = 2_000_000 + 64 * file.len() as u64;
    let d = Disk::new(file).with(|i| i.op_limit = bound);
    let whole = c.chance(1, 2);
    let limit = 3 * spec.n + 20;
    let mut refused = false;
    guarded(|| {
        let mut src = d.open(0);
        match laz::las::file::read_header_and_vlrs(&mut src) {
            Ok((h, _)) => {
                // it has no way to say that it does not know the format
                let n = if h.point_format_id & 0x3f <= 10 { h.num_extra_bytes() } else { 0 };
                c.log(|| format!("{h:?}, {n} extra bytes"));
            }
            Err(e) => c.log(|| format!("header refused: {e}")),
        }
        let mut rdr = match laz::las::file::SimpleReader::new(d.open(0)) {
            Ok(x) => x,
            Err(e) => {
                c.log(|| format!("refused: {e}"));
                refused = true;
                return;
            }
        };
        if whole {
            let mut v = vec![];
            let res = rdr.read_to_end(&mut v);
            c.log(|| format!("read_to_end: {res:?}"));
        }
        for i in 0..limit {
            match rdr.read_next() {
                None => break,
                Some(Ok(_)) => {}
                Some(Err(e)) => c.log(|| format!("point {i}: {e}")),
            }
        }
    })
    .map_err(|mut f| {
        f.msg = format!("{} (LAS file, compressed: {compressed}; damage: {}; {})", f.msg, what.join("; "), spec.describe());
        f
    })?;
    c.count("media refused on opening", refused as u64);
    absorb(c, &d);
    c.nontrivial();
    Ok(())
}
