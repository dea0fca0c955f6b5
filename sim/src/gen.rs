//! Point formats, compression records, point data and chunk layouts.

use crate::ctx::Ctx;
use crate::tape::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fmt {
    pub id: u8,
    /// item version: 1, 2 (pointwise) or 3, 4 (layered)
    pub ver: u16,
    pub extra: u16,
    /// 0: the items of this point format; else a list of items of its own, one hex digit for each
    /// (the last one first): its kind, and 8 if a pointwise item has the other version
    pub mix: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FK {
    I32,
    U16,
    U8,
    /// return bits of point formats 0-5
    Ret10,
    /// return bits of point formats 6-10
    Ret14,
    /// classification flags, scanner channel, scan direction, edge
    Flags14,
    Gps,
    I16,
    F32,
    U64,
    Ret10Unused,
}

#[derive(Clone, Copy, Debug)]
pub struct Field {
    pub off: usize,
    pub len: usize,
    pub kind: FK,
    /// selection bit, 0: always decompressed
    pub sel: u32,
}

impl Fmt {
    pub fn layered(&self) -> bool {
        self.ver >= 3
    }
    /// (type code, size, version)
    pub fn items(&self) -> Vec<(u16, u16, u16)> {
        let v = self.ver;
        let mut it = vec![];
        if self.mix != 0 {
            let mut m = self.mix;
            while m != 0 {
                let (k, other) = ((m & 7) as usize - 1, m & 8 != 0);
                let sizes = [[20, 8, 6, 29, self.extra], [30, 6, 8, 29, self.extra]][self.layered() as usize];
                let codes = [[6, 7, 8, 9, 0], [10, 11, 12, 13, 14]][self.layered() as usize];
                it.push((codes[k], sizes[k], if other { 3 - v } else { v }));
                m >>= 4;
            }
            return it;
        }
        if self.id <= 5 {
            it.push((6, 20, v));
            if matches!(self.id, 1 | 3 | 4 | 5) {
                it.push((7, 8, v));
            }
            if matches!(self.id, 2 | 3 | 5) {
                it.push((8, 6, v));
            }
            if matches!(self.id, 4 | 5) {
                it.push((9, 29, v));
            }
            if self.extra > 0 {
                it.push((0, self.extra, v));
            }
        } else {
            it.push((10, 30, v));
            if self.id == 7 {
                it.push((11, 6, v));
            }
            if matches!(self.id, 8 | 10) {
                it.push((12, 8, v));
            }
            if matches!(self.id, 9 | 10) {
                it.push((13, 29, v));
            }
            if self.extra > 0 {
                it.push((14, self.extra, v));
            }
        }
        it
    }
    pub fn size(&self) -> usize {
        self.items().iter().map(|i| i.1 as usize).sum()
    }
    pub fn las_id(&self) -> u8 {
        self.id
    }
    pub fn fields(&self) -> Vec<Field> {
        let mut f = vec![];
        let mut o = 0usize;
        let mut add = |f: &mut Vec<Field>, len: usize, kind: FK, sel: u32| {
            f.push(Field { off: o, len, kind, sel });
            o += len;
        };
        for (t, s, _) in self.items() {
            match t {
                6 => {
                    for _ in 0..3 {
                        add(&mut f, 4, FK::I32, 0);
                    }
                    add(&mut f, 2, FK::U16, 0);
                    add(&mut f, 1, FK::Ret10, 0);
                    add(&mut f, 1, FK::U8, 0);
                    add(&mut f, 1, FK::U8, 0);
                    add(&mut f, 1, FK::U8, 0);
                    add(&mut f, 2, FK::U16, 0);
                }
                10 => {
                    add(&mut f, 4, FK::I32, 0);
                    add(&mut f, 4, FK::I32, 0);
                    add(&mut f, 4, FK::I32, 1);
                    add(&mut f, 2, FK::U16, 1 << 3);
                    add(&mut f, 1, FK::Ret14, 0);
                    add(&mut f, 1, FK::Flags14, 1 << 2);
                    add(&mut f, 1, FK::U8, 1 << 1);
                    add(&mut f, 1, FK::U8, 1 << 5);
                    add(&mut f, 2, FK::I16, 1 << 4);
                    add(&mut f, 2, FK::U16, 1 << 6);
                    add(&mut f, 8, FK::Gps, 1 << 7);
                }
                7 => add(&mut f, 8, FK::Gps, 0),
                8 | 11 => {
                    for _ in 0..3 {
                        add(&mut f, 2, FK::U16, 1 << 8);
                    }
                }
                12 => {
                    for _ in 0..3 {
                        add(&mut f, 2, FK::U16, 1 << 8);
                    }
                    add(&mut f, 2, FK::U16, 1 << 9);
                }
                9 | 13 => {
                    add(&mut f, 1, FK::U8, 1 << 10);
                    add(&mut f, 8, FK::U64, 1 << 10);
                    add(&mut f, 4, FK::I32, 1 << 10);
                    for _ in 0..4 {
                        add(&mut f, 4, FK::F32, 1 << 10);
                    }
                }
                0 | 14 => {
                    for _ in 0..s {
                        add(&mut f, 1, FK::U8, 1 << 11);
                    }
                }
                _ => unreachable!(),
            }
        }
        f
    }
    /// Bits of each byte that must be right under this selection.
    pub fn mask(&self, sel: u32) -> Vec<u8> {
        let mut m = vec![0u8; self.size()];
        for f in self.fields() {
            let on = !self.layered() || f.sel == 0 || sel & f.sel != 0;
            for b in &mut m[f.off..f.off + f.len] {
                *b = if on {
                    0xff
                } else if f.kind == FK::Flags14 {
                    0x30
                } else {
                    0
                };
            }
        }
        m
    }
}

/// compressor: 1 pointwise, 2 pointwise chunked, 3 layered; chunk_size u32::MAX: variable
pub fn vlr_bytes(fmt: &Fmt, compressor: u16, chunk_size: u32) -> Vec<u8> {
    let mut b = vec![];
    b.extend_from_slice(&compressor.to_le_bytes());
    b.extend_from_slice(&0u16.to_le_bytes());
    b.extend_from_slice(&[2, 2, 0, 0]);
    b.extend_from_slice(&0u32.to_le_bytes());
    b.extend_from_slice(&chunk_size.to_le_bytes());
    b.extend_from_slice(&(-1i64).to_le_bytes());
    b.extend_from_slice(&(-1i64).to_le_bytes());
    let it = fmt.items();
    b.extend_from_slice(&(it.len() as u16).to_le_bytes());
    for (t, s, v) in it {
        b.extend_from_slice(&t.to_le_bytes());
        b.extend_from_slice(&s.to_le_bytes());
        b.extend_from_slice(&v.to_le_bytes());
    }
    b
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Layout {
    /// one chunk without table (compressor 1), whatever the chunk size field says
    Single(u32),
    Fixed(u32),
    /// group sizes
    Variable(Vec<usize>),
}

impl Layout {
    pub fn vlr_bytes(&self, fmt: &Fmt) -> Vec<u8> {
        let chunked = if fmt.layered() { 3 } else { 2 };
        match self {
            Layout::Single(k) => vlr_bytes(fmt, 1, *k),
            Layout::Fixed(n) => vlr_bytes(fmt, chunked, *n),
            Layout::Variable(_) => vlr_bytes(fmt, chunked, u32::MAX),
        }
    }
    pub fn single(&self) -> bool {
        matches!(self, Layout::Single(_))
    }
    pub fn variable(&self) -> bool {
        matches!(self, Layout::Variable(_))
    }
    /// Points of each chunk, in order.
    pub fn counts(&self, n: usize) -> Vec<usize> {
        match self {
            Layout::Single(_) => vec![n],
            Layout::Fixed(c) => {
                let c = *c as usize;
                let mut v = vec![c; n / c];
                if n % c != 0 {
                    v.push(n % c);
                }
                v
            }
            Layout::Variable(v) => v.clone(),
        }
    }
}

#[derive(Clone)]
pub struct Spec {
    pub fmt: Fmt,
    pub layout: Layout,
    pub n: usize,
    pub pts: Vec<u8>,
    pub ps: usize,
}

impl Spec {
    pub fn vlr(&self) -> laz::LazVlr {
        laz::LazVlr::read_from(&self.layout.vlr_bytes(&self.fmt)[..]).expect("vlr")
    }
    pub fn ref_vlr(&self) -> laz_ref::LazVlr {
        laz_ref::LazVlr::read_from(&self.layout.vlr_bytes(&self.fmt)[..]).expect("vlr")
    }
    pub fn point(&self, i: usize) -> &[u8] {
        &self.pts[i * self.ps..(i + 1) * self.ps]
    }
    pub fn slice(&self, a: usize, b: usize) -> &[u8] {
        &self.pts[a * self.ps..b * self.ps]
    }
    pub fn counts(&self) -> Vec<usize> {
        self.layout.counts(self.n)
    }
    pub fn describe(&self) -> String {
        format!(
            "{} item version {} extra bytes {} ({} bytes/point), {} points, {}",
            match self.fmt.mix {
                0 => format!("format {}", self.fmt.id),
                _ => format!("items {:?}", self.fmt.items()),
            },
            self.fmt.ver,
            self.fmt.extra,
            self.ps,
            self.n,
            match &self.layout {
                Layout::Single(k) => format!("single chunk without table (chunk size field {k})"),
                Layout::Fixed(c) => format!("fixed chunks of {c}"),
                Layout::Variable(v) => format!("variable chunks {v:?}"),
            }
        )
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Family {
    Any,
    Pointwise,
    Layered,
}

pub fn draw_fmt(c: &mut Ctx, fam: Family, standard: bool) -> Fmt {
    let layered = match fam {
        Family::Any => c.chance(1, 2),
        Family::Pointwise => false,
        Family::Layered => true,
    };
    let id = if layered { 6 + c.below(5) as u8 } else { c.below(6) as u8 };
    let ver = if layered { c.pick(&[3u16, 3, 4]) } else { c.pick(&[2u16, 2, 1]) };
    let extra = match c.below(5) {
        0 | 1 => 0,
        2 => 1,
        3 => 1 + c.below(7) as u16,
        _ => 1 + c.below(30) as u16,
    };
    let mut mix = 0;
    if !standard && c.chance(1, 10) {
        // any list of items that readers and writers take, not only those of the standard formats
        let extra_ok = |k: u64| if extra == 0 && k == 5 { 2 + (k + extra as u64) % 3 } else { k };
        let mut list = vec![];
        if layered {
            list.push(1);
            for _ in 0..1 + c.below(4) {
                list.push(extra_ok(2 + c.below(4)));
            }
        } else {
            for _ in 0..1 + c.below(5) {
                list.push(extra_ok(1 + c.below(5)) | if c.chance(1, 4) { 8 } else { 0 });
            }
        }
        for k in list.into_iter().rev() {
            mix = (mix << 4) | k as u32;
        }
    }
    Fmt { id, ver, extra, mix }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Lay {
    Fixed,
    Variable,
    FixedOrVariable,
    /// also the single-chunk form where the format allows it
    All,
}

pub struct Want {
    pub fam: Family,
    pub lay: Lay,
    pub max: usize,
    pub min: usize,
    /// this format, and no other
    pub fmt: Option<Fmt>,
    /// only the items of the standard point formats
    pub standard: bool,
    /// once in a while, files past the limits of 16 bits
    pub huge: bool,
}

impl Default for Want {
    fn default() -> Self {
        Want { fam: Family::Any, lay: Lay::FixedOrVariable, max: 700, min: 0, fmt: None, standard: false, huge: false }
    }
}

pub fn draw_chunk_size(c: &mut Ctx, n: usize) -> u32 {
    let n = n.max(1) as u64;
    (match c.below(9) {
        0 => n + 1 + c.below(100),
        1 => 1 + c.below(3),
        2 => 1 + c.below(10),
        3 => 1 + n / (2 + c.below(4)),
        4 => n,
        5 => (n / 2).max(1),
        6 => (n.saturating_sub(1)).max(1),
        7 => 1 + c.below(n),
        // much more than there will ever be
        _ => c.pick(&[50_000u64, 50_000, 100_000_000, 1 << 31, u32::MAX as u64 - 1]),
    }) as u32
}

pub fn draw_groups(c: &mut Ctx, n: usize) -> Vec<usize> {
    let k = 1 + c.size(12);
    let zeros = c.below(4);
    let mut left = n;
    let mut v = vec![];
    for i in 0..k {
        if zeros == 3 && c.chance(1, 3) {
            v.push(0);
        }
        let g = if i + 1 == k { left } else { c.size(left) };
        if g > 0 {
            v.push(g);
        }
        left -= g;
    }
    if left > 0 {
        v.push(left);
    }
    if zeros == 3 && c.chance(1, 3) {
        v.push(0);
    }
    v
}

/// Setting up the models of a chunk takes long: many of them are drawn rarely.
pub fn chunk_cap(c: &mut Ctx, fmt: &Fmt) -> usize {
    match (fmt.layered(), fmt.size() > 50, c.below(16)) {
        (_, _, 15) => 160,
        (false, ..) => 40,
        (true, false, _) => 20,
        (true, true, _) => 10,
    }
}

pub fn draw_spec(c: &mut Ctx, w: &Want) -> Spec {
    let fmt = match w.fmt {
        Some(f) => f,
        None => draw_fmt(c, w.fam, w.standard),
    };
    if w.huge && w.max > 0 && c.chance(1, if c.thorough { 150 } else { 500 }) {
        return huge_spec(c, w);
    }
    let big = if c.thorough { 12 } else { 40 };
    let big = w.max >= 200 && c.chance(1, big);
    let max = if big { w.max * 7 } else { w.max };
    let n = (w.min + c.size(max - w.min)).min(if fmt.size() > 70 { max * 2 / 3 + w.min } else { max });
    let n = n.max(w.min);
    let layout = match w.lay {
        Lay::Fixed => Layout::Fixed(draw_chunk_size(c, n)),
        Lay::Variable => Layout::Variable(draw_groups(c, n)),
        Lay::FixedOrVariable => {
            if c.chance(1, 3) {
                Layout::Variable(draw_groups(c, n))
            } else {
                Layout::Fixed(draw_chunk_size(c, n))
            }
        }
        Lay::All => match c.below(6) {
            0..=2 => Layout::Fixed(draw_chunk_size(c, n)),
            3 if !fmt.layered() => Layout::Single(c.pick(&[50_000, 0, u32::MAX, 5])),
            _ => Layout::Variable(draw_groups(c, n)),
        },
    };
    // tiny chunks of layered points are slow to set up: bound their number
    let cap = chunk_cap(c, &fmt);
    let layout = match layout {
        Layout::Fixed(k) if n / (k as usize) > cap => Layout::Fixed((n / cap) as u32 + 1),
        l => l,
    };
    let pts = draw_points(c, &fmt, n);
    let ps = fmt.size();
    let s = Spec { fmt, layout, n, pts, ps };
    c.note(((fmt.id as u64) << 40) | ((fmt.ver as u64) << 32) | n as u64);
    c.note(fmt.extra as u64 | (fmt.mix as u64) << 16);
    c.log(|| s.describe());
    s
}

/// Few chunks with a number of points at which something that counts in 16 bits
/// goes wrong; in the thorough tier, also thousands of chunks.
fn huge_spec(c: &mut Ctx, w: &Want) -> Spec {
    c.huge = true;
    c.count("files of some 65 000 points", 1);
    crate::disk::set_op_limit(600_000_000);
    let fmt = match w.fmt {
        Some(f) => f,
        None => draw_fmt(c, w.fam, w.standard),
    };
    let n = 65_000 + c.below(3000) as usize;
    let variable = match w.lay {
        Lay::Fixed => false,
        Lay::Variable => true,
        _ => c.chance(1, 3),
    };
    let layout = if variable {
        let a = c.pick(&[n, 65_535, 65_536, 65_537, 1, n / 2]).min(n);
        let mut g = if c.chance(1, 2) { vec![a, n - a] } else { vec![n - a, a] };
        if c.chance(1, 3) {
            g.push(1 + c.below(50) as usize);
        }
        g.retain(|x| *x > 0);
        Layout::Variable(g)
    } else if c.thorough && !fmt.layered() && c.chance(1, 3) {
        Layout::Fixed(c.pick(&[33, 65, 255]))
    } else {
        Layout::Fixed(c.pick(&[n as u32 + 1, n as u32, 65_535, 65_536, 65_537, 50_000, n as u32 / 2, 7_777]))
    };
    let n = match &layout {
        Layout::Variable(g) => g.iter().sum(),
        _ => n,
    };
    let pts = draw_points(c, &fmt, n);
    let ps = fmt.size();
    let s = Spec { fmt, layout, n, pts, ps };
    c.note(((fmt.id as u64) << 40) | ((fmt.ver as u64) << 32) | n as u64);
    c.log(|| s.describe());
    s
}

pub fn draw_points(c: &mut Ctx, fmt: &Fmt, n: usize) -> Vec<u8> {
    let kind = c.below(10);
    let seed = c.seed();
    c.note(seed);
    c.log(|| format!("point data: kind {kind} seed {seed}"));
    gen_points(fmt, n, kind, seed)
}

fn put(b: &mut [u8], v: u64) {
    let n = b.len();
    b.copy_from_slice(&v.to_le_bytes()[..n]);
}
fn get(b: &[u8]) -> u64 {
    let mut t = [0u8; 8];
    t[..b.len()].copy_from_slice(b);
    u64::from_le_bytes(t)
}

/// kind 0: x counts up, all else zero
pub fn gen_points(fmt: &Fmt, n: usize, kind: u64, seed: u64) -> Vec<u8> {
    let ps = fmt.size();
    let mut out = vec![0u8; ps * n];
    if n == 0 {
        return out;
    }
    if kind == 0 {
        for i in 0..n {
            put(&mut out[i * ps..i * ps + ps.min(4)], i as u64);
        }
        return out;
    }
    let mut r = Rng::new(seed ^ (kind << 33));
    let fields = fmt.fields();
    if kind == 3 {
        for b in out.iter_mut() {
            *b = r.next() as u8;
        }
        return out;
    }
    if kind == 8 {
        // all bytes constant but for single bits of one or two fields
        let targets: Vec<usize> = (0..1 + r.below(2)).map(|_| r.below(fields.len() as u64) as usize).collect();
        let first: Vec<u8> = if r.below(2) == 0 { vec![0; ps] } else { (0..ps).map(|_| r.next() as u8).collect() };
        let mut cur = first;
        let rate = [1, 3, 20, 100][r.below(4) as usize];
        let only_top = r.below(2) == 0;
        for i in 0..n {
            if i > 0 && r.below(rate) == 0 {
                let f = &fields[targets[r.below(targets.len() as u64) as usize]];
                let bit = if only_top || r.below(3) == 0 { f.len as u64 * 8 - 1 } else { r.below(f.len as u64 * 8) };
                cur[f.off + (bit / 8) as usize] ^= 1 << (bit % 8);
            }
            out[i * ps..(i + 1) * ps].copy_from_slice(&cur);
        }
        return out;
    }
    if kind == 9 {
        // one to three fields walk in steps which are multiples of a unit of their own, as
        // large as the field allows: what prediction from earlier differences has to cope with
        struct W {
            off: usize,
            len: usize,
            unit: u64,
            jitter: u64,
        }
        let mut edge = 0;
        let walks: Vec<W> = (0..1 + r.below(3))
            .map(|_| {
                let wide: Vec<_> = fields.iter().filter(|f| f.len >= 4).collect();
                let f = if wide.is_empty() || r.below(4) == 0 {
                    &fields[r.below(fields.len() as u64) as usize]
                } else {
                    wide[r.below(wide.len() as u64) as usize]
                };
                let bits = (f.len as u64 * 8).min(34);
                let mut unit = r.next() >> (64 - 1 - r.below(bits));
                if r.below(3) == 0 {
                    // so that a few of them together do not fit into 32 bits any more
                    unit = (1 << 30) + (r.next() & 0x3fff_ffff);
                }
                if r.below(3) == 0 {
                    // so that the multiples just about fit, or just not
                    let m = [2u64, 3, 10, 11, 250, 499, 500, 500, 500, 501][r.below(10) as usize];
                    let whole = (1u64 << 31) / m;
                    let d = whole >> [6, 8, 11][r.below(3) as usize];
                    unit = whole - d + r.below(2 * d + 1);
                    edge = m as i64;
                }
                W { off: f.off, len: f.len, unit: unit.max(1), jitter: if edge > 0 && r.below(2) == 0 { 2 } else { r.below(4) } }
            })
            .collect();
        let first: Vec<u8> = if r.below(2) == 0 { vec![0; ps] } else { (0..ps).map(|_| r.next() as u8).collect() };
        let mut cur = first;
        let stay = r.below(4);
        let known = [0i64, 1, 2, 3, 9, 10, 11, 49, 50, 51, 250, 499, 500, 501, 502, 510, 511, 512, 513];
        let few = if r.below(2) == 0 { 4 } else { known.len() as u64 };
        let mut multiples = [1, 1, known[r.below(few) as usize], known[r.below(few) as usize]];
        if edge > 0 {
            multiples[2..].copy_from_slice(&[edge - 1, edge]);
        }
        let minus = [1000, 4][r.below(2) as usize];
        for i in 0..n {
            if i > 0 {
                for w in &walks {
                    if r.below(8) < stay {
                        continue;
                    }
                    let m = multiples[r.below(4) as usize];
                    let m = if r.below(minus) == 0 { -m } else { m };
                    let s = &mut cur[w.off..w.off + w.len];
                    let j = match w.jitter {
                        0 => 0,
                        1 => r.below(3).wrapping_sub(1),
                        2 => (w.unit / 8).wrapping_mul(r.below(8)),
                        _ => r.below(w.unit),
                    };
                    let step = w.unit.wrapping_mul(m as u64).wrapping_add(j);
                    let v = get(s).wrapping_add(step);
                    put(s, v);
                }
            }
            out[i * ps..(i + 1) * ps].copy_from_slice(&cur);
        }
        return out;
    }
    // per-field behaviour of this data set
    #[derive(Clone, Copy)]
    struct B {
        keep: u64,
        small: u64,
        ext: u64,
        mag: u64,
        frozen: bool,
    }
    let mut beh = vec![];
    let freeze = r.below(4);
    for _ in &fields {
        let b = match kind {
            1 => B { keep: 1000, small: 0, ext: 0, mag: 1, frozen: true },
            2 => B { keep: 300, small: 690, ext: 0, mag: 1 + r.below(40), frozen: false },
            5 => B { keep: 200, small: 100, ext: 650, mag: 1 << r.below(20), frozen: false },
            _ => {
                let keep = r.below(1000);
                let small = r.below(1001 - keep);
                B { keep, small, ext: r.below(120), mag: 1 << r.below(16), frozen: false }
            }
        };
        beh.push(B { frozen: b.frozen || (kind >= 4 && r.below(4) < freeze && r.below(2) == 0), ..b });
    }
    let chan_rate = if kind == 7 { 1 + r.below(6) } else { [0, 0, 1, 3][r.below(4) as usize] };
    let valid_returns = r.below(3) > 0;
    let mut run_left = 0u64;
    let mut cur = vec![0u8; ps];
    // the first point
    for f in &fields {
        let s = &mut cur[f.off..f.off + f.len];
        match f.kind {
            FK::Gps => put(s, (200_000_000.0f64 + (r.below(1_000_000) as f64) / 7.0).to_bits()),
            FK::Flags14 => put(s, r.next() & 0x0f),
            FK::Ret14 | FK::Ret10 => put(s, 0x11),
            _ => {
                let v = if kind == 5 { 0 } else { r.next() };
                put(s, if f.kind == FK::I32 { v & 0x00ff_ffff } else { v })
            }
        }
    }
    let mut gps_step = 1.0 / (1.0 + r.below(100_000) as f64);
    let mut per_chan: Vec<Option<Vec<u8>>> = vec![None; 4];
    for i in 0..n {
        if i > 0 {
            if run_left > 0 {
                run_left -= 1;
            } else {
                if kind == 6 && r.below(8) == 0 {
                    run_left = r.below(60);
                }
                if kind == 1 && i % 97 == 96 {
                    // constant data with a rare jump
                    let b = r.below(ps as u64) as usize;
                    cur[b] = r.next() as u8;
                }
                // switching scanner channel resumes that channel's own sequence
                if fmt.layered() && chan_rate > 0 && r.below(10) < chan_rate {
                    let old = ((cur[15] >> 4) & 3) as usize;
                    let new = r.below(4) as usize;
                    if new != old {
                        per_chan[old] = Some(cur.clone());
                        if let (Some(p), true) = (&per_chan[new], r.below(2) == 0) {
                            cur = p.clone();
                        }
                        cur[15] = (cur[15] & !0x30) | ((new as u8) << 4);
                    }
                }
                for (f, b) in fields.iter().zip(&beh) {
                    if b.frozen {
                        continue;
                    }
                    let d = r.below(1000);
                    if d < b.keep {
                        continue;
                    }
                    let s = &mut cur[f.off..f.off + f.len];
                    let old = get(s);
                    let small = d < b.keep + b.small;
                    let ext = !small && r.below(1000) < b.ext;
                    let v = match f.kind {
                        FK::Gps => {
                            let t = f64::from_bits(old);
                            match r.below(if small { 6 } else { 12 }) {
                                0..=2 => (t + gps_step).to_bits(),
                                3 => (t + gps_step * (2 + r.below(30)) as f64).to_bits(),
                                4 => old.wrapping_add(r.below(1 << 12)).wrapping_sub(1 << 11),
                                5 => (t - gps_step * r.below(12) as f64).to_bits(),
                                6 => {
                                    gps_step = 1.0 / (1.0 + r.below(100_000) as f64);
                                    (t + gps_step * 501.0).to_bits()
                                }
                                7 => old.wrapping_add(r.next() & 0x7fff_ffff),
                                8 => old.wrapping_add(r.next() >> r.below(64)),
                                9 => r.next(),
                                10 => [0, u64::MAX, 1 << 63, i64::MAX as u64][r.below(4) as usize],
                                _ => (t + 1000.0 * r.below(100) as f64).to_bits(),
                            }
                        }
                        FK::Ret10 => {
                            if valid_returns {
                                let nr = 1 + r.below(5);
                                (1 + r.below(nr)) | (nr << 3) | (old & 0xc0)
                            } else {
                                r.next() & 0xff
                            }
                        }
                        FK::Ret14 => {
                            if valid_returns {
                                let nr = 1 + r.below(6);
                                (1 + r.below(nr)) | (nr << 4)
                            } else {
                                r.next() & 0xff
                            }
                        }
                        FK::Flags14 => (old & 0x30) | (r.next() & 0xcf),
                        _ if ext => {
                            let bits = 8 * f.len as u32;
                            let all = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
                            [0, all, 1 << (bits - 1), (1 << (bits - 1)) - 1, 1, all - 1][r.below(6) as usize]
                        }
                        _ if small => old.wrapping_add(r.below(2 * b.mag + 1)).wrapping_sub(b.mag),
                        FK::U16 if r.below(3) == 0 => {
                            // only one of the two bytes changes
                            if r.below(2) == 0 {
                                (old & 0xff00) | (r.next() & 0xff)
                            } else {
                                (old & 0xff) | (r.next() & 0xff00)
                            }
                        }
                        _ => r.next() >> r.below(64),
                    };
                    let n = s.len();
                    s.copy_from_slice(&v.to_le_bytes()[..n]);
                }
            }
        }
        out[i * ps..(i + 1) * ps].copy_from_slice(&cur);
    }
    // compressible tail: the last points are identical
    if r.below(4) == 0 && n > 1 {
        let from = n - 1 - r.below(n as u64 - 1).min(r.below(300)) as usize;
        let last = out[from * ps..(from + 1) * ps].to_vec();
        for i in from..n {
            out[i * ps..(i + 1) * ps].copy_from_slice(&last);
        }
    }
    out
}
