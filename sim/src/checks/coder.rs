use crate::coder::{self, Chase};
use crate::ctx::{fail, Ctx, Res};
use crate::disk::*;
use crate::files::*;
use crate::sess::guarded;
use crate::tape::Rng;
use crate::ensure;
use std::io::{ErrorKind, Seek, SeekFrom, Write};

// ---------------------------------------------------------------------------------------------
// P29: the entropy coder

/// bits, contexts, bits_high, range of an integer coder
#[derive(Clone, Copy, Debug)]
struct Ints(u32, u32, u32, u32);

impl Ints {
    /// how many values there are (0: all of i32)
    fn values(&self) -> u64 {
        match self {
            Ints(_, _, _, r) if *r > 0 => *r as u64,
            Ints(b, ..) if *b < 32 => 1 << *b,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug, Default)]
struct Setup {
    /// symbols, built by the builder, initial frequencies
    models: Vec<(u32, bool, Vec<u32>)>,
    bits: usize,
    ints: Vec<Ints>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Sym(usize, u32),
    Bit(usize, u32),
    Raw(u32, u32),
    RawBit(u32),
    Byte(u8),
    Short(u16),
    Int(u32),
    Int64(u64),
    /// coder, context, prediction, value
    Pred(usize, u32, i32, i32),
}

macro_rules! set {
    ($name:ident, $krate:ident, $int:ident, $builder:ident, $module:ident, $compress:literal) => {
        struct $name {
            models: Vec<$krate::models::ArithmeticModel>,
            bits: Vec<$krate::models::ArithmeticBitModel>,
            ints: Vec<$krate::$module::$int>,
        }
        impl $name {
            fn new(s: &Setup) -> $name {
                use $krate::models::*;
                $name {
                    models: s
                        .models
                        .iter()
                        .map(|(n, b, t)| {
                            if *b {
                                ArithmeticModelBuilder::new(*n).with_compression($compress).build()
                            } else {
                                ArithmeticModel::new(*n, $compress, t)
                            }
                        })
                        .collect(),
                    bits: (0..s.bits).map(|_| ArithmeticBitModel::new()).collect(),
                    ints: s
                        .ints
                        .iter()
                        .map(|i| {
                            if i.2 == 8 && i.3 == 0 {
                                $krate::$module::$builder::new().bits(i.0).contexts(i.1).build_initialized()
                            } else {
                                let mut x = $krate::$module::$int::new(i.0, i.1, i.2, i.3);
                                x.init();
                                x
                            }
                        })
                        .collect(),
                }
            }
        }
    };
}
set!(Enc, laz, IntegerCompressor, IntegerCompressorBuilder, compressors, true);
set!(Dec, laz, IntegerDecompressor, IntegerDecompressorBuilder, decompressors, false);
set!(RefDec, laz_ref, IntegerDecompressor, IntegerDecompressorBuilder, decompressors, false);

impl Enc {
    fn put<W: Write>(&mut self, e: &mut laz::encoders::ArithmeticEncoder<W>, op: Op) -> std::io::Result<()> {
        match op {
            Op::Sym(m, v) => e.encode_symbol(&mut self.models[m], v),
            Op::Bit(m, v) => e.encode_bit(&mut self.bits[m], v),
            Op::Raw(b, v) => e.write_bits(b, v),
            Op::RawBit(v) => e.write_bit(v),
            Op::Byte(v) => e.write_byte(v),
            Op::Short(v) => e.write_short(v),
            Op::Int(v) => e.write_int(v),
            Op::Int64(v) => e.write_int64(v),
            Op::Pred(i, c, p, v) => self.ints[i].compress(e, p, v, c),
        }
    }
}

macro_rules! get {
    ($set:ident, $krate:ident) => {
        impl $set {
            /// What the stream says where `op` was put.
            fn get<R: std::io::Read>(&mut self, d: &mut $krate::decoders::ArithmeticDecoder<R>, op: Op) -> std::io::Result<Op> {
                Ok(match op {
                    Op::Sym(m, _) => Op::Sym(m, d.decode_symbol(&mut self.models[m])?),
                    Op::Bit(m, _) => Op::Bit(m, d.decode_bit(&mut self.bits[m])?),
                    Op::Raw(b, _) => Op::Raw(b, d.read_bits(b)?),
                    Op::RawBit(_) => Op::RawBit(d.read_bit()?),
                    Op::Byte(_) => Op::Byte(d.read_bits(8)? as u8),
                    Op::Short(_) => Op::Short(d.read_bits(16)? as u16),
                    Op::Int(_) => Op::Int(d.read_int()?),
                    Op::Int64(_) => Op::Int64(d.read_int_64()?),
                    Op::Pred(i, c, p, _) => Op::Pred(i, c, p, self.ints[i].decompress(d, p, c)?),
                })
            }
        }
    };
}
get!(Dec, laz);
get!(RefDec, laz_ref);

fn draw_setup(c: &mut Ctx, r: &mut Rng, plain: bool) -> Setup {
    let mut s = Setup::default();
    for _ in 0..c.range(1, 4) {
        let n = match c.below(5) {
            0 => 256,
            1 => 2 + c.below(30) as u32,
            2 => c.pick(&[2u32, 3, 4, 15, 16, 17, 18, 32, 33, 63, 64, 65, 128, 512, 1023, 1024, 1025, 2047, 2048]),
            3 => 2 + c.below(300) as u32,
            _ => 2 + c.below(2047) as u32,
        };
        let table = if !plain && c.chance(1, 5) {
            // their sum is taken to be the number of symbols
            let mut t = vec![1u32; n as usize];
            for _ in 0..r.below(n as u64) {
                let (a, b) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
                if t[a] > 1 {
                    t[a] -= 1;
                    t[b] += 1;
                }
            }
            t
        } else {
            vec![]
        };
        s.models.push((n, table.is_empty() && c.chance(1, 2), table));
    }
    s.bits = c.usize(3);
    if !plain {
        for _ in 0..c.usize(4) {
            let bits = match c.below(4) {
                0 => 16,
                1 => 32,
                2 => c.pick(&[1u32, 2, 7, 8, 9, 15, 17, 20, 27, 28, 30]),
                _ => 1 + c.below(30) as u32,
            };
            let contexts = c.pick(&[1u32, 2, 3, 4, 8]);
            let high = c.pick(&[8u32, 8, 1, 2, 4, 10, 11]);
            let range = if high != 8 && c.chance(1, 3) { c.pick(&[2u32, 3, 5, 255, 256, 257, 65535, 65537, 1 << 20, (1 << 30) - 1, 1 << 30]) } else { 0 };
            s.ints.push(Ints(bits, contexts, high, range));
        }
    }
    s
}

/// Small numbers, big ones, near the ends, in runs.
struct Values {
    kind: u64,
    last: u64,
}

impl Values {
    fn below(&mut self, r: &mut Rng, n: u64) -> u64 {
        let v = match self.kind {
            0 => r.below(n),
            1 => 0,
            2 => n - 1,
            3 => r.below(n).min(r.below(n)).min(r.below(n)),
            4 => [0, n - 1, n / 2][r.below(3) as usize],
            5 => {
                if r.below(10) == 0 {
                    self.last = r.next();
                }
                self.last % n
            }
            _ => {
                let k = 64 - n.leading_zeros() as u64;
                (r.next() >> r.range(64 - k, 63)) % n
            }
        };
        v
    }
}

fn draw_op(s: &Setup, v: &mut Values, r: &mut Rng) -> Op {
    loop {
        return match r.below(12) {
            0..=3 => {
                let m = r.below(s.models.len() as u64) as usize;
                Op::Sym(m, v.below(r, s.models[m].0 as u64) as u32)
            }
            4 | 5 if s.bits > 0 => Op::Bit(r.below(s.bits as u64) as usize, v.below(r, 2) as u32),
            6 => {
                let b = 1 + r.below(32) as u32;
                Op::Raw(b, v.below(r, 1 << b) as u32)
            }
            7 => match r.below(5) {
                0 => Op::RawBit(v.below(r, 2) as u32),
                1 => Op::Byte(v.below(r, 256) as u8),
                2 => Op::Short(v.below(r, 1 << 16) as u16),
                3 => Op::Int(v.below(r, 1 << 32) as u32),
                _ => Op::Int64(v.below(r, u64::MAX)),
            },
            8..=11 if !s.ints.is_empty() => {
                let i = r.below(s.ints.len() as u64) as usize;
                let k = s.ints[i];
                let (a, b) = match k.values() {
                    0 => (v.below(r, 1 << 32) as u32 as i32, v.below(r, 1 << 32) as u32 as i32),
                    n => (v.below(r, n) as i32, v.below(r, n) as i32),
                };
                Op::Pred(i, r.below(k.1 as u64) as u32, a, b)
            }
            _ => continue,
        };
    }
}

/// Another value for the model of `op`.
fn again(s: &Setup, op: Op, v: &mut Values, r: &mut Rng) -> Op {
    match op {
        Op::Sym(m, _) => Op::Sym(m, v.below(r, s.models[m].0 as u64) as u32),
        Op::Bit(m, _) => Op::Bit(m, v.below(r, 2) as u32),
        Op::Pred(i, c, p, _) => {
            let x = match s.ints[i].values() {
                0 => p.wrapping_add(v.below(r, 4) as i32),
                n => ((p as u64 + v.below(r, 4.min(n))) % n) as i32,
            };
            Op::Pred(i, c, p, x)
        }
        _ => draw_op(s, v, r),
    }
}

/// Values that leave a carry undecided for long.
fn chased(s: &Setup, n: usize, goal: u64, small: bool, m: &mut [coder::Model], b: &mut [coder::BitModel], ch: &mut Chase, r: &mut Rng) -> Vec<Op> {
    ch.goal = goal;
    ch.restart();
    (0..n)
        .map(|_| match r.below(16) {
            0 if s.bits > 0 => {
                let k = r.below(s.bits as u64) as usize;
                Op::Bit(k, ch.bit(&mut b[k]))
            }
            1 => {
                let k = 1 + r.below(if small { 8 } else { 31 }) as u32;
                Op::Raw(k, ch.raw(k))
            }
            _ => {
                let k = r.below(s.models.len() as u64) as usize;
                Op::Sym(k, ch.symbol(&mut m[k]))
            }
        })
        .collect()
}

struct Section {
    ops: Vec<Op>,
    /// the models go on from the section before
    keep: bool,
    start: u64,
}

fn io<T>(r: std::io::Result<T>, class: &str, what: impl FnOnce() -> String) -> Res<T> {
    r.or_else(|e| fail(class, format!("{}: {e}", what())))
}

pub fn p29(c: &mut Ctx) -> Res {
    draw_base(c);
    let seed = c.seed();
    let mut r = Rng::new(seed);
    let chase = c.chance(1, 4);
    let setup = draw_setup(c, &mut r, chase);
    c.log(|| {
        let m: Vec<_> = setup.models.iter().map(|m| (m.0, if m.2.is_empty() { "even" } else { "drawn" })).collect();
        format!("models of {m:?}, {} bit models, integer coders (bits, contexts, bits_high, range) {:?}", setup.bits, setup.ints)
    });
    c.note(seed);

    // the values
    let mut sections = vec![];
    let mut longest = 0;
    let mut total = 0;
    if chase {
        let mut m: Vec<_> = setup.models.iter().map(|m| coder::Model::new(m.0)).collect();
        let mut b = vec![coder::BitModel::new(); setup.bits];
        let mut ch = Chase::new(0, seed);
        for i in 0..c.range(1, 2) {
            let keep = i > 0 && c.chance(1, 2);
            if !keep {
                m = setup.models.iter().map(|m| coder::Model::new(m.0)).collect();
                b = vec![coder::BitModel::new(); setup.bits];
            }
            let goal = match c.below(4) {
                0 => 1 + c.below(20),
                1 => 1 + c.below(300),
                2 => 1 + c.below(5000),
                _ => 4000 + c.below(10000),
            };
            let per = setup.models.iter().map(|m| 32 - m.0.leading_zeros() as usize).min().unwrap().max(3);
            let n = match c.below(3) {
                0 => c.size(3000),
                1 => (goal as usize * 10 / per).min(25000),
                _ => (goal as usize * 16 / per).min(30000),
            };
            let ops = chased(&setup, n, goal, goal > 500, &mut m, &mut b, &mut ch, &mut r);
            longest = longest.max(ch.longest).max(ch.pending);
            c.log(|| format!("section of {n} values that keep a carry open for {goal} bytes"));
            total += ops.len();
            sections.push(Section { ops, keep, start: 0 });
        }
        c.count(
            match longest {
                0..=99 => "carry through at most 99 bytes",
                100..=4095 => "carry through 100 to 4095 bytes",
                _ => "carry through 4096 bytes or more",
            },
            1,
        );
    } else {
        let mut v = Values { kind: c.below(7), last: 0 };
        // many values for one model: its frequencies are halved again and again
        let long = c.chance(1, 15);
        for i in 0..c.range(1, 3) {
            let keep = i > 0 && c.chance(1, 2);
            let n = if long { 9000 + c.usize(60_000) } else { c.size(4000) };
            let vary = c.chance(1, 3);
            let mut ops = vec![];
            let only = if long { Some(draw_op(&setup, &mut v, &mut r)) } else { None };
            let run = 20 + r.below(20_000);
            for _ in 0..n {
                if long && r.below(run) == 0 || vary && !long && r.below(50) == 0 {
                    v.kind = r.below(7);
                }
                ops.push(match only {
                    Some(o) => again(&setup, o, &mut v, &mut r),
                    None => draw_op(&setup, &mut v, &mut r),
                });
            }
            c.log(|| format!("section of {n} values of kind {}{}, {}", v.kind, if long { ", all for one model" } else { "" }, if keep { "models kept" } else { "new models" }));
            if long {
                c.count("sections of more than 9000 values for one model", 1);
            }
            total += n;
            sections.push(Section { ops, keep, start: 0 });
        }
    }

    // put
    let fault = |c: &mut Ctx, ops: u64| -> Vec<Fault> {
        if !c.chance(1, 4) {
            return vec![];
        }
        let kind = c.pick(&[FaultKind::Err(ErrorKind::Other), FaultKind::Zero, FaultKind::ShortThenErr(ErrorKind::Other)]);
        vec![Fault { at: c.below(ops), kind, times: c.pick(&[1u64, u64::MAX]) }]
    };
    let n_sections = sections.len() as u64;
    let wf = fault(c, 3 * n_sections + total as u64 / 2000 + 1);
    let faulty = !wf.is_empty();
    let d = Disk::new(vec![]).profile(draw_profile(c)).with(|i| i.faults = wf);
    if c.verbose {
        d.lock().log = Some(vec![]);
    }
    let reuse = c.chance(1, 2);
    let r_put = guarded(|| -> std::io::Result<()> {
        let mut set = Enc::new(&setup);
        let mut e = laz::encoders::ArithmeticEncoder::new(d.open(0));
        for (i, s) in sections.iter_mut().enumerate() {
            if !s.keep {
                set = Enc::new(&setup);
            }
            if i > 0 {
                if reuse {
                    e.reset();
                } else {
                    e = laz::encoders::ArithmeticEncoder::new(e.into_inner());
                }
            }
            s.start = e.get_mut().stream_position()?;
            for op in &s.ops {
                set.put(&mut e, *op)?;
            }
            e.done()?;
        }
        Ok(())
    })?;
    let struck = d.lock().fired > 0;
    absorb(c, &d);
    match r_put {
        Err(e) => {
            ensure!(struck, "encode", "values not taken although nothing failed: {e}");
            c.nontrivial();
            return Ok(());
        }
        Ok(()) => {}
    }
    let bytes = d.data();
    let ends: Vec<u64> = sections.iter().skip(1).map(|s| s.start).chain([crate::disk::base() + bytes.len() as u64]).collect();
    let what = if faulty { "after a reported success" } else { "of a fault-free stream" };

    // the frozen decoder
    {
        let mut set = RefDec::new(&setup);
        for (i, s) in sections.iter().enumerate() {
            if !s.keep {
                set = RefDec::new(&setup);
            }
            let mut x = laz_ref::decoders::ArithmeticDecoder::new(&bytes[(s.start - crate::disk::base()) as usize..]);
            io(x.read_init_bytes(), "frozen", || format!("section {i} {what}"))?;
            for (k, op) in s.ops.iter().enumerate() {
                let got = io(set.get(&mut x, *op), "frozen", || format!("section {i}, value {k} {what}"))?;
                ensure!(got == *op, "frozen", "the frozen decoder, section {i} {what}: value {k} of {} is {got:?} instead of {op:?} (longest open carry {longest} bytes)", s.ops.len());
            }
        }
    }

    // get, with failures on the way
    let rf = fault(c, bytes.len() as u64 + 4);
    let cut = if rf.is_empty() && c.chance(1, 6) { Some(c.usize(bytes.len() + 1)) } else { None };
    let stored = match cut {
        Some(n) => bytes[..n].to_vec(),
        None => bytes.clone(),
    };
    let d = Disk::new(stored).profile(draw_profile(c)).with(|i| i.faults = rf);
    if c.verbose {
        d.lock().log = Some(vec![]);
    }
    let again = c.usize(sections.len() + 1);
    let reuse = c.chance(1, 2);
    let mut order: Vec<usize> = (0..sections.len()).collect();
    if again < sections.len() && !sections[again].keep {
        order.push(again);
    }
    let out = guarded(|| -> Res<bool> {
        let mut set = Dec::new(&setup);
        let mut x = laz::decoders::ArithmeticDecoder::new(d.open(0));
        let mut lost = false;
        let mut failed = false;
        for (j, &i) in order.iter().enumerate() {
            let s = &sections[i];
            if !s.keep {
                set = Dec::new(&setup);
                lost = false;
            }
            if lost {
                continue;
            }
            if j > 0 {
                if reuse {
                    x.reset();
                } else {
                    x = laz::decoders::ArithmeticDecoder::new(x.into_inner());
                }
            }
            let mut tries = 0;
            loop {
                tries += 1;
                let before = d.lock().fired;
                let r = (|| -> Res<Result<(), std::io::Error>> {
                    if j != i || tries > 1 || failed {
                        if let Err(e) = x.get_mut().seek(SeekFrom::Start(s.start)) {
                            return Ok(Err(e));
                        }
                    }
                    if let Err(e) = x.read_init_bytes() {
                        // without them there is nothing to decode, only no panic is asked for
                        for op in s.ops.iter().take(20) {
                            let _ = set.get(&mut x, *op);
                        }
                        return Ok(Err(e));
                    }
                    for (k, op) in s.ops.iter().enumerate() {
                        match set.get(&mut x, *op) {
                            Ok(v) => ensure!(v == *op, "decode", "section {i} {what}: value {k} of {} is {v:?} instead of {op:?} (longest open carry {longest} bytes)", s.ops.len()),
                            Err(e) => {
                                for op in s.ops.iter().skip(k).take(20) {
                                    let _ = set.get(&mut x, *op);
                                }
                                return Ok(Err(e));
                            }
                        }
                    }
                    Ok(Ok(()))
                })()?;
                match r {
                    Ok(()) => {
                        let at = x.get_mut().pos;
                        ensure!(at == ends[i], "position", "after all values of section {i} the stream is at {at}, the section ends at {}", ends[i]);
                        break;
                    }
                    Err(e) => {
                        failed = true;
                        let fired = d.lock().fired > before;
                        let short = cut.is_some_and(|n| (n as u64) < ends[i] - crate::disk::base());
                        ensure!(fired || short, "decode", "section {i}: failure although nothing is wrong: {e}");
                        // models that are in the middle of a section are of no use
                        set = Dec::new(&setup);
                        x.reset();
                        if s.keep || short || tries > 1 {
                            lost = true;
                            break;
                        }
                    }
                }
            }
        }
        Ok(failed)
    })?;
    absorb(c, &d);
    let failed = out?;
    if failed || total >= 2 && sections.iter().filter(|s| !s.ops.is_empty()).count() > 0 {
        c.nontrivial();
    }
    if let Some(n) = cut {
        if n < bytes.len() {
            ensure!(failed, "cut", "of {} bytes {n} are left and every value came back", bytes.len());
            c.count("fault: stream cut off", 1);
        }
    }
    Ok(())
}
