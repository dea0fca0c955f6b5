mod append;
mod checked;
mod coder;
mod faults;
mod hostile;
mod misc;
mod reading;
mod writing;

use crate::ctx::{Ctx, Res};

pub struct Check {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> Res,
    /// runs per tier
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub stubs: &'static str,
}

const STREAMS: &str = "streams are simulated (in memory)";
const POOL: &str = "streams are simulated (in memory); rayon-core's thread pool is replaced by the deterministic scheduler (the rayon iterators are real)";

pub fn all() -> Vec<Check> {
    let k = |id, run: fn(&mut Ctx) -> Res, quick, rule, stubs| Check { id, run, quick, thorough: quick * 20, rule, stubs };
    vec![
        k("P01", writing::p01, 9000, "drawn format, data, layout, call segmentation and stream imperfections; non-trivial: at least 2 points and an imperfect stream or more than one call", STREAMS),
        k("P02", writing::p02, 5000, "two drawn ways of feeding the same points are compared byte for byte; non-trivial: at least 2 points", POOL),
        k("P03", writing::p03, 5000, "drawn groups, writer, reader, schedule; non-trivial: at least 2 non-empty groups", POOL),
        k("P04", writing::p04, 5000, "drawn points, calls, pool size and schedule; non-trivial: at least two chunks and one task handed to the pool", POOL),
        k("P05", reading::p05, 5000, "drawn file, request sizes, pool size and schedule; non-trivial: at least two chunks", POOL),
        k("P06", reading::p06, 5000, "drawn file and buffer length, all one-shot functions; non-trivial: at least 2 points", POOL),
        k("P07", reading::p07, 6000, "drawn file and history of seeks and reads; non-trivial: at least one seek followed by a read", STREAMS),
        k("P08", reading::p08, 5000, "drawn file, history of seeks and reads, schedule; non-trivial: at least one seek followed by a read", POOL),
        k("P09", reading::p09, 6000, "drawn file and history with out-of-range requests; non-trivial: at least one out-of-range request followed by a good read", POOL),
        k("P10", writing::p10, 4000, "drawn writer, start position, surroundings and layout; every table entry is checked; non-trivial: at least two chunks", POOL),
        k("P11", writing::p11, 4000, "drawn writer or appender in foreign surroundings, every write checked against protected ranges; non-trivial: something to protect", POOL),
        k("P12", append::p12, 3500, "drawn sequence of write and append rounds; non-trivial: at least one round that adds points to existing ones", STREAMS),
        k("P13", append::p13, 3000, "drawn sequence of write and append rounds, schedule; non-trivial: at least one parallel round that adds points to existing ones", POOL),
        k("P14", append::p14, 3000, "drawn append stopped by a crash or failure at a drawn operation; non-trivial: at least one chunk is kept and the failure struck", POOL),
        k("P15", faults::p15, 5000, "drawn writer with a failure at a drawn operation; non-trivial: the failure struck", POOL),
        k("P16", faults::p16, 6000, "drawn reader with a failure at a drawn operation or a cut at a drawn position; non-trivial: the failure struck", POOL),
        k("P17", faults::p17, 6000, "drawn history with transient failures; non-trivial: a failure struck and a later seek and read succeeded", POOL),
        k("P18", faults::p18, 6000, "drawn writer killed at a drawn operation, inside or between writes; non-trivial: at least one point on the medium", POOL),
        k("P19", reading::p19, 6000, "drawn file with the table position at the end, or a source that cannot seek; non-trivial: at least 2 points", POOL),
        k("P20", reading::p20, 5000, "drawn selection, file and history; non-trivial: something left out and something optional kept", POOL),
        k("P21", misc::p21, 5000, "drawn file exchanged with the frozen codec in both directions, and the committed sample files; non-trivial: at least 2 points", STREAMS),
        k("P22", misc::p22, 1500, "drawn set of independent writers and readers stepped by several simulated threads; non-trivial: at least two of them and one hand-over or context switch", POOL),
        k("P23", misc::p23, 8000, "drawn record, cut or failure; non-trivial: at least two items, or a failure that struck", STREAMS),
        k("P24", misc::p24, 5000, "drawn LAS and LAZ file pair; non-trivial: at least 2 points", STREAMS),
        k("P25", faults::p25, 5000, "drawn damage inside one chunk; non-trivial: another chunk with points exists and damaged bytes differ", POOL),
        k("P27", hostile::p27, 9000, "drawn damage to any stored bytes (description of the points, LAS header, table, chunks, cuts), opened and used by every reader and appender; non-trivial: something was damaged", POOL),
        k("P29", coder::p29, 20000, "drawn models, values, sections, stream imperfections, failures and cuts; a quarter of the runs picks values that leave a carry undecided for up to 14000 bytes; non-trivial: at least 2 values, or a failure that struck", STREAMS),
        k("P28", checked::p28, 6000, "a drawn run of any other check, in a build with overflow checks and debug assertions; non-trivial: as in that check", POOL),
    ]
}
