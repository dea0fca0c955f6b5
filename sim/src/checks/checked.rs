use crate::bail;
use crate::ctx::{Ctx, Res};

/// What a build without checks does not report.
const ONLY_CHECKED: [&str; 4] = ["attempt to ", "assertion", "unsafe precondition", "misaligned pointer"];

/// A run of a drawn check, judged only by what the checked build adds: the rest is that check's own business.
pub fn p28(c: &mut Ctx) -> Res {
    if !cfg!(debug_assertions) {
        bail!("machinery", "P28 needs the checked build of the simulator (check.sh builds it)");
    }
    let all = super::all();
    let others: Vec<_> = all.iter().filter(|k| k.id != "P28").collect();
    // more weight on damaged input: it reaches the values nobody writes
    let k = match c.below(4) {
        0 => {
            let id = c.pick(&["P25", "P27"]);
            others.iter().find(|k| k.id == id).unwrap()
        }
        _ => &others[c.usize(others.len())],
    };
    c.log(|| format!("a run of {}", k.id));
    c.count(&format!("runs of {}", k.id), 1);
    let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (k.run)(c))) {
        Ok(r) => r,
        Err(_) => Err(crate::sess::take_panic()),
    };
    if let Err(f) = r {
        if ONLY_CHECKED.iter().any(|t| f.msg.contains(t)) {
            return Err(f);
        }
    }
    Ok(())
}
