//! Memory: leaks by live-byte monitoring; and the workload mixture that runs under Miri,
//! ThreadSanitizer and AddressSanitizer, whose verdict is theirs alone.
use super::c14::grows;
use super::*;
use crate::cx::*;
use crate::inst;
use crate::rng::{mix, Rng};

type Run = fn(&mut Cx) -> Res;
/// without worker threads
const QUIET: [(&str, Run); 6] =
    [("C01", c01::run), ("C02", c02::run), ("C03", c03::run), ("C04", c04::run), ("C06", c06::run), ("C16", c16::run)];
const PARALLEL: [(&str, Run); 8] = [
    ("C05", c05::run),
    ("C07", c07::run),
    ("C08", c08::run),
    ("C09", c09::run),
    ("C11", c11::run),
    ("C12", c12::run),
    ("C13", c13::run),
    ("C17", c17::run),
];
/// starts pools of its own, whose threads end later: no use for counting bytes
const POOLS: [(&str, Run); 1] = [("C10", c10::run)];
fn inner(cx: &Cx, rng: Rng, stats: &mut std::collections::BTreeMap<String, u64>, run: Run) -> Cx {
    let mut c = Cx {
        rng,
        thorough: false,
        stats: std::mem::take(stats),
        sig: 0,
        nontrivial: false,
        desc: String::new(),
        case: cx.case,
    };
    // what the functional monitors say is decided by their own checks
    let _ = attempt(|| run(&mut c));
    inst::disarm();
    *stats = std::mem::take(&mut c.stats);
    c
}
/// The same calls again and again: live memory must not rise.
pub fn run(cx: &mut Cx) -> Res {
    let mut r = cx.rng.clone();
    crate::rng::set_small(true);
    let quiet = r.chance(1, 2);
    let (name, f) = if quiet { *r.pick(&QUIET) } else { *r.pick(&PARALLEL) };
    let (reps, slack) = match (quiet, name) {
        (true, _) => (400, 600),
        (_, "C09" | "C11") => (40, 6_000),
        _ => (120, 4_000),
    };
    let reps = if cx.thorough { reps * 3 } else { reps };
    let rng = Rng::new(r.u64());
    let (mut stats, mut sig, mut desc, mut nontrivial) = (Default::default(), 0, String::new(), false);
    let what = format!("case {} of the {name} workload repeated {reps} times", cx.case);
    let grown = grows(&what, 20, reps, slack, |_| {
        let c = inner(cx, rng.clone(), &mut stats, f);
        (sig, desc, nontrivial) = (c.sig, c.desc, c.nontrivial);
        Ok(())
    });
    crate::rng::set_small(false);
    cx.describe(format!("repeated {reps} times: {desc}"));
    cx.sig = mix(cx.sig ^ sig);
    cx.nontrivial = nontrivial;
    let d = grown.map_err(|e| format!("{e}; workload: {desc}"))?;
    cx.hit(&format!("{name} workloads repeated under the memory monitor"));
    cx.add("repetitions", reps as u64);
    cx.max(if quiet { "bytes of growth, single-threaded" } else { "bytes of growth, parallel" }, d.max(0) as u64);
    Ok(())
}
/// Workloads of all other properties in turn. Nothing but the sanitizer judges them.
pub fn mixture(cx: &mut Cx) -> Res {
    let all: Vec<_> = QUIET.iter().chain(&PARALLEL).chain(&POOLS).collect();
    // not in step with the shards
    let (name, f) = all[mix(cx.case) as usize % all.len()];
    let mut stats = Default::default();
    let c = inner(cx, cx.rng.clone(), &mut stats, *f);
    (cx.sig, cx.desc, cx.nontrivial) = (mix(c.sig ^ cx.case), c.desc, c.nontrivial);
    cx.hit(&format!("{name} workloads"));
    Ok(())
}
