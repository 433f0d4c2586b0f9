//! Workloads and monitors for rust_light; see DESIGN.md.
#![allow(dead_code)]
mod ctx;
mod cx;
mod el;
mod fp;
mod inst;
mod lin;
mod mem;
mod nd;
mod prog;
mod props;
mod rng;
use cx::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// usage: harness PROP key=value...   (seed, shard, shards, cases, out, thorough, seconds, only)
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let mut kv: BTreeMap<String, String> = BTreeMap::new();
    for a in &args[2..] {
        let (k, v) = a.split_once('=').expect("key=value");
        kv.insert(k.into(), v.into());
    }
    let num = |k: &str, d: u64| kv.get(k).map(|v| v.parse::<u64>().expect("number")).unwrap_or(d);
    let (seed, shard, shards, cases) = (num("seed", 1), num("shard", 0), num("shards", 1), num("cases", 100));
    let thorough = num("thorough", 0) == 1;
    rng::set_small(num("small", 0) == 1);
    let limit = Duration::from_secs(num("seconds", 600));
    let out = kv.get("out").cloned();
    let only = kv.get("only").map(|v| v.parse::<u64>().expect("number"));
    let salt = prop.bytes().fold(0u64, |h, b| rng::mix(h ^ b as u64));
    let run = props::find(&prop).expect("known property");
    quiet_panics();
    let start = Instant::now();
    let cur = out.as_ref().map(|o| std::fs::File::create(format!("{o}/cur-{shard}")).expect("out dir"));
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let (mut evals, mut viols, mut timed_out) = (0u64, 0u64, false);
    let mut samples: Vec<String> = Vec::new();
    let mut case = only.unwrap_or(shard);
    while case < cases || only.is_some() {
        if start.elapsed() > limit {
            timed_out = true;
            break;
        }
        if let Some(f) = &cur {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(format!("{case:020} {evals:010}\n").as_bytes(), 0);
        }
        let mut cx = Cx {
            rng: rng::Rng::new(rng::mix(rng::mix(seed ^ salt) ^ case)),
            thorough,
            stats: std::mem::take(&mut stats),
            sig: 0,
            nontrivial: false,
            desc: String::new(),
            case,
        };
        // a panic that no monitor expected is the library's: on the tree the workloads were built for, none occurs
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&mut cx))).unwrap_or_else(|_| {
            inst::disarm();
            Err(format!("unexpected panic: {}", LAST_PANIC.lock().map(|s| s.clone()).unwrap_or_default()))
        });
        stats = std::mem::take(&mut cx.stats);
        evals += 1;
        if cx.nontrivial {
            distinct.insert(cx.sig);
        }
        if let Some(_) = std::env::var_os("HARNESS_TIMES") {
            eprintln!("{:.2} {}", start.elapsed().as_secs_f64(), &cx.desc.chars().take(150).collect::<String>());
        }
        if samples.len() < 3 && cx.nontrivial {
            samples.push(cx.desc.clone());
        }
        if let Err(m) = res {
            viols += 1;
            let text = format!("property: {prop}\nseed: {seed}\ncase: {case}\nviolation: {m}\ncase description: {}\n", cx.desc);
            if let Some(o) = &out {
                std::fs::write(format!("{o}/viol-{shard}-{viols}"), format!("{case}\n{text}")).expect("write");
            }
            println!("{text}");
            if viols >= 3 {
                break;
            }
        }
        if only.is_some() {
            break;
        }
        case += shards;
    }
    let mut j = String::new();
    let _ = write!(j, "{{\"evaluations\":{evals},\"violations\":{viols},\"timed_out\":{timed_out},\"wall\":{:.2},\"stats\":{{", start.elapsed().as_secs_f64());
    for (i, (k, v)) in stats.iter().enumerate() {
        let _ = write!(j, "{}{}:{v}", if i > 0 { "," } else { "" }, json_str(k));
    }
    let _ = write!(j, "}},\"samples\":[{}]}}", samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
    if let Some(o) = &out {
        let mut h = Vec::with_capacity(distinct.len() * 8);
        for d in &distinct {
            h.extend_from_slice(&d.to_le_bytes());
        }
        std::fs::write(format!("{o}/hash-{shard}"), h).expect("write");
        std::fs::write(format!("{o}/done-{shard}"), &j).expect("write");
    } else {
        println!("{j}");
    }
    let _ = std::io::stdout().flush();
    std::process::exit(if viols > 0 { 1 } else { 0 });
}
