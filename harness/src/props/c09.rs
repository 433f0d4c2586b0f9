//! Concurrent gradient updates: linearizability of short histories, conservation under stress.
use crate::cx::*;
use crate::ensure;
use crate::fp::Fp;
use crate::inst::{self, Inst};
use crate::lin::*;
use crate::nd::*;
use crate::rng::{mix, Rng};
use rust_light::nn::{Linear, Mlp, Module};
use rust_light::tensor::{functional as F, *};
use std::ops::{Add, Neg};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Barrier, Mutex};

pub fn run(cx: &mut Cx) -> Res {
    let mut r = cx.rng.clone();
    if cx.case < 8 {
        self_test();
    }
    match r.below(12) {
        0..=7 => history(cx, &mut r),
        8 => tight(cx, &mut r),
        9 => conservation(cx, &mut r),
        10 => shared_network(cx, &mut r),
        _ => shared_middle(cx, &mut r),
    }
}
static CLOCK: AtomicU64 = AtomicU64::new(0);
fn tick() -> u64 {
    CLOCK.fetch_add(1, SeqCst)
}
#[derive(Clone, Copy, Debug)]
enum Do {
    Update,
    BackDot,
    BackNeg,
    BackBcast,
    BackMm,
    Clear,
    Read,
}
/// The power of two as an element.
fn bit(k: usize) -> Inst {
    Inst((1u64 << k) as f64)
}
fn perform(x: &RcTensor<Inst>, s: &[usize], what: Do, k: usize) -> Option<Vec<f64>> {
    let c = || RcTensor::new_with_filler(s.to_vec(), bit(k));
    match what {
        Do::Update => x.update_grad(c()),
        Do::BackDot => F::dot(x, &c()).backward(),
        Do::BackNeg => F::dot(&x.neg(), &c().neg()).backward(),
        Do::BackBcast => {
            let y = Add::add(x, &RcTensor::scalar(Inst(1.0)));
            F::dot(&c(), &y).backward()
        }
        Do::BackMm => {
            // s is [1, n]
            x.bmm(&RcTensor::new_with_filler(vec![s[1], 1], bit(k))).backward()
        }
        Do::Clear => x.zero_grad(),
        Do::Read => return grad_of(x).map(|g| (0..count(s)).map(|p| g[&unpos(s, p)].0).collect()),
    }
    None
}
struct Plan {
    tensor: usize,
    what: Do,
    bit: usize,
}
fn history(cx: &mut Cx, r: &mut Rng) -> Res {
    let threads = r.range(2, 5);
    let tensors = if r.chance(1, 4) { 2 } else { 1 };
    let n = crate::rng::cap(*r.pick(&[1, 1, 2, 5, 33, 70]), 6);
    let s = [1, n];
    let total = r.range(threads, 26);
    let mix_kind = r.below(4);
    let mut bits = vec![0; tensors];
    let mut plans: Vec<Vec<Plan>> = (0..threads).map(|_| Vec::new()).collect();
    for i in 0..total {
        let what = match (mix_kind, r.below(10)) {
            (0, 0..=6) => Do::Update,
            (1, 0..=6) => *r.pick(&[Do::BackDot, Do::BackNeg, Do::BackBcast, Do::BackMm]),
            (_, 0) => Do::Clear,
            (3, 1..=2) => Do::Clear,
            (_, 1..=4) => Do::Read,
            (_, 5..=6) => Do::Update,
            (_, 7) => Do::BackMm,
            _ => *r.pick(&[Do::BackDot, Do::BackNeg, Do::BackBcast]),
        };
        let tensor = r.below(tensors);
        let mut bit = 0;
        if !matches!(what, Do::Clear | Do::Read) {
            bit = bits[tensor];
            bits[tensor] += 1;
        }
        plans[i % threads].push(Plan { tensor, what, bit });
    }
    // every thread reads in the end
    let chaos = r.below(4);
    cx.describe(format!(
        "{threads} threads, {tensors} tensors of {n}, chaos {chaos}: {:?}",
        plans.iter().map(|p| p.iter().map(|q| (q.tensor, q.what)).collect::<Vec<_>>()).collect::<Vec<_>>()
    ));
    let xs: Vec<RcTensor<Inst>> = (0..tensors).map(|_| RcTensor::new_with_filler(s.to_vec(), Inst(3.0))).collect();
    let pre = r.chance(1, 3);
    if pre {
        for (t, x) in xs.iter().enumerate() {
            x.update_grad(RcTensor::new_with_filler(s.to_vec(), bit(bits[t])));
        }
    }
    let evs: Mutex<Vec<(usize, Ev)>> = Mutex::new(Vec::new());
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let barrier = Barrier::new(threads);
    if chaos > 0 {
        inst::chaos_density([1, 1, 4, 20][chaos]);
        inst::set_mode(inst::CHAOS);
    }
    let one = |th: usize, tensor: usize, what: Do, b: usize| {
        let start = tick();
        let got = attempt(|| perform(&xs[tensor], &s, what, b));
        let end = tick();
        let Some(got) = got else {
            *bad.lock().unwrap() = Some(format!("{what:?} panicked in thread {th}"));
            return;
        };
        let kind = match what {
            Do::Clear => Kind::Clear,
            Do::Read => {
                let v = got;
                if let Some(v) = &v {
                    if v.iter().any(|x| *x != v[0]) || v.len() != n {
                        *bad.lock().unwrap() = Some(format!("thread {th} read a partly applied contribution: {v:?}"));
                        return;
                    }
                    if v[0] < 0.0 || v[0].fract() != 0.0 {
                        *bad.lock().unwrap() = Some(format!("thread {th} read {v:?}"));
                        return;
                    }
                }
                Kind::Read(v.map(|v| v[0] as u64))
            }
            _ => Kind::Add(1 << b),
        };
        evs.lock().unwrap().push((tensor, Ev { kind, start, end, thread: th }));
    };
    std::thread::scope(|sc| {
        for (th, plan) in plans.iter().enumerate() {
            let (one, barrier) = (&one, &barrier);
            sc.spawn(move || {
                barrier.wait();
                for p in plan {
                    one(th, p.tensor, p.what, p.bit);
                }
            });
        }
    });
    inst::set_mode(0);
    for t in 0..tensors {
        one(threads, t, Do::Read, 0);
    }
    if let Some(b) = bad.into_inner().unwrap() {
        return Err(b);
    }
    let evs = evs.into_inner().unwrap();
    for t in 0..tensors {
        let mut h: Vec<Ev> = evs.iter().filter(|e| e.0 == t).map(|e| e.1.clone()).collect();
        h.sort_by_key(|e| e.start);
        let overlaps = h.iter().enumerate().map(|(i, a)| h[..i].iter().filter(|b| b.end > a.start).count() as u64).sum::<u64>();
        cx.add("concurrent pairs of operations", overlaps);
        cx.add("operations recorded", h.len() as u64);
        cx.nontrivial |= overlaps > 0;
        // what was observed identifies the interleaving
        let mut sig = 0u64;
        for e in &h {
            sig = mix(sig ^ e.thread as u64 ^ (match e.kind { Kind::Add(b) => b, Kind::Clear => 1 << 60, Kind::Read(v) => 1 << 61 | v.unwrap_or(1 << 62) }));
        }
        cx.sig = mix(cx.sig ^ sig);
        let init = pre.then_some(1u64 << bits[t]);
        ensure!(linearizable(&h, init), "history of tensor {t} (initially {init:?}) is not linearizable: {h:?}");
        cx.hit("linearizable histories");
    }
    Ok(())
}
/// The exact sum of what many threads add.
fn conservation(cx: &mut Cx, r: &mut Rng) -> Res {
    let threads = if r.chance(1, 25) { r.range(9, 40) } else { r.range(2, 8) };
    let per = r.range(5, if cx.thorough { 120 } else { 40 });
    let per = if r.chance(1, 60) && !crate::rng::small() { per * 20 } else { per };
    let n = crate::rng::cap(*r.pick(&[1, 3, 40, 200]), 5);
    let x = rc(&gen_nd::<Fp>(r, &[1, n], 1));
    let cs: Vec<Vec<Nd<Fp>>> = (0..threads).map(|_| (0..per).map(|_| gen_nd::<Fp>(r, &[1, n], 1)).collect()).collect();
    let mut want = Nd::full(&[1, n], Fp(0));
    for c in cs.iter().flatten() {
        want = want.zip(c, |a, b| a + b);
    }
    cx.describe(format!("{threads} threads add {per} contributions of {n} elements each"));
    cx.digest(&want.data);
    let pool = r.chance(1, 3);
    let work = |c: &Vec<Nd<Fp>>, k: usize| {
        for (i, d) in c.iter().enumerate() {
            match (i + k) % 4 {
                0 => x.update_grad(rc(d)),
                1 => F::dot(&x, &rc(d)).backward(),
                2 => x.bmm(&RcTensor::new(d.data.clone(), vec![n, 1])).backward(),
                _ => F::dot(&rc(&d.map(|v| -v)), &x.neg()).backward(),
            }
        }
    };
    let fine = run_threads(threads, pool, |k| work(&cs[k], k));
    ensure!(fine, "a concurrent backward pass panicked");
    let Some(g) = grad_of(&x) else { return Err("no gradient after concurrent backward passes".into()) };
    is(&format!("gradient after {threads} threads x {per} contributions"), &g, &want)?;
    cx.add("contributions conserved", (threads * per) as u64);
    cx.nontrivial = true;
    Ok(())
}
fn run_threads(threads: usize, pool: bool, f: impl Fn(usize) + Sync) -> bool {
    if pool {
        attempt(|| rayon::scope(|s| (0..threads).for_each(|k| { let f = &f; s.spawn(move |_| f(k)) }))).is_some()
    } else {
        let barrier = Barrier::new(threads);
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|k| {
                    let (f, barrier) = (&f, &barrier);
                    s.spawn(move || {
                        barrier.wait();
                        f(k)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join()).fold(true, |a, b| a & b.is_ok())
        })
    }
}
/// Data-parallel backward through one network.
fn shared_network(cx: &mut Cx, r: &mut Rng) -> Res {
    let threads = r.range(2, 8);
    let per = r.range(1, 6);
    let (i, h, o) = (r.range(1, 6), r.range(1, 9), r.range(1, 4));
    let p: Vec<Nd<Fp>> = [vec![i, h], vec![1, h], vec![h, o], vec![1, o]].iter().map(|s| gen_nd(r, s, 1)).collect();
    let mlp = Mlp::new([Linear::new(rc(&p[0]), rc(&p[1]), None), Linear::new(rc(&p[2]), rc(&p[3]), None)]);
    let data: Vec<Vec<Nd<Fp>>> = (0..threads).map(|_| (0..per).map(|_| { let b = r.range(1, 4); gen_nd(r, &[b, i], 1) }).collect()).collect();
    // reference: y = (x W1 + b1) W2 + b2, loss = sum y
    let (mul, add) = (|a: Fp, b: Fp| a * b, |a: Fp, b: Fp| a + b);
    let mut want: Vec<Nd<Fp>> = p.iter().map(|q| Nd::full(&q.shape, Fp(0))).collect();
    for x in data.iter().flatten() {
        let hid = x.matmul(&p[0], Fp(0), mul, add).zip(&p[1], add);
        let gy = Nd::full(&[x.shape[0], o], Fp(1));
        let gh = gy.matmul(&p[2].transpose(), Fp(0), mul, add);
        let rows = |g: &Nd<Fp>| Nd::full(&[1, g.shape[0]], Fp(1)).matmul(g, Fp(0), mul, add);
        for (k, d) in [x.transpose().matmul(&gh, Fp(0), mul, add), rows(&gh), hid.transpose().matmul(&gy, Fp(0), mul, add), rows(&gy)].into_iter().enumerate() {
            want[k] = want[k].zip(&d, add);
        }
    }
    cx.describe(format!("{threads} threads x {per} backward passes through a {i}-{h}-{o} network"));
    cx.digest(&want[0].data);
    let pool = r.chance(1, 3);
    let fine = run_threads(threads, pool, |k| {
        for x in &data[k] {
            mlp.forward(rc(x)).sum().backward();
        }
    });
    ensure!(fine, "a concurrent backward pass panicked");
    for (k, q) in mlp.params().iter().enumerate() {
        let Some(g) = grad_of(q) else { return Err(format!("parameter {k} has no gradient")) };
        is(&format!("gradient of parameter {k} after {}", cx.desc), &g, &want[k])?;
    }
    cx.add("concurrent passes through a network", (threads * per) as u64);
    cx.nontrivial = true;
    Ok(())
}
/// Several threads go backward from different results over one shared intermediate tensor.
fn shared_middle(cx: &mut Cx, r: &mut Rng) -> Res {
    let threads = r.range(2, 8);
    let per = r.range(1, 5);
    let s = [r.range(1, 5), r.range(1, 8)];
    let a = gen_nd::<Fp>(r, &s, 1);
    let b = gen_nd::<Fp>(r, &[1, s[1]], 1);
    let (x, y) = (rc(&a), rc(&b));
    let z = Add::add(&x, &y);
    let cs: Vec<Vec<Nd<Fp>>> = (0..threads).map(|_| (0..per).map(|_| gen_nd(r, &s, 1)).collect()).collect();
    let mut wz = Nd::full(&s, Fp(0));
    for c in cs.iter().flatten() {
        wz = wz.zip(c, |p, q| p + q);
    }
    let wy = Nd::full(&[1, s[0]], Fp(1)).matmul(&wz, Fp(0), |p, q| p * q, |p, q| p + q);
    cx.describe(format!("{threads} threads x {per} backward passes over a shared {s:?} tensor"));
    cx.digest(&wz.data);
    let fine = run_threads(threads, r.chance(1, 3), |k| {
        for c in &cs[k] {
            F::dot(&z, &rc(c)).backward();
        }
    });
    ensure!(fine, "a concurrent backward pass panicked");
    for (n, t, w) in [("shared result", &z, &wz), ("operand", &x, &wz), ("broadcast operand", &y, &wy)] {
        let Some(g) = grad_of(t) else { return Err(format!("{n} has no gradient")) };
        is(&format!("gradient of the {n} after {}", cx.desc), &g, w)?;
    }
    cx.add("concurrent passes over a shared tensor", (threads * per) as u64);
    cx.nontrivial = true;
    Ok(())
}

/// Many rounds of two to four operations on a fresh tensor, released at the same instant:
/// the windows between the library's own steps, which no arithmetic delay can widen.
fn tight(cx: &mut Cx, r: &mut Rng) -> Res {
    let threads = r.range(2, 4);
    let rounds = crate::rng::cap(if cx.thorough { 1500 } else { 400 }, 4);
    let n = crate::rng::cap(*r.pick(&[1, 2, 40]), 4);
    let seed = r.u64();
    cx.describe(format!("{rounds} rounds of {threads} simultaneous operations on a tensor of {n}"));
    let xs: Vec<RcTensor<Inst>> = (0..rounds).map(|_| RcTensor::new_with_filler(vec![1, n], Inst(3.0))).collect();
    // per round: what each thread does; preset or not
    let plan = |round: usize, th: usize| match mix(seed ^ (round * 8 + th) as u64) % 10 {
        0..=4 => Do::Update,
        5 => Do::BackDot,
        6 => Do::BackMm,
        7 | 8 => Do::Clear,
        _ => Do::Read,
    };
    let preset = |round: usize| mix(seed ^ round as u64) % 2 == 0;
    for (k, x) in xs.iter().enumerate() {
        if preset(k) {
            x.update_grad(RcTensor::new_with_filler(vec![1, n], bit(10)));
        }
    }
    let gen = AtomicU64::new(0);
    let arrived = AtomicU64::new(0);
    let logs: Vec<Mutex<Vec<Option<Ev>>>> = (0..threads).map(|_| Mutex::new(Vec::new())).collect();
    std::thread::scope(|sc| {
        for th in 0..threads {
            let (xs, gen, arrived, logs, plan) = (&xs, &gen, &arrived, &logs, &plan);
            sc.spawn(move || {
                let mut log = Vec::with_capacity(rounds);
                for (k, x) in xs.iter().enumerate() {
                    // a spinning barrier per round
                    if arrived.fetch_add(1, SeqCst) + 1 == (threads * (k + 1)) as u64 {
                        gen.store(k as u64 + 1, SeqCst);
                    }
                    let mut spins = 0u32;
                    while gen.load(SeqCst) < k as u64 + 1 {
                        spins += 1;
                        if spins > 500 {
                            std::thread::yield_now();
                        } else {
                            std::hint::spin_loop();
                        }
                    }
                    let what = plan(k, th);
                    let start = tick();
                    let got = attempt(|| perform(x, &[1, n], what, th));
                    let end = tick();
                    log.push(got.map(|v| Ev {
                        kind: match what {
                            Do::Clear => Kind::Clear,
                            Do::Read => Kind::Read(v.map(|v| if v.iter().all(|y| *y == v[0]) { v[0] as u64 } else { u64::MAX })),
                            _ => Kind::Add(1 << th),
                        },
                        start,
                        end,
                        thread: th,
                    }));
                }
                *logs[th].lock().unwrap() = log;
            });
        }
    });
    let logs: Vec<_> = logs.into_iter().map(|l| l.into_inner().unwrap()).collect();
    for k in 0..rounds {
        let mut h = Vec::new();
        for l in &logs {
            match &l[k] {
                Some(e) => h.push(e.clone()),
                None => return Err(format!("an operation panicked in round {k}")),
            }
        }
        let t = tick();
        let v = grad_of(&xs[k]).map(|g| g[&vec![0, n - 1]].0 as u64);
        h.push(Ev { kind: Kind::Read(v), start: t, end: tick(), thread: threads });
        let init = preset(k).then_some(1 << 10);
        ensure!(linearizable(&h, init), "round {k} (initially {init:?}) is not linearizable: {h:?}");
        cx.add("simultaneous rounds", 1);
        cx.add("concurrent pairs of operations", h.iter().enumerate().map(|(i, a)| h[..i].iter().filter(|b| b.end > a.start && a.end > b.start).count() as u64).sum());
    }
    cx.nontrivial = true;
    Ok(())
}
