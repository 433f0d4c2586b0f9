//! Arithmetic faults: a panic injected at the k-th arithmetic operation of a library call.
use crate::ctx::pool;
use crate::cx::*;
use crate::ensure;
use crate::inst::{self, Inst};
use crate::nd::*;
use crate::prog::*;
use crate::rng::{mix, Rng};
use rust_light::nn::{Linear, Mlp, Module};
use rust_light::optim::sgd::sgd_step;
use rust_light::tensor::{functional as F, *};
use std::ops::{Add, Mul};

pub fn run(cx: &mut Cx) -> Res {
    let mut r = cx.rng.clone();
    match r.below(12) {
        0 | 1 => kernel(cx, &mut r),
        2..=4 => backward(cx, &mut r),
        5 => forward(cx, &mut r),
        6..=8 => training(cx, &mut r),
        9 => among_threads(cx, &mut r),
        _ => overflow(cx, &mut r),
    }
}
#[derive(Clone, Copy, Debug)]
enum At {
    Out,
    Pool(usize),
}
impl At {
    fn random(r: &mut Rng) -> At {
        match r.below(5) {
            0 | 1 => At::Out,
            2 => At::Pool(1),
            3 => At::Pool(2),
            _ => At::Pool(4),
        }
    }
    fn run<R: Send>(&self, f: impl FnOnce() -> R + Send) -> R {
        match self {
            At::Out => f(),
            At::Pool(n) => pool(*n).install(f),
        }
    }
    /// the pool still answers
    fn usable(&self) -> Res {
        let n = ok("work after a panic", || self.run(|| {
            let (a, b) = rayon::join(|| 1, || 2);
            let x = RcTensor::new(vec![1i64, 2, 3, 4], vec![2, 2]);
            let y = x.bmm(&x);
            y.sum().backward();
            a + b + y.sum().elem()
        }))?;
        ensure!(n == 3 + 7 + 10 + 15 + 22, "wrong result {n} after a panic");
        Ok(())
    }
}
/// The fault points to try for a call of n operations: all of them when few.
fn points(cx: &mut Cx, r: &mut Rng, n: u64) -> Vec<u64> {
    let cap = crate::rng::cap(if cx.thorough { 60 } else { 14 }, 2) as u64;
    cx.add("arithmetic operations that can fail", n);
    cx.max("arithmetic operations in one call", n);
    if n <= cap {
        cx.hit("calls with every fault point tried");
        (1..=n).collect()
    } else {
        let mut v: Vec<u64> = (0..cap - 2).map(|_| 1 + r.below(n as usize) as u64).collect();
        v.push(1);
        v.push(n);
        v.sort();
        v.dedup();
        v
    }
}
/// Runs f with a fault at the k-th operation; Some(result) if it returned.
fn faulty<R: Send>(cx: &mut Cx, what: &str, at: At, k: u64, f: impl FnOnce() -> R + Send) -> Res<Option<R>> {
    inst::arm(k);
    let out = attempt(|| at.run(f));
    let fired = inst::disarm();
    cx.hit("faults armed");
    if fired > 0 {
        cx.hit("faults fired");
        ensure!(out.is_none(), "{what}: a panic in the arithmetic (operation {k}, {at:?}) did not reach the caller");
        cx.hit("panics surfaced");
        if inst::odd_payload() {
            cx.hit("panics with a payload that is no text");
        }
        Ok(None)
    } else {
        ensure!(out.is_some(), "{what}: panicked by itself in {at:?}: {}", last_message());
        Ok(out)
    }
}
fn last_message() -> String {
    LAST_PANIC.lock().map(|s| s.clone()).unwrap_or_default()
}
fn small(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => *r.pick(&[33, 40, 65]),
        1 => r.range(5, 12),
        _ => r.range(1, 4),
    }
}
fn whole(r: &mut Rng, s: &[usize]) -> Nd<Inst> {
    Nd::new(s.to_vec(), (0..count(s)).map(|_| Inst(r.irange(-6, 6) as f64)).collect())
}
const MUL: fn(Inst, Inst) -> Inst = |a, b| a * b;
const ADD: fn(Inst, Inst) -> Inst = |a, b| a + b;

/// Matrix product, forward and backward.
fn kernel(cx: &mut Cx, r: &mut Rng) -> Res {
    let (m, k, n) = loop {
        let z = (small(r), small(r), small(r));
        if z.0 * z.1 * z.2 <= crate::rng::cap(800, 40) {
            break z;
        }
    };
    let b = if r.chance(1, 3) { r.range(1, 3) } else { 0 };
    let at = At::random(r);
    let (a, c) = (whole(r, &if b > 0 { vec![b, m, k] } else { vec![m, k] }), whole(r, &[k, n]));
    let want = a.matmul(&c, Inst(0.0), MUL, ADD);
    cx.describe(format!("matrix product {:?} x [{k}, {n}] in {at:?}", a.shape));
    cx.digest(&a.data);
    cx.nontrivial = true;
    let (x, y) = (rc(&a), rc(&c));
    let pre = Nd::full(&a.shape, Inst(5.0));
    x.update_grad(rc(&pre));
    let (p, ops) = inst::counted(|| at.run(|| x.bmm(&y)));
    is("product", &p, &want)?;
    for f in points(cx, r, ops) {
        let what = format!("{} with a fault at operation {f} of {ops}", cx.desc);
        let got = faulty(cx, &what, at, f, || x.bmm(&y))?;
        if let Some(g) = got {
            is(&what, &g, &want)?;
        }
        is("left operand after a panic", &x, &a)?;
        is("right operand after a panic", &y, &c)?;
        let Some(g) = grad_of(&x) else { return Err(format!("{what}: the gradient of an operand is unreadable")) };
        is("gradient after a failed forward", &g, &pre)?;
        ensure!(grad_of(&y).is_none(), "{what}: the failed forward left a gradient");
        is(&format!("{what}, repeated"), &ok(&what, || at.run(|| x.bmm(&y)))?, &want)?;
        at.usable()?;
    }
    if b > 0 {
        return Ok(());
    }
    let wt = whole(r, &want.shape);
    let l = F::dot(&p, &rc(&wt));
    let gx = wt.matmul(&c.transpose(), Inst(0.0), MUL, ADD);
    let gy = a.transpose().matmul(&wt, Inst(0.0), MUL, ADD);
    x.zero_grad();
    let (_, ops) = inst::counted(|| at.run(|| l.backward()));
    for t in [&x, &y, &p] {
        t.zero_grad();
    }
    for f in points(cx, r, ops) {
        let what = format!("backward of {} with a fault at operation {f} of {ops}", cx.desc);
        y.update_grad(RcTensor::new_with_filler(vec![k, n], Inst(7.0)));
        faulty(cx, &what, at, f, || l.backward())?;
        is("left operand after a panic", &x, &a)?;
        is("right operand after a panic", &y, &c)?;
        let Some(g) = grad_of(&y) else { return Err(format!("{what}: an earlier gradient became unreadable")) };
        ensure!(*g.shape() == vec![k, n], "{what}: gradient shape {:?}", g.shape());
        for (name, t) in [("left", &x), ("right", &y), ("product", &p)] {
            ok(&format!("{what}: clearing the {name} gradient"), || t.zero_grad())?;
            ensure!(grad_of(t).is_none(), "{what}: {name} gradient is not cleared");
        }
        ok(&format!("{what}, repeated"), || at.run(|| l.backward()))?;
        for (name, t, w) in [("left", &x, &gx), ("right", &y, &gy)] {
            let Some(g) = grad_of(t) else { return Err(format!("{what}, repeated: no {name} gradient")) };
            is(&format!("{what}, repeated: {name} gradient"), &g, w)?;
        }
        at.usable()?;
        for t in [&x, &y, &p] {
            t.zero_grad();
        }
    }
    Ok(())
}
fn program(r: &mut Rng) -> (Graph<Inst>, usize) {
    loop {
        let mut g: Graph<Inst> = Graph::new(3e3, 100);
        for _ in 0..r.range(1, 3) {
            let s = shape(r, 3, 40);
            g.random_leaf(r, &s);
        }
        for _ in 0..r.range(1, 10) {
            g.grow(r);
        }
        let a = g.some(r);
        if let Some(root) = g.root(r, a) {
            return (g, root);
        }
    }
}
/// Backward of random programs.
fn backward(cx: &mut Cx, r: &mut Rng) -> Res {
    let (g, root) = program(r);
    let at = At::random(r);
    let text = g.text(root);
    cx.describe(format!("backward in {at:?} of {text}"));
    cx.nontrivial = true;
    let t = ok("forward", || g.eval_lib(r))?;
    let (_, ops) = inst::counted(|| at.run(|| t[root].backward()));
    let adj = g.adjoint(root);
    let tol = g.tol(root);
    let clear = || t.iter().for_each(|x| x.zero_grad());
    clear();
    for f in points(cx, r, ops) {
        let what = format!("{} with a fault at operation {f} of {ops}", cx.desc);
        // some tensors already hold a gradient
        let held: Vec<bool> = (0..t.len()).map(|i| i != root && r.chance(1, 3)).collect();
        for (i, x) in t.iter().enumerate() {
            if held[i] {
                x.update_grad(RcTensor::new_with_filler(g.shape(i).to_vec(), Inst(2.5)));
            }
        }
        faulty(cx, &what, at, f, || t[root].backward())?;
        for (i, x) in t.iter().enumerate() {
            let v = dump("tensor after a panic", x)?;
            g.check_grad(&format!("{what}: value of t{i}"), &v, &(g.nodes[i].val.clone(), g.nodes[i].mag.clone()), tol)?;
            match grad_of(x) {
                None => ensure!(!held[i], "{what}: the gradient t{i} already had cannot be read any more"),
                Some(d) => {
                    ensure!(held[i] || adj[i].is_some(), "{what}: t{i} got a gradient from nowhere");
                    ensure!(*d.shape() == g.shape(i), "{what}: gradient of t{i} has shape {:?}", d.shape());
                    if held[i] && adj[i].is_none() {
                        is("untouched gradient", &d, &Nd::full(g.shape(i), Inst(2.5)))?;
                    }
                }
            }
            ok(&format!("{what}: clearing t{i}"), || x.zero_grad())?;
            ensure!(grad_of(x).is_none(), "{what}: t{i} is not cleared");
        }
        ok(&format!("{what}, repeated"), || at.run(|| t[root].backward()))?;
        for (i, x) in t.iter().enumerate() {
            if let (Some(w), true) = (&adj[i], i != root) {
                let Some(d) = grad_of(x) else { return Err(format!("{what}, repeated: no gradient of t{i}")) };
                g.check_grad(&format!("{what}, repeated: gradient of t{i}"), &dump("gradient", &d)?, w, tol)?;
            }
        }
        at.usable()?;
        clear();
    }
    Ok(())
}
/// Each forward operation of random programs, and the operations without gradient.
fn forward(cx: &mut Cx, r: &mut Rng) -> Res {
    let (g, root) = program(r);
    let at = At::random(r);
    let text = g.text(root);
    cx.describe(format!("forward in {at:?} of {text}"));
    cx.nontrivial = true;
    let t = ok("forward", || g.eval_lib(r))?;
    let tol = g.tol(root);
    for i in 0..=root {
        let op = g.nodes[i].op;
        if op == Op::Leaf {
            continue;
        }
        let seed = r.u64();
        let call = || g.apply(&mut Rng::new(seed), op, &t);
        let (_, ops) = inst::counted(|| at.run(call));
        for f in points(cx, r, ops) {
            let what = format!("{}{:?} with a fault at operation {f} of {ops} in {}", op.name(), op.ins(), cx.desc);
            faulty(cx, &what, at, f, call)?;
            for j in op.ins() {
                let v = (g.nodes[j].val.clone(), g.nodes[j].mag.clone());
                g.check_grad(&format!("{what}: operand t{j}"), &dump("operand", &t[j])?, &v, tol)?;
                ensure!(grad_of(&t[j]).is_none(), "{what}: t{j} got a gradient");
            }
            let again = ok(&format!("{what}, repeated"), || at.run(call))?;
            let v = (g.nodes[i].val.clone(), g.nodes[i].mag.clone());
            g.check_grad(&format!("{what}, repeated"), &dump("result", &again)?, &v, tol)?;
        }
    }
    // untracked operations
    let a = whole(r, &[2, 3]);
    let (x, v) = (rc(&a), rc(&a).view(ranges(&[(0, 2), (0, 3)])));
    let calls: [(&str, Box<dyn Fn() -> Nd<Inst> + Sync + Send>); 6] = [
        ("product", Box::new(|| dump("", &Mul::mul(&x, &x.clone())).unwrap())),
        ("scaling", Box::new(|| dump("", &x.left_scalar_multiplication(&Inst(3.0))).unwrap())),
        ("sum of a view", Box::new(|| dump("", &v.sum()).unwrap())),
        ("plain dot", Box::new(|| dump("", &raw(&a).dot(&x)).unwrap())),
        ("plain sum", Box::new(|| dump("", &Add::add(&raw(&a), &v)).unwrap())),
        ("mapping", Box::new(|| dump("", &F::generic_unary_op(&x, |e| e * e)).unwrap())),
    ];
    for (name, call) in &calls {
        let (want, ops) = inst::counted(|| call());
        for f in points(cx, r, ops) {
            faulty(cx, name, at, f, call)?;
            is("operand", &x, &a)?;
            same(name, &ok(name, || call())?, &want)?;
        }
    }
    at.usable()
}
/// Forward, backward and step of a network: one of them fails, then the step is done again.
fn training(cx: &mut Cx, r: &mut Rng) -> Res {
    let (i, h, o, b) = (r.range(1, 5), crate::rng::cap(*r.pick(&[1, 2, 3, 9, 14]), 3), r.range(1, 4), r.range(1, 3));
    let at = At::random(r);
    let p: Vec<Nd<Inst>> = [vec![i, h], vec![1, h], vec![h, o], vec![o]].iter().map(|s| whole(r, s)).collect();
    let data = whole(r, &[b, i]);
    let act: Option<fn(RcTensor<Inst>) -> RcTensor<Inst>> = if r.chance(1, 2) { Some(F::relu) } else { None };
    let build = || Mlp::new([Linear::new(rc(&p[0]), rc(&p[1]), act), Linear::new(rc(&p[2]), rc(&p[3]), None)]);
    let s = Inst(*r.pick(&[0.5, 0.25, 2.0, -1.0]));
    cx.describe(format!("training step {i}-{h}-{o}, batch {b}, in {at:?}"));
    cx.digest(&p[0].data);
    cx.nontrivial = true;
    let x = rc(&data);
    let grads = |m: &Mlp<Inst, 2>| -> Vec<Option<Nd<Inst>>> { m.params().iter().map(|q| grad_of(q).map(|g| dump("", &g).unwrap())).collect() };
    // the undisturbed step, all quantities exact
    let mut m = build();
    let (_, pass) = inst::counted(|| at.run(|| m.forward(x.clone()).sum().backward()));
    let want_g = grads(&m);
    let (_, step) = inst::counted(|| at.run(|| sgd_step(&mut m, RcTensor::scalar(s))));
    let want_p: Vec<Nd<Inst>> = m.params().iter().map(|q| dump("", q).unwrap()).collect();
    for (k, q) in p.iter().enumerate() {
        let Some(g) = &want_g[k] else { return Err(format!("parameter {k} has no gradient")) };
        same("step", &want_p[k], &q.zip(&g.map(|v| Inst(v.0 * s.0)), |a, b| Inst(a.0 - b.0)))?;
    }
    x.zero_grad();
    for f in points(cx, r, pass) {
        let what = format!("{}: fault at operation {f} of {pass} in forward and backward", cx.desc);
        let mut m = build();
        let before = m.params();
        faulty(cx, &what, at, f, || m.forward(x.clone()).sum().backward())?;
        for (k, q) in m.params().iter().enumerate() {
            is(&format!("{what}: parameter {k}"), q, &p[k])?;
            ok("zero_grad", || q.zero_grad())?;
        }
        x.zero_grad();
        ok(&format!("{what}, repeated"), || at.run(|| m.forward(x.clone()).sum().backward()))?;
        let g = grads(&m);
        ensure!(g == want_g, "{what}, repeated: gradients {g:?}, expected {want_g:?}");
        x.zero_grad();
        ok(&format!("{what}, step"), || at.run(|| sgd_step(&mut m, RcTensor::scalar(s))))?;
        for (k, q) in m.params().iter().enumerate() {
            is(&format!("{what}, then a step: parameter {k}"), q, &want_p[k])?;
            is("replaced parameter", &before[k], &p[k])?;
        }
        at.usable()?;
    }
    for f in points(cx, r, step) {
        let what = format!("{}: fault at operation {f} of {step} in the optimizer step", cx.desc);
        let mut m = build();
        ok("pass", || at.run(|| m.forward(x.clone()).sum().backward()))?;
        x.zero_grad();
        let done = faulty(cx, &what, at, f, || sgd_step(&mut m, RcTensor::scalar(s)))?;
        if done.is_none() {
            for (k, q) in m.params().iter().enumerate() {
                is(&format!("{what}: parameter {k} after the failed step"), q, &p[k])?;
            }
            let g = grads(&m);
            ensure!(g == want_g, "{what}: gradients after the failed step are {g:?}, expected {want_g:?}");
            ok(&format!("{what}, repeated"), || at.run(|| sgd_step(&mut m, RcTensor::scalar(s))))?;
        }
        for (k, q) in m.params().iter().enumerate() {
            is(&format!("{what}, repeated: parameter {k}"), q, &want_p[k])?;
        }
        at.usable()?;
    }
    Ok(())
}
/// One of several threads fails inside a backward pass over shared tensors: the others' contributions count.
fn among_threads(cx: &mut Cx, r: &mut Rng) -> Res {
    let threads = r.range(2, crate::rng::cap(5, 3));
    let n = crate::rng::cap(*r.pick(&[1, 3, 34]), 5);
    let rounds = crate::rng::cap(6, 1);
    cx.describe(format!("{threads} threads, one fails, tensor of {n}"));
    cx.nontrivial = true;
    for round in 0..rounds {
        let x = RcTensor::new_with_filler(vec![1, n], Inst(3.0));
        let seed = r.u64();
        let per = crate::rng::cap(6, 2);
        let total = (threads * per * (3 * n + 3)) as u64;
        inst::arm(1 + mix(seed) % total);
        let done: Vec<Vec<bool>> = std::thread::scope(|s| {
            let h: Vec<_> = (0..threads)
                .map(|th| {
                    let x = &x;
                    s.spawn(move || {
                        (0..per)
                            .map(|i| {
                                let c = Inst((1u64 << (th * per + i)) as f64);
                                let f = || match mix(seed ^ (th * per + i) as u64) % 3 {
                                    0 => x.update_grad(RcTensor::new_with_filler(vec![1, n], c)),
                                    1 => F::dot(x, &RcTensor::new_with_filler(vec![1, n], c)).backward(),
                                    _ => x.bmm(&RcTensor::new_with_filler(vec![n, 1], c)).backward(),
                                };
                                attempt(f).is_some()
                            })
                            .collect()
                    })
                })
                .collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let fired = inst::disarm();
        let mut sure = 0u64;
        let mut failed = 0u64;
        for (k, d) in done.iter().flatten().enumerate() {
            if *d {
                sure |= 1 << k
            } else {
                failed |= 1 << k
            }
        }
        ensure!(failed.count_ones() as u64 == fired, "{fired} faults fired but {} calls panicked in round {round}", failed.count_ones());
        cx.add("faults fired", fired);
        let Some(g) = grad_of(&x) else { return Err("the shared gradient cannot be read after a fault".into()) };
        let g = dump("shared gradient", &g)?;
        for v in &g.data {
            let bits = v.0 as u64;
            ensure!(
                v.0.fract() == 0.0 && bits & sure == sure && bits & !(sure | failed) == 0,
                "after a fault in another thread the gradient holds contributions {bits:b}, expected {sure:b} and possibly {failed:b}"
            );
        }
        ok("zero_grad", || x.zero_grad())?;
        ensure!(grad_of(&x).is_none(), "not cleared");
        cx.hit("rounds with a failing thread");
    }
    Ok(())
}
/// Real integer overflow (builds with overflow checks only).
fn overflow(cx: &mut Cx, r: &mut Rng) -> Res {
    if !cfg!(debug_assertions) {
        return kernel(cx, r);
    }
    let (m, k, n) = (r.range(1, 6), r.range(1, 40), r.range(1, 6));
    let at = At::random(r);
    let mut a: Nd<i32> = Nd::new(vec![m, k], (0..m * k).map(|_| r.irange(-9, 9) as i32).collect());
    let c: Nd<i32> = Nd::new(vec![k, n], (0..k * n).map(|_| r.irange(1, 9) as i32).collect());
    let want = a.matmul(&c, 0, |a, b| a * b, |a, b| a + b);
    let good = a.clone();
    let p = r.below(m * k);
    a.data[p] = i32::MAX;
    let j = p % k;
    let overflows = (0..n).any(|q| c.data[j * n + q] > 1);
    cx.describe(format!("i32 overflow in [{m}, {k}] x [{k}, {n}] at {p} in {at:?}"));
    cx.digest(&a.data);
    cx.nontrivial = true;
    let (x, y) = (rc(&a), rc(&c));
    if overflows {
        let got = attempt(|| at.run(|| x.bmm(&y)));
        ensure!(got.is_none(), "{}: overflow did not reach the caller, result {got:?}", cx.desc);
        cx.hit("integer overflows surfaced");
    }
    // gradient of the weights overflows: two rows that each contribute more than half of the range
    let u: Nd<i32> = Nd::new(vec![2, 1], vec![i32::MAX / 2 + 1, i32::MAX / 2 + 1]);
    let (z, w) = (rc(&u), RcTensor::new(vec![0i32; n], vec![1, n]));
    let l = z.bmm(&w).sum();
    let got = attempt(|| at.run(|| l.backward()));
    ensure!(got.is_none(), "{}: overflow in a gradient did not reach the caller", cx.desc);
    cx.hit("integer overflows surfaced");
    is("operand", &z, &u)?;
    is("left operand", &x, &a)?;
    for t in [&z, &w] {
        ok("zero_grad", || t.zero_grad())?;
        ensure!(grad_of(t).is_none(), "not cleared");
    }
    is("product after an overflow", &ok("product", || at.run(|| rc(&good).bmm(&y)))?, &want)?;
    at.usable()
}
