//! Training runs: parameters against a reference, work and memory against the first iterations.
use super::net::*;
use crate::cx::*;
use crate::ensure;
use crate::fp::{Fp, P};
use crate::inst::{self, Inst};
use crate::mem;
use crate::nd::*;
use crate::prog::*;
use crate::rng::Rng;
use num::traits::real::Real;
use rust_light::nn::{Linear, Mlp, Module};
use rust_light::optim::sgd::sgd_step;
use rust_light::tensor::{functional as F, *};
use std::ops::Add;

pub fn run(cx: &mut Cx) -> Res {
    let mut r = cx.rng.clone();
    match r.below(10) {
        0..=3 => trajectory::<Fp>(cx, &mut r),
        4 | 5 => trajectory::<f64>(cx, &mut r),
        6 | 7 => cost(cx, &mut r),
        8 => accumulation(cx, &mut r),
        _ => memory(cx, &mut r),
    }
}
/// Loss of a batch, built in the model and with the library in the same way.
fn loss_node<T: ElG>(g: &mut Graph<T>, y: usize, target: usize, square: bool) -> Option<usize> {
    let d = g.push(Op::Sub(y, target))?;
    if square {
        g.push(Op::Dot(d, d))
    } else {
        let a = g.push(Op::Abs(d))?;
        g.push(Op::Sum(a))
    }
}
fn loss<T: ElG>(form: usize, y: &RcTensor<T>, target: &RcTensor<T>, square: bool) -> RcTensor<T> {
    let d = T::l_sub(form, y, target);
    if square {
        F::dot(&d, &d)
    } else {
        T::l_abs(&d).sum()
    }
}
fn trajectory<T: ElG + Real>(cx: &mut Cx, r: &mut Rng) -> Res {
    let exact = T::EPS == 0.0;
    let scale = |r: &mut Rng| if exact { T::leaf(r) } else { T::leaf(r) * num::NumCast::from(0.3).unwrap() };
    let mut leaf = |r: &mut Rng| loop {
        let v = scale(r);
        if v != T::zero() {
            return v;
        }
    };
    let mut spec: Spec<T> = Spec::random(r, &mut leaf);
    if !exact {
        // smooth networks only: no reference trajectory can be followed across a kink
        for a in spec.acts.iter_mut() {
            if matches!(a, Act::Relu | Act::Abs) {
                *a = Act::Tanh;
            }
        }
    }
    let square = !exact || r.chance(1, 2);
    let rows = r.range(1, 3);
    let sets = r.range(1, 3);
    let data: Vec<(Nd<T>, Nd<T>)> = (0..sets)
        .map(|_| {
            let f = |r: &mut Rng, w: usize| Nd::new(vec![rows, w], (0..rows * w).map(|_| if exact { T::leaf(r) } else { scale(r) }).collect());
            (f(r, spec.width_in()), f(r, spec.width_out()))
        })
        .collect();
    let iterations = if r.chance(1, 8) { r.range(40, if cx.thorough { 400 } else { 100 }) } else { r.range(2, 20) };
    let iterations = if exact { iterations } else { iterations.min(30) };
    // now and then a long training of a small model
    let size: usize = spec.params.iter().map(|p| p.data.len()).sum();
    let iterations = if exact && size < 30 && !crate::rng::small() && r.chance(1, 40) { r.range(500, if cx.thorough { 5000 } else { 1500 }) } else { iterations };
    if size > 4000 && iterations > 3 {
        return Ok(());
    }
    let step: T = if exact { T::leaf(r) } else { num::NumCast::from(0.02).unwrap() };
    cx.describe(format!("{} rows {rows}, {iterations} iterations, step {step:?}", spec.text()));
    cx.digest(&spec.params[0].data);
    cx.nontrivial = true;
    cx.max("iterations", iterations as u64);
    let mut vals = spec.params.clone();
    let mut net = spec.build(&vals.iter().map(rc).collect::<Vec<_>>());
    let inputs: Vec<_> = data.iter().map(|d| (rc(&d.0), rc(&d.1))).collect();
    let accumulate = r.range(1, 3);
    for it in 0..iterations {
        let mut sums: Vec<Nd<T>> = vals.iter().map(|v| v.map(|_| T::zero())).collect();
        // bounds of the rounding error of the gradients
        let mut errs: Vec<Nd<f64>> = vals.iter().map(|v| v.map(|_| 0.0)).collect();
        for b in 0..accumulate {
            let k = (it + b) % sets;
            let mut g: Graph<T> = Graph::new(1e12, 1 << 20);
            let ids: Vec<usize> = vals.iter().map(|v| g.leaf(v.clone())).collect();
            let x = g.leaf(data[k].0.clone());
            let t = g.leaf(data[k].1.clone());
            let Some(y) = spec.forward(&mut g, &ids, x) else { return Ok(()) };
            let Some(root) = loss_node(&mut g, y, t, square) else { return Ok(()) };
            let adj = g.adjoint(root);
            for (j, s) in sums.iter_mut().enumerate() {
                let (d, mag) = adj[ids[j]].as_ref().unwrap();
                *s = s.zip(d, |a, b| a + b);
                let tol = g.tol(root) * 100.0;
                errs[j] = errs[j].zip(mag, |a, b| a + b * tol);
            }
            let form = r.below(3);
            ok("iteration", || loss(form, &net.forward(inputs[k].0.clone()), &inputs[k].1, square).backward())?;
        }
        ok("step", || net.step(RcTensor::scalar(step)))?;
        for (j, v) in vals.iter_mut().enumerate() {
            *v = v.zip(&sums[j], |p, g| p + (step * g).minus());
        }
        for (j, p) in ok("params", || net.params())?.iter().enumerate() {
            let what = format!("parameter {j} after iteration {it} of {}", cx.desc);
            let d = dump(&what, p)?;
            if exact {
                same(&what, &d, &vals[j])?
            } else {
                if vals[j].data.iter().any(|x| x.to_f().abs() > 1e12 || x.to_f().is_nan()) {
                    return Ok(()); // diverging run
                }
                // one iteration from where the last one ended: rounding errors do not add up
                let moved = sums[j].map(|x| x.to_f().abs() * step.to_f().abs());
                let bound = errs[j].zip(&moved, |e, m| e * step.to_f().abs() + 16.0 * T::EPS * m);
                let bound = bound.zip(&vals[j].map(|x| x.to_f().abs()), |b, v| b + 16.0 * T::EPS * v);
                close(&what, &d.map(|x| x.to_f()), &vals[j].map(|x| x.to_f()), &bound)?;
                vals[j] = d;
            }
        }
        cx.hit("iterations compared");
        if it % 3 == 2 {
            for (a, b) in &inputs {
                a.zero_grad();
                b.zero_grad();
            }
        }
    }
    Ok(())
}
fn random_nd<T: ElG>(r: &mut Rng, s: &[usize]) -> Nd<T> {
    Nd::new(s.to_vec(), (0..count(s)).map(|_| T::leaf(r)).collect())
}
/// Arithmetic operations per iteration stay what they were.
fn cost(cx: &mut Cx, r: &mut Rng) -> Res {
    let spec: Spec<Inst> = Spec::random(r, &mut |r| Inst(r.sym() * 0.3));
    let rows = r.range(1, 3);
    let (x, t) = (rc(&random_nd::<Inst>(r, &[rows, spec.width_in()])), rc(&random_nd::<Inst>(r, &[rows, spec.width_out()])));
    let mut net = spec.build(&spec.params.iter().map(rc).collect::<Vec<_>>());
    let its = r.range(5, 25);
    let (clear, square) = (r.chance(1, 2), r.chance(1, 2));
    cx.describe(format!("cost of {its} iterations of {} rows {rows}", spec.text()));
    cx.nontrivial = true;
    let mut ops = vec![];
    for it in 0..its {
        let (res, n) = inst::counted(|| {
            ok("iteration", || {
                loss(it % 3, &net.forward(x.clone()), &t, square).backward();
                net.step(RcTensor::scalar(Inst(1e-3)));
            })
        });
        res?;
        ops.push(n);
        if clear {
            x.zero_grad();
            t.zero_grad();
        }
    }
    cx.max("operations per iteration", *ops.iter().max().unwrap());
    cx.add("iterations with counted operations", its as u64);
    // the second iteration may add to gradients that the first created
    let base = ops[0].max(ops[1]) as f64;
    for (it, &n) in ops.iter().enumerate() {
        ensure!(n as f64 <= base * 1.25 + 50.0, "iteration {it} takes {n} operations, the first ones {} and {} ({})", ops[0], ops[1], cx.desc);
    }
    Ok(())
}
/// Runs f again and again; an error if live memory keeps rising. Background threads may hold a
/// little for a while, so the lowest levels of windows are compared, and a rise above `slack` must go
/// on at the same pace in a second, longer series to count.
pub fn grows(what: &str, warm: usize, total: usize, slack: i64, mut f: impl FnMut(usize) -> Res) -> Res<i64> {
    let mut lows = Vec::with_capacity(total * 4);
    let mut done = 0;
    let mut stage = |reps: usize, lows: &mut Vec<i64>| -> Res<(i64, i64, f64)> {
        let from = lows.len();
        for _ in 0..reps {
            f(done)?;
            done += 1;
            lows.push(mem::live());
        }
        let v = &lows[if from == 0 { warm } else { from }..];
        let w = v.len() / 4;
        let first = *v[..w].iter().min().unwrap();
        let last = *v[v.len() - w..].iter().min().unwrap();
        Ok((first, last, (last - first) as f64 / (v.len() - w) as f64))
    };
    let (first, last, per) = stage(total, &mut lows)?;
    if last - first <= slack {
        return Ok(last - first);
    }
    let (first2, last2, per2) = stage(total * 3, &mut lows)?;
    ensure!(
        last2 - first2 <= slack || per2 < per * 0.6,
        "{what}: live memory rose from {first} to {last} and on to {last2} bytes, about {per2:.0} bytes per repetition"
    );
    Ok(last2 - first2)
}
/// Live memory after an iteration stays what it was.
fn memory(cx: &mut Cx, r: &mut Rng) -> Res {
    let its = if cx.thorough { r.range(200, 800) } else { r.range(60, 160) };
    let (i, h, o) = (r.range(1, 6), r.range(2, 24), r.range(1, 4));
    let leaf = |r: &mut Rng, s: &[usize]| {
        let n = count(s);
        RcTensor::new((0..n).map(|_| r.sym() * 0.3).collect::<Vec<f64>>(), s.to_vec())
    };
    let mut net = Mlp::new([
        Linear::new(leaf(r, &[i, h]), leaf(r, &[1, h]), Some(*r.pick(&[F::relu as ActFn<f64>, F::tanh]))),
        Linear::new(leaf(r, &[h, o]), leaf(r, &[1, o]), Some(F::tanh)),
    ]);
    let (x, t) = (leaf(r, &[2, i]), leaf(r, &[2, o]));
    let clear = r.chance(1, 2);
    let square = r.chance(1, 2);
    // weight decay: gradients that are, or are computed from, the parameters themselves
    let decay = r.below(4);
    cx.describe(format!("memory over {its} iterations of {i}-{h}-{o}, decay {decay}, {}", if clear { "inputs cleared" } else { "inputs accumulating" }));
    cx.nontrivial = true;
    let text = cx.desc.clone();
    let d = grows(&text, 20, its, 6_000, |k| {
        ok("iteration", || {
            if decay < 3 && k % 2 == 0 {
                for p in net.params() {
                    match decay {
                        0 => p.update_grad(p.clone()),
                        1 => p.update_grad(Add::add(&p, &p)),
                        _ => p.update_grad(F::relu(p.clone())),
                    }
                }
            }
            if decay == 3 || k % 4 != 0 {
                loss(k % 3, &net.forward(x.clone()), &t, square).backward();
            }
            sgd_step(&mut net, RcTensor::scalar(1e-3));
        })?;
        if clear {
            x.zero_grad();
            t.zero_grad();
        }
        Ok(())
    })?;
    cx.max("bytes of growth over a training run", d.max(0) as u64);
    cx.add("iterations with measured memory", its as u64);
    if decay < 3 {
        cx.add("iterations with gradients computed from their tensor", its as u64);
    }
    ensure!(net.params().len() == 4, "parameters");
    Ok(())
}
/// A gradient that keeps accumulating, and plain use of every operation, hold constant memory.
fn accumulation(cx: &mut Cx, r: &mut Rng) -> Res {
    let reps = if cx.thorough { r.range(300, 1500) } else { r.range(80, 250) };
    let n = r.range(2, 60);
    let x = rc(&random_nd::<f64>(r, &[1, n]));
    let c = rc(&random_nd::<f64>(r, &[1, n]));
    let w = rc(&random_nd::<f64>(r, &[n, 2]));
    let kind = r.below(5);
    cx.describe(format!("memory over {reps} repetitions of accumulation {kind} on {n} elements"));
    cx.nontrivial = true;
    let text = cx.desc.clone();
    let kept = F::dot(&x, &c);
    let counted_type = rc(&random_nd::<Inst>(r, &[1, n]));
    let cc = rc(&random_nd::<Inst>(r, &[1, n]));
    let mut ops = vec![];
    let d = grows(&text, 20, reps, 6_000, |k| {
        ok("repetition", || match kind {
            0 => F::dot(&x, &c).backward(),
            1 => x.update_grad(c.clone()),
            2 => kept.backward(),
            3 => x.bmm(&w).sum().backward(),
            _ => {
                // gradients of gradients' tensors: what is read is added again elsewhere
                F::dot(&x, &c).backward();
                w.update_grad(RcTensor::new_with_filler(vec![n, 2], 1.0));
                let g = x.grad();
                c.update_grad(g);
                if k % 2 == 0 {
                    x.zero_grad();
                }
            }
        })?;
        if k < 40 {
            let (_, o) = inst::counted(|| F::dot(&counted_type, &cc).backward());
            ops.push(o);
        }
        Ok(())
    })?;
    let base = ops[0].max(ops[1]);
    ensure!(ops.iter().all(|&o| o <= base + base / 4 + 20), "operations per accumulation grow: {ops:?}");
    cx.max("bytes of growth over an accumulation", d.max(0) as u64);
    cx.add("accumulations with measured memory", reps as u64);
    let _ = (P, Module::<f64>::params(&Linear::new(x.clone(), c.clone(), None)));
    Ok(())
}
