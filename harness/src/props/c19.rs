//! Arithmetic and memory in proportion to what is asked for.
use super::net::*;
use crate::cx::*;
use crate::ensure;
use crate::inst::{self, Inst};
use crate::mem;
use crate::nd::*;
use crate::prog::*;
use crate::rng::Rng;
use crate::with;
use rust_light::tensor::{functional as F, *};
use std::ops::{Add, Mul, Neg, Sub};

/// operations allowed per unit of natural work, and besides
const OPS: f64 = 20.0;
const OPS_BESIDES: f64 = 200.0;
/// bytes allowed per byte of operands and results, per multiplication of a matrix product (the
/// library keeps every term of a gradient of one until it is added up), and besides
const BYTES: f64 = 30.0;
const PER_TERM: f64 = 1000.0;
/// bytes allocated altogether, per unit of natural work
const TRAFFIC: f64 = 3000.0;
const BESIDES: f64 = 1e6;

pub fn run(cx: &mut Cx) -> Res {
    let mut r = cx.rng.clone();
    cx.nontrivial = true;
    match r.below(12) {
        0..=2 => single(cx, &mut r),
        3 => model(cx, &mut r),
        4 => wide(cx, &mut r),
        5 => handling(cx, &mut r),
        6 if r.chance(1, 8) => window(cx, &mut r),
        _ => graph(cx, &mut r),
    }
}
fn fill(r: &mut Rng, s: &[usize]) -> Nd<Inst> {
    Nd::new(s.to_vec(), (0..count(s)).map(|_| Inst(r.sym())).collect())
}
struct Mem {
    peak: i64,
    total: i64,
}
/// Judges one request: `natural` is what it asks for, `bytes` what its operands and results take.
fn judge(cx: &mut Cx, what: &str, ops: u64, natural: usize, mem: Mem, bytes: usize, terms: usize) -> Res {
    let n = natural as f64;
    let Mem { peak, total } = mem;
    ensure!(ops as f64 <= OPS * n + OPS_BESIDES, "{what}: {ops} arithmetic operations where about {natural} are asked for ({})", cx.desc);
    ensure!(
        peak as f64 <= BYTES * bytes as f64 + PER_TERM * terms as f64 + BESIDES,
        "{what}: memory rose by {peak} bytes; operands and results take {bytes}, terms of matrix products: {terms} ({})",
        cx.desc
    );
    if natural > 200 {
        cx.max("operations per hundred asked for", (ops as f64 / n * 100.0) as u64);
    }
    if bytes > 50_000 && terms == 0 {
        cx.max("peak bytes per hundred of operands and results", (peak as f64 / bytes as f64 * 100.0) as u64);
    }
    ensure!(
        total as f64 <= TRAFFIC * n + BESIDES,
        "{what}: {total} bytes allocated altogether where about {natural} operations are asked for ({})",
        cx.desc
    );
    if natural > 2000 {
        cx.max("bytes allocated per operation asked for", (total as f64 / n) as u64);
    }
    if terms > 20_000 {
        cx.max("peak bytes per term of a matrix product", (peak as f64 / terms as f64) as u64);
    }
    cx.max("largest request", natural as u64);
    cx.hit("requests measured");
    Ok(())
}
fn measured<R>(what: &str, f: impl FnOnce() -> R) -> Res<(R, u64, Mem)> {
    let (res, peak, total) = mem::watch(|| {
        let (x, n) = inst::counted(|| ok(what, f));
        x.map(|x| (x, n))
    });
    let (x, n) = res?;
    Ok((x, n, Mem { peak, total }))
}
fn big(r: &mut Rng) -> Vec<usize> {
    if r.chance(1, 20) {
        return vec![r.range(20_000, 90_000)];
    }
    match r.below(4) {
        0 => vec![r.range(1000, 6000)],
        1 => vec![r.range(20, 70), r.range(20, 70)],
        2 => vec![r.range(2, 12), r.range(2, 12), r.range(2, 12)],
        _ => shape(r, 5, 800),
    }
}
/// One forward operation on operands of any kind.
fn single(cx: &mut Cx, r: &mut Rng) -> Res {
    let s = big(r);
    let a = fill(r, &s);
    let n = count(&s);
    let kind = r.below(13);
    let b = match kind {
        0 | 1 => {
            let p = partner(r, &s, 8000);
            fill(r, &p)
        }
        _ => fill(r, &s),
    };
    let (x, y) = (operand(r, &a), operand(r, &b));
    let (rx, ry) = (shared(r, &a), shared(r, &b));
    cx.digest(&a.data.iter().map(|x| x.0).collect::<Vec<_>>());
    cx.describe(format!("request {kind} on {} {s:?} and {} {:?}", x.1, y.1, b.shape));
    let c = Inst(1.5);
    if kind == 12 {
        // a product
        let (b, m, k, n) = super::c05::sizes(r, 60_000);
        let ls = if b == 0 { vec![m, k] } else { vec![b, m, k] };
        let (u, v) = (fill(r, &ls), fill(r, &[k, n]));
        let (u, v) = (operand(r, &u), operand(r, &v));
        cx.describe(format!("product of {ls:?} and [{k}, {n}]"));
        let rows = m * b.max(1);
        let (_, ops, peak) = with!(&u.0, u => with!(&v.0, v => measured("product", || u.bmm_rc(v))?));
        return judge(cx, "product", ops, rows * n * (k + 1), peak, (rows * k + k * n + rows * n) * 8, rows * k * n);
    }
    let out = broadcast_shape(&s, &b.shape).map_or(n, |s| count(&s));
    let ((), ops, peak) = match kind {
        0 => with!(&y.0, y => measured("sum of two", || drop(Add::add(&raw(&a), y)))?),
        1 => measured("difference", || drop(Sub::sub(&rx, &ry)))?,
        2 => measured("negation", || drop((&rx).neg()))?,
        3 => measured("abs", || drop(rx.abs()))?,
        4 => measured("relu", || drop(F::relu(rx.clone())))?,
        5 => measured("tanh", || drop(F::tanh(rx.clone())))?,
        6 => with!(&x.0, x => measured("map", || drop(F::generic_unary_op(x, |v: Inst| v + Inst(1.0))))?),
        7 => with!(&x.0, x => with!(&y.0, y => measured("product of elements", || drop(F::element_wise_multiplication(x, y)))?)),
        8 => with!(&x.0, x => measured("scaling", || drop(Mul::mul(&RcTensor::scalar(c), x)))?),
        9 => with!(&x.0, x => measured("sum", || drop(x.sum()))?),
        10 => with!(&x.0, x => with!(&y.0, y => measured("dot", || drop(F::dot_no_derivative(x, y)))?)),
        _ => measured("dot", || drop(F::dot(&rx, &ry)))?,
    };
    judge(cx, "request", ops, n + b.data.len() + out, peak, (n + b.data.len() + out) * 8, 0)
}
/// Making, copying, comparing and reading tensors, and keeping gradients.
fn handling(cx: &mut Cx, r: &mut Rng) -> Res {
    let s = big(r);
    let a = fill(r, &s);
    let n = count(&s);
    let kind = r.below(11);
    let x = operand(r, &a);
    cx.digest(&a.data.iter().map(|x| x.0).collect::<Vec<_>>());
    cx.describe(format!("handling {kind} of {} {s:?}", x.1));
    let t = rc(&a);
    let (data, shape) = (a.data.clone(), s.clone());
    let nested = [[Inst(0.5); 40]; 30];
    let ((), ops, mem) = match kind {
        0 => with!(&x.0, x => measured("copy", || drop(x.to_tensor()))?),
        1 => with!(&x.0, x => measured("deep copy", || drop(x.deep_clone()))?),
        2 => match &x.0 {
            Opd::Raw(x) => measured("comparison", || drop(x == &raw(&a)))?,
            Opd::Rc(x) => measured("comparison", || drop(x == &t))?,
            Opd::View(x) => measured("comparison", || drop(x == &t))?,
        },
        3 => {
            let all: Vec<Vec<usize>> = indices(&s).collect();
            with!(&x.0, x => measured("lookups", || all.iter().for_each(|i| assert!(x.get(i).is_ok())))?)
        }
        4 => with!(&x.0, x => measured("indices", || assert!(x.iter_indices().count() == n))?),
        5 => measured("clone", || drop((*t).clone()))?,
        6 => measured("new", || drop((RcTensor::new(data, shape.clone()), RcTensor::new_with_filler(shape, Inst(1.0)))))?,
        7 | 8 => {
            let (u, v) = (rc(&fill(r, &s)), rc(&fill(r, &s)));
            measured("gradients", || {
                t.update_grad(u.clone());
                t.update_grad(v);
                drop(t.grad());
                t.zero_grad();
                t.update_grad(t.clone());
                drop(t.grad());
            })?
        }
        9 => measured("nested lists", || drop(RcTensor::from(nested)))?,
        _ => match &x.0 {
            Opd::View(x) => measured("reshape", || drop(x.reshape(vec![n]).slice(vec![SliceRange::new(n / 3, n)]).reshape(vec![1, n - n / 3])))?,
            _ => measured("view", || drop(t.view(s.iter().map(|&n| SliceRange::new(n / 2, n)).collect())))?,
        },
    };
    let n = n.max(1200);
    judge(cx, "handling", ops, 4 * n * (s.len() + 1), mem, 4 * n * (s.len() + 1) * 8, 0)?;
    cx.hit("tensors handled");
    Ok(())
}
/// A small window of a large tensor costs what the window holds.
fn window(cx: &mut Cx, r: &mut Rng) -> Res {
    let (m, n) = (r.range(500, 1500), r.range(500, 1500));
    let t = RcTensor::new_with_filler(vec![m, n], Inst(r.sym()));
    let (h, w) = (r.range(1, 8), r.range(1, 8));
    let (i, j) = (r.below(m - h), r.below(n - w));
    let v = t.view(vec![SliceRange::new(i, i + h), SliceRange::new(j, j + w)]);
    let v = if r.chance(1, 2) { v } else { v.reshape(vec![h, w]) };
    let small = rc(&fill(r, &[h, w]));
    let right = rc(&fill(r, &[w, 3]));
    let kind = r.below(12);
    cx.digest(&[m as u64, n as u64, i as u64, j as u64, h as u64, w as u64]);
    cx.describe(format!("request {kind} on a window of {h} by {w} of {m} by {n}"));
    let ((), ops, mem) = match kind {
        0 => measured("sum", || drop(v.sum()))?,
        1 => measured("copy", || drop(v.to_tensor()))?,
        2 => measured("deep copy", || drop(v.deep_clone()))?,
        3 => measured("sum of two", || drop(Add::add(&raw(&fill(&mut r.clone(), &[h, w])), &v)))?,
        4 => measured("product of elements", || drop(F::element_wise_multiplication(&small, &v)))?,
        5 => measured("scaling", || drop(Mul::mul(&RcTensor::scalar(Inst(0.5)), &v)))?,
        6 => measured("matrix product", || drop(v.bmm_rc(&right)))?,
        7 => measured("dot", || drop(F::dot_no_derivative(&v, &small)))?,
        8 => measured("comparison", || drop(v == small))?,
        9 => measured("map", || drop(F::generic_unary_op(&v, |x: Inst| x + Inst(1.0))))?,
        10 => measured("lookups", || indices(&[h, w]).for_each(|i| assert!(v.get(&i).is_ok())))?,
        _ => measured("window of a window", || drop(v.slice(vec![SliceRange::new(0, h), SliceRange::new(0, 1)])))?,
    };
    judge(cx, "window", ops, 3 * h * w * 4, mem, 4 * h * w * 8, 0)?;
    cx.hit("windows of large tensors measured");
    Ok(())
}
/// The arithmetic a node asks for, the bytes of its result, and the terms of a matrix product.
fn natural(g: &Graph<Inst>, i: usize) -> (usize, usize, usize) {
    let c = |i: usize| g.count(i);
    let terms = match g.nodes[i].op {
        Op::Mm(a, _) => c(i) * g.shape(a)[1],
        _ => 0,
    };
    let work = match g.nodes[i].op {
        Op::Leaf => 0,
        op => terms + c(i) + op.ins().iter().map(|&k| c(k)).sum::<usize>(),
    };
    (work, c(i) * 8 + 100, terms)
}
/// Forward operations and a backward pass of a random program; in half of them results are used
/// again and again.
fn graph(cx: &mut Cx, r: &mut Rng) -> Res {
    let mut g: Graph<Inst> = Graph::new(f64::INFINITY, 6000);
    let reuse = r.chance(1, 2);
    let s = if reuse && r.chance(2, 3) { shape(r, 3, 40) } else { big(r) };
    g.random_leaf(r, &s);
    let mut a = 0;
    let steps = if reuse { r.range(8, 40) } else { r.range(1, 12) };
    for _ in 0..steps {
        if reuse && r.chance(3, 4) {
            // an operation on the last result twice, or on the last two
            let b = if a > 0 && r.chance(1, 2) && g.shape(a - 1) == g.shape(a) { a - 1 } else { a };
            let t = g.push(Op::Tanh(a)).unwrap_or(a);
            let op = match r.below(5) {
                0 => Op::Sub(t, b),
                1 if g.shape(a).len() == 2 && g.shape(a)[0] == g.shape(a)[1] && g.shape(b) == g.shape(a) => Op::Mm(t, b),
                _ => Op::Add(t, b),
            };
            if let Some(i) = g.push(op) {
                a = i;
            }
        } else if let Some(i) = g.grow(r) {
            a = i;
        }
    }
    if r.chance(1, 8) {
        // a long chain
        let c = g.random_leaf(r, &[r.clone().range(1, 3)]);
        let mut x = c;
        for _ in 0..r.range(200, 2500) {
            x = g.push(if r.chance(1, 3) { Op::Tanh(x) } else { Op::Add(x, c) }).unwrap_or(x);
        }
        a = x;
        cx.hit("long chains");
    }
    let Some(root) = g.root(r, a) else { return Ok(()) };
    cx.describe(g.text(root));
    cx.digest(&g.nodes.iter().map(|n| n.val.data.len()).collect::<Vec<_>>());
    let mut t: Vec<RcTensor<Inst>> = vec![];
    for i in 0..g.nodes.len() {
        let op = g.nodes[i].op;
        if op == Op::Leaf {
            t.push(g.fresh(r, i));
            continue;
        }
        let (x, ops, peak) = measured(op.name(), || g.apply(&mut r.clone(), op, &t))?;
        t.push(x);
        let (work, bytes, terms) = natural(&g, i);
        let bytes = bytes + op.ins().iter().map(|&k| g.count(k) * 8).sum::<usize>();
        judge(cx, op.name(), ops, work, peak, bytes, terms)?;
        r.u64();
    }
    // what the root was computed from
    let mut needed = vec![false; g.nodes.len()];
    needed[root] = true;
    for i in (0..=root).rev() {
        if needed[i] {
            for k in g.nodes[i].op.ins() {
                needed[k] = true;
            }
        }
    }
    let (mut work, mut bytes, mut terms) = (0, 0, 0);
    for i in 0..=root {
        if needed[i] {
            let (w, b, m) = natural(&g, i);
            // every operand gets a contribution, and its contributions are added up
            work += w + g.count(i);
            bytes += b;
            terms += m;
        }
    }
    for again in 0..if r.chance(1, 3) { 2 } else { 1 } {
        let ((), ops, peak) = measured("backward", || t[root].backward())?;
        judge(cx, if again == 0 { "backward" } else { "second backward" }, ops, work, peak, bytes, terms)?;
        cx.hit("backward passes measured");
        if reuse {
            cx.hit("backward passes through reused results");
        }
    }
    Ok(())
}
/// Gradients of single operations on many elements.
fn wide(cx: &mut Cx, r: &mut Rng) -> Res {
    let mut g: Graph<Inst> = Graph::new(f64::INFINITY, 40_000);
    let s = match r.below(3) {
        0 => vec![r.range(3000, 20_000)],
        1 => vec![r.range(40, 140), r.range(40, 140)],
        _ => vec![r.range(2, 9), r.range(300, 900), r.range(1, 3)],
    };
    let a = g.random_leaf(r, &s);
    let op = match r.below(8) {
        0 => Op::Neg(a),
        1 => Op::Relu(a),
        2 => Op::Tanh(a),
        3 => Op::Sum(a),
        4 => Op::Dot(a, a),
        5 => {
            let p = partner(r, &s, 40_000);
            let b = g.random_leaf(r, &p);
            Op::Sub(a, b)
        }
        6 if s.len() == 2 => {
            let b = g.random_leaf(r, &[s[1], r.clone().range(1, 30)]);
            Op::Mm(a, b)
        }
        _ => {
            let p = partner(r, &s, 40_000);
            let b = g.random_leaf(r, &p);
            Op::Add(b, a)
        }
    };
    let Some(i) = g.push(op) else { return Ok(()) };
    let root = if g.count(i) == 1 { i } else { g.push(Op::Sum(i)).unwrap() };
    cx.describe(format!("gradient of {} on {s:?}: {}", op.name(), g.text(root)));
    cx.digest(&[count(&s) as u64]);
    let t = g.eval_lib(r);
    let (mut work, mut bytes, mut terms) = (0, 0, 0);
    for i in 0..=root {
        let (w, b, m) = natural(&g, i);
        work += w + g.count(i);
        bytes += b;
        terms += m;
    }
    let ((), ops, peak) = measured("backward", || t[root].backward())?;
    judge(cx, &format!("backward of {}", op.name()), ops, work, peak, bytes, terms)?;
    cx.hit("gradients of many elements measured");
    Ok(())
}
/// A forward pass of a network and a step.
fn model(cx: &mut Cx, r: &mut Rng) -> Res {
    let spec: Spec<Inst> = Spec::random(r, &mut |r| Inst(r.sym() * 0.3));
    let rows = r.range(1, 20);
    cx.describe(format!("{} rows {rows}", spec.text()));
    let ps: Vec<RcTensor<Inst>> = spec.params.iter().map(rc).collect();
    let mut net = spec.build(&ps);
    let x = rc(&fill(r, &[rows, spec.width_in()]));
    let total: usize = spec.params.iter().map(|p| p.data.len()).sum();
    let widths = rows * (spec.width_in() + spec.params.iter().map(|p| *p.shape.last().unwrap_or(&1)).sum::<usize>());
    let (y, ops, peak) = measured("forward", || net.forward(x.clone()))?;
    judge(cx, "forward of a network", ops, rows * total + 3 * widths, peak, (total + 3 * widths + 200) * 8, rows * total)?;
    let s = y.sum();
    let ((), ops, peak) = measured("backward", || s.backward())?;
    judge(cx, "backward of a network", ops, 3 * (rows * total + total + 3 * widths), peak, (2 * total + 6 * widths + 200) * 8, 3 * rows * total)?;
    let ((), ops, peak) = measured("step", || net.step(RcTensor::scalar(Inst(0.1))))?;
    judge(cx, "step of a network", ops, 3 * total, peak, 4 * total * 8, 0)?;
    cx.hit("steps measured");
    Ok(())
}
