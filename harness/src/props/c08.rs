//! Gradient bookkeeping over random histories, against a model of every tensor.
use crate::cx::*;
use crate::el::*;
use crate::ensure;
use crate::fp::Fp;
use crate::nd::*;
use crate::prog::*;
use crate::rng::Rng;
use rust_light::nn::{Linear, Module};
use rust_light::optim::sgd::sgd_step;
use rust_light::tensor::{functional as F, *};
use std::ops::{Add, Mul};

pub fn run(cx: &mut Cx) -> Res {
    let mut r = cx.rng.clone();
    if r.chance(1, 400) && !crate::rng::small() {
        return many(cx, &mut r);
    }
    match r.below(5) {
        0 => history::<i128>(cx, &mut r),
        _ => history::<Fp>(cx, &mut r),
    }
}
struct World<T: ElG> {
    g: Graph<T>,
    /// handles to each tensor; empty when all were dropped
    h: Vec<Vec<RcTensor<T>>>,
    grad: Vec<Option<Nd<T>>>,
    /// a handle kept for building further expressions
    t: Vec<RcTensor<T>>,
    /// plain copies (value, gradient state independent of the original)
    plain: Vec<(RawTensor<T>, Nd<T>)>,
    views: Vec<(TensorView<T>, Nd<T>)>,
    log: Vec<String>,
}
impl<T: ElG> World<T> {
    fn admit(&mut self, x: RcTensor<T>) {
        self.h.push(vec![x.clone()]);
        self.t.push(x);
        self.grad.push(None);
    }
    fn log(&self) -> String {
        let n = self.log.len();
        self.log[n.saturating_sub(60)..].join("; ")
    }
    fn check(&self, cx: &mut Cx) -> Res {
        let ctx = |m: String| format!("{m}; history: {}", self.log());
        for i in 0..self.t.len() {
            for (k, x) in self.h[i].iter().enumerate() {
                is(&format!("t{i} (handle {k})"), x, &self.g.nodes[i].val).map_err(ctx)?;
                let what = format!("gradient of t{i} (handle {k})");
                match (&self.grad[i], grad_of(x)) {
                    (None, None) => {}
                    (Some(w), Some(d)) => is(&what, &d, w).map_err(ctx)?,
                    (None, Some(d)) => return Err(ctx(format!("{what} is {d:?}, expected none"))),
                    (Some(w), None) => return Err(ctx(format!("{what} is absent, expected {}", short(w)))),
                }
                cx.hit("gradient reads compared");
            }
        }
        for (x, v) in &self.plain {
            is("plain copy", x, v).map_err(ctx)?;
        }
        for (x, v) in &self.views {
            is("view", x, v).map_err(ctx)?;
        }
        Ok(())
    }
    fn add_grad(&mut self, i: usize, d: &Nd<T>) {
        self.grad[i] = Some(match self.grad[i].take() {
            None => d.clone(),
            Some(g) => g.zip(d, |a, b| a + b),
        });
    }
    /// would accumulating this keep the element type from overflowing?
    fn fits(&self) -> bool {
        T::LIMIT.is_infinite() || self.grad.iter().flatten().all(|g| g.data.iter().all(|x| x.to_f().abs() < T::LIMIT / 1e6))
    }
}
fn history<T: ElG + ElNeg>(cx: &mut Cx, r: &mut Rng) -> Res {
    let mut w: World<T> =
        World { g: Graph::new(2e4, 300), h: vec![], grad: vec![], t: vec![], plain: vec![], views: vec![], log: vec![] };
    let steps = if r.chance(1, 10) { r.range(80, 160) } else { r.range(8, 45) };
    for _ in 0..r.range(1, 3) {
        let s = shape(r, 3, 30);
        let i = w.g.random_leaf(r, &s);
        let x = w.g.fresh(r, i);
        w.admit(x);
        w.log.push(format!("t{i} = new {}", short(&w.g.nodes[i].val)));
    }
    for _ in 0..steps {
        step(cx, r, &mut w)?;
        if r.chance(1, 3) {
            w.check(cx)?;
        }
    }
    w.check(cx)?;
    cx.add("history steps", steps as u64);
    cx.max("tensors in a history", w.t.len() as u64);
    cx.nontrivial = true;
    let l = w.log.join("; ");
    cx.describe(format!("{} {l}", T::NAME));
    Ok(())
}
fn step<T: ElG + ElNeg>(cx: &mut Cx, r: &mut Rng, w: &mut World<T>) -> Res {
    let n = w.t.len();
    let i = r.below(n);
    let refuse = |cx: &mut Cx, w: &mut World<T>, name: String, done: bool| -> Res {
        w.log.push(format!("refused {name}"));
        cx.hit("refused operations");
        ensure!(!done, "{name} was not refused; history: {}", w.log());
        Ok(())
    };
    match r.below(27) {
        0 => {
            let s = shape(r, 3, 30);
            let i = w.g.random_leaf(r, &s);
            let x = w.g.fresh(r, i);
            w.admit(x);
            w.log.push(format!("t{i} = new {}", short(&w.g.nodes[i].val)));
        }
        1..=6 => {
            // grow the graph; leaves it creates are new tensors
            let before = w.g.nodes.len();
            w.g.grow(r);
            for j in before..w.g.nodes.len() {
                let op = w.g.nodes[j].op;
                let x = match op {
                    Op::Leaf => w.g.fresh(r, j),
                    op => {
                        let what = format!("{}{:?}; history: {}", op.name(), op.ins(), w.log());
                        ok(&what, || w.g.apply(r, op, &w.t))?
                    }
                };
                w.admit(x);
                w.log.push(format!("t{j} = {}{:?}", op.name(), op.ins()));
                cx.hit("forward operations");
            }
        }
        7..=12 => {
            // backward from a one-element result, an existing or a new one
            let before = w.g.nodes.len();
            let olds: Vec<usize> = (0..n).filter(|&i| w.g.nodes[i].op != Op::Leaf && w.g.count(i) == 1).collect();
            let root = if !olds.is_empty() && r.chance(1, 2) { Some(*r.pick(&olds)) } else { w.g.root(r, i) };
            for j in before..w.g.nodes.len() {
                let op = w.g.nodes[j].op;
                let x = if op == Op::Leaf { w.g.fresh(r, j) } else { ok("forward", || w.g.apply(r, op, &w.t))? };
                w.admit(x);
                w.log.push(format!("t{j} = {}{:?}", op.name(), op.ins()));
            }
            if let Some(root) = root {
                if !w.g.gradients_fit(root) || !w.fits() {
                    return Ok(());
                }
                let adj = w.g.adjoint(root);
                w.log.push(format!("backward t{root}"));
                let what = format!("backward t{root}; history: {}", w.log());
                ok(&what, || w.t[root].backward())?;
                for (j, a) in adj.iter().enumerate() {
                    if let (Some((d, _)), true) = (a, j != root) {
                        w.add_grad(j, d);
                        if j == 0 || w.grad[j].is_some() {
                            cx.hit("gradients accumulated");
                        }
                    }
                }
                cx.hit("backward passes");
            }
        }
        13 | 14 => {
            let k = r.below(w.h[i].len().max(1));
            let x = w.h[i].get(k).unwrap_or(&w.t[i]).clone();
            w.log.push(format!("clear t{i}"));
            ok("zero_grad", || x.zero_grad())?;
            if w.grad[i].take().is_some() {
                cx.hit("gradients cleared");
            }
        }
        15 | 16 => {
            if !w.fits() {
                return Ok(());
            }
            let s = w.g.shape(i).to_vec();
            let x = w.h[i].first().unwrap_or(&w.t[i]).clone();
            let alike: Vec<usize> = (0..n).filter(|&j| w.g.shape(j) == &s[..]).collect();
            let j = if r.chance(1, 2) { i } else { *r.pick(&alike) };
            // a fresh tensor, one of the history (maybe t_i itself), or a gradient (maybe its own)
            let (d, dt, whose): (Nd<T>, RcTensor<T>, String) = match (r.below(6), grad_of(&w.t[j]), &w.grad[j]) {
                (0, ..) => (w.g.nodes[j].val.clone(), w.t[j].clone(), format!("t{j}")),
                (1, Some(g), Some(v)) => (v.clone(), g, format!("the gradient of t{j}")),
                _ => {
                    let d: Nd<T> = Nd::new(s.clone(), (0..count(&s)).map(|_| T::leaf(r)).collect());
                    let t = rc(&d);
                    (d, t, "a fresh tensor".into())
                }
            };
            if whose != "a fresh tensor" {
                cx.hit("tensors of the history added to gradients");
            }
            w.log.push(format!("add {whose} {} to the gradient of t{i}", short(&d)));
            ok(&format!("update_grad; history: {}", w.log()), || x.update_grad(dt.clone()))?;
            w.add_grad(i, &d);
            is("the added tensor", &dt, &d)?;
            cx.hit("explicit gradient updates");
            if r.chance(1, 3) {
                // the same tensor added elsewhere too
                let same_shape: Vec<usize> = (0..n).filter(|&j| w.g.shape(j) == &s[..]).collect();
                let j = *r.pick(&same_shape);
                w.log.push(format!("and to that of t{j}"));
                ok("update_grad", || w.t[j].update_grad(dt.clone()))?;
                w.add_grad(j, &d);
            }
        }
        17 => {
            let x = w.t[i].clone();
            let y = if r.chance(1, 2) { x } else { x.to_tensor() };
            w.h[i].push(y);
            w.log.push(format!("new handle to t{i}"));
            cx.hit("handles cloned");
        }
        18 => {
            w.h[i].pop();
            w.log.push(format!("drop a handle to t{i}"));
        }
        19 => {
            let d = ok("deep_clone", || w.t[i].deep_clone())?;
            let v = w.g.nodes[i].val.clone();
            let j = w.g.leaf(v);
            w.admit(d);
            w.log.push(format!("t{j} = deep copy of t{i}"));
            cx.hit("deep copies");
        }
        20 => {
            // a plain copy: changing its gradient must not reach t_i
            let c = ok("plain copy", || (*w.t[i]).clone())?;
            let v = w.g.nodes[i].val.clone();
            w.log.push(format!("plain copy of t{i}, then its gradient changed"));
            match r.below(3) {
                0 => ok("zero_grad of a plain copy", || c.zero_grad())?,
                1 => {
                    let d = rc(&v);
                    if w.fits() {
                        ok("update_grad of a plain copy", || c.update_grad(d.clone()))?
                    }
                }
                _ => {}
            }
            w.plain.push((c, v));
            cx.hit("plain copies");
        }
        21 => {
            // operations without gradient give independent tensors
            let v = w.g.nodes[i].val.clone();
            if v.data.iter().any(|x| T::LIMIT.is_finite() && x.to_f().abs() > T::LIMIT.sqrt() / 100.0) {
                return Ok(());
            }
            let x = w.t[i].clone();
            let (y, u) = match r.below(3) {
                0 => (ok("product", || Mul::mul(&x, &x.clone()))?, v.zip(&v, |a, b| a * b)),
                1 => (ok("copy of a view", || x.view(ranges(&full(&v.shape))).to_tensor())?, v.clone()),
                _ => {
                    let s = ok("plain sum", || Add::add(&raw(&v), &x))?;
                    ((ok("view of plain", || s.slice(ranges(&full(&v.shape))).to_tensor()))?, v.zip(&v, |a, b| a + b))
                }
            };
            let j = w.g.leaf(u);
            w.admit(y);
            w.log.push(format!("t{j} = untracked from t{i}"));
        }
        22 => {
            let v = w.g.nodes[i].val.clone();
            w.views.push(make_range_view(r, &w.t[i], &v));
            w.log.push(format!("view of t{i}"));
        }
        23 => {
            // a gradient that was read keeps its value whatever happens later
            if let (Some(d), Some(g)) = (grad_of(&w.t[i]), w.grad[i].clone()) {
                w.views.push((d.view(ranges(&full(&g.shape))), g));
                w.log.push(format!("keep the gradient of t{i}"));
                cx.hit("gradients kept by the reader");
            }
        }
        24 => {
            let a = w.t[i].clone();
            let s = w.g.shape(i).to_vec();
            match r.below(7) {
                0 if w.g.count(i) != 1 => {
                    let b = attempt(|| a.backward()).is_some();
                    refuse(cx, w, format!("backward of t{i} with {} elements", count(&s)), b)?
                }
                1 if w.g.nodes[i].op == Op::Leaf => {
                    let b = attempt(|| a.backward()).is_some();
                    refuse(cx, w, format!("backward of the leaf t{i}"), b)?
                }
                2 | 3 => {
                    let j = r.below(n);
                    let c = w.t[j].clone();
                    if broadcast_shape(&s, w.g.shape(j)).is_none() {
                        let b = attempt(|| Add::add(&a, &c)).is_some();
                        refuse(cx, w, format!("t{i} + t{j}"), b)?
                    }
                }
                4 => {
                    let j = r.below(n);
                    let c = w.t[j].clone();
                    if s.as_slice() != w.g.shape(j) {
                        let b = attempt(|| F::dot(&a, &c)).is_some();
                        refuse(cx, w, format!("dot of t{i} and t{j}"), b)?
                    }
                }
                5 => {
                    let j = r.below(n);
                    let c = w.t[j].clone();
                    let u = w.g.shape(j);
                    if !(u.len() == 2 && (s.len() == 2 || s.len() == 3) && s[s.len() - 1] == u[0]) {
                        let b = attempt(|| a.bmm(&c)).is_some();
                        refuse(cx, w, format!("t{i} times t{j}"), b)?
                    }
                }
                _ => {
                    if w.grad[i].is_none() {
                        let l = attempt(|| a.grad()).is_some();
                        refuse(cx, w, format!("reading the absent gradient of t{i}"), l)?
                    }
                }
            }
        }
        25 => {
            // forget everything about some plain copies and views
            if !w.plain.is_empty() {
                w.plain.remove(0);
            }
            if !w.views.is_empty() {
                w.views.remove(0);
            }
        }
        _ => layer_step(cx, r, w)?,
    }
    Ok(())
}
fn make_range_view<T: ElG>(r: &mut Rng, t: &RcTensor<T>, v: &Nd<T>) -> (TensorView<T>, Nd<T>) {
    let g: Vec<(usize, usize)> = v
        .shape
        .iter()
        .map(|&d| {
            let a = r.below(d);
            (a, r.range(a + 1, d))
        })
        .collect();
    (t.view(ranges(&g)), v.slice(&g))
}
/// A refused optimizer step and a successful forward leave every gradient alone.
fn layer_step<T: ElG + ElNeg>(cx: &mut Cx, r: &mut Rng, w: &mut World<T>) -> Res {
    if T::NAME != "field" {
        return Ok(());
    }
    let leaves: Vec<usize> = (0..w.t.len()).filter(|&i| w.g.shape(i).len() == 2).collect();
    if leaves.is_empty() {
        return Ok(());
    }
    let i = *r.pick(&leaves);
    let any: &dyn std::any::Any = &w.t[i];
    let Some(x) = any.downcast_ref::<RcTensor<Fp>>() else { return Ok(()) };
    let n = w.g.shape(i)[1];
    let mut l = Linear::new(x.clone(), RcTensor::new_with_filler(vec![1, n], Fp(3)), None);
    let input = RcTensor::new_with_filler(vec![2, w.g.shape(i)[0]], Fp(5));
    ok("forward of a layer", || l.forward(input.clone()))?;
    w.log.push(format!("layer with weights t{i}: forward, refused step"));
    let done = attempt(|| sgd_step(&mut l, RcTensor::scalar(Fp(1)))).is_some();
    ensure!(!done, "a step without a gradient of the bias was not refused; history: {}", w.log());
    cx.hit("refused optimizer steps");
    Ok(())
}
/// Thousands of updates of one tensor, with what was read earlier kept.
fn many(cx: &mut Cx, r: &mut Rng) -> Res {
    let s = shape(r, 2, 6);
    let (v, w) = (gen_nd::<Fp>(r, &s, 1), gen_nd::<Fp>(r, &s, 1));
    let n = r.range(300, if cx.thorough { 20_000 } else { 6_000 });
    let kind = r.below(4);
    cx.describe(format!("{n} updates of one tensor of shape {s:?}, kind {kind}"));
    cx.digest(&v.data);
    cx.nontrivial = true;
    let (x, c) = (rc(&v), rc(&w));
    let root = F::dot(&x, &c);
    let mut want = Nd::full(&s, Fp(0));
    let mut kept: Vec<(RcTensor<Fp>, Nd<Fp>)> = Vec::new();
    let every = r.range(50, 700);
    for k in 1..=n {
        ok("one of many updates", || match if kind == 3 { k % 3 } else { kind } {
            0 => x.update_grad(c.clone()),
            1 => F::dot(&x, &c).backward(),
            _ => root.backward(),
        })?;
        want = want.zip(&w, |a, b| a + b);
        if k % every == 0 || k == n {
            let what = format!("gradient after {k} updates of kind {kind}");
            let Some(g) = grad_of(&x) else { return Err(format!("{what}: absent")) };
            is(&what, &g, &want)?;
            kept.push((g, want.clone()));
            cx.hit("gradient reads compared");
        }
    }
    for (g, want) in &kept {
        is("a gradient read earlier", g, want)?;
    }
    is("tensor after many updates", &x, &v)?;
    x.zero_grad();
    ensure!(grad_of(&x).is_none(), "the gradient after {n} updates is not cleared");
    cx.max("updates of one tensor", n as u64);
    cx.hit("long series of updates");
    Ok(())
}
