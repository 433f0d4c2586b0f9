//! SGD steps.
use super::net::*;
use crate::cx::*;
use crate::ensure;
use crate::fp::Fp;
use crate::nd::*;
use crate::prog::*;
use crate::rng::Rng;
use num::traits::real::Real;
use rust_light::tensor::*;

pub fn run(cx: &mut Cx) -> Res {
    let mut r = cx.rng.clone();
    match r.below(8) {
        0..=3 => steps::<Fp>(cx, &mut r),
        #[cfg(not(feature = "few"))]
        6 => extremes::<f32>(cx, &mut r, 1e10),
        7 => extremes::<f64>(cx, &mut r, 1e90),
        #[cfg(not(feature = "few"))]
        4 => steps::<f32>(cx, &mut r),
        _ => steps::<f64>(cx, &mut r),
    }
}
fn check<T: ElG>(what: &str, t: &impl TensorLike<Elem = T>, want: &Nd<T>, mag: f64) -> Res {
    let d = dump(what, t)?;
    if T::EPS == 0.0 {
        same(what, &d, want)
    } else {
        close(what, &d.map(|x| x.to_f()), &want.map(|x| x.to_f()), &want.map(|x| (x.to_f().abs() + mag) * 8.0 * T::EPS))
    }
}
fn steps<T: ElG + Real>(cx: &mut Cx, r: &mut Rng) -> Res {
    let spec: Spec<T> = Spec::random(r, &mut |r| T::leaf(r));
    cx.describe(format!("{} ", spec.text()));
    cx.digest(&spec.params[0].data);
    cx.nontrivial = true;
    let mut vals = spec.params.clone();
    let mut ts: Vec<RcTensor<T>> = vals.iter().map(rc).collect();
    // tied layers: one tensor in two places
    let twins: Vec<(usize, usize)> = (0..vals.len())
        .flat_map(|a| (a + 1..vals.len()).map(move |b| (a, b)))
        .filter(|&(a, b)| vals[a].shape == vals[b].shape)
        .collect();
    let tied = if !twins.is_empty() && r.chance(1, 5) { Some(*r.pick(&twins)) } else { None };
    if let Some((a, b)) = tied {
        ts[b] = ts[a].clone();
        vals[b] = vals[a].clone();
        cx.hit("models with a tensor in two places");
    }
    let mut net = spec.build(&ts);
    let n = vals.len();
    let mut still_tied = tied;
    // tensors replaced so far, with what they must keep
    let mut old: Vec<(RcTensor<T>, Nd<T>, Option<Nd<T>>)> = vec![];
    for round in 0..r.range(1, 4) {
        let step = match r.below(6) {
            0 => T::zero(),
            1 => T::one(),
            2 => T::one().minus(),
            _ => T::leaf(r),
        };
        cx.describe(format!("step {step:?}"));
        let current = ok("params", || net.params())?;
        ensure!(current.len() == n, "{} parameters instead of {n}", current.len());
        // gradients, set directly or by a backward pass
        let mut grads: Vec<Option<Nd<T>>> = vec![None; n];
        let explicit = still_tied.is_some() || r.chance(1, 2);
        let missing = r.chance(1, 3);
        if explicit {
            for k in 0..n {
                if let Some((a, _)) = still_tied.filter(|t| t.1 == k) {
                    grads[k] = grads[a].clone();
                    continue;
                }
                if missing && r.chance(1, n.min(3)) {
                    continue;
                }
                let d: Nd<T> = vals[k].map(|x| x);
                let d = Nd::new(d.shape.clone(), d.data.iter().map(|_| T::leaf(r)).collect());
                ok("update_grad", || current[k].update_grad(rc(&d)))?;
                grads[k] = Some(d);
            }
        } else {
            let mut g: Graph<T> = Graph::new(1e7, 5000);
            let ids: Vec<usize> = vals.iter().map(|v| g.leaf(v.clone())).collect();
            let rows = r.range(1, 4);
            let x = g.random_leaf(r, &[rows, spec.width_in()]);
            let Some(y) = spec.forward(&mut g, &ids, x) else { return Ok(()) };
            let Some(root) = g.push(Op::Sum(y)) else { return Ok(()) };
            let adj = g.adjoint(root);
            let input = rc(&g.nodes[x].val);
            ok("forward and backward", || net.forward(input).sum().backward())?;
            for k in 0..n {
                // use what the library accumulated for inexact types; it is checked against the reference first
                let Some(d) = grad_of(&current[k]) else { return Err(format!("parameter {k} got no gradient (round {round})")) };
                let d = dump("gradient", &d)?;
                g.check_grad(&format!("gradient of parameter {k} in round {round} of {}", cx.desc), &d, adj[ids[k]].as_ref().unwrap(), g.tol(root) * 100.0)?;
                grads[k] = Some(d);
            }
            cx.hit("steps after a backward pass");
            if missing {
                let k = r.below(n);
                current[k].zero_grad();
                grads[k] = None;
            }
        }
        let s = RcTensor::scalar(step);
        let done = attempt(|| net.step(s.clone())).is_some();
        let after = ok("params", || net.params())?;
        ensure!(after.len() == n, "{} parameters instead of {n} after the step", after.len());
        ensure!(s.elem() == step && grad_of(&s).is_none(), "the step size changed");
        if grads.iter().any(|g| g.is_none()) {
            ensure!(!done, "a step without the gradient of a parameter was not refused ({})", cx.desc);
            for k in 0..n {
                is(&format!("parameter {k} after a refused step"), &after[k], &vals[k])?;
                let same_grad = match (&grads[k], grad_of(&after[k])) {
                    (None, None) => true,
                    (Some(g), Some(d)) => dump("gradient", &d)? == *g,
                    _ => false,
                };
                ensure!(same_grad, "the gradient of parameter {k} changed in a refused step ({})", cx.desc);
                // still the very same tensor
                if grads[k].is_none() && tied.is_none() {
                    current[k].update_grad(rc(&vals[k]));
                    ensure!(grad_of(&after[k]).is_some(), "parameter {k} was replaced by a refused step");
                }
            }
            for p in &current {
                p.zero_grad();
            }
            cx.hit("refused steps");
            continue;
        }
        ensure!(done, "the step panicked: {}", LAST_PANIC.lock().unwrap());
        still_tied = None;
        for k in 0..n {
            let g = grads[k].as_ref().unwrap();
            let want = vals[k].zip(&g.map(|x| step * x), |p, d| p + d.minus());
            let mag = vals[k].data.iter().chain(&g.data).map(|x| x.to_f().abs()).fold(0.0, f64::max) * (1.0 + step.to_f().abs());
            check(&format!("parameter {k} after step {step:?} of {}", cx.desc), &after[k], &want, mag)?;
            ensure!(grad_of(&after[k]).is_none(), "parameter {k} has a gradient right after the step ({})", cx.desc);
            vals[k] = dump("parameter", &after[k])?;
            old.push((current[k].clone(), dump("old", &current[k])?, Some(g.clone())));
        }
        cx.hit("steps compared");
        cx.add("parameters compared", n as u64);
        // a later backward pass reaches the new parameters only
        let rows = r.range(1, 3);
        let x: Nd<T> = Nd::new(vec![rows, spec.width_in()], (0..rows * spec.width_in()).map(|_| T::leaf(r)).collect());
        ok("backward through the updated model", || net.forward(rc(&x)).sum().backward())?;
        for (k, q) in after.iter().enumerate() {
            ensure!(grad_of(q).is_some(), "parameter {k} is not part of the updated model");
            q.zero_grad();
        }
        for (t, v, g) in &old {
            is("replaced parameter", t, v)?;
            match (g, grad_of(t)) {
                (Some(g), Some(d)) => is("gradient of a replaced parameter", &d, g)?,
                (g, d) => return Err(format!("gradient of a replaced parameter: {d:?}, expected {g:?}")),
            }
        }
        cx.add("replaced tensors compared", old.len() as u64);
    }
    Ok(())
}

/// Gradients, parameters and step sizes far from one, and infinite and NaN gradients.
fn extremes<T: ElG + Real>(cx: &mut Cx, r: &mut Rng, far: f64) -> Res {
    let spec: Spec<T> = Spec::random(r, &mut |r| T::leaf(r));
    cx.nontrivial = true;
    let to = |x: f64| T::from(x).unwrap();
    let scale = |r: &mut Rng| match r.below(4) {
        0 => far,
        1 => 1.0 / far,
        2 => 10f64.powi(r.irange(-7, 7) as i32),
        _ => 1.0,
    };
    let step = to((r.sym() + 2.0) * if r.chance(1, 2) { -1.0 } else { 1.0 } * scale(r));
    let vals: Vec<Nd<T>> = spec.params.iter().map(|p| { let m = scale(r); p.map(|x| to(x.to_f() * m)) }).collect();
    let ts: Vec<RcTensor<T>> = vals.iter().map(rc).collect();
    let mut net = spec.build(&ts);
    let odd = r.chance(1, 2);
    let mut grads: Vec<Nd<T>> = vec![];
    for (t, v) in ts.iter().zip(&vals) {
        let m = scale(r);
        let mut g = Nd::new(v.shape.clone(), v.data.iter().map(|_| to(T::leaf(r).to_f() * m)).collect());
        if odd {
            for _ in 0..r.below(4) {
                let p = r.below(g.data.len());
                g.data[p] = to(*r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.0, -0.0]));
            }
        }
        ok("update_grad", || t.update_grad(rc(&g)))?;
        grads.push(g);
    }
    cx.describe(format!("{} step {step:?}, odd gradients {odd}", spec.text()));
    ok(&format!("step {step:?} of {}", cx.desc), || net.step(RcTensor::scalar(step)))?;
    let after = ok("params", || net.params())?;
    ensure!(after.len() == vals.len(), "{} parameters instead of {}", after.len(), vals.len());
    for k in 0..vals.len() {
        let d = dump("parameter", &after[k])?;
        ensure!(d.shape == vals[k].shape, "parameter {k} has shape {:?} after the step", d.shape);
        for (i, &x) in d.data.iter().enumerate() {
            let (p, g) = (vals[k].data[i].to_f(), grads[k].data[i].to_f());
            let (x, m) = (x.to_f(), step.to_f() * g);
            let want = p - m;
            let fine = if want.is_finite() { (x - want).abs() <= (p.abs() + m.abs()) * 8.0 * T::EPS + if T::EPS > 1e-10 { 1e-37 } else { 1e-300 } } else { x == want || (x.is_nan() && want.is_nan()) };
            ensure!(fine, "element {i} of parameter {k} ({p:e}, gradient {g:e}) is {x:e} after a step of {step:?} instead of {want:e} ({})", cx.desc);
        }
        ensure!(grad_of(&after[k]).is_none(), "parameter {k} has a gradient right after the step ({})", cx.desc);
    }
    cx.hit("steps with extreme values");
    Ok(())
}
