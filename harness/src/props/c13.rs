//! Layers and networks as compositions.
use super::net::*;
use crate::cx::*;
use crate::ensure;
use crate::fp::Fp;
use crate::nd::*;
use crate::prog::*;
use crate::rng::Rng;
use num::traits::real::Real;
use rust_light::nn::Linear;
use rust_light::tensor::*;

pub fn run(cx: &mut Cx) -> Res {
    let mut r = cx.rng.clone();
    match r.below(6) {
        0..=3 => network::<Fp>(cx, &mut r),
        #[cfg(not(feature = "few"))]
        4 if r.chance(1, 2) => network::<f32>(cx, &mut r),
        4 => specials(cx, &mut r),
        _ => network::<f64>(cx, &mut r),
    }
}
/// Reference output and the magnitude that bounds its rounding error.
fn reference<T: ElG + Real>(s: &Spec<T>, params: &[Nd<T>], x: &Nd<T>) -> (Nd<T>, Nd<f64>) {
    let (mut v, mut m) = (x.clone(), x.map(|e| e.to_f().abs()));
    for (k, a) in s.acts.iter().enumerate() {
        let (w, b) = (&params[2 * k], &params[2 * k + 1]);
        let abs = |n: &Nd<T>| n.map(|e| e.to_f().abs());
        v = v.matmul(w, T::zero(), |p, q| p * q, |p, q| p + q).zip(b, |p, q| p + q);
        m = m.matmul(&abs(w), 0.0, |p, q| p * q, |p, q| p + q).zip(&abs(b), |p, q| p + q);
        v = match a {
            Act::None => v,
            Act::Relu => v.map(|e| if e.is_pos() { e } else { T::zero() }),
            Act::Tanh => v.map(|e| e.tanh_()),
            Act::Abs => v.map(|e| if e.is_pos() || e == T::zero() { e } else { e.minus() }),
            Act::Double => v.map(|e| e + e),
            Act::Negate => v.map(|e| e.minus()),
        };
        m = m.map(|e| 2.0 * e + 1.0);
    }
    (v, m)
}
fn check<T: ElG>(what: &str, y: &RcTensor<T>, want: &(Nd<T>, Nd<f64>)) -> Res {
    let d = dump(what, y)?;
    if T::EPS == 0.0 {
        same(what, &d, &want.0)
    } else {
        close(what, &d.map(|x| x.to_f()), &want.0.map(|x| x.to_f()), &want.1.map(|m| m * 300.0 * T::EPS))
    }
}
/// Infinities, NaN and zeros in inputs, weights and biases.
#[cfg_attr(feature = "few", allow(dead_code))]
fn specials(cx: &mut Cx, r: &mut Rng) -> Res {
    let mut spec: Spec<f64> = Spec::random(r, &mut |r| r.sym());
    if spec.acts.len() > 3 {
        return Ok(());
    }
    spec.params = spec.params.iter().map(|p| special_nd(r, &p.shape)).collect();
    for a in &mut spec.acts {
        // what relu makes of NaN is free, and tanh is not exact
        if matches!(a, Act::Relu | Act::Tanh) {
            *a = Act::Abs;
        }
    }
    let w = spec.width_in();
    let xs = if r.chance(1, 3) { vec![r.range(1, 3), r.range(1, 4), w] } else { vec![r.range(1, 6), w] };
    let x = special_nd(r, &xs);
    let want = reference(&spec, &spec.params, &x).0;
    if want.data.iter().any(|v| v.is_finite() && v.abs() > 1e15) {
        return Ok(());
    }
    let ps: Vec<RcTensor<f64>> = spec.params.iter().map(rc).collect();
    let net = spec.build(&ps);
    let what = format!("{} with special floats on {xs:?}", spec.text());
    cx.describe(what.clone());
    cx.digest(&x.data);
    cx.nontrivial = true;
    let y = ok(&what, || net.forward(shared(r, &x)))?;
    same_floats(&what, &dump(&what, &y)?, &want)?;
    cx.hit("outputs of special floats compared");
    Ok(())
}
fn network<T: ElG + Real>(cx: &mut Cx, r: &mut Rng) -> Res {
    let mut spec: Spec<T> = Spec::random(r, &mut |r| T::leaf(r));
    cx.digest(&spec.params[0].data);
    cx.nontrivial = true;
    let mut ts: Vec<RcTensor<T>> = spec.params.iter().map(rc).collect();
    let n = ts.len();
    // one tensor in two places
    let mut home: Vec<usize> = (0..n).collect();
    let twins: Vec<(usize, usize)> = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).filter(|&(a, b)| spec.params[a].shape == spec.params[b].shape).collect();
    if !twins.is_empty() && r.chance(1, 5) {
        let (a, b) = *r.pick(&twins);
        spec.params[b] = spec.params[a].clone();
        ts[b] = ts[a].clone();
        home[b] = a;
        cx.hit("models with a tensor in two places");
    }
    let spec = spec;
    let mut net = spec.build(&ts);
    let rows = if r.chance(1, 10) { r.range(10, 40) } else { r.range(1, 5) };
    let size: usize = spec.params.iter().map(|p| p.data.len()).sum();
    let rows = if size < 200 && !crate::rng::small() && r.chance(1, 150) { r.range(100, 1100) } else { rows };
    cx.max("rows", rows as u64);
    cx.max("parameters", size as u64);
    let xs = if rows > 40 && r.chance(1, 2) { vec![rows / 3, 3, spec.width_in()] } else if r.chance(1, 3) { vec![r.range(1, 4), rows, spec.width_in()] } else { vec![rows, spec.width_in()] };
    let mut x: Nd<T> = Nd::new(xs.clone(), (0..count(&xs)).map(|_| T::leaf(r)).collect());
    // the input may be a parameter of the model, or equal to one
    let fitting: Vec<usize> = (0..n).filter(|&k| matches!(spec.params[k].shape[..], [_, c] if c == spec.width_in())).collect();
    let mut own = None;
    if !fitting.is_empty() && r.chance(1, 6) {
        let k = *r.pick(&fitting);
        x = spec.params[k].clone();
        if r.chance(1, 2) {
            own = Some(k);
        }
        cx.hit("inputs equal to a parameter");
    }
    let xs = x.shape.clone();
    cx.describe(format!("{} on {xs:?}", spec.text()));
    cx.hit(&format!("networks of {} layers", spec.acts.len()));
    cx.hit(if xs.len() == 3 { "batches of matrices" } else { "matrices" });
    let input = own.map_or_else(|| rc(&x), |k| ts[k].clone());
    let desc = cx.desc.clone();
    let want = reference(&spec, &spec.params, &x);
    let y = ok(&format!("forward of {desc}"), || net.forward(input.clone()))?;
    check(&format!("output of {desc}"), &y, &want)?;
    cx.add("outputs compared", want.0.data.len() as u64);
    // repeatable, and without a trace
    let z = ok("forward again", || net.forward(input.clone()))?;
    ensure!(T::EPS > 0.0 || z == y, "{desc}: a repeated forward pass gives another result");
    check(&format!("second output of {desc}"), &z, &want)?;
    is("input after forward", &input, &x)?;
    let params = ok("params", || net.params())?;
    ensure!(params.len() == ts.len(), "{desc}: {} parameters, expected {}", params.len(), ts.len());
    for (k, p) in params.iter().enumerate() {
        is(&format!("{desc}: parameter {k}"), p, &spec.params[k])?;
        ensure!(grad_of(p).is_none() && grad_of(&input).is_none() && grad_of(&y).is_none(), "{desc}: a forward pass left a gradient");
        // the list holds the model's own tensors
        p.update_grad(rc(&spec.params[k]));
        ensure!(grad_of(&ts[k]).is_some(), "{desc}: parameter {k} of the list is not the tensor the model was built from");
        p.zero_grad();
    }
    if xs.len() == 2 {
        // ... and a backward pass reaches exactly those
        let mut g: Graph<T> = Graph::new(1e6, 5000);
        let ids: Vec<usize> = spec.params.iter().map(|v| g.leaf(v.clone())).collect();
        let ids: Vec<usize> = home.iter().map(|&k| ids[k]).collect();
        let xi = own.map_or_else(|| g.leaf(x.clone()), |k| ids[k]);
        if let Some(root) = spec.forward(&mut g, &ids, xi).and_then(|y| g.push(Op::Sum(y))) {
            if g.gradients_fit(root) {
                ok(&format!("backward of {desc}"), || y.sum().backward())?;
                let adj = g.adjoint(root);
                for (k, p) in params.iter().enumerate() {
                    let Some(d) = grad_of(p) else { return Err(format!("{desc}: no gradient of parameter {k}")) };
                    g.check_grad(&format!("{desc}: gradient of parameter {k}"), &dump("gradient", &d)?, adj[ids[k]].as_ref().unwrap(), g.tol(root) * 100.0)?;
                }
                if own.is_none() {
                    let Some(d) = grad_of(&input) else { return Err(format!("{desc}: no gradient of the input")) };
                    g.check_grad(&format!("{desc}: gradient of the input"), &dump("gradient", &d)?, adj[xi].as_ref().unwrap(), g.tol(root) * 100.0)?;
                }
                for p in &params {
                    p.zero_grad();
                }
                cx.hit("gradients through the parameter list");
            }
        }
    }
    // replaced parameters take effect, in order
    let fresh: Vec<Nd<T>> = spec.params.iter().map(|p| Nd::new(p.shape.clone(), p.data.iter().map(|_| T::leaf(r)).collect())).collect();
    let nt: Vec<RcTensor<T>> = fresh.iter().map(rc).collect();
    ok("update_params", || net.update_params(nt.clone()))?;
    let want = reference(&spec, &fresh, &x);
    let y2 = ok("forward", || net.forward(input.clone()))?;
    check(&format!("output of {desc} after replacing the parameters"), &y2, &want)?;
    for (k, p) in ok("params", || net.params())?.iter().enumerate() {
        is(&format!("{desc}: replaced parameter {k}"), p, &fresh[k])?;
        p.update_grad(rc(&fresh[k]));
        ensure!(grad_of(&nt[k]).is_some(), "{desc}: parameter {k} is not the tensor it was replaced by");
        ensure!(grad_of(&ts[k]).is_none(), "{desc}: the old parameter {k} got a gradient");
        is("old parameter", &ts[k], &spec.params[k])?;
    }
    check(&format!("earlier output of {desc}"), &y, &reference(&spec, &spec.params, &x))?;
    // putting its own parameters back changes nothing
    let own = ok("params", || net.params())?;
    ok("update_params", || net.update_params(own))?;
    check(&format!("output of {desc} after writing the parameters back"), &ok("forward", || net.forward(input.clone()))?, &want)?;
    cx.hit("parameter replacements");
    // the public fields of a layer
    let mut l = Linear::new(ts[0].clone(), ts[1].clone(), spec.acts[0].function::<T>());
    is("layer.weights", &l.weights, &spec.params[0])?;
    is("layer.bias", &l.bias, &spec.params[1])?;
    let own: Vec<RcTensor<T>> = ok("layer params", || l.params().collect())?;
    ensure!(own.len() == 2, "a layer lists {} parameters", own.len());
    is("first parameter of a layer", &own[0], &spec.params[0])?;
    is("second parameter of a layer", &own[1], &spec.params[1])?;
    if spec.acts.len() > 1 {
        // the network is its layers, one after the other
        let mut v = input.clone();
        for k in 0..spec.acts.len() {
            let l = Linear::new(nt[k * 2].clone(), nt[k * 2 + 1].clone(), spec.acts[k].function::<T>());
            v = ok("layer", || rust_light::nn::Module::forward(&l, v.clone()))?;
        }
        check(&format!("layers of {desc} one by one"), &v, &want)?;
    }
    Ok(())
}
