//! Gradients of random programs against reverse accumulation over the DAG.
use crate::cx::*;
use crate::el::*;
use crate::ensure;
use crate::fp::Fp;
use crate::nd::*;
use crate::prog::*;
use crate::rng::Rng;
use rust_light::tensor::*;

pub fn run(cx: &mut Cx) -> Res {
    let mut r = cx.rng.clone();
    if r.chance(1, 2000) && !crate::rng::small() {
        return long_chain(cx, &mut r);
    }
    match r.below(22) {
        20 => special(cx, &mut r),
        21 => batched(cx, &mut r),
        0..=8 => program::<Fp>(cx, &mut r),
        9..=11 => program::<f64>(cx, &mut r),
        #[cfg(not(feature = "few"))]
        12 => program::<f32>(cx, &mut r),
        #[cfg(not(feature = "few"))]
        13 => program::<i64>(cx, &mut r),
        #[cfg(not(feature = "few"))]
        14 => program::<i128>(cx, &mut r),
        #[cfg(not(feature = "few"))]
        15 => program::<i32>(cx, &mut r),
        #[cfg(not(feature = "few"))]
        16 => program::<u64>(cx, &mut r),
        #[cfg(not(feature = "few"))]
        17 => program::<usize>(cx, &mut r),
        18 => kinks::<f64>(cx, &mut r),
        _ => kinks::<Fp>(cx, &mut r),
    }
}
fn cut(r: &mut Rng) -> usize {
    if crate::rng::small() {
        return if r.chance(1, 5) { *r.pick(&[17, 31, 32, 33]) } else { r.range(1, 4) };
    }
    match r.below(6) {
        0 => *r.pick(&[31, 32, 33, 63, 64, 65, 95, 96, 97, 128, 129, 160]),
        1 => r.range(33, 140),
        2 => 1,
        _ => r.range(2, 12),
    }
}
/// A random program; returns the graph and its root.
pub fn random<T: ElG>(r: &mut Rng, thorough: bool) -> (Graph<T>, usize, &'static str) {
    loop {
        let big = if thorough && r.chance(1, 30) { 4e6 } else { 3e5 };
        let mut g: Graph<T> = Graph::new(big, 3000);
        let profile = r.below(17);
        if profile == 12 && r.chance(1, 250) && !crate::rng::small() {
            g = Graph::new(3e7, 400_000);
            let mut last;
            if r.chance(1, 4) {
                let (m, k, n) = (r.range(40, 130), r.range(40, 130), r.range(40, 130));
                let (a, b) = (g.random_leaf(r, &[m, k]), g.random_leaf(r, &[k, n]));
                last = g.push(Op::Mm(a, b)).unwrap_or(a);
            } else {
                let s = match r.below(4) {
                    0 => vec![r.range(9_000, 80_000)],
                    1 => vec![r.range(90, 280), r.range(90, 280)],
                    2 => vec![(1usize << r.range(13, 17)) + r.range(0, 2) - 1],
                    _ => vec![r.range(2, 9), r.range(20, 90), r.range(20, 90)],
                };
                last = g.random_leaf(r, &s);
                let t = if s.len() >= 2 { vec![s[s.len() - 1]] } else { vec![1] };
                let b = g.random_leaf(r, &t);
                let op = *r.pick(&[Op::Add(last, b), Op::Add(b, last), Op::Sub(last, b), Op::Sub(b, last), Op::Relu(last), Op::Neg(last), Op::Abs(last), Op::Tanh(last), Op::Tanh(last)]);
                last = g.push(op).unwrap_or(last);
            }
            let end = if r.chance(1, 2) {
                Op::Sum(last)
            } else {
                let s = g.shape(last).to_vec();
                Op::Dot(last, g.random_leaf(r, &s))
            };
            if let Some(root) = g.push(end) {
                if g.gradients_fit(root) {
                    return (g, root, "very large tensors");
                }
            }
        }
        let name;
        let mut last = 0;
        match profile {
            0..=4 => {
                name = "random expressions";
                for _ in 0..r.range(1, 3) {
                    let s = shape(r, 4, 200);
                    last = g.random_leaf(r, &s);
                }
                for _ in 0..r.range(1, 25) {
                    if let Some(i) = g.grow(r) {
                        last = i;
                    }
                }
            }
            5..=6 => {
                name = "matrix products";
                let (m, k) = (cut(r), cut(r));
                last = g.random_leaf(r, &[m, k]);
                for _ in 0..r.range(1, 3) {
                    let (m, k) = (g.shape(last)[0], g.shape(last)[1]);
                    let n = if r.chance(1, 2) { cut(r) } else { r.range(1, 5) };
                    let (ls, op) = if r.chance(1, 2) { ([k, n], true) } else { ([n, m], false) };
                    let b = g.random_leaf(r, &ls);
                    let p = if op { Op::Mm(last, b) } else { Op::Mm(b, last) };
                    if let Some(i) = g.push(p) {
                        last = i;
                        if let Some(i) = r.chance(1, 3).then(|| g.push(Op::Relu(last))).flatten() {
                            last = i;
                        }
                    }
                }
            }
            7..=8 => {
                name = "layers";
                let (n, mut w) = (r.range(1, 6), r.range(1, 12));
                last = g.random_leaf(r, &[n, w]);
                for _ in 0..r.range(1, 4) {
                    let v = r.range(1, 14);
                    let weights = g.random_leaf(r, &[w, v]);
                    let bs = if r.chance(1, 2) { vec![1, v] } else { vec![v] };
                    let bias = g.random_leaf(r, &bs);
                    let Some(p) = g.push(Op::Mm(last, weights)) else { break };
                    let Some(q) = g.push(Op::Add(p, bias)) else { break };
                    last = q;
                    let act = match r.below(3) {
                        0 => Op::Tanh(q),
                        1 => Op::Relu(q),
                        _ => Op::Neg(q),
                    };
                    if let Some(i) = g.push(act) {
                        last = i;
                    }
                    w = v;
                }
                let s = g.shape(last).to_vec();
                let target = g.random_leaf(r, &s);
                for op in [Op::Sub(last, target), Op::Abs(g.nodes.len())] {
                    if let Some(i) = g.push(op) {
                        last = i;
                    }
                }
            }
            9 => {
                name = "deep chains";
                let s = shape(r, 3, 12);
                last = g.random_leaf(r, &s);
                let n = if r.chance(1, 4) { r.range(100, 300) } else { r.range(10, 60) };
                let c = g.random_leaf(r, &s);
                for _ in 0..n {
                    let op = match r.below(6) {
                        0 => Op::Neg(last),
                        1 => Op::Add(last, c),
                        2 => Op::Sub(c, last),
                        3 => Op::Relu(last),
                        4 => Op::Abs(last),
                        _ => Op::Sub(last, c),
                    };
                    if let Some(i) = g.push(op) {
                        last = i;
                    }
                }
            }
            10..=11 => {
                name = "shared operands";
                let s = if r.chance(1, 2) {
                    let m = r.range(1, 7);
                    vec![m, m]
                } else {
                    shape(r, 3, 40)
                };
                let x = g.random_leaf(r, &s);
                last = x;
                for _ in 0..r.range(2, 40) {
                    let op = match r.below(8) {
                        0 if r.chance(1, 3) => Op::Add(last, last),
                        1 => Op::Add(x, last),
                        2 => Op::Add(last, x),
                        3 => Op::Sub(last, x),
                        4 if s.len() == 2 && r.chance(1, 2) => Op::Mm(last, x),
                        5 if s.len() == 2 && r.chance(1, 3) => Op::Mm(last, last),
                        6 => Op::Relu(last),
                        _ => Op::Neg(last),
                    };
                    if let Some(i) = g.push(op) {
                        last = i;
                    }
                }
            }
            12 => {
                name = "large tensors";
                let s = match if crate::rng::small() { 2 } else { r.below(3) } {
                    0 => vec![r.range(200, 2500)],
                    1 => vec![r.range(10, 50), r.range(10, 50)],
                    _ => vec![r.range(2, 12), r.range(2, 12), r.range(2, 12)],
                };
                last = g.random_leaf(r, &s);
                for _ in 0..r.range(1, 4) {
                    let p = partner(r, &s, 3000);
                    let b = g.random_leaf(r, &p);
                    let op = match r.below(4) {
                        0 => Op::Sub(b, last),
                        1 => Op::Relu(last),
                        _ => Op::Add(last, b),
                    };
                    if let Some(i) = g.push(op) {
                        last = i;
                    }
                }
            }
            13 => {
                // every result used again and again: the number of paths doubles with each step
                name = "ladders";
                if !crate::rng::small() {
                    g = Graph::new(f64::INFINITY, 3000);
                }
                let s = match r.below(3) {
                    0 => vec![],
                    1 => vec![2, 2],
                    _ => shape(r, 3, 6),
                };
                let mut prev = g.random_leaf(r, &s);
                last = g.random_leaf(r, &s);
                for _ in 0..if r.chance(1, 2) { r.range(30, 90) } else { r.range(3, 30) } {
                    let op = match r.below(9) {
                        0 | 1 => Op::Add(last, last),
                        2 => Op::Add(prev, last),
                        3 => Op::Sub(last, prev),
                        4 => Op::Sub(prev, last),
                        5 if s.len() == 2 && s[0] == s[1] => Op::Mm(last, *r.pick(&[last, prev])),
                        6 => Op::Relu(last),
                        7 => Op::Neg(last),
                        _ => Op::Add(last, prev),
                    };
                    if let Some(i) = g.push(op) {
                        prev = last;
                        last = i;
                    }
                }
            }
            _ => {
                name = "one-element expressions";
                let s = shape(r, 2, 6);
                let x = g.random_leaf(r, &s);
                last = x;
                for op in [Op::Sum(x), Op::Dot(x, x)] {
                    if let Some(i) = g.push(op) {
                        last = i;
                    }
                }
                for _ in 0..r.range(1, 20) {
                    let a = g.some(r);
                    let b = g.some(r);
                    let op = match r.below(7) {
                        0 => Op::Add(a, b),
                        1 => Op::Sub(a, b),
                        2 => Op::Neg(a),
                        3 => Op::Tanh(a),
                        4 => Op::Dot(a, b),
                        5 => Op::Sum(a),
                        _ => Op::Mm(a, b),
                    };
                    if let Some(i) = g.push(op) {
                        last = i;
                    } else if r.chance(1, 3) {
                        let s = [vec![], vec![1], vec![1, 1], vec![1, 1, 1]];
                        let t = r.pick(&s).clone();
                        g.random_leaf(r, &t);
                    }
                }
            }
        }
        if let Some(root) = g.root(r, last) {
            if g.gradients_fit(root) {
                // bystanders: computed from contributing tensors, but not used by the root
                for _ in 0..r.below(3) {
                    let a = r.below(g.nodes.len());
                    g.push(*r.pick(&[Op::Sum(a), Op::Neg(a), Op::Add(a, root)]));
                }
                return (g, root, name);
            }
        }
    }
}
fn program<T: ElG>(cx: &mut Cx, r: &mut Rng) -> Res {
    let (g, root, profile) = random::<T>(r, cx.thorough);
    let text = format!("{} {}", T::NAME, g.text(root));
    cx.describe(text.clone());
    for n in &g.nodes {
        if n.op == Op::Leaf {
            cx.digest(&n.val.data);
        }
    }
    cx.nontrivial = true;
    cx.hit(profile);
    cx.hit(&format!("programs over {}", T::NAME));
    cx.max("operations in a program", g.nodes.iter().filter(|n| n.op != Op::Leaf).count() as u64);
    cx.max("depth", g.nodes[root].depth as u64);
    let t = ok(&format!("forward of [{text}]"), || g.eval_lib(&mut r.clone()))?;
    let res = t[root].clone();
    let keep: Vec<bool> = (0..t.len()).map(|i| g.nodes[i].op == Op::Leaf || r.chance(2, 3)).collect();
    let t: Vec<Option<RcTensor<T>>> = t.into_iter().zip(&keep).map(|(x, &k)| k.then_some(x)).collect();
    ok(&format!("backward of [{text}]"), || res.backward())?;
    let adj = g.adjoint(root);
    let tol = g.tol(root);
    for (i, x) in t.iter().enumerate() {
        let Some(x) = x else { continue };
        if i == root {
            continue;
        }
        let what = format!("gradient of t{i} in [{text}]");
        match (&adj[i], grad_of(x)) {
            (Some(w), Some(d)) => {
                g.check_grad(&what, &dump(&what, &d)?, w, tol)?;
                cx.add("gradient elements compared", w.0.data.len() as u64);
                cx.max("elements of a gradient", w.0.data.len() as u64);
                cx.hit(&format!("{} gradients", if g.nodes[i].op == Op::Leaf { "leaf" } else { "intermediate" }));
            }
            (None, None) => cx.hit("bystanders without gradient"),
            (Some(_), None) => return Err(format!("{what}: absent")),
            (None, Some(d)) => return Err(format!("{what}: {d:?}, but the result does not depend on t{i}")),
        }
    }
    for i in 0..=root {
        if adj[i].is_some() {
            cx.hit(&format!("through {}", g.nodes[i].op.name()));
        }
    }
    Ok(())
}
/// A result computed in very many steps: far more than fit on the stack.
fn long_chain(cx: &mut Cx, r: &mut Rng) -> Res {
    let steps = r.range(10_000, if cx.thorough { 150_000 } else { 40_000 });
    let s = shape(r, 2, 3);
    let (c, x0) = (gen_nd::<Fp>(r, &s, 1), gen_nd::<Fp>(r, &s, 1));
    cx.describe(format!("chain of {steps} operations on {s:?}"));
    cx.digest(&x0.data);
    let (ct, xt) = (rc(&c), rc(&x0));
    let ops: Vec<usize> = (0..steps).map(|_| r.below(4)).collect();
    // d result / d x and d result / d c
    let (mut gx, mut gc) = (Fp::int(1), Fp::int(0));
    let mut x = xt.clone();
    for &o in &ops {
        x = ok("chain", || match o {
            0 => Fp::l_neg(&x),
            1 => std::ops::Add::add(&x, &ct.clone()),
            2 => Fp::l_sub(2, &ct, &x),
            _ => std::ops::Add::add(&ct, &x.clone()),
        })?;
        match o {
            0 => (gx, gc) = (gx.minus(), gc.minus()),
            2 => (gx, gc) = (gx.minus(), gc.minus() + Fp::int(1)),
            _ => gc = gc + Fp::int(1),
        }
    }
    let y = ok("sum", || x.sum())?;
    if r.chance(1, 4) {
        // taken apart without a backward pass
        drop(x);
        drop(y);
        ensure!(grad_of(&xt).is_none() && grad_of(&ct).is_none(), "a chain of {steps} operations left a gradient");
    } else {
        ok("backward through a long chain", || y.backward())?;
        for (t, g) in [(&xt, gx), (&ct, gc)] {
            let what = format!("gradient through {steps} operations");
            let Some(d) = grad_of(t) else { return Err(format!("{what}: absent")) };
            is(&what, &d, &Nd::full(&s, g))?;
        }
    }
    cx.max("operations in a chain", steps as u64);
    cx.hit("long chains");
    Ok(())
}
/// At a kink the slope lies between the one-sided ones; elsewhere it is exact.
fn kinks<T: ElG + ElReal>(cx: &mut Cx, r: &mut Rng) -> Res {
    let s = shape(r, 3, 60);
    let vals: Nd<T> = Nd::new(s.clone(), (0..count(&s)).map(|_| if r.chance(1, 2) { T::zero() } else { T::leaf(r) }).collect());
    // integer weights, so that the bounds of the slopes are exact
    let weights: Vec<i64> = (0..count(&s)).map(|_| r.irange(-5, 5)).collect();
    let el = |i: i64| {
        let mut x = T::zero();
        for _ in 0..i.abs() {
            x = x + T::one();
        }
        if i < 0 { x.minus() } else { x }
    };
    let c = Nd::new(s.clone(), weights.iter().map(|&w| el(w)).collect());
    let relu = r.chance(1, 2);
    cx.describe(format!("{} kinks of {} at {} {}", <T as El>::NAME, if relu { "relu" } else { "abs" }, short(&vals), short(&c)));
    cx.digest(&vals.data);
    let (x, w) = (rc(&vals), rc(&c));
    let y = if relu { T::l_relu(&x) } else { T::l_abs(&x) };
    let res = ok("dot", || rust_light::tensor::functional::dot(&y, &w))?;
    ok("backward through a kink", || res.backward())?;
    let Some(d) = grad_of(&x) else { return Err("no gradient at a kink".into()) };
    let d = dump("gradient at a kink", &d)?;
    ensure!(d.shape == s, "gradient has shape {:?}, expected {s:?}", d.shape);
    for p in 0..d.data.len() {
        let (v, g, w) = (vals.data[p], d.data[p], c.data[p]);
        let low = if relu { T::zero() } else { w.minus() };
        let fine = if v == T::zero() {
            cx.hit("kinks");
            (low <= g && g <= w) || (w <= g && g <= low)
        } else if v.is_pos() {
            g == w
        } else {
            g == low
        };
        ensure!(fine, "slope {g:?} at {v:?} under weight {w:?}");
    }
    Ok(())
}
/// Infinities and NaN reach the derivatives they multiply, and no others.
fn special(cx: &mut Cx, r: &mut Rng) -> Res {
    cx.nontrivial = true;
    if r.chance(1, 2) {
        let (m, k, n) = (r.range(1, 6), r.range(1, 6), r.range(1, 6));
        let (a, b, c) = (special_nd(r, &[m, k]), special_nd(r, &[k, n]), special_nd(r, &[m, n]));
        let c = if r.chance(1, 2) { c.map(|_| 1.0) } else { c };
        let what = format!("weighted sum of the product of special floats {} {}, weights {}", short(&a), short(&b), short(&c));
        cx.describe(what.clone());
        cx.digest(&a.data);
        let (x, y) = (rc(&a), rc(&b));
        let p = ok(&what, || x.bmm(&y))?;
        let end = if c.data.iter().all(|&v| v == 1.0) && r.chance(1, 2) { ok(&what, || p.sum())? } else { ok(&what, || rust_light::tensor::functional::dot(&p, &rc(&c)))? };
        ok(&format!("backward of {what}"), || end.backward())?;
        let (mul, add) = (|p: f64, q: f64| p * q, |p: f64, q: f64| p + q);
        for (t, want) in [(&x, c.matmul(&b.transpose(), 0.0, mul, add)), (&y, a.transpose().matmul(&c, 0.0, mul, add))] {
            let Some(d) = grad_of(t) else { return Err(format!("no gradient from the {what}")) };
            same_floats(&format!("gradient of the {what}"), &dump("gradient", &d)?, &want)?;
        }
        cx.hit("gradients of products of special floats");
        return Ok(());
    }
    let s = shape(r, 3, 30);
    let (a, c) = (special_nd(r, &s), special_nd(r, &s));
    let op = r.below(6);
    let name = ["neg", "tensor + one element", "one element - tensor", "relu", "abs", "tanh"][op];
    let what = format!("weighted sum of {name} of special floats {}, weights {}", short(&a), short(&c));
    cx.describe(what.clone());
    cx.digest(&a.data);
    let (x, one) = (rc(&a), rc(&Nd::new(vec![1], vec![2.0])));
    let one_shape = if s.is_empty() { vec![1] } else { s.clone() };
    let y = ok(&what, || match op {
        0 => f64::l_neg(&x),
        1 => std::ops::Add::add(&x, &one.clone()),
        2 => f64::l_sub(0, &one, &x),
        3 => f64::l_relu(&x),
        4 => f64::l_abs(&x),
        _ => f64::l_tanh(&x),
    })?;
    let weights = if op == 1 || op == 2 { c.reshape(&one_shape) } else { c.clone() };
    let end = ok(&what, || rust_light::tensor::functional::dot(&y, &rc(&weights)))?;
    ok(&format!("backward of {what}"), || end.backward())?;
    let Some(d) = grad_of(&x) else { return Err(format!("no gradient from the {what}")) };
    let d = dump("gradient", &d)?;
    ensure!(d.shape == s, "gradient has shape {:?}, expected {s:?}", d.shape);
    for p in 0..d.data.len() {
        let (v, w, g) = (a.data[p], c.data[p], d.data[p]);
        let fine = match op {
            0 | 2 => feq(g, -w),
            1 => feq(g, w),
            _ if v.is_nan() => continue,
            3 | 4 if v == 0.0 => continue,
            3 if v < 0.0 => g == 0.0 || !w.is_finite(),
            3 => feq(g, w),
            4 => feq(g, if v > 0.0 { w } else { -w }),
            _ if v.is_infinite() => g == 0.0 || !w.is_finite(),
            _ => {
                let t = v.tanh();
                let slope = 1.0 - t * t;
                if w.is_nan() { g.is_nan() } else if w.is_infinite() { g == w } else { (g - w * slope).abs() <= 1e-13 * (1.0 + w.abs()) }
            }
        };
        ensure!(fine, "gradient element {:?} is {g:?} at {v:?} under weight {w:?}: {what}", unpos(&s, p));
    }
    cx.hit("gradients among special floats");
    Ok(())
}
/// The gradient of an expression with a batched product is refused, or right.
fn batched(cx: &mut Cx, r: &mut Rng) -> Res {
    let (b, m, k, n) = (r.range(1, 4), r.range(1, 4), r.range(1, 4), r.range(1, 4));
    let (x, w, c) = (gen_nd::<Fp>(r, &[b, m, k], k), gen_nd::<Fp>(r, &[k, n], k), gen_nd::<Fp>(r, &[b, m, n], k));
    let summed = r.chance(1, 2);
    let c = if summed { c.map(|_| Fp::int(1)) } else { c };
    let what = format!("backward of a batched product {} {}", short(&x), short(&w));
    cx.describe(what.clone());
    cx.digest(&x.data);
    cx.nontrivial = true;
    let before = r.chance(1, 2);
    let (xt, wt, ct) = (rc(&x), rc(&w), rc(&c));
    let p = ok(&what, || if before { Fp::l_neg(&xt).bmm(&wt) } else { xt.bmm(&wt) })?;
    let end = ok(&what, || if summed { p.sum() } else { rust_light::tensor::functional::dot(&p, &ct) })?;
    if attempt(|| end.backward()).is_some() {
        let mut dx = Nd::full(&x.shape, Fp::int(0));
        let mut dw = Nd::full(&w.shape, Fp::int(0));
        for i in indices(&[b, m, n]) {
            let g = c.at(&i);
            for q in 0..k {
                let (at, aw) = (pos(&x.shape, &[i[0], i[1], q]), pos(&w.shape, &[q, i[2]]));
                dx.data[at] = dx.data[at] + g * w.data[aw];
                dw.data[aw] = dw.data[aw] + g * x.data[at];
            }
        }
        for (t, want) in [(&xt, if before { dx.map(|v| v.minus()) } else { dx }), (&wt, if before { dw.map(|v| v.minus()) } else { dw })] {
            let Some(d) = grad_of(t) else { return Err(format!("{what} left no gradient")) };
            is(&what, &d, &want)?;
        }
        cx.hit("gradients of batched products");
    } else {
        cx.hit("gradients of batched products refused");
    }
    is("batch after its product", &xt, &x)?;
    is("matrix after its product with a batch", &wt, &w)
}
