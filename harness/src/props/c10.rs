//! Parallel kernels in every calling context, under perturbed schedules.
use crate::cx::*;
use crate::ctx::Ctx;
use crate::ensure;
use crate::fp::Fp;
use crate::inst::{self, Inst};
use crate::nd::*;
use crate::prog::*;
use crate::props::c05;
use crate::rng::{mix, Rng};
use rust_light::tensor::*;

pub fn run(cx: &mut Cx) -> Res {
    let mut r = cx.rng.clone();
    match r.below(8) {
        0 | 1 => products::<Fp>(cx, &mut r, 0),
        2 | 3 => products::<Inst>(cx, &mut r, inst::CHAOS),
        4 => products::<Inst>(cx, &mut r, inst::LOG),
        5 => products::<Inst>(cx, &mut r, inst::CHAOS | inst::LOG),
        6 => programs::<Fp>(cx, &mut r),
        _ => programs::<Inst>(cx, &mut r),
    }
}
/// small whole numbers, exact in f64 in every order
fn whole<T: ElG>(r: &mut Rng, s: &[usize]) -> Nd<T> {
    Nd::new(
        s.to_vec(),
        (0..count(s))
            .map(|_| {
                let k = r.irange(-6, 6);
                let mut x = T::zero();
                for _ in 0..k.abs() {
                    x = x + T::one();
                }
                if k < 0 {
                    x.minus()
                } else {
                    x
                }
            })
            .collect(),
    )
}
fn products<T: ElG>(cx: &mut Cx, r: &mut Rng, mode: u8) -> Res {
    // very many contributions to few elements
    let long = mode == 0 && r.chance(1, 60) && !crate::rng::small();
    let (b, m, k, n) = loop {
        if long {
            let most = *r.pick(&[200, 500, 2500]);
            let mut e = [r.range(1, 3), r.range(1, 40), r.range(130, most)];
            e.swap(2, r.below(3));
            e.swap(0, r.below(2));
            if e[0] * e[1] * e[2] <= 80_000 {
                break (0, e[0], e[1], e[2]);
            }
            continue;
        }
        let cut = |r: &mut Rng| match r.below(8) {
            0 => *r.pick(&[31, 32, 33, 63, 64, 65, 97]),
            1 => r.range(10, 70),
            2 => 1,
            _ => r.range(1, 9),
        };
        let z = (if r.chance(1, 4) { r.range(1, 4) } else { 0 }, cut(r), cut(r), cut(r));
        let work = if mode != 0 { 1500 } else if r.chance(1, 30) { 60_000 } else { 12_000 };
        let work = crate::rng::cap(work, 64);
        if z.0.max(1) * z.1 * z.2 * z.3 <= work {
            break z;
        }
    };
    let _ = c05::sizes;
    let c = Ctx::random(r);
    let ls = if b == 0 { vec![m, k] } else { vec![b, m, k] };
    let x = whole::<T>(r, &ls);
    let y = whole::<T>(r, &[k, n]);
    let (mul, add) = (|a: T, b: T| a * b, |a: T, b: T| a + b);
    let want = x.matmul(&y, T::zero(), mul, add);
    let weight = whole::<T>(r, &want.shape);
    let share = r.chance(1, 2);
    cx.describe(format!("{} {ls:?} x [{k}, {n}] mode {mode} in {c:?}{}", T::NAME, if share { ", operands shared" } else { "" }));
    cx.digest(&x.data);
    cx.nontrivial = true;
    cx.hit(&c.name());
    cx.max("tasks in a gradient", (m * k * n) as u64);
    let (sx, sy) = (rc(&x), rc(&y));
    let back = b == 0;
    if long {
        cx.hit("gradients with long extents");
    }
    if mode != 0 {
        inst::chaos_density(*r.pick(&[2, 10, 60]));
        inst::take_log();
        inst::set_mode(mode);
    }
    // every task: product, and the gradient of the weighted sum of its entries
    let outs = attempt(|| {
        c.run(|_| -> Result<_, String> {
            let (tx, ty) = if share { (sx.clone(), sy.clone()) } else { (rc(&x), rc(&y)) };
            let p = ok("product", || tx.bmm(&ty))?;
            if back {
                let l = ok("dot", || functional::dot(&p, &rc(&weight)))?;
                ok("backward", || l.backward())?;
            }
            Ok((p, tx, ty))
        })
    });
    inst::set_mode(0);
    let Some(outs) = outs else { return Err(format!("panic in {c:?}")) };
    let log = inst::take_log();
    if !log.is_empty() {
        // which thread did which operation, with threads numbered by appearance
        let mut ids = std::collections::HashMap::new();
        let mut sig = 0u64;
        for t in &log {
            let k = ids.len() as u64;
            sig = mix(sig ^ *ids.entry(*t).or_insert(k));
        }
        cx.sig = mix(cx.sig ^ sig);
        cx.add("operations with known thread", log.len() as u64);
        cx.add("switches between threads", log.windows(2).filter(|w| w[0] != w[1]).count() as u64);
        cx.max("threads inside one workload", ids.len() as u64);
    }
    let times = if share { outs.len() } else { 1 };
    let sum = |d: &Nd<T>| {
        let mut s = d.map(|_| T::zero());
        for _ in 0..times {
            s = s.zip(d, |a, b| a + b);
        }
        s
    };
    for o in &outs {
        let (p, tx, ty) = match o {
            Ok(o) => o,
            Err(e) => return Err(format!("{e} in {}", cx.desc)),
        };
        let desc = cx.desc.clone();
        is(&format!("product {desc}"), p, &want)?;
        if back {
            let gx = sum(&weight.matmul(&y.transpose(), T::zero(), mul, add));
            let gy = sum(&x.transpose().matmul(&weight, T::zero(), mul, add));
            for (name, t, g) in [("left", tx, gx), ("right", ty, gy)] {
                let Some(d) = grad_of(t) else { return Err(format!("no {name} gradient in {desc}")) };
                is(&format!("{name} gradient of {desc}"), &d, &g)?;
            }
            cx.hit("gradients compared");
        }
        cx.hit("products compared");
    }
    ensure!(!outs.is_empty(), "no task ran");
    Ok(())
}
/// Random programs with matrix products, forward and backward inside the context.
fn programs<T: ElG>(cx: &mut Cx, r: &mut Rng) -> Res {
    let (g, root) = loop {
        let mut g: Graph<T> = Graph::new(2e4, 300);
        let (m, k) = (r.range(1, 8), r.range(1, 12));
        g.random_leaf(r, &[m, k]);
        for _ in 0..r.range(2, 12) {
            g.grow(r);
        }
        let a = (0..g.nodes.len()).rev().find(|&i| matches!(g.nodes[i].op, Op::Mm(..)));
        if let Some(a) = a {
            if let Some(i) = g.root(r, a) {
                break (g, i);
            }
        }
    };
    let c = Ctx::random(r);
    let text = g.text(root);
    cx.describe(format!("in {c:?}: {} {text}", T::NAME));
    cx.nontrivial = true;
    cx.hit(&c.name());
    let seed = r.u64();
    if T::NAME == "instrumented f64" {
        inst::chaos_density(20);
        inst::set_mode(inst::CHAOS);
    }
    let outs = attempt(|| {
        c.run(|i| -> Result<_, String> {
            let mut q = Rng::new(mix(seed ^ i as u64));
            let t = ok("forward", || g.eval_lib(&mut q))?;
            ok("backward", || t[root].backward())?;
            Ok(t)
        })
    });
    inst::set_mode(0);
    let Some(outs) = outs else { return Err(format!("panic in {}", cx.desc)) };
    let adj = g.adjoint(root);
    let tol = g.tol(root);
    for o in &outs {
        let t = match o {
            Ok(t) => t,
            Err(e) => return Err(format!("{e} in {}", cx.desc)),
        };
        for i in 0..root {
            match (&adj[i], grad_of(&t[i])) {
                (Some(w), Some(d)) => g.check_grad(&format!("gradient of t{i} {}", cx.desc), &dump("gradient", &d)?, w, tol)?,
                (Some(_), None) => return Err(format!("no gradient of t{i} {}", cx.desc)),
                _ => {}
            }
        }
        cx.hit("programs compared");
    }
    Ok(())
}
