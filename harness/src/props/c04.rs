//! Views against materialised copies.
use crate::cx::*;
use crate::el::*;
use crate::nd::*;
use crate::rng::Rng;
use crate::{any_type, ensure, with};
use rust_light::tensor::{functional as F, *};
use std::ops::{Add, Mul};

pub fn run(cx: &mut Cx) -> Res {
    let mut r = cx.rng.clone();
    any_type!(r, chain(cx, &mut r.clone()))
}
fn random_ranges(r: &mut Rng, s: &[usize], allow_empty: bool) -> Vec<(usize, usize)> {
    s.iter()
        .map(|&d| {
            if r.chance(1, 4) {
                return (0, d);
            }
            loop {
                let (a, b) = (r.range(0, d), r.range(0, d));
                let (a, b) = (a.min(b), a.max(b));
                if a < b || (allow_empty && d > 1) {
                    return (a, b);
                }
            }
        })
        .collect()
}
fn chain<T: El>(cx: &mut Cx, r: &mut Rng) -> Res {
    let mut s = shape(r, 5, if r.clone().chance(1, 40) { 6000 } else { 400 });
    let mut whole = false;
    if let Some(v) = vast(r) {
        cx.hit("views of very large tensors");
        s = v;
        whole = r.chance(1, 2);
    }
    let base: Nd<T> = Nd::new(s.clone(), (0..count(&s)).map(|_| T::gen(r, 512)).collect());
    cx.digest(&base.data);
    let mut log = format!("{} base {s:?}", T::NAME);
    let allow_empty = r.chance(1, 12);
    let g = if whole { full(&s) } else { random_ranges(r, &s, allow_empty) };
    let sl = ranges(&g);
    let mut n = base.slice(&g);
    let how = r.below(4);
    log += &format!(" slice{g:?}");
    let owner = rc(&base);
    let held = if r.chance(1, 2) { Some(Nd::full(&base.shape, T::one())) } else { None };
    if let Some(h) = &held {
        owner.update_grad(rc(h));
    }
    let mut v: TensorView<T> = match how {
        0 => ok(&log, || owner.view(sl))?,
        1 => ok(&log, || owner.slice(sl))?,
        2 => ok(&log, || raw(&base).slice(sl))?,
        _ => ok(&log, || TensorView::new(owner.clone(), sl))?,
    };
    let mut depth = 1;
    while !n.data.is_empty() && r.chance(2, 3) && depth < 6 {
        depth += 1;
        if r.chance(1, 2) {
            let t = refactor(r, n.data.len());
            log += &format!(" reshape{t:?}");
            v = ok(&log, || v.reshape(t.clone()))?;
            n = n.reshape(&t);
        } else {
            let g = random_ranges(r, &n.shape, allow_empty);
            log += &format!(" slice{g:?}");
            v = ok(&log, || v.slice(ranges(&g)))?;
            n = n.slice(&g);
        }
        if r.chance(1, 3) {
            let old = v.clone();
            drop(v);
            v = old;
        }
    }
    cx.describe(log.clone());
    cx.max("chain length", depth);
    let what = format!("view [{log}]");
    // reading
    is(&what, &v, &n)?;
    let total = n.fold(T::zero(), |a, x| a + x);
    let sum = ok(&format!("sum of {what}"), || v.sum())?;
    is(&format!("sum of {what}"), &sum, &Nd::new(vec![], vec![total]))?;
    let copy = ok(&format!("copy of {what}"), || v.to_tensor())?;
    ensure!(*copy.shape() == n.shape && copy.count() == n.data.len(), "copy of {what} has shape {:?}", copy.shape());
    is(&format!("copy of {what}"), &copy, &n)?;
    cx.add("elements compared", 2 * n.data.len() as u64);
    let fresh = rc(&n);
    ensure!(ok(&what, || v == fresh)?, "{what} does not equal the tensor {}", short(&n));
    ensure!(ok(&what, || v == raw(&n))?, "{what} does not equal the plain tensor {}", short(&n));
    ensure!(ok(&what, || v == v.clone())?, "{what} does not equal itself");
    let listed: Vec<Vec<usize>> = ok(&what, || v.iter_indices().take(n.data.len() + 1).collect())?;
    ensure!(listed == indices(&n.shape).collect::<Vec<_>>(), "{what}: iter_indices gives {} indices", listed.len());
    if n.data.is_empty() {
        cx.hit("empty views");
        let d = ok(&what, || v.deep_clone())?;
        ensure!(d.count() == 0 && *d.shape() == n.shape, "deep clone of {what} is not empty");
        return Ok(());
    }
    cx.hit("views");
    if n.data.len() > 1 {
        let mut m = n.clone();
        let p = r.below(m.data.len());
        m.data[p] = m.data[p] + T::one();
        ensure!(!ok(&what, || v == rc(&m))?, "{what} equals a tensor that differs at {:?}", unpos(&n.shape, p));
    }
    for _ in 0..4 {
        let p = r.below(n.data.len());
        let mut i = unpos(&n.shape, p);
        let x = ok(&format!("{what}[{i:?}]"), || v[&i])?;
        ensure!(x == n.data[p], "{what}[{i:?}] is {x:?}, expected {:?}", n.data[p]);
        if r.chance(1, 2) {
            i.insert(0, r.below(9));
            for (k, &d) in n.shape.iter().enumerate() {
                if d == 1 {
                    i[k + 1] = r.below(9);
                }
            }
            let x = ok(&format!("{what}: get({i:?})"), || v.get(&i).ok().map(|v| *v))?;
            ensure!(x == Some(n.data[p]), "{what}: get({i:?}) is {x:?}, expected {:?}", n.data[p]);
        }
        let wide: Vec<usize> = (0..n.shape.len()).filter(|&k| n.shape[k] > 1).collect();
        if !wide.is_empty() {
            let k = *r.pick(&wide);
            let mut j = unpos(&n.shape, p);
            j[k] = match r.below(8) {
                0 => *r.pick(&[usize::MAX, usize::MAX - 1, 1 << 63, 1 << 32]),
                1 => (usize::MAX / count(&n.shape[k + 1..])).wrapping_add(1).wrapping_add(j[k]).max(n.shape[k]),
                _ => n.shape[k] + r.below(3),
            };
            let x = ok(&format!("{what}: get({j:?})"), || v.get(&j).ok().map(|v| *v))?;
            ensure!(x.is_none(), "{what}: get({j:?}) beyond {:?} returned {x:?}", n.shape);
            cx.hit("out of range lookups refused");
        }
    }
    ensure!(v.count() == n.data.len(), "{what}: count");
    let f = ok(&what, || *v.get_first_elem())?;
    ensure!(f == n.data[0], "{what}: first element {f:?}");
    if n.shape.is_empty() {
        ensure!(ok(&what, || v.elem())? == n.data[0], "{what}: elem");
    }
    is(&format!("deep clone of {what}"), &ok(&what, || v.deep_clone())?, &n)?;
    // as an operand
    let small = |r: &mut Rng, s: &[usize]| gen_nd::<T>(r, s, 512);
    match r.below(6) {
        0 | 1 => {
            let os = partner(r, &n.shape, 2000);
            let o = small(r, &os);
            is(&format!("{} + {what}", short(&o)), &ok(&what, || Add::add(&raw(&o), &v))?, &o.zip(&n, |a, b| a + b))?;
            cx.hit("views as summands");
        }
        2 => {
            let o = small(r, &n.shape);
            is(&format!("{} * {what}", short(&o)), &ok(&what, || Mul::mul(&rc(&o), &v))?, &o.zip(&n, |a, b| a * b))?;
            let w = make_view(r, &o);
            is(&format!("{what} * view"), &ok(&what, || F::element_wise_multiplication(&v, &w))?, &n.zip(&o, |a, b| a * b))?;
            cx.hit("views as factors");
        }
        3 => {
            let c = T::gen(r, 512);
            is(&format!("{c:?} * {what}"), &ok(&what, || Mul::mul(&RawTensor::scalar(c), &v))?, &n.map(|x| c * x))?;
            is(&format!("{what} scaled"), &ok(&what, || v.right_scalar_multiplication(&c))?, &n.map(|x| x * c))?;
            is(&format!("{what} mapped"), &ok(&what, || F::generic_unary_op(&v, |x| x + T::one()))?, &n.map(|x| x + T::one()))?;
            cx.hit("views scaled and mapped");
        }
        4 => {
            let nd = n.data.len();
            let o: Nd<T> = Nd::new(n.shape.clone(), (0..nd).map(|_| T::gen(r, 512.max(nd))).collect());
            let m = n.map(|x| x);
            let want = m.zip(&o, |a, b| a * b);
            if T::NAME != "u8" && T::NAME != "i8" {
                let t = want.fold(T::zero(), |a, x| a + x);
                let x = operand(r, &o);
                let d = with!(&x.0, y => ok(&what, || F::dot_no_derivative(&v, y))?);
                ensure!(d.count() == 1 && *d.get_first_elem() == t, "dot of {what} and {} {}: {:?}, expected {t:?}", x.1, short(&o), d.get_first_elem());
                let d = ok(&what, || raw(&o).dot(&v))?;
                ensure!(*d.get_first_elem() == t, "dot of {} and {what}: {:?}, expected {t:?}", short(&o), d.get_first_elem());
                cx.hit("views in dot products");
            }
        }
        _ => {
            let q = n.shape.len();
            if q == 2 && n.shape[0] * n.shape[1] <= 400 && T::NAME != "u8" && T::NAME != "i8" {
                let k = r.range(1, 4);
                let o = small(r, &[n.shape[1], k]);
                is(&format!("{what} times matrix"), &ok(&what, || v.bmm(&rc(&o)))?, &n.matmul(&o, T::zero(), |a, b| a * b, |a, b| a + b))?;
                let o = small(r, &[k, n.shape[0]]);
                is(&format!("matrix times {what}"), &ok(&what, || rc(&o).bmm(&v))?, &o.matmul(&n, T::zero(), |a, b| a * b, |a, b| a + b))?;
                cx.hit("views in matrix products");
            }
        }
    }
    // copies of the view, and products with it, have nothing to do with the base tensor's gradient
    gradient(&format!("gradient of the base after using {what}"), &owner, &held)?;
    let copy = ok(&what, || if r.chance(1, 2) { v.to_tensor() } else { v.deep_clone() })?;
    gradient(&format!("gradient of a copy of {what}"), &copy, &None)?;
    let g = gen_nd::<T>(r, &n.shape, 64);
    ok(&what, || copy.update_grad(rc(&g)))?;
    gradient(&format!("gradient of a copy of {what} after an update"), &copy, &Some(g.clone()))?;
    gradient(&format!("gradient of the base after an update of a copy of {what}"), &owner, &held)?;
    let other = gen_nd::<T>(r, &base.shape, 64);
    owner.zero_grad();
    ok(&what, || owner.update_grad(rc(&other)))?;
    gradient(&format!("gradient of a copy of {what} after an update of the base"), &copy, &Some(g))?;
    copy.zero_grad();
    gradient(&format!("gradient of the base after clearing a copy of {what}"), &owner, &Some(other))?;
    cx.hit("copies with gradients");
    if n.shape.len() == 2 && n.data.len() <= 400 && T::NAME != "u8" && T::NAME != "i8" && r.chance(1, 2) {
        let w = rc(&base);
        let v = ok(&what, || if r.chance(1, 2) { w.view(ranges(&full(&s))) } else { w.slice(ranges(&full(&s))) })?;
        let v = ok(&what, || v.reshape(vec![1, base.data.len()]))?;
        for (what, v, n, owner) in [(what.clone(), &v, base.reshape(&[1, base.data.len()]), Some(&w)), (what.clone(), &rc(&n).view(ranges(&full(&n.shape))), n.clone(), None)] {
            if n.data.len() > 400 {
                continue;
            }
            let k = r.range(1, 3);
            let x = Nd::new(vec![k, n.shape[0]], (0..k * n.shape[0]).map(|_| if r.chance(1, 2) { T::one() } else { T::zero() }).collect());
            let xt = rc(&x);
            let y = ok(&what, || xt.bmm(v))?;
            ok(&format!("backward of a product with {what}"), || y.sum().backward())?;
            let want = Nd::full(&[k, n.shape[1]], T::one()).matmul(&n.transpose(), T::zero(), |a, b| a * b, |a, b| a + b);
            gradient(&format!("gradient of the tensor multiplied with {what}"), &xt, &Some(want))?;
            if let Some(o) = owner {
                gradient(&format!("gradient of the base after a product with {what}"), o, &None)?;
            }
            cx.hit("backward passes through products with views");
        }
    }
    is("base tensor afterwards", &owner, &base)
}
fn gradient<T: El>(what: &str, t: &RcTensor<T>, want: &Option<Nd<T>>) -> Res {
    match (grad_of(t), want) {
        (None, None) => Ok(()),
        (Some(g), Some(w)) => is(what, &g, w),
        (Some(g), None) => Err(format!("{what}: there is one, {g}")),
        (None, Some(w)) => Err(format!("{what}: none, expected {}", short(w))),
    }
}
