//! Refusals.
use crate::cx::*;
use crate::el::*;
use crate::nd::*;
use crate::rng::Rng;
use crate::{any_type, ensure, with};
use rust_light::nn::{Linear, Module};
use rust_light::optim::sgd::sgd_step;
use rust_light::tensor::{functional as F, *};
use std::ops::{Add, Mul, Sub};

pub fn run(cx: &mut Cx) -> Res {
    let mut r = cx.rng.clone();
    for _ in 0..4 {
        match r.below(14) {
            0 => any_type!(r, construction(cx, &mut r.clone()))?,
            1 => any_type!(r, ragged(cx, &mut r.clone()))?,
            2 | 3 => any_type!(r, sums(cx, &mut r.clone()))?,
            4 => differences(cx, &mut r.clone())?,
            5 | 6 => any_type!(r, products(cx, &mut r.clone()))?,
            7 => any_type!(r, dots(cx, &mut r.clone()))?,
            8 | 9 => any_type!(r, matrices(cx, &mut r.clone()))?,
            10 => any_type!(r, slices(cx, &mut r.clone()))?,
            11 => any_type!(r, singles(cx, &mut r.clone()))?,
            12 => backwards(cx, &mut r.clone())?,
            _ => models(cx, &mut r.clone())?,
        }
        r.u64();
        for _ in 0..3 {
            r.u64();
        }
    }
    Ok(())
}
fn refused<R: std::fmt::Debug>(cx: &mut Cx, kind: &str, what: &str, f: impl FnOnce() -> R) -> Res {
    cx.describe(format!("{kind}: {what}"));
    cx.nontrivial = true;
    match attempt(f) {
        None => {
            cx.hit(kind);
            Ok(())
        }
        Some(v) => {
            let t: String = format!("{v:?}").chars().take(300).collect();
            Err(format!("{kind}: {what} was answered with {t}"))
        }
    }
}
fn bad_len(r: &mut Rng, n: usize) -> usize {
    loop {
        let k = match r.below(5) {
            0 => n + 1,
            1 => n.saturating_sub(1),
            2 => n * 2,
            3 => 0,
            _ => r.range(0, n + 5),
        };
        if k != n {
            return k;
        }
    }
}
fn construction<T: El>(cx: &mut Cx, r: &mut Rng) -> Res {
    let s = shape(r, 5, 300);
    let k = bad_len(r, count(&s));
    let data: Vec<T> = (0..k).map(T::label).collect();
    let what = format!("{k} elements for {s:?}");
    let (d, t) = (data.clone(), s.clone());
    refused(cx, "data that does not fill the shape", &what, || RawTensor::new(d, t))?;
    refused(cx, "data that does not fill the shape", &what, || RcTensor::new(data, s))?;
    // the shape's element count is k modulo 2^64
    let (s, k) = overflowing(r);
    let data: Vec<T> = (0..k).map(T::label).collect();
    let what = format!("{k} elements for {s:?}");
    let (d, t) = (data.clone(), s.clone());
    refused(cx, "data that does not fill a huge shape", &what, || RawTensor::new(d, t))?;
    let t = s.clone();
    refused(cx, "data that does not fill a huge shape", &what, || RcTensor::new(data, t))?;
    let t = s.clone();
    refused(cx, "data that does not fill a huge shape", &format!("filler for {s:?}"), || RawTensor::new_with_filler(t, T::one()))?;
    let t = s.clone();
    refused(cx, "data that does not fill a huge shape", &format!("filler for {s:?}"), || RcTensor::new_with_filler(t, T::one()))?;
    if k > 0 {
        let n = Nd::new(vec![k], (0..k).map(T::label).collect());
        let v = make_view(r, &n);
        refused(cx, "reshape to a huge shape", &format!("{k} elements to {s:?}"), || v.reshape(s.clone()))?;
    }
    Ok(())
}
/// A shape whose extents multiply to k + j * 2^64 with j > 0, for a small k.
fn overflowing(r: &mut Rng) -> (Vec<usize>, usize) {
    let mut s = match r.below(4) {
        0 => vec![1 << 32, 1 << 32],
        1 => vec![1 << 16, 1 << 16, 1 << 16, 1 << 16],
        2 => vec![(1 << 63) + r.below(5), 2],
        _ => {
            // an odd extent and its inverse modulo 2^64, times a small number
            let a = 2 * r.range(1, 1000) + 1;
            let mut x = a;
            for _ in 0..6 {
                x = x.wrapping_mul(2usize.wrapping_sub(a.wrapping_mul(x)));
            }
            vec![a, x, r.range(1, 9)]
        }
    };
    if r.chance(1, 2) {
        s.reverse();
    }
    if r.chance(1, 3) {
        s.insert(0, 1);
    }
    let k = s.iter().fold(1usize, |a, &b| a.wrapping_mul(b));
    assert!(k < 100);
    (s, k)
}
fn ragged<T: El>(cx: &mut Cx, r: &mut Rng) -> Res
where
    RawTensor<T>: From<Vec<T>> + From<Vec<Vec<T>>> + From<Vec<Vec<Vec<T>>>>,
    RcTensor<T>: From<Vec<Vec<T>>> + From<Vec<Vec<Vec<T>>>>,
{
    let (a, b) = (r.range(2, 5), r.range(1, 5));
    let mut v: Vec<Vec<T>> = (0..a).map(|i| (0..b).map(|j| T::label(i * b + j)).collect()).collect();
    let i = r.below(a);
    let k = bad_len(r, b).max(1);
    if k == b {
        return Ok(());
    }
    v[i] = (0..k).map(T::label).collect();
    let what = format!("{:?}", v.iter().map(|x| x.len()).collect::<Vec<_>>());
    refused(cx, "ragged nested lists", &what, || RawTensor::<T>::from(v.clone()))?;
    refused(cx, "ragged nested lists", &what, || RcTensor::<T>::from(v.clone()))?;
    // one level deeper: the total may even fit
    let flat = vec![vec![T::one(); b]; a];
    let tall = vec![vec![T::one(); a]; b];
    let deep = if a != b && r.chance(1, 2) { vec![flat, tall] } else { vec![flat, v] };
    let what = "nested lists of different shapes";
    refused(cx, "ragged nested lists", what, || RawTensor::<T>::from(deep.clone()))?;
    refused(cx, "ragged nested lists", what, || RcTensor::<T>::from(deep.clone()))
}
fn incompatible(r: &mut Rng) -> (Vec<usize>, Vec<usize>) {
    loop {
        let a = match r.below(8) {
            // many dimensions
            0 => (0..r.range(7, 14)).map(|_| *r.pick(&[1, 1, 1, 2, 2, 3])).collect(),
            _ => shape(r, 4, 200),
        };
        if count(&a) > 300 {
            continue;
        }
        let b = match r.below(5) {
            0 => {
                let mut b = a.clone();
                b.reverse();
                b
            }
            1 => refactor(r, count(&a)),
            2 => {
                let mut b = a.clone();
                if let Some(d) = b.last_mut() {
                    *d = if r.chance(1, 2) { *d + 1 } else { *d * 2 };
                }
                b
            }
            // one extent differs, anywhere
            3 if !a.is_empty() => {
                let mut b = a.clone();
                let i = r.below(b.len());
                b[i] = if b[i] == 1 { 1 } else { b[i] + r.range(1, 2) };
                for k in 0..i {
                    if r.chance(1, 3) {
                        b[k] = 1;
                    }
                }
                b
            }
            _ => shape(r, 4, 200),
        };
        if broadcast_shape(&a, &b).is_none() {
            return (a, b);
        }
    }
}
fn unchanged<T: El>(x: &Opd<T>, n: &Nd<T>) -> Res {
    with!(x, t => is("operand after a refusal", t, n)?);
    if let Opd::Rc(t) = x {
        // an operand may have come with its own values as its gradient (see `shared`)
        if let Some(g) = grad_of(t) {
            ensure!(dump("gradient", &g)? == *n, "a refused operation left a gradient");
            t.zero_grad();
        }
        let mut c = n.map(|_| T::zero());
        if let Some(last) = c.data.last_mut() {
            *last = T::one();
        }
        let s = ok("dot product after a refusal", || F::dot(t, &rc(&c)))?;
        ok("backward after a refusal", || s.backward())?;
        let Some(g) = grad_of(t) else { return Err("operand unusable after a refusal".into()) };
        is("gradient after a refusal", &g, &c)?;
    }
    Ok(())
}
fn sums<T: El>(cx: &mut Cx, r: &mut Rng) -> Res {
    let (s, t) = incompatible(r);
    let (a, b) = (gen_nd::<T>(r, &s, 400), gen_nd::<T>(r, &t, 400));
    let what = format!("{} {s:?} + {t:?}", T::NAME);
    let (x, y) = (rc(&a), rc(&b));
    let k = "sum of incompatible shapes";
    refused(cx, k, &what, || Add::add(&x, &y))?;
    refused(cx, k, &what, || Add::add(x.clone(), y.clone()))?;
    let (o, _) = operand(r, &b);
    refused(cx, k, &what, || with!(&o, v => Add::add(&raw(&a), v)))?;
    unchanged(&o, &b)?;
    unchanged(&Opd::Rc(x), &a)
}
fn differences(cx: &mut Cx, r: &mut Rng) -> Res {
    let (s, t) = incompatible(r);
    let (a, b) = (gen_nd::<i64>(r, &s, 4), gen_nd::<i64>(r, &t, 4));
    let what = format!("{s:?} - {t:?}");
    let (x, y) = (rc(&a), rc(&b));
    let k = "difference of incompatible shapes";
    refused(cx, k, &what, || Sub::sub(&x, &y.clone()))?;
    refused(cx, k, &what, || Sub::sub(x.clone(), y.clone()))?;
    refused(cx, k, &what, || Sub::sub(&raw(&a), &raw(&b)))?;
    unchanged(&Opd::Rc(y), &b)?;
    unchanged(&Opd::Rc(x), &a)
}
/// Two different shapes, often broadcastable or of the same element count.
fn different(r: &mut Rng) -> (Vec<usize>, Vec<usize>) {
    loop {
        let a = shape(r, 4, 150);
        let b = match r.below(4) {
            0 => partner(r, &a, 150),
            1 => refactor(r, count(&a)),
            2 => {
                let mut b = a.clone();
                b.insert(r.range(0, a.len()), 1);
                b
            }
            _ => shape(r, 4, 150),
        };
        if a != b {
            return (a, b);
        }
    }
}
fn products<T: El>(cx: &mut Cx, r: &mut Rng) -> Res {
    let (s, t) = different(r);
    if s.is_empty() || t.is_empty() {
        return Ok(());
    }
    let (a, b) = (gen_nd::<T>(r, &s, 4), gen_nd::<T>(r, &t, 4));
    let what = format!("{} {s:?} * {t:?}", T::NAME);
    let k = "product of different shapes";
    let (x, y) = (rc(&a), operand(r, &b).0);
    refused(cx, k, &what, || with!(&y, v => Mul::mul(&x, v)))?;
    refused(cx, k, &what, || with!(&y, v => Mul::mul(x.clone(), v)))?;
    refused(cx, k, &what, || with!(&y, v => Mul::mul(&raw(&a), v)))?;
    let z = operand(r, &a).0;
    refused(cx, k, &what, || with!(&z, u => with!(&y, v => F::element_wise_multiplication(u, v))))?;
    unchanged(&y, &b)?;
    unchanged(&Opd::Rc(x), &a)
}
fn dots<T: El>(cx: &mut Cx, r: &mut Rng) -> Res {
    let (s, t) = different(r);
    let (a, b) = (gen_nd::<T>(r, &s, 400), gen_nd::<T>(r, &t, 400));
    let what = format!("{} dot of {s:?} and {t:?}", T::NAME);
    let k = "dot product of different shapes";
    let (x, y) = (rc(&a), rc(&b));
    refused(cx, k, &what, || F::dot(&x, &y))?;
    let (p, q) = (operand(r, &a).0, operand(r, &b).0);
    refused(cx, k, &what, || with!(&p, u => with!(&q, v => F::dot_no_derivative(u, v))))?;
    refused(cx, k, &what, || with!(&q, v => raw(&a).dot(v)))?;
    unchanged(&p, &a)?;
    unchanged(&q, &b)?;
    unchanged(&Opd::Rc(x), &a)
}
fn matrices<T: El>(cx: &mut Cx, r: &mut Rng) -> Res {
    let d = |r: &mut Rng| r.range(1, 6);
    let (kind, s, t) = match r.below(6) {
        0 => {
            let (m, k, n) = (d(r), d(r), d(r));
            let mut j = d(r);
            if j == k {
                j += 1;
            }
            let mut s = vec![m, k];
            if r.chance(1, 3) {
                s.insert(0, d(r));
            }
            ("matrix product with different inner extents", s, vec![j, n])
        }
        1 => {
            // outer extents match, inner ones do not
            let (m, k) = (d(r), d(r));
            let k = if k == m { k + 1 } else { k };
            ("matrix product with different inner extents", vec![m, k], vec![m, k])
        }
        2 => {
            let k = d(r);
            let rank = *r.pick(&[0, 1, 4, 5]);
            let mut s: Vec<usize> = (0..rank).map(|_| r.range(1, 3)).collect();
            if let Some(l) = s.last_mut() {
                *l = k;
            }
            ("matrix product with a wrong left rank", s, vec![k, d(r)])
        }
        3 => {
            let k = d(r);
            ("matrix product with a vector", vec![d(r), k], vec![k])
        }
        4 => {
            let k = d(r);
            ("matrix product with a batch on the right", vec![d(r), k], vec![d(r), k, d(r)])
        }
        _ => {
            let k = d(r);
            let right = if r.chance(1, 2) { vec![] } else { vec![1, 1, k, d(r)] };
            ("matrix product with a wrong right rank", vec![d(r), k], right)
        }
    };
    let (a, b) = (gen_nd::<T>(r, &s, 10), gen_nd::<T>(r, &t, 10));
    let what = format!("{} {s:?} times {t:?}", T::NAME);
    let (x, y) = (operand(r, &a).0, operand(r, &b).0);
    refused(cx, kind, &what, || with!(&x, u => with!(&y, v => dump("", &u.bmm(v)).map(|d| d.shape))))?;
    refused(cx, kind, &what, || with!(&x, u => with!(&y, v => u.bmm_rc(v))))?;
    unchanged(&x, &a)?;
    unchanged(&y, &b)
}
fn slices<T: El>(cx: &mut Cx, r: &mut Rng) -> Res {
    let s = shape(r, 4, 300);
    let n = gen_nd::<T>(r, &s, 400);
    let (a, b) = (r.range(1, 9), r.below(9));
    if b < a {
        refused(cx, "reversed range", &format!("{a}..{b}"), || SliceRange::new(a, b))?;
    }
    let mut g = full(&s);
    let kind;
    match r.below(3) {
        0 if !s.is_empty() => {
            let k = r.below(s.len());
            g[k] = (r.range(0, s[k]), s[k] + r.range(1, 3));
            kind = "range beyond the extent";
        }
        1 if !s.is_empty() => {
            g.remove(r.below(s.len()));
            kind = "too few ranges";
        }
        _ => {
            g.insert(r.range(0, s.len()), (0, 1));
            kind = "too many ranges";
        }
    }
    let what = format!("{} {s:?} ranges {g:?}", T::NAME);
    let x = rc(&n);
    refused(cx, kind, &what, || x.view(ranges(&g)))?;
    refused(cx, kind, &what, || x.slice(ranges(&g)))?;
    refused(cx, kind, &what, || raw(&n).slice(ranges(&g)))?;
    refused(cx, kind, &what, || TensorView::new(x.clone(), ranges(&g)))?;
    // on views the limits are those of the view, even where the tensor behind it is larger
    let v = make_view(r, &n);
    refused(cx, kind, &format!("view {what}"), || v.slice(ranges(&g)))?;
    let t = loop {
        let t = shape(r, 4, 300);
        if count(&t) != n.data.len() {
            break t;
        }
    };
    refused(cx, "reshape to another element count", &format!("{s:?} to {t:?}"), || v.reshape(t.clone()))?;
    is("view after a refusal", &v, &n)?;
    unchanged(&Opd::Rc(x), &n)
}
fn singles<T: El>(cx: &mut Cx, r: &mut Rng) -> Res {
    let mut s = shape(r, 4, 200);
    if s.is_empty() {
        s = vec![1];
    }
    if r.chance(1, 4) {
        s = vec![1; s.len()];
    }
    let n = gen_nd::<T>(r, &s, 400);
    let (x, k) = operand(r, &n);
    refused(cx, "single value of a tensor that is not rank 0", &format!("{} {k} {s:?}", T::NAME), || with!(&x, t => t.elem()))?;
    let t = rc(&n);
    refused(cx, "absent gradient", &format!("{} {s:?}", T::NAME), || t.grad())?;
    let u = ok("sum", || t.sum())?;
    refused(cx, "absent gradient", "sum", || u.grad())?;
    t.update_grad(rc(&n));
    t.zero_grad();
    refused(cx, "absent gradient", "after clearing", || t.grad())?;
    let none = RawTensor::<T>::default();
    let index = vec![r.below(2); r.below(3)];
    refused(cx, "element of a tensor without elements", &format!("{} default, {index:?}", T::NAME), || *none.get(&index).unwrap())?;
    refused(cx, "element of a tensor without elements", &format!("{} default", T::NAME), || none[&index])?;
    refused(cx, "element of a tensor without elements", &format!("{} default, elem", T::NAME), || none.elem())?;
    refused(cx, "element of a tensor without elements", "first of an empty view", || {
        let e: Vec<_> = s.iter().map(|_| (0, 0)).collect();
        *t.view(ranges(&e)).get_first_elem()
    })?;
    unchanged(&x, &n)?;
    unchanged(&Opd::Rc(t), &n)
}
fn backwards(cx: &mut Cx, r: &mut Rng) -> Res {
    let s = shape(r, 3, 60);
    let n = gen_nd::<f64>(r, &s, 4);
    let x = rc(&n);
    let two = Nd::full(&[2], 1.5);
    let (what, y): (&str, RcTensor<f64>) = match r.below(8) {
        0 => ("a fresh scalar", RcTensor::scalar(2.5)),
        1 => ("a fresh one-element tensor", RcTensor::new(vec![1.0], vec![1; r.range(1, 3)])),
        2 => ("a product", Mul::mul(&RcTensor::scalar(2.0), &RcTensor::scalar(3.0))),
        3 => ("a copy of a view", rc(&n).view(ranges(&s.iter().map(|_| (0, 1)).collect::<Vec<_>>())).to_tensor()),
        4 => ("the sum of a view", rc(&n).view(ranges(&full(&s))).sum()),
        5 => ("a deep copy", x.sum().deep_clone()),
        6 => ("a dot without derivative", F::dot_no_derivative(&x, &x)),
        _ => ("a tensor of two", rc(&two)),
    };
    refused(cx, "backward from a result computed from nothing", what, || y.backward())?;
    ensure!(grad_of(&y).is_none() && grad_of(&x).is_none(), "a refused backward left a gradient");
    let m = if n.data.len() > 1 { n.clone() } else { two };
    let t = rc(&m);
    let y = match r.below(4) {
        0 => Add::add(&t, &t.clone()),
        1 => F::tanh(t.clone()),
        2 => t.abs(),
        _ => std::ops::Neg::neg(&t),
    };
    let shape_text = format!("{:?}", m.shape);
    refused(cx, "backward from a result with several elements", &shape_text, || y.backward())?;
    ensure!(grad_of(&t).is_none() && grad_of(&y).is_none(), "a refused backward left a gradient");
    unchanged(&Opd::Rc(t), &m)
}
fn models(cx: &mut Cx, r: &mut Rng) -> Res {
    let (i, o) = (r.range(1, 5), r.range(1, 5));
    let (w, b) = (gen_nd::<f64>(r, &[i, o], 4), gen_nd::<f64>(r, &[1, o], 4));
    let mut l = Linear::new(rc(&w), rc(&b), None);
    let bad = gen_nd::<f64>(r, &[r.clone().range(1, 3), i + 1], 4);
    refused(cx, "input of a wrong width", &format!("{:?} into [{i}, {o}]", bad.shape), || l.forward(rc(&bad)))?;
    refused(cx, "input that is not a matrix", "vector", || l.forward(RcTensor::new(vec![1.0; i], vec![i])))?;
    refused(cx, "step without gradients", "no backward pass", || sgd_step(&mut l, RcTensor::scalar(0.5)))?;
    l.bias.update_grad(rc(&b));
    refused(cx, "step without gradients", "weights without gradient", || sgd_step(&mut l, RcTensor::scalar(0.5)))?;
    is("weights after refusals", &l.weights, &w)?;
    is("bias after refusals", &l.bias, &b)?;
    l.bias.zero_grad();
    unchanged(&Opd::Rc(l.weights.clone()), &w)?;
    unchanged(&Opd::Rc(l.bias.clone()), &b)
}
