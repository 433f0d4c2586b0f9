//! Equality.
use crate::cx::*;
use crate::el::*;
use crate::nd::*;
use crate::rng::Rng;
use crate::{any_type, ensure, with};
use rust_light::tensor::{functional as F, *};
use std::ops::Add;

pub fn run(cx: &mut Cx) -> Res {
    let mut r = cx.rng.clone();
    match r.below(8) {
        0 => specials(cx, &mut r),
        1 => one_storage::<f64>(cx, &mut r),
        2 => any_type!(r, one_storage(cx, &mut r.clone())),
        _ => any_type!(r, pairs(cx, &mut r.clone())),
    }
}
/// A tensor that holds n, reached in one of several ways, possibly with a gradient.
fn reach<T: El>(r: &mut Rng, n: &Nd<T>) -> (Opd<T>, String) {
    let zero = Nd::full(&n.shape, T::zero());
    let (mut t, mut how) = match r.below(7) {
        0 => (Opd::Raw(raw(n)), "plain"),
        1 => (Opd::Rc(rc(n)), "shared"),
        2 => (Opd::Rc(Add::add(&rc(n), &rc(&zero))), "computed sum"),
        3 => (Opd::Raw(F::generic_unary_op(&rc(n), |x| x)), "mapped"),
        4 => (Opd::Rc(rc(n).deep_clone()), "deep copy"),
        5 => (Opd::Rc(make_view(r, n).to_tensor()), "copy of a view"),
        _ => (Opd::View(make_view(r, n)), "view"),
    };
    if let Opd::Rc(x) = &t {
        if r.chance(1, 3) {
            x.update_grad(rc(n));
            how = "shared with gradient";
        }
        if r.chance(1, 5) {
            t = Opd::Raw((**x).clone());
            how = "plain copy";
        }
    }
    (t, how.to_string())
}
fn equal<T: El>(a: &Opd<T>, b: &Opd<T>) -> Res<bool> {
    ok("comparison", || match (a, b) {
        (Opd::Raw(a), Opd::Raw(b)) => {
            let e = a == b;
            (e, a != b)
        }
        (Opd::Rc(a), Opd::Rc(b)) => (a == b, a != b),
        (Opd::View(a), b) => with!(b, x => (a == x, a != x)),
        (a, Opd::View(b)) => with!(a, x => (b == x, b != x)),
        (Opd::Raw(a), Opd::Rc(b)) => (*a == **b, *a != **b),
        (Opd::Rc(a), Opd::Raw(b)) => (**a == *b, **a != *b),
    })
    .and_then(|(e, n)| if e == n { Err(format!("== gives {e} and != gives {n}")) } else { Ok(e) })
}
fn pairs<T: El>(cx: &mut Cx, r: &mut Rng) -> Res {
    let big = r.chance(1, 30);
    let mut s = shape(r, 5, if big { 4000 } else { 200 });
    if let Some(v) = vast(r) {
        cx.hit("very large operands");
        s = v;
    }
    let n = gen_nd::<T>(r, &s, 4);
    cx.digest(&n.data);
    let (mut a, ha) = reach(r, &n);
    let (m, kind) = match r.below(5) {
        0 | 1 => (n.clone(), "same"),
        2 => {
            let mut m = n.clone();
            let p = somewhere(r, m.data.len());
            m.data[p] = if m.data[p] == T::zero() { T::one() } else { T::zero() };
            (m, "one element differs")
        }
        3 => (n.reshape(&refactor(r, n.data.len())), "other shape"),
        _ => {
            let mut m = n.clone();
            let last = m.data.len() - 1;
            let (p, q) = (somewhere(r, last + 1), last - r.below(last.min(2) + 1));
            m.data.swap(p, q);
            (m, "swapped elements")
        }
    };
    let (b, hb) = reach(r, &m);
    let want = n == m;
    cx.describe(format!("{} {s:?} {ha} against {hb}, {kind}", T::NAME));
    cx.hit(&format!("{kind}: {}", if want { "equal" } else { "different" }));
    let what = format!("{} {ha} {} against {hb} {}", T::NAME, short(&n), short(&m));
    for _ in 0..2 {
        let got = equal(&a, &b)?;
        ensure!(got == want, "{what}: equality is {got}");
        let got = equal(&b, &a)?;
        ensure!(got == want, "{what}: equality the other way round is {got}");
        cx.add("comparisons", 2);
        // gradients come and go without effect
        with!(&a, x => match_grad(x, &n));
        if let Opd::Rc(x) = &a {
            a = Opd::Rc(x.clone());
        }
    }
    ensure!(equal(&a, &a)?, "{what}: the first differs from itself");
    // after use in computations
    if let (Opd::Rc(x), true) = (&a, count(&s) > 0) {
        let t = ok("dot", || F::dot(x, &rc(&Nd::full(&s, T::zero()))))?;
        ok("backward", || t.backward())?;
        ensure!(equal(&a, &b)? == want, "{what}: equality changed after a backward pass");
        let c = Opd::Rc(x.clone());
        ensure!(equal(&a, &c)?, "{what}: handles differ");
    }
    // empty regions
    if !s.is_empty() && r.chance(1, 4) {
        let mut g = full(&s);
        let k = r.below(s.len());
        g[k] = (0, 0);
        let v = rc(&n).view(ranges(&g));
        let u = rc(&m.reshape(&s)).view(ranges(&g));
        ensure!(ok("comparison", || v == u)?, "empty views of shape {:?} differ", v.shape());
        let mut g2 = full(&s);
        let k2 = r.below(s.len());
        g2[k2] = (0, 0);
        let w = rc(&n).view(ranges(&g2));
        let same_shape = v.shape() == w.shape();
        ensure!(ok("comparison", || v == w)? == same_shape, "empty views {:?} and {:?}: wrong equality", v.shape(), w.shape());
        ensure!(!ok("comparison", || v == rc(&n))?, "an empty view equals a non-empty tensor");
        cx.hit("empty views");
    }
    Ok(())
}
/// A position, often near either end.
fn somewhere(r: &mut Rng, n: usize) -> usize {
    match r.below(3) {
        0 => r.below(n),
        1 => r.below(n.min(8)),
        _ => n - 1 - r.below(n.min(8)),
    }
}
fn match_grad<T: El, L: TensorLike<Elem = T, GradType = RcTensor<T>>>(x: &L, n: &Nd<T>) {
    let any = attempt(|| x.update_grad(rc(&Nd::full(&n.shape, T::zero()))));
    let _ = any;
}
fn specials(cx: &mut Cx, r: &mut Rng) -> Res {
    let s = shape(r, 3, 40);
    let k = count(&s);
    let v: Vec<f64> = (0..k).map(|_| *r.pick(&[0.0, -0.0, 1.0, f64::INFINITY, f64::NEG_INFINITY, 1e-320, f64::MAX])).collect();
    let n = Nd::new(s.clone(), v);
    let mut m = n.map(|x| if x == 0.0 { -x } else { x });
    let p = somewhere(r, k);
    let kind = r.below(4);
    match kind {
        0 => m.data[p] = f64::NAN,
        1 => m.data[p] = f64::from_bits(m.data[p].to_bits() ^ 1),
        _ => {}
    }
    let want = n == m;
    cx.describe(format!("special floats {} against {}", short(&n), short(&m)));
    cx.digest(&n.data);
    for _ in 0..3 {
        let ((a, ha), (b, hb)) = (operand(r, &n), operand(r, &m));
        let got = equal(&a, &b)?;
        ensure!(got == want, "{ha} {} against {hb} {}: equality is {got}", short(&n), short(&m));
        cx.add("comparisons", 1);
    }
    cx.hit(if want { "special floats: equal" } else { "special floats: different" });
    Ok(())
}
/// Operands that share storage: two views of one tensor, a view and its tensor, two handles, a view of a view.
fn one_storage<T: El>(cx: &mut Cx, r: &mut Rng) -> Res {
    let s = shape(r, 4, 300);
    // few different values, so that different regions are often equal
    let v = [T::zero(), T::one(), T::gen(r, 4)];
    let kinds = r.range(1, 3);
    let mut base = Nd::new(s.clone(), (0..count(&s)).map(|_| v[r.below(kinds)]).collect());
    if r.chance(1, 3) {
        base = gen_nd::<T>(r, &s, 4);
    }
    let nan = T::nan();
    if let (Some(x), true) = (nan, r.chance(1, 6)) {
        let p = r.below(base.data.len());
        base.data[p] = x;
    }
    cx.digest(&base.data);
    let t = rc(&base);
    if r.chance(1, 4) {
        t.update_grad(rc(&base));
    }
    let extents: Vec<usize> = s.iter().map(|&d| if r.chance(1, 3) { d } else { r.range(1, d) }).collect();
    let window = |r: &mut Rng| -> Vec<(usize, usize)> {
        s.iter().zip(&extents).map(|(&d, &e)| { let a = r.below(d - e + 1); (a, a + e) }).collect()
    };
    let (g, h) = (window(r), window(r));
    let (mut n, mut m) = (base.slice(&g), base.slice(&h));
    let (mut a, mut b) = (Opd::View(t.view(ranges(&g))), Opd::View(t.view(ranges(&h))));
    let kind = r.below(6);
    let name = match kind {
        0 | 1 => "two windows",
        2 => {
            let q = refactor(r, n.data.len());
            if let Opd::View(x) = &a {
                a = Opd::View(ok("reshape", || x.reshape(q.clone()))?);
            }
            n = n.reshape(&q);
            if let (Opd::View(x), true) = (&b, r.chance(1, 2)) {
                b = Opd::View(ok("reshape", || x.reshape(q.clone()))?);
                m = m.reshape(&q);
            }
            "reshaped windows"
        }
        3 => {
            b = if r.chance(1, 2) { Opd::Rc(t.clone()) } else { Opd::Raw((*t).clone()) };
            m = base.clone();
            "a window and its tensor"
        }
        4 => {
            let q = refactor(r, base.data.len());
            a = Opd::View(ok("reshape", || t.view(ranges(&full(&s))).reshape(q.clone()))?);
            n = base.reshape(&q);
            b = Opd::Rc(t.clone());
            m = base.clone();
            "a whole view and its tensor"
        }
        _ => {
            a = Opd::Rc(t.clone());
            n = base.clone();
            b = if r.chance(1, 2) { Opd::Rc(t.clone()) } else { Opd::View(t.slice(ranges(&full(&s)))) };
            m = base.clone();
            "two handles"
        }
    };
    let want = n == m;
    cx.describe(format!("{} one storage {s:?} {g:?} {h:?}, {name}", T::NAME));
    cx.hit(&format!("{name}: {}", if want { "equal" } else { "different" }));
    let what = format!("{} {name} of {} ({} and {})", T::NAME, short(&base), short(&n), short(&m));
    ensure!(equal(&a, &b)? == want, "{what}: equality is {}", !want);
    ensure!(equal(&b, &a)? == want, "{what}: equality the other way round is {}", !want);
    cx.add("comparisons", 2);
    cx.hit("operands with one storage");
    Ok(())
}
