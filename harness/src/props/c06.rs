//! Sum and dot.
use crate::cx::*;
use crate::el::*;
use crate::nd::*;
use crate::rng::Rng;
use crate::{any_type, ensure, with};
use rust_light::tensor::{functional as F, *};

pub fn run(cx: &mut Cx) -> Res {
    let mut r = cx.rng.clone();
    let s = match if crate::rng::small() { 9 } else { r.below(60) } {
        0 => vec![r.range(60_000, 140_000)],
        1 => vec![r.range(200, 400), r.range(200, 400)],
        2..=5 => vec![r.range(900, 9000)],
        _ => shape(&mut r, 6, 2000),
    };
    cx.nontrivial = count(&s) > 1;
    cx.max("elements", count(&s) as u64);
    match r.below(6) {
        5 => special(cx, &mut r, &s),
        0 => floats(cx, &mut r, &s),
        1 | 2 => any_type!(r, sums(cx, &mut r.clone(), &s)),
        _ => any_type!(r, dots(cx, &mut r.clone(), &s)),
    }
}
fn fits<T: El>(s: Vec<usize>) -> Vec<usize> {
    if (T::NAME == "u8" || T::NAME == "i8") && count(&s) > 100 {
        vec![7, 13]
    } else {
        s
    }
}
fn sums<T: El>(cx: &mut Cx, r: &mut Rng, s: &[usize]) -> Res {
    let s = fits::<T>(s.to_vec());
    let a = gen_nd::<T>(r, &s, count(&s));
    cx.digest(&a.data);
    let (x, k) = operand(r, &a);
    let what = format!("sum of {k} {} {}", T::NAME, short(&a));
    cx.describe(format!("sum {k} {} {s:?}", T::NAME));
    cx.hit(&format!("sums of {k}"));
    let t = a.fold(T::zero(), |p, q| p + q);
    with!(&x, x => is(&what, &ok(&what, || x.sum())?, &Nd::new(vec![], vec![t]))?);
    with!(&x, x => is("operand after sum", x, &a)?);
    cx.add("elements summed", a.data.len() as u64);
    Ok(())
}
fn dots<T: El>(cx: &mut Cx, r: &mut Rng, s: &[usize]) -> Res {
    let s = fits::<T>(s.to_vec());
    let n = count(&s);
    let (a, b) = (gen_nd::<T>(r, &s, n), gen_nd::<T>(r, &s, n));
    cx.digest(&a.data);
    if r.chance(1, 6) {
        let sq = a.fold(T::zero(), |p, q| p + q * q);
        let form = r.below(3);
        itself(cx, r, &a, &Nd::new(vec![1], vec![sq]), |x, y| {
            let d = match (x, y) {
                (Opd::Rc(x), Opd::Rc(y)) if form == 0 => dump("dot", &F::dot(x, y)),
                (Opd::Raw(x), y) if form == 1 => with!(y, y => dump("dot", &x.dot(y))),
                (x, y) => with!(x, x => with!(y, y => dump("dot", &F::dot_no_derivative(x, y)))),
            };
            Some(d.and_then(|d| {
                ensure!(d.data.len() == 1, "dot with itself has {} elements", d.data.len());
                Ok(d.reshape(&[1]))
            }))
        })?;
    }
    let t = a.zip(&b, |p, q| p * q).fold(T::zero(), |p, q| p + q);
    let (kind, d) = match r.below(5) {
        0 => {
            let (x, y) = (shared(r, &a), shared(r, &b));
            let d = ok("dot", || F::dot(&x, &y))?;
            is("operand after dot", &x, &a)?;
            ("dot of shared".to_string(), d)
        }
        1 => {
            let x = rc(&a);
            let sq = a.zip(&a, |p, q| p * q).fold(T::zero(), |p, q| p + q);
            let d = ok("dot with itself", || F::dot(&x, &x))?;
            ensure!(d.count() == 1 && *d.get_first_elem() == sq, "dot of {} with itself is {:?}, expected {sq:?}", short(&a), d.get_first_elem());
            ("dot of shared".to_string(), ok("dot", || F::dot(&x, &rc(&b)))?)
        }
        2 => {
            let (y, k) = operand(r, &b);
            (format!("plain dot {k}"), with!(&y, y => ok("plain dot", || raw(&a).dot(y))?))
        }
        _ => {
            let ((x, j), (y, k)) = (operand(r, &a), operand(r, &b));
            (format!("dot of {j} and {k}"), with!(&x, p => with!(&y, q => ok("dot", || F::dot_no_derivative(p, q))?)))
        }
    };
    cx.describe(format!("{kind} {} {s:?}", T::NAME));
    cx.hit(&kind);
    let g = dump(&kind, &d)?;
    ensure!(g.data.len() == 1, "{kind}: {} elements", g.data.len());
    ensure!(g.data[0] == t, "{kind} of {} {} and {}: {:?}, expected {t:?}", T::NAME, short(&a), short(&b), g.data[0]);
    cx.add("products summed", n as u64);
    Ok(())
}
/// The total of infinities and NaN does not depend on the order either.
fn special(cx: &mut Cx, r: &mut Rng, s: &[usize]) -> Res {
    let (mut a, b) = (special_nd(r, s), special_nd(r, s));
    if r.chance(1, 2) {
        // just one
        a = Nd::new(s.to_vec(), (0..count(s)).map(|_| r.irange(-4, 4) as f64).collect());
        let p = r.below(a.data.len());
        a.data[p] = *r.pick(&[f64::INFINITY, f64::NAN, f64::NEG_INFINITY]);
    }
    cx.digest(&a.data);
    cx.describe(format!("sums of special floats {s:?}"));
    let one = |x| Nd::new(vec![], vec![x]);
    let (x, k) = operand(r, &a);
    let what = format!("sum of {k} special floats {}", short(&a));
    let g = with!(&x, x => dump(&what, &ok(&what, || x.sum())?)?);
    same_floats(&what, &g, &one(a.fold(0.0, |p, q| p + q)))?;
    let (y, l) = operand(r, &b);
    let what = format!("dot of {k} {} and {l} {}", short(&a), short(&b));
    let g = with!(&x, x => with!(&y, y => *ok(&what, || F::dot_no_derivative(x, y))?.get_first_elem()));
    same_floats(&what, &one(g), &one(a.zip(&b, |p, q| p * q).fold(0.0, |p, q| p + q)))?;
    cx.hit("special float cases");
    Ok(())
}
/// Arbitrary floats: within the error bound of any order of summation.
fn floats(cx: &mut Cx, r: &mut Rng, s: &[usize]) -> Res {
    let n = count(s);
    let v = |r: &mut Rng| r.sym() * 10f64.powi(r.irange(-6, 6) as i32);
    let a = Nd::new(s.to_vec(), (0..n).map(|_| v(r)).collect());
    let b = Nd::new(s.to_vec(), (0..n).map(|_| v(r)).collect());
    cx.digest(&a.data);
    cx.describe(format!("float sums {s:?}"));
    let exact = |it: &mut dyn Iterator<Item = f64>| {
        let (mut t, mut c, mut m) = (0.0f64, 0.0f64, 0.0f64);
        for x in it {
            m += x.abs();
            let y = t + x;
            c += if t.abs() >= x.abs() { (t - y) + x } else { (x - y) + t };
            t = y;
        }
        (t + c, m * (n as f64 + 4.0) * f64::EPSILON + 1e-300)
    };
    let (t, tol) = exact(&mut a.data.iter().copied());
    let (x, k) = operand(r, &a);
    let g = with!(&x, x => *ok("sum", || x.sum())?.get_first_elem());
    ensure!((g - t).abs() <= tol, "sum of {k} {}: {g:e}, expected {t:e} within {tol:e}", short(&a));
    let (t, tol) = exact(&mut a.data.iter().zip(&b.data).map(|(p, q)| p * q));
    let g = *ok("dot", || F::dot(&rc(&a), &rc(&b)))?.get_first_elem();
    ensure!((g - t).abs() <= tol, "dot of {} and {}: {g:e}, expected {t:e} within {tol:e}", short(&a), short(&b));
    cx.hit("float sums");
    Ok(())
}
