//! Maps, products, scaling.
use crate::cx::*;
use crate::el::*;
use crate::nd::*;
use crate::rng::Rng;
use crate::{any_type, ensure, neg_type, with};
use rust_light::tensor::{functional as F, *};
use std::ops::{Mul, Neg};

pub fn run(cx: &mut Cx) -> Res {
    let mut r = cx.rng.clone();
    let limit = if r.chance(1, 30) { 20_000 } else { 500 };
    let mut s = shape(&mut r, 6, limit);
    if let Some(v) = vast(&mut r) {
        cx.hit("very large operands");
        s = v;
    }
    cx.nontrivial = count(&s) > 1;
    cx.max("elements", count(&s) as u64);
    match r.below(11) {
        10 => special(cx, &mut r, &s),
        0 | 1 => neg_type!(r, negation(cx, &mut r.clone(), &s)),
        2 | 3 => reals(cx, &mut r, &s),
        4 => any_type!(r, custom(cx, &mut r.clone(), &s)),
        5 | 6 => any_type!(r, product(cx, &mut r.clone(), &s)),
        _ => any_type!(r, scaling(cx, &mut r.clone(), &s)),
    }
}
fn negation<T: ElNeg>(cx: &mut Cx, r: &mut Rng, s: &[usize]) -> Res {
    let a = gen_nd::<T>(r, s, 2);
    let want = a.map(|x| -x);
    cx.describe(format!("neg {} {s:?}", T::NAME));
    cx.digest(&a.data);
    let x = shared(r, &a);
    is(&format!("-{}", short(&a)), &ok("neg", || (&x).neg())?, &want)?;
    is(&format!("-plain {}", short(&a)), &ok("neg", || (&raw(&a)).neg())?, &want)?;
    is("operand after negation", &x, &a)?;
    cx.hit("negations");
    cx.add("elements compared", 2 * want.data.len() as u64);
    Ok(())
}
fn reals(cx: &mut Cx, r: &mut Rng, s: &[usize]) -> Res {
    let v = |r: &mut Rng| match r.below(10) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::INFINITY * if r.chance(1, 2) { 1.0 } else { -1.0 },
        3 => r.sym() * 1e-310,
        4 => r.sym() * 1e-9,
        5 => r.sym() * 1e30,
        6 => r.sym() * 30.0,
        _ => r.sym() * 3.0,
    };
    let a = Nd::new(s.to_vec(), (0..count(s)).map(|_| v(r)).collect());
    cx.describe(format!("real maps {s:?}"));
    cx.digest(&a.data);
    let x = shared(r, &a);
    is(&format!("abs of {}", short(&a)), &ok("abs", || x.abs())?, &a.map(f64::abs))?;
    is(&format!("relu of {}", short(&a)), &ok("relu", || F::relu(x.clone()))?, &a.map(|v| if v > 0.0 { v } else { 0.0 }))?;
    let t = dump("tanh", &ok("tanh", || F::tanh(x.clone()))?)?;
    let want = a.map(f64::tanh);
    close(&format!("tanh of {}", short(&a)), &t, &want, &want.map(|v| v.abs() * 1e-13))?;
    is("operand after maps", &x, &a)?;
    cx.add("elements compared", 3 * want.data.len() as u64);
    // single precision and the exact field
    let b = a.map(|v| v as f32);
    let y = rc(&b);
    is("abs (f32)", &ok("abs", || y.abs())?, &b.map(f32::abs))?;
    is("relu (f32)", &ok("relu", || F::relu(y.clone()))?, &b.map(|v| if v > 0.0 { v } else { 0.0 }))?;
    let t = dump("tanh", &ok("tanh", || F::tanh(y.clone()))?)?.map(|v| v as f64);
    let want = b.map(|v| (v as f64).tanh());
    close(&format!("tanh (f32) of {}", short(&b)), &t, &want, &want.map(|v| v.abs() * 1e-6 + 1e-44))?;
    cx.hit("abs, relu and tanh");
    Ok(())
}
fn special(cx: &mut Cx, r: &mut Rng, s: &[usize]) -> Res {
    let (a, b) = (special_nd(r, s), special_nd(r, s));
    let c = *r.pick(&[0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NAN, 2.0]);
    cx.describe(format!("products of special floats {} {} {c}", short(&a), short(&b)));
    cx.digest(&a.data);
    let prod = a.zip(&b, |x, y| x * y);
    let ((x, _), (y, _)) = (operand(r, &a), operand(r, &b));
    let g = with!(&y, y => ok("product of special floats", || Mul::mul(&rc(&a), y))?);
    same_floats("product of special floats", &dump("product", &g)?, &prod)?;
    let g = with!(&x, x => with!(&y, y => ok("product of special floats", || F::element_wise_multiplication(x, y))?));
    same_floats("product function of special floats", &dump("product", &g)?, &prod)?;
    let want = a.map(|x| x * c);
    let g = ok("scaling special floats", || rc(&a) * RcTensor::scalar(c))?;
    same_floats("scaled special floats", &dump("scaled", &g)?, &want)?;
    let g = with!(&x, x => ok("scaling special floats", || Mul::mul(&RcTensor::scalar(c), x))?);
    same_floats("scaled special floats", &dump("scaled", &g)?, &want)?;
    let g = with!(&x, x => ok("scaling special floats", || x.left_scalar_multiplication(&c))?);
    same_floats("scaled special floats", &dump("scaled", &g)?, &want)?;
    let g = ok("negating special floats", || (&rc(&a)).neg())?;
    same_floats("negated special floats", &dump("negated", &g)?, &a.map(|x| -x))?;
    let g = ok("abs of special floats", || rc(&a).abs())?;
    same_floats("abs of special floats", &dump("abs", &g)?, &a.map(f64::abs))?;
    let g = with!(&x, x => ok("user function of special floats", || F::generic_unary_op(x, |v: f64| if v.is_nan() { 7.0 } else { 0.0 }))?);
    same_floats("user function of special floats", &dump("mapped", &g)?, &a.map(|v| if v.is_nan() { 7.0 } else { 0.0 }))?;
    cx.hit("special float cases");
    cx.add("elements compared", 8 * a.data.len() as u64);
    Ok(())
}
fn custom<T: El>(cx: &mut Cx, r: &mut Rng, s: &[usize]) -> Res {
    let a = gen_nd::<T>(r, s, 4);
    let fs: [fn(T) -> T; 3] = [|x| x + T::one(), |x| x * x, |_| T::zero()];
    let f = *r.pick(&fs);
    let (x, k) = operand(r, &a);
    cx.describe(format!("custom map {} {k} {s:?}", T::NAME));
    cx.digest(&a.data);
    let what = format!("user function over {k} {}", short(&a));
    let got = with!(&x, x => ok(&what, || F::generic_unary_op(x, f))?);
    cx.hit(&format!("user functions over {k}"));
    cx.add("elements compared", a.data.len() as u64);
    is(&what, &got, &a.map(f))
}
fn product<T: El>(cx: &mut Cx, r: &mut Rng, s: &[usize]) -> Res {
    let (a, b) = (gen_nd::<T>(r, s, 2), gen_nd::<T>(r, s, 2));
    let want = a.zip(&b, |x, y| x * y);
    cx.digest(&a.data);
    if r.chance(1, 6) {
        let by_function = r.chance(1, 3);
        itself(cx, r, &a, &a.map(|x| x * x), |x, y| match (x, y) {
            (x, y) if by_function => with!(x, x => with!(y, y => Some(dump("product", &F::element_wise_multiplication(x, y))))),
            (Opd::Raw(x), y) => with!(y, y => Some(dump("product", &Mul::mul(x, y)))),
            (Opd::Rc(x), y) => with!(y, y => Some(dump("product", &Mul::mul(x, y)))),
            _ => None,
        })?;
    }
    let (x, y) = (shared(r, &a), shared(r, &b));
    let (kind, got) = match r.below(7) {
        0 => ("&shared * &shared".to_string(), dump("product", &ok("mul", || &x * &y)?)?),
        1 => ("shared * shared".into(), dump("product", &ok("mul", || x * y)?)?),
        2 => ("shared * &shared".into(), dump("product", &ok("mul", || x * &y)?)?),
        3 => {
            let y = operand(r, &b);
            let g = with!(&y.0, y => ok("mul", || Mul::mul(&x, y))?);
            is("operand after a product", &x, &a)?;
            (format!("&shared * &{}", y.1), dump("product", &g)?)
        }
        4 | 5 => {
            let y = operand(r, &b);
            let x = raw(&a);
            let g = with!(&y.0, y => ok("mul", || Mul::mul(&x, y))?);
            (format!("&plain * &{}", y.1), dump("product", &g)?)
        }
        _ => {
            let (x, y) = (operand(r, &a), operand(r, &b));
            let g = with!(&x.0, l => with!(&y.0, q => ok("element_wise_multiplication", || F::element_wise_multiplication(l, q))?));
            (format!("function over {} and {}", x.1, y.1), dump("product", &g)?)
        }
    };
    cx.describe(format!("{kind} {} {s:?}", T::NAME));
    cx.hit(&kind);
    cx.add("elements compared", want.data.len() as u64);
    same(&format!("{kind} of {} and {}", short(&a), short(&b)), &got, &want)
}
fn scaling<T: El>(cx: &mut Cx, r: &mut Rng, s: &[usize]) -> Res {
    let a = gen_nd::<T>(r, s, 2);
    let c = T::gen(r, 2);
    let want = a.map(|x| c * x);
    cx.digest(&a.data);
    let one = Nd::new(vec![], vec![c]);
    let (kind, got) = match r.below(7) {
        0 => {
            let y = operand(r, &a);
            let g = with!(&y.0, y => ok("scalar * x", || Mul::mul(&RawTensor::scalar(c), y))?);
            (format!("plain scalar * {}", y.1), dump("scaled", &g)?)
        }
        1 => {
            let y = operand(r, &a);
            let g = with!(&y.0, y => ok("scalar * x", || Mul::mul(&RcTensor::scalar(c), y))?);
            (format!("shared scalar * {}", y.1), dump("scaled", &g)?)
        }
        2 => {
            let y = operand(r, &one);
            let g = with!(&y.0, y => ok("x * scalar", || Mul::mul(&raw(&a), y))?);
            (format!("plain * {} scalar", y.1), dump("scaled", &g)?)
        }
        3 => {
            let y = operand(r, &one);
            let g = with!(&y.0, y => ok("x * scalar", || Mul::mul(rc(&a), y))?);
            (format!("shared * {} scalar", y.1), dump("scaled", &g)?)
        }
        4 => ("shared * shared scalar".into(), dump("scaled", &ok("x * scalar", || rc(&a) * RcTensor::scalar(c))?)?),
        5 => {
            let y = operand(r, &a);
            let g = with!(&y.0, y => ok("left scalar multiplication", || y.left_scalar_multiplication(&c))?);
            (format!("left scalar multiplication of {}", y.1), dump("scaled", &g)?)
        }
        _ => {
            let y = operand(r, &a);
            let g = with!(&y.0, y => ok("right scalar multiplication", || y.right_scalar_multiplication(&c))?);
            (format!("right scalar multiplication of {}", y.1), dump("scaled", &g)?)
        }
    };
    cx.describe(format!("{kind} {} {s:?} {c:?}", T::NAME));
    cx.hit(&kind);
    cx.add("elements compared", want.data.len() as u64);
    ensure!(want.data.len() == got.data.len(), "{kind}: {} elements instead of {}", got.data.len(), want.data.len());
    same(&format!("{kind} of {} by {c:?}", short(&a)), &got, &want)
}
