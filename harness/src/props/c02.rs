//! Broadcast addition and subtraction.
use crate::cx::*;
use crate::el::*;
use crate::nd::*;
use crate::rng::Rng;
use crate::{any_type, ensure, neg_type, with};
use rust_light::tensor::*;
use std::ops::{Add, Neg, Sub};

pub fn run(cx: &mut Cx) -> Res {
    let mut r = cx.rng.clone();
    let limit = if r.chance(1, 30) { 20_000 } else { 600 };
    let ls = shape(&mut r, 6, limit);
    let rs = partner(&mut r, &ls, limit);
    let (ls, rs) = match vast(&mut r) {
        Some(s) => {
            cx.hit("very large operands");
            let mut p = s.clone();
            if r.chance(1, 2) {
                let k = r.below(p.len());
                p[k] = 1;
            }
            if r.chance(1, 3) {
                p.remove(0);
            }
            (s, p)
        }
        None => (ls, rs),
    };
    let (ls, rs) = if r.chance(1, 2) { (ls, rs) } else { (rs, ls) };
    let out = broadcast_shape(&ls, &rs).unwrap();
    cx.nontrivial = count(&out) > 1;
    cx.max("result elements", count(&out) as u64);
    cx.max("result rank", out.len() as u64);
    if ls != rs {
        cx.hit("broadcasting pairs");
    }
    if ls.len() != rs.len() {
        cx.hit("pairs of different rank");
    }
    if r.chance(1, 8) {
        compatible(cx, &mut r, &ls, &rs)?;
    }
    match r.below(8) {
        0..=2 => any_type!(r, adds(cx, &mut r.clone(), &ls, &rs)),
        3..=6 => neg_type!(r, subs(cx, &mut r.clone(), &ls, &rs)),
        _ => special(cx, &mut r, &ls, &rs),
    }
}
/// The library's own test of compatibility.
fn compatible(cx: &mut Cx, r: &mut Rng, ls: &[usize], rs: &[usize]) -> Res {
    let mut rs = rs.to_vec();
    if r.chance(2, 3) && !rs.is_empty() {
        let k = r.below(rs.len());
        rs[k] = match r.below(3) {
            0 => 1,
            1 => rs[k] + 1,
            _ => r.range(1, 4),
        };
    }
    if count(&rs) > 100_000 {
        return Ok(());
    }
    let a = Nd::new(ls.to_vec(), (0..count(ls)).map(u8::label).collect());
    let want = broadcast_shape(ls, &rs).is_some();
    let (x, k) = operand(r, &a);
    let what = format!("broadcastable({rs:?}) of {k} of shape {ls:?}");
    let got = with!(&x, x => ok(&what, || x.broadcastable(&rs))?);
    ensure!(got == want, "{what} is {got}");
    let b = Nd::new(rs.clone(), (0..count(&rs)).map(u8::label).collect());
    let (y, k2) = operand(r, &b);
    let what = format!("same_shape of {k} of shape {ls:?} and {k2} of shape {rs:?}");
    let got = with!(&x, x => with!(&y, y => ok(&what, || x.same_shape(&y))?));
    ensure!(got == (ls == rs), "{what} is {got}");
    cx.hit(if want { "compatible shapes recognised" } else { "incompatible shapes recognised" });
    Ok(())
}
fn special(cx: &mut Cx, r: &mut Rng, ls: &[usize], rs: &[usize]) -> Res {
    let v = |r: &mut Rng| match r.below(9) {
        0 => f64::INFINITY,
        1 => f64::NEG_INFINITY,
        2 => f64::NAN,
        3 => -0.0,
        4 => 0.0,
        5 => f64::MAX,
        6 => f64::MIN_POSITIVE / 2.0,
        7 => r.sym() * 1e-300,
        _ => r.sym() * 10f64.powi(r.irange(-20, 20) as i32),
    };
    let a = Nd::new(ls.to_vec(), (0..count(ls)).map(|_| v(r)).collect());
    let b = Nd::new(rs.to_vec(), (0..count(rs)).map(|_| v(r)).collect());
    cx.describe(format!("floats {} with {}", short(&a), short(&b)));
    if r.chance(1, 4) {
        let x = shared(r, &a);
        let z = x.clone();
        same_floats("special floats plus themselves", &dump("sum", &ok("add", || &x + &z)?)?, &a.map(|v| v + v))?;
        same_floats("special floats minus themselves", &dump("difference", &ok("sub", || &x - &z)?)?, &a.map(|v| v - v))?;
        cx.hit("special floats with themselves");
    }
    let (x, y) = (shared(r, &a), shared(r, &b));
    for (what, got, want) in [
        ("sum of special floats", ok("add", || &x + &y)?, a.zip(&b, |l, r| l + r)),
        ("difference of special floats", ok("sub", || &x - &y)?, a.zip(&b, |l, r| l - r)),
    ] {
        same_floats(what, &dump(what, &got)?, &want)?;
        cx.add("elements compared", want.data.len() as u64);
    }
    cx.hit("special float cases");
    Ok(())
}
fn adds<T: El>(cx: &mut Cx, r: &mut Rng, ls: &[usize], rs: &[usize]) -> Res {
    let (a, b) = (gen_nd::<T>(r, ls, 4), gen_nd::<T>(r, rs, 4));
    let want = a.zip(&b, |x, y| x + y);
    cx.digest(&a.data);
    if r.chance(1, 8) {
        itself(cx, r, &a, &a.zip(&a, |x, y| x + y), |x, y| match (x, y) {
            (Opd::Raw(x), y) => with!(y, y => Some(dump("sum", &Add::add(x, y)))),
            (Opd::Rc(x), Opd::Rc(y)) if x.count() % 2 == 0 => Some(dump("sum", &(x + y))),
            (Opd::Rc(x), Opd::Rc(y)) => Some(dump("sum", &(x.clone() + y.clone()))),
            _ => None,
        })?;
    }
    let (kind, got) = match r.below(4) {
        0 => {
            let (x, y) = (shared(r, &a), shared(r, &b));
            let g = ok("shared add", || &x + &y)?;
            is("left operand after an addition", &x, &a)?;
            is("right operand after an addition", &y, &b)?;
            ("&shared + &shared".to_string(), dump("sum", &g)?)
        }
        1 => ("shared + shared".into(), dump("sum", &ok("shared add", || shared(&mut r.clone(), &a) + shared(&mut r.clone(), &b))?)?),
        _ => {
            let x = raw(&a);
            let (y, k) = operand(r, &b);
            let what = format!("plain {} + {k} {}", short(&a), short(&b));
            let g = with!(&y, y => ok(&what, || Add::add(&x, y))?);
            (format!("&plain + &{k}"), dump("sum", &g)?)
        }
    };
    cx.describe(format!("{kind} {} {ls:?}+{rs:?}", T::NAME));
    cx.hit(&kind);
    cx.add("elements compared", want.data.len() as u64);
    same(&format!("{kind} of {} and {}", short(&a), short(&b)), &got, &want)
}
fn subs<T: ElNeg>(cx: &mut Cx, r: &mut Rng, ls: &[usize], rs: &[usize]) -> Res {
    let (a, b) = (gen_nd::<T>(r, ls, 4), gen_nd::<T>(r, rs, 4));
    let want = a.zip(&b, |x, y| x - y);
    cx.digest(&a.data);
    if r.chance(1, 8) {
        let form = r.below(3);
        itself(cx, r, &a, &a.zip(&a, |x, y| x - y), |x, y| match (x, y) {
            (Opd::Raw(x), Opd::Raw(y)) => Some(dump("difference", &Sub::sub(x, y))),
            (Opd::Raw(x), Opd::Rc(y)) => Some(dump("difference", &Sub::sub(x, y))),
            (Opd::Rc(x), Opd::Rc(y)) if form == 0 => Some(dump("difference", &(x - y))),
            (Opd::Rc(x), Opd::Rc(y)) if form == 1 => Some(dump("difference", &(x.clone() - y.clone()))),
            (Opd::Rc(x), Opd::Rc(y)) => Some(dump("difference", &(x.clone() - y))),
            _ => None,
        })?;
    }
    let (x, y) = (shared(r, &a), shared(r, &b));
    let (kind, got) = match r.below(6) {
        0 => ("&shared - &shared", dump("difference", &ok("sub", || &x - &y)?)?),
        1 => ("shared - shared", dump("difference", &ok("sub", || x - y)?)?),
        2 => ("shared - &shared", dump("difference", &ok("sub", || x - &y)?)?),
        3 => ("&plain - &plain", dump("difference", &ok("sub", || Sub::sub(&raw(&a), &raw(&b)))?)?),
        4 => ("&plain - &shared", dump("difference", &ok("sub", || Sub::sub(&raw(&a), &rc(&b)))?)?),
        _ => {
            let d = ok("sub", || &x + &(&y).neg())?;
            is("left operand after a subtraction", &x, &a)?;
            is("right operand after a subtraction", &y, &b)?;
            ("&shared + -&shared", dump("difference", &d)?)
        }
    };
    cx.describe(format!("{kind} {} {ls:?} {rs:?}", T::NAME));
    cx.hit(kind);
    cx.add("elements compared", want.data.len() as u64);
    same(&format!("{kind} of {} and {}", short(&a), short(&b)), &got, &want)?;
    Ok(())
}
