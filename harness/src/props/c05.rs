//! Matrix multiplication.
use crate::cx::*;
use crate::el::*;
use crate::nd::*;
use crate::fp::Fp;
use crate::rng::{cap, Rng};
use crate::{any_type, ensure, with};
use rust_light::tensor::TensorLike;

pub fn run(cx: &mut Cx) -> Res {
    let mut r = cx.rng.clone();
    match r.below(9) {
        8 if r.chance(1, 3) => floats(cx, &mut r),
        8 => special(cx, &mut r),
        0..=2 => product::<Fp>(cx, &mut r),
        _ => any_type!(r, product(cx, &mut r.clone())),
    }
}
pub fn sizes(r: &mut Rng, work: usize) -> (usize, usize, usize, usize) {
    let dim = |r: &mut Rng| match r.below(12) {
        0..=1 => 1,
        2..=4 => r.range(2, 4),
        5..=6 => r.range(5, 9),
        7 => *r.pick(&[8, 16, 32, 64, 128]),
        8 => *r.pick(&[15, 17, 31, 33, 63, 65, 127, 129]),
        9 => r.range(10, 50),
        10 if r.chance(1, 4) => r.range(500, 6000),
        10 => r.range(30, 130),
        _ => r.range(100, 520),
    };
    let work = cap(work, 300);
    loop {
        let b = if r.chance(1, 3) { if r.chance(1, 12) { r.range(7, 70) } else { r.range(1, 6) } } else { 0 };
        let (m, k, n) = (dim(r), dim(r), dim(r));
        if b.max(1) * m * n * (k + 10) <= work {
            return (b, m, k, n);
        }
    }
}
fn large(r: &mut Rng) -> usize {
    if r.chance(1, 3) { *r.pick(&[64, 128, 256, 255, 257, 192]) } else { r.range(60, 260) }
}
/// Arbitrary floats: within the error bound of any order of summation.
fn floats(cx: &mut Cx, r: &mut Rng) -> Res {
    let (b, m, k, n) = sizes(r, 20_000);
    let ls = if b == 0 { vec![m, k] } else { vec![b, m, k] };
    let v = |r: &mut Rng| r.sym() * 10f64.powi(r.irange(-9, 9) as i32);
    let mut make = |s: &[usize]| Nd::new(s.to_vec(), (0..count(s)).map(|_| v(r)).collect());
    let (x, y) = (make(&ls), make(&[k, n]));
    let what = format!("floats {} times {}", short(&x), short(&y));
    cx.describe(what.clone());
    cx.digest(&x.data);
    cx.nontrivial = true;
    let want = x.matmul(&y, 0.0, |a, b| a * b, |a, b| a + b);
    let mag = x.map(f64::abs).matmul(&y.map(f64::abs), 0.0, |a, b| a * b, |a, b| a + b);
    let (p, q) = (operand(r, &x), operand(r, &y));
    let g = with!(&p.0, l => with!(&q.0, t => ok(&what, || l.bmm_rc(t))?));
    close(&what, &dump(&what, &g)?, &want, &mag.map(|m| m * (k as f64 + 4.0) * 2.0 * f64::EPSILON + 1e-300))?;
    cx.hit("float products");
    cx.add("result elements compared", want.data.len() as u64);
    Ok(())
}
fn special(cx: &mut Cx, r: &mut Rng) -> Res {
    let (b, m, k, n) = sizes(r, 6000);
    let ls = if b == 0 { vec![m, k] } else { vec![b, m, k] };
    let (x, y) = (special_nd(r, &ls), special_nd(r, &[k, n]));
    let want = x.matmul(&y, 0.0, |a, b| a * b, |a, b| a + b);
    let what = format!("special floats {} times {}", short(&x), short(&y));
    cx.describe(what.clone());
    cx.digest(&x.data);
    cx.nontrivial = true;
    let (p, q) = (operand(r, &x), operand(r, &y));
    let g = with!(&p.0, l => with!(&q.0, t => ok(&what, || l.bmm_rc(t))?));
    same_floats(&what, &dump(&what, &g)?, &want)?;
    cx.hit("special float cases");
    cx.add("result elements compared", want.data.len() as u64);
    Ok(())
}
fn product<T: El>(cx: &mut Cx, r: &mut Rng) -> Res {
    let work = if r.chance(1, 12) { 400_000 } else { 30_000 };
    let vast = !crate::rng::small() && r.chance(1, if cfg!(debug_assertions) { 8000 } else { 1200 });
    if vast {
        cx.hit("very large products");
    }
    let (b, m, k, n) = loop {
        let z = if vast { (0, large(r), large(r), large(r)) } else { sizes(r, work) };
        if (T::NAME != "u8" && T::NAME != "i8") || z.2 <= 60 {
            break z;
        }
    };
    let (b, m, k, n) = if r.chance(1, 12) { (0, m.min(k), m.min(k), m.min(k)) } else { (b, m, k, n) };
    let ls = if b == 0 { vec![m, k] } else { vec![b, m, k] };
    let x = gen_nd::<T>(r, &ls, k);
    let square = m == k && b == 0 && m == n && r.chance(1, 2);
    let y = if square { x.clone() } else { gen_nd::<T>(r, &[k, n], k) };
    let want = x.matmul(&y, T::zero(), |a, b| a * b, |a, b| a + b);
    cx.digest(&x.data);
    cx.max("m", m as u64);
    cx.max("k", k as u64);
    cx.max("n", n as u64);
    let (p, q) = (operand(r, &x), operand(r, &y));
    let what = format!("{} {} {ls:?} times {} [{k}, {n}]", T::NAME, p.1, q.1);
    cx.describe(what.clone());
    cx.hit(&format!("{} x {}", p.1, q.1));
    if b > 0 {
        cx.hit("batched");
    }
    cx.nontrivial = true;
    if square {
        let s = shared(r, &x);
        is(&format!("{} {ls:?} times itself", T::NAME), &ok(&what, || s.bmm(&s))?, &want)?;
        is("operand after the product", &s, &x)?;
        cx.hit("times itself");
    }
    let by_rc = r.chance(1, 2);
    let got = with!(&p.0, l => with!(&q.0, t => if by_rc { dump(&what, &ok(&what, || l.bmm_rc(t))?)? } else {
        let g = ok(&what, || l.bmm(t))?;
        dump(&what, &g)?
    }));
    same(&what, &got, &want)?;
    with!(&p.0, l => is("left operand after the product", l, &x)?);
    with!(&q.0, t => is("right operand after the product", t, &y)?);
    cx.add("result elements compared", want.data.len() as u64);
    ensure!(!want.data.is_empty(), "empty case");
    Ok(())
}
