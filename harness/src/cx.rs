//! Case context, guarded library calls, comparison oracles, operand construction.
use crate::el::*;
use crate::nd::*;
use crate::rng::{cap, mix, small, Rng};
use rust_light::tensor::*;
use std::collections::BTreeMap;
use std::ops::Deref;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

pub type Res<R = ()> = Result<R, String>;
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub struct Cx {
    pub rng: Rng,
    pub thorough: bool,
    pub stats: BTreeMap<String, u64>,
    pub sig: u64,
    pub nontrivial: bool,
    pub desc: String,
    pub case: u64,
}
impl Cx {
    pub fn hit(&mut self, what: &str) {
        *self.stats.entry(what.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, what: &str, n: u64) {
        *self.stats.entry(what.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, what: &str, n: u64) {
        let e = self.stats.entry(format!("max {what}")).or_insert(0);
        *e = (*e).max(n);
    }
    /// Describe the case; the description is also its identity for counting distinct cases.
    pub fn describe(&mut self, s: String) {
        for b in s.bytes() {
            self.sig = mix(self.sig ^ b as u64);
        }
        if self.desc.len() < 1500 {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.push_str(&s);
        }
    }
    pub fn digest<T: std::fmt::Debug>(&mut self, d: &[T]) {
        for x in d.iter().take(64) {
            for b in format!("{x:?}").bytes() {
                self.sig = mix(self.sig ^ b as u64);
            }
        }
        if d.len() > 1 {
            self.nontrivial = true;
        }
    }
}

pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{m} ({at})");
        if let Ok(mut l) = LAST_PANIC.try_lock() {
            *l = text.clone();
        }
        if std::env::var_os("HARNESS_PANICS").is_some() {
            eprintln!("panic: {text}");
        }
    }));
}
fn last_panic() -> String {
    LAST_PANIC.lock().map(|s| s.chars().take(300).collect()).unwrap_or_default()
}
/// A library call that must succeed.
pub fn ok<R>(what: &str, f: impl FnOnce() -> R) -> Res<R> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("{what}: panicked: {}", last_panic()))
}
/// A library call that may panic.
pub fn attempt<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
/// The gradient, or None if absent.
pub fn grad_of<T: Numeric>(t: &RcTensor<T>) -> Option<RcTensor<T>> {
    attempt(|| t.grad())
}

pub fn dump<L: TensorLike>(what: &str, t: &L) -> Res<Nd<L::Elem>> {
    let shape = ok(what, || t.shape().deref().clone())?;
    let n = ok(what, || t.count())?;
    ensure!(n == count(&shape), "{what}: count() is {n} but the shape is {shape:?}");
    let mut data = Vec::with_capacity(n);
    for i in indices(&shape) {
        match ok(what, || t.get(&i).map(|v| *v))? {
            Ok(v) => data.push(v),
            Err(e) => return Err(format!("{what}: get({i:?}) of shape {shape:?} failed: {e}")),
        }
    }
    Ok(Nd { shape, data })
}
pub fn same<T: Copy + PartialEq + std::fmt::Debug>(what: &str, got: &Nd<T>, want: &Nd<T>) -> Res {
    ensure!(got.shape == want.shape, "{what}: shape {:?}, expected {:?}", got.shape, want.shape);
    for p in 0..want.data.len() {
        ensure!(
            got.data[p] == want.data[p],
            "{what}: element {:?} of shape {:?} is {:?}, expected {:?}",
            unpos(&want.shape, p), want.shape, got.data[p], want.data[p]
        );
    }
    Ok(())
}
pub fn is<L: TensorLike>(what: &str, t: &L, want: &Nd<L::Elem>) -> Res {
    same(what, &dump(what, t)?, want)
}
/// |got - want| <= tol element by element
pub fn close(what: &str, got: &Nd<f64>, want: &Nd<f64>, tol: &Nd<f64>) -> Res {
    ensure!(got.shape == want.shape, "{what}: shape {:?}, expected {:?}", got.shape, want.shape);
    for p in 0..want.data.len() {
        let (g, w, t) = (got.data[p], want.data[p], tol.data[p]);
        ensure!(
            (g - w).abs() <= t || (g.is_nan() && w.is_nan()) || g == w,
            "{what}: element {:?} of shape {:?} is {g:?}, expected {w:?} within {t:e}",
            unpos(&want.shape, p), want.shape
        );
    }
    Ok(())
}

/// equal, or both NaN
pub fn feq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
pub fn same_floats(what: &str, g: &Nd<f64>, want: &Nd<f64>) -> Res {
    ensure!(g.shape == want.shape, "{what}: shape {:?}, expected {:?}", g.shape, want.shape);
    for p in 0..want.data.len() {
        ensure!(feq(g.data[p], want.data[p]), "{what}: element {:?} of {:?} is {:?}, expected {:?}", unpos(&want.shape, p), want.shape, g.data[p], want.data[p]);
    }
    Ok(())
}
/// Infinities, NaN and zeros among small whole numbers: sums and products are exact in any order.
pub fn special_nd(r: &mut Rng, s: &[usize]) -> Nd<f64> {
    let odds = *r.pick(&[3, 6, 20]);
    let only = r.below(4);
    let data = (0..count(s))
        .map(|_| {
            if !r.chance(1, odds) {
                return r.irange(-4, 4) as f64;
            }
            match if only == 0 { 4 } else { r.below(7) } {
                0 => f64::NAN,
                1 | 2 => f64::INFINITY,
                3 => f64::NEG_INFINITY,
                4 => 0.0,
                5 => -0.0,
                _ => 1.0,
            }
        })
        .collect();
    Nd::new(s.to_vec(), data)
}

// ---------------------------------------------------------------- generators
/// Random shape of the given maximal rank and element count; extents of one are frequent.
pub fn shape(r: &mut Rng, max_rank: usize, max_count: usize) -> Vec<usize> {
    let max_count = cap(max_count, 40);
    // now and then more dimensions than usual
    let tall = max_rank >= 4 && r.chance(1, 60);
    loop {
        if tall {
            let rank = r.range(7, 14);
            let s: Vec<usize> = (0..rank).map(|_| *r.pick(&[1, 1, 1, 2, 2, 3])).collect();
            if count(&s) <= max_count {
                return s;
            }
            continue;
        }
        let rank = r.range(0, max_rank);
        let s: Vec<usize> = (0..rank).map(|_| extent(r)).collect();
        if s.iter().try_fold(1usize, |a, &b| a.checked_mul(b)).map_or(false, |c| c <= max_count) {
            return s;
        }
    }
}
pub fn extent(r: &mut Rng) -> usize {
    if small() {
        return if r.chance(1, 25) { *r.pick(&[31, 32, 33]) } else { r.range(1, 3) };
    }
    match r.below(20) {
        0..=4 => 1,
        5..=8 => 2,
        9..=11 => 3,
        12 => 4,
        13 => 5,
        14 => 7,
        15 => r.range(6, 12),
        16 => *r.pick(&[8, 16, 32, 64]),
        17 => *r.pick(&[9, 15, 17, 31, 33, 63, 65, 127, 128, 129, 255, 256, 257]),
        18 => r.range(10, 40),
        _ => r.range(40, 300),
    }
}
/// Once in a long while, a shape with very many elements: beyond any size at which an
/// implementation might change its method.
pub fn vast(r: &mut Rng) -> Option<Vec<usize>> {
    let odds = if cfg!(debug_assertions) { 30_000 } else { 5_000 };
    if small() || !r.chance(1, odds) {
        return None;
    }
    let n = match r.below(3) {
        0 => (1usize << r.range(15, 18)) + r.range(0, 2) - 1,
        1 => r.range(30_000, 120_000),
        _ => r.range(100_000, 300_000),
    };
    let (a, b) = (r.range(2, 500), r.range(2, 20));
    Some(match r.below(6) {
        // one extent that is, or nearly is, a power of two
        0 | 1 => {
            let d = (1usize << *r.pick(&[15, 16, 16, 16, 17])) + *r.pick(&[0, 0, 1]) - *r.pick(&[0, 0, 1]);
            [vec![r.range(1, 3)], vec![d], vec![1; r.below(2)], vec![2; r.below(6) / 5]].concat()
        }
        2 => vec![n],
        3 => vec![n / a, a],
        4 => vec![a, n / a],
        _ => vec![n / (a * b) + 1, b, a],
    })
}
pub fn gen_nd<T: El>(r: &mut Rng, shape: &[usize], terms: usize) -> Nd<T> {
    let class = r.below(10);
    let c = T::gen(r, terms);
    let data = (0..count(shape))
        .map(|_| match class {
            0 => c,
            1 if r.chance(2, 3) => T::zero(),
            _ => T::gen(r, terms),
        })
        .collect();
    Nd::new(shape.to_vec(), data)
}
/// A shape that broadcasts with `s`.
pub fn partner(r: &mut Rng, s: &[usize], max_count: usize) -> Vec<usize> {
    let max_count = cap(max_count, 60);
    for _ in 0..50 {
        let mut p: Vec<usize> = s
            .iter()
            .map(|&d| if r.chance(1, 3) { 1 } else if d == 1 { if r.chance(1, 2) { 1 } else { extent(r) } } else { d })
            .collect();
        match r.below(4) {
            0 => {
                let k = r.range(0, p.len());
                p.drain(..k);
            }
            1 => {
                for _ in 0..r.range(1, 2) {
                    let e = extent(r);
                    p.insert(0, e);
                }
            }
            _ => {}
        }
        if count(&broadcast_shape(s, &p).unwrap()) <= max_count {
            return p;
        }
    }
    s.to_vec()
}
/// Random factorisation of n into a shape.
pub fn refactor(r: &mut Rng, mut n: usize) -> Vec<usize> {
    let mut s = Vec::new();
    while n > 1 && s.len() < 5 {
        let divs: Vec<usize> = (2..=n.min(400)).filter(|d| n % d == 0).collect();
        if divs.is_empty() || r.chance(1, 4) {
            break;
        }
        let d = *r.pick(&divs);
        s.push(d);
        n /= d;
    }
    if n > 1 || s.is_empty() {
        s.push(n);
    }
    for _ in 0..r.below(3) {
        let at = r.range(0, s.len());
        s.insert(at, 1);
    }
    if r.chance(1, 2) {
        s.reverse();
    }
    s
}

#[derive(Debug, Clone)]
pub enum Opd<T: Numeric> {
    Raw(RawTensor<T>),
    Rc(RcTensor<T>),
    View(TensorView<T>),
}
#[macro_export]
macro_rules! with {
    ($o:expr, $x:ident => $e:expr) => {
        match $o {
            $crate::cx::Opd::Raw($x) => $e,
            $crate::cx::Opd::Rc($x) => $e,
            $crate::cx::Opd::View($x) => $e,
        }
    };
}
pub fn raw<T: El>(n: &Nd<T>) -> RawTensor<T> {
    RawTensor::new(n.data.clone(), n.shape.clone())
}
pub fn rc<T: El>(n: &Nd<T>) -> RcTensor<T> {
    RcTensor::new(n.data.clone(), n.shape.clone())
}
pub fn ranges(v: &[(usize, usize)]) -> Vec<SliceRange> {
    v.iter().map(|&(a, b)| SliceRange::new(a, b)).collect()
}
/// A larger array of junk that holds n in the returned ranges.
fn embed<T: El>(r: &mut Rng, n: &Nd<T>) -> (Nd<T>, Vec<(usize, usize)>) {
    let mut big = Vec::new();
    let mut rg = Vec::new();
    let mut total = count(&n.shape).max(1);
    for &d in &n.shape {
        let (lo, hi) = if total < 40_000 { (r.below(3), r.below(3)) } else { (0, 0) };
        total = total / d.max(1) * (d + lo + hi).max(1);
        rg.push((lo, lo + d));
        big.push((lo + d + hi).max(1));
    }
    let mut b: Nd<T> = Nd::new(big.clone(), (0..count(&big)).map(|_| T::gen(r, 64)).collect());
    for i in indices(&n.shape) {
        let j: Vec<usize> = i.iter().zip(&rg).map(|(a, g)| a + g.0).collect();
        let p = pos(&big, &j);
        b.data[p] = n.at(&i);
    }
    (b, rg)
}
pub fn full(s: &[usize]) -> Vec<(usize, usize)> {
    s.iter().map(|&d| (0, d)).collect()
}
/// A view, of one of several constructions, that presents n.
pub fn make_view<T: El>(r: &mut Rng, n: &Nd<T>) -> TensorView<T> {
    match r.below(6) {
        0 => rc(n).view(ranges(&full(&n.shape))),
        1 | 2 => {
            let (b, g) = embed(r, n);
            if r.chance(1, 2) {
                rc(&b).view(ranges(&g))
            } else {
                raw(&b).slice(ranges(&g))
            }
        }
        3 => {
            let s = refactor(r, n.data.len());
            let m = n.reshape(&s);
            rc(&m).view(ranges(&full(&s))).reshape(n.shape.clone())
        }
        4 => {
            let s = refactor(r, n.data.len());
            let (b, g) = embed(r, &n.reshape(&s));
            TensorView::new(rc(&b), ranges(&g)).reshape(n.shape.clone())
        }
        _ => {
            let (b, g) = embed(r, n);
            let (bb, gg) = embed(r, &b);
            rc(&bb).slice(ranges(&gg)).slice(ranges(&g))
        }
    }
}
/// A shared tensor that holds n: fresh, or with a past.
pub fn shared<T: El>(r: &mut Rng, n: &Nd<T>) -> RcTensor<T> {
    if n.data.len() > 5000 {
        return rc(n);
    }
    match r.below(12) {
        // the result of an operation
        0 => &rc(n) + &RcTensor::scalar(T::zero()),
        // holds a gradient
        1 => {
            let t = rc(n);
            t.update_grad(rc(n));
            t
        }
        2 => rc(n).deep_clone(),
        // the only handle left of three
        3 => {
            let t = rc(n);
            let u = t.clone();
            drop((t, u.clone()));
            u
        }
        // a plain tensor made shared
        4 => make_view(r, n).to_tensor(),
        5 => raw(n).to_tensor(),
        _ => rc(n),
    }
}
pub fn operand<T: El>(r: &mut Rng, n: &Nd<T>) -> (Opd<T>, &'static str) {
    match r.below(3) {
        0 if r.chance(1, 6) => (Opd::Raw((*shared(r, n)).clone()), "plain"),
        0 => (Opd::Raw(raw(n)), "plain"),
        1 => (Opd::Rc(shared(r, n)), "shared"),
        _ => (Opd::View(make_view(r, n)), "view"),
    }
}
pub fn short<T: std::fmt::Debug>(n: &Nd<T>) -> String {
    let k = n.data.len().min(8);
    format!("{:?}{:?}{}", n.shape, &n.data[..k], if n.data.len() > k { ".." } else { "" })
}

/// An operation on a tensor and itself: the same reference, another handle to it, and a view of it.
pub fn itself<T: El>(cx: &mut Cx, r: &mut Rng, n: &Nd<T>, want: &Nd<T>, f: impl Fn(&Opd<T>, &Opd<T>) -> Option<Res<Nd<T>>>) -> Res {
    let x = shared(r, n);
    let whole = || ok("view", || x.view(ranges(&full(&n.shape))));
    let (l, q, how) = match r.below(5) {
        0 => (Opd::Rc(x.clone()), Opd::Rc(x.clone()), "shared with itself"),
        1 => (Opd::Raw((*x).clone()), Opd::Raw((*x).clone()), "plain with a copy"),
        2 => (Opd::Raw((*x).clone()), Opd::Rc(x.clone()), "copy with the original"),
        3 => (Opd::Rc(x.clone()), Opd::View(whole()?), "shared with its view"),
        _ => (Opd::View(whole()?), Opd::View(whole()?), "two views of one tensor"),
    };
    let same_ref = r.chance(1, 2) && how != "shared with its view" && how != "copy with the original";
    let what = format!("{} {how}{}", T::NAME, if same_ref { " (one reference)" } else { "" });
    match ok(&what, || f(&l, if same_ref { &l } else { &q }))? {
        Some(g) => same(&format!("{what}: {}", short(n)), &g?, want)?,
        None => return Ok(()),
    }
    with!(&l, l => is(&format!("operand after {what}"), l, n)?);
    is(&format!("tensor after {what}"), &x, n)?;
    cx.hit("operands combined with themselves");
    Ok(())
}
