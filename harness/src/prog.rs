//! Random tensor programs (expression DAGs): reference evaluation, reference gradients by
//! reverse accumulation over the DAG, and evaluation with the library.
use crate::cx::*;
use crate::el::*;
use crate::fp::Fp;
use crate::inst::Inst;
use crate::nd::*;
use crate::rng::Rng;
use rust_light::tensor::{functional as F, *};
use std::ops::{Add, Neg, Sub};

/// Element types the gradient workloads run over.
pub trait ElG: El {
    /// unit roundoff scale, 0 if exact
    const EPS: f64;
    /// bound on magnitudes (overflow, or meaningful tolerances)
    const LIMIT: f64;
    const NEG: bool;
    const REAL: bool;
    const TANH: bool;
    fn leaf(r: &mut Rng) -> Self;
    fn to_f(self) -> f64;
    fn minus(self) -> Self;
    fn tanh_(self) -> Self;
    fn is_pos(self) -> bool {
        self > Self::zero()
    }
    fn l_neg(t: &RcTensor<Self>) -> RcTensor<Self>;
    fn l_sub(form: usize, a: &RcTensor<Self>, b: &RcTensor<Self>) -> RcTensor<Self>;
    fn l_abs(t: &RcTensor<Self>) -> RcTensor<Self>;
    fn l_relu(t: &RcTensor<Self>) -> RcTensor<Self>;
    fn l_tanh(t: &RcTensor<Self>) -> RcTensor<Self>;
}
macro_rules! neg_ops {
    () => {
        fn l_neg(t: &RcTensor<Self>) -> RcTensor<Self> {
            t.neg()
        }
        fn l_sub(form: usize, a: &RcTensor<Self>, b: &RcTensor<Self>) -> RcTensor<Self> {
            match form {
                0 => Sub::sub(a, &b.clone()),
                1 => Sub::sub(a.clone(), b.clone()),
                _ => Sub::sub(a.clone(), b),
            }
        }
    };
}
macro_rules! real_ops {
    () => {
        fn l_abs(t: &RcTensor<Self>) -> RcTensor<Self> {
            t.abs()
        }
        fn l_relu(t: &RcTensor<Self>) -> RcTensor<Self> {
            F::relu(t.clone())
        }
        fn l_tanh(t: &RcTensor<Self>) -> RcTensor<Self> {
            F::tanh(t.clone())
        }
    };
}
macro_rules! none {
    ($($n:ident)*) => {$( fn $n(_: &RcTensor<Self>) -> RcTensor<Self> { unreachable!() } )*};
}
macro_rules! int_g {
    ($($t:ident $lo:expr;)*) => {$(
        impl ElG for $t {
            const EPS: f64 = 0.0;
            const LIMIT: f64 = $t::MAX as f64 / 4.0;
            const NEG: bool = true;
            const REAL: bool = false;
            const TANH: bool = false;
            fn leaf(r: &mut Rng) -> $t { r.irange($lo, 9) as $t }
            fn to_f(self) -> f64 { self as f64 }
            fn minus(self) -> $t { -self }
            fn tanh_(self) -> $t { unreachable!() }
            neg_ops!();
            none!(l_abs l_relu l_tanh);
        }
    )*};
}
int_g! { i32 -9; i64 -9; i128 -9; }
macro_rules! uint_g {
    ($($t:ident)*) => {$(
        impl ElG for $t {
            const EPS: f64 = 0.0;
            const LIMIT: f64 = $t::MAX as f64 / 4.0;
            const NEG: bool = false;
            const REAL: bool = false;
            const TANH: bool = false;
            fn leaf(r: &mut Rng) -> $t { r.irange(0, 9) as $t }
            fn to_f(self) -> f64 { self as f64 }
            fn minus(self) -> $t { unreachable!() }
            fn tanh_(self) -> $t { unreachable!() }
            fn l_sub(_: usize, _: &RcTensor<$t>, _: &RcTensor<$t>) -> RcTensor<$t> { unreachable!() }
            none!(l_neg l_abs l_relu l_tanh);
        }
    )*};
}
uint_g! { u64 usize }
macro_rules! float_g {
    ($t:ident, $eps:expr, $lim:expr, $tanh:expr) => {
        impl ElG for $t {
            const EPS: f64 = $eps;
            const LIMIT: f64 = $lim;
            const NEG: bool = true;
            const REAL: bool = true;
            const TANH: bool = true;
            fn leaf(r: &mut Rng) -> $t {
                match r.below(8) {
                    0 => (r.irange(-3, 3) as f64).into_el(),
                    _ => (r.sym() * 1.5).into_el(),
                }
            }
            fn to_f(self) -> f64 {
                self.from_el()
            }
            fn minus(self) -> $t {
                (-self.from_el()).into_el()
            }
            fn tanh_(self) -> $t {
                self.from_el().tanh().into_el()
            }
            neg_ops!();
            real_ops!();
        }
    };
}
trait IntoEl<T> {
    fn into_el(self) -> T;
}
trait FromEl {
    fn from_el(self) -> f64;
}
impl IntoEl<f32> for f64 {
    fn into_el(self) -> f32 {
        self as f32
    }
}
impl IntoEl<f64> for f64 {
    fn into_el(self) -> f64 {
        self
    }
}
impl IntoEl<Inst> for f64 {
    fn into_el(self) -> Inst {
        Inst(self)
    }
}
impl FromEl for f32 {
    fn from_el(self) -> f64 {
        self as f64
    }
}
impl FromEl for f64 {
    fn from_el(self) -> f64 {
        self
    }
}
impl FromEl for Inst {
    fn from_el(self) -> f64 {
        self.0
    }
}
float_g!(f64, f64::EPSILON, 1e9, true);
float_g!(f32, f32::EPSILON as f64, 1e5, true);
float_g!(Inst, f64::EPSILON, 1e9, true);
impl ElG for Fp {
    const EPS: f64 = 0.0;
    const LIMIT: f64 = f64::INFINITY;
    const NEG: bool = true;
    const REAL: bool = true;
    const TANH: bool = false;
    fn leaf(r: &mut Rng) -> Fp {
        Fp::gen(r, 1)
    }
    fn to_f(self) -> f64 {
        1.0
    }
    fn minus(self) -> Fp {
        -self
    }
    fn tanh_(self) -> Fp {
        unreachable!()
    }
    neg_ops!();
    real_ops!();
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Leaf,
    Add(usize, usize),
    Sub(usize, usize),
    Neg(usize),
    Abs(usize),
    Relu(usize),
    Tanh(usize),
    Sum(usize),
    Dot(usize, usize),
    Mm(usize, usize),
}
impl Op {
    pub fn ins(&self) -> Vec<usize> {
        match *self {
            Op::Leaf => vec![],
            Op::Neg(a) | Op::Abs(a) | Op::Relu(a) | Op::Tanh(a) | Op::Sum(a) => vec![a],
            Op::Add(a, b) | Op::Sub(a, b) | Op::Dot(a, b) | Op::Mm(a, b) => vec![a, b],
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Op::Leaf => "leaf",
            Op::Add(..) => "add",
            Op::Sub(..) => "sub",
            Op::Neg(_) => "neg",
            Op::Abs(_) => "abs",
            Op::Relu(_) => "relu",
            Op::Tanh(_) => "tanh",
            Op::Sum(_) => "sum",
            Op::Dot(..) => "dot",
            Op::Mm(..) => "matmul",
        }
    }
}
#[derive(Clone)]
pub struct Node<T> {
    pub op: Op,
    pub val: Nd<T>,
    /// magnitude bound per element: |value| and its rounding error in units of eps
    pub mag: Nd<f64>,
    /// bound on the cost of a backward pass started here (counts every path)
    pub work: f64,
    pub depth: usize,
}
#[derive(Clone)]
pub struct Graph<T> {
    pub nodes: Vec<Node<T>>,
    pub max_work: f64,
    pub max_count: usize,
}
impl<T: ElG> Graph<T> {
    pub fn new(max_work: f64, max_count: usize) -> Graph<T> {
        let max_work = if crate::rng::small() { max_work.min(600.0) } else { max_work };
        Graph { nodes: vec![], max_work, max_count: crate::rng::cap(max_count, 60) }
    }
    pub fn leaf(&mut self, val: Nd<T>) -> usize {
        let mag = val.map(|x| x.to_f().abs());
        self.nodes.push(Node { op: Op::Leaf, val, mag, work: 0.0, depth: 0 });
        self.nodes.len() - 1
    }
    pub fn random_leaf(&mut self, r: &mut Rng, shape: &[usize]) -> usize {
        let class = r.below(12);
        let c = T::leaf(r);
        let data = (0..count(shape))
            .map(|_| match class {
                0 => c,
                1 if r.chance(1, 2) => T::zero(),
                _ => T::leaf(r),
            })
            .collect();
        self.leaf(Nd::new(shape.to_vec(), data))
    }
    pub fn shape(&self, i: usize) -> &[usize] {
        &self.nodes[i].val.shape
    }
    pub fn count(&self, i: usize) -> usize {
        self.nodes[i].val.data.len()
    }
    /// Adds the operation if it is well formed, away from kinks and within the limits.
    pub fn push(&mut self, op: Op) -> Option<usize> {
        let n = &self.nodes;
        let (val, mag, local) = match op {
            Op::Leaf => return None,
            Op::Add(a, b) | Op::Sub(a, b) => {
                let (x, y) = (&n[a].val, &n[b].val);
                let s = broadcast_shape(&x.shape, &y.shape)?;
                if count(&s) > self.max_count {
                    return None;
                }
                let sub = matches!(op, Op::Sub(..));
                if sub && !T::NEG {
                    return None;
                }
                let v = x.zip(y, |p, q| if sub { p + q.minus() } else { p + q });
                (v, n[a].mag.zip(&n[b].mag, |p, q| p + q), 6.0 * count(&s) as f64)
            }
            Op::Neg(a) if T::NEG => (n[a].val.map(|x| x.minus()), n[a].mag.clone(), 3.0 * self.count(a) as f64),
            Op::Abs(a) | Op::Relu(a) if T::REAL => {
                let x = &n[a];
                for (v, m) in x.val.data.iter().zip(&x.mag.data) {
                    if *v == T::zero() || (T::EPS > 0.0 && v.to_f().abs() <= 1e5 * T::EPS * m) {
                        return None;
                    }
                }
                let relu = matches!(op, Op::Relu(_));
                let v = x.val.map(|v| if v.is_pos() { v } else if relu { T::zero() } else { v.minus() });
                (v, x.mag.clone(), 3.0 * self.count(a) as f64)
            }
            Op::Tanh(a) if T::TANH => {
                let c = self.count(a);
                (n[a].val.map(|v| v.tanh_()), n[a].mag.map(|m| 1.0 + m), 4.0 * c as f64)
            }
            Op::Sum(a) => {
                let m = n[a].mag.fold(0.0, |s, x| s + x);
                if m > T::LIMIT {
                    return None;
                }
                let v = n[a].val.fold(T::zero(), |s, x| s + x);
                (Nd::new(vec![], vec![v]), Nd::new(vec![], vec![m]), self.count(a) as f64)
            }
            Op::Dot(a, b) => {
                if n[a].val.shape != n[b].val.shape {
                    return None;
                }
                // bound the running total before computing it in a type that may overflow
                let m: f64 = n[a].mag.data.iter().zip(&n[b].mag.data).map(|(p, q)| p * q).sum();
                if m > T::LIMIT {
                    return None;
                }
                let v = n[a].val.zip(&n[b].val, |p, q| p * q).fold(T::zero(), |s, x| s + x);
                (Nd::new(vec![1], vec![v]), Nd::new(vec![1], vec![m]), 4.0 * self.count(a) as f64)
            }
            Op::Mm(a, b) => {
                let (x, y) = (&n[a].val, &n[b].val);
                if x.shape.len() != 2 || y.shape.len() != 2 || x.shape[1] != y.shape[0] {
                    return None;
                }
                let w = x.shape[0] * x.shape[1] * y.shape[1];
                if w > if self.max_work > 1e7 && self.max_work < 1e9 { 2_000_000 } else { 200_000 } || x.shape[0] * y.shape[1] > self.max_count {
                    return None;
                }
                let m = n[a].mag.matmul(&n[b].mag, 0.0, |p, q| p * q, |p, q| p + q);
                if m.data.iter().any(|&x| x > T::LIMIT) {
                    return None;
                }
                (x.matmul(y, T::zero(), |p, q| p * q, |p, q| p + q), m, 25.0 * w as f64)
            }
            _ => return None,
        };
        if mag.data.iter().any(|&m| m > T::LIMIT) {
            return None;
        }
        let ins = op.ins();
        let work = local + ins.iter().map(|&i| n[i].work + 1.0).sum::<f64>();
        if work > self.max_work {
            return None;
        }
        let depth = 1 + ins.iter().map(|&i| n[i].depth).max().unwrap_or(0);
        self.nodes.push(Node { op, val, mag, work, depth });
        Some(self.nodes.len() - 1)
    }
    /// A random node, recent ones more often.
    pub fn some(&self, r: &mut Rng) -> usize {
        let n = self.nodes.len();
        if r.chance(1, 2) {
            n - 1 - r.below(n.min(4))
        } else {
            r.below(n)
        }
    }
    /// One random operation; creates a matching leaf operand when none exists.
    pub fn grow(&mut self, r: &mut Rng) -> Option<usize> {
        let a = self.some(r);
        let op = match r.below(16) {
            0 | 1 | 2 | 3 => {
                let b = if r.chance(1, 8) {
                    a
                } else if r.chance(1, 2) {
                    let s = self.shape(a).to_vec();
                    let p = partner(r, &s, self.max_count);
                    self.random_leaf(r, &p)
                } else {
                    self.some(r)
                };
                match r.below(4) {
                    0 => Op::Sub(a, b),
                    1 => Op::Sub(b, a),
                    2 => Op::Add(a, b),
                    _ => Op::Add(b, a),
                }
            }
            4 => Op::Neg(a),
            5 => Op::Abs(a),
            6 | 7 => Op::Relu(a),
            8 => Op::Tanh(a),
            9 => Op::Sum(a),
            10 | 11 => {
                let b = match r.below(3) {
                    0 => a,
                    1 => self.some(r),
                    _ => {
                        let s = self.shape(a).to_vec();
                        self.random_leaf(r, &s)
                    }
                };
                Op::Dot(a, b)
            }
            _ => {
                if self.shape(a).len() != 2 {
                    return None;
                }
                let (m, n) = (self.shape(a)[0], self.shape(a)[1]);
                if m == n && r.chance(1, 5) {
                    Op::Mm(a, a)
                } else {
                    let b = if r.chance(1, 4) { self.some(r) } else { usize::MAX };
                    let e = extent(r).min(40);
                    if r.chance(1, 2) {
                        let b = if b < usize::MAX { b } else { self.random_leaf(r, &[n, e]) };
                        Op::Mm(a, b)
                    } else {
                        let b = if b < usize::MAX { b } else { self.random_leaf(r, &[e, m]) };
                        Op::Mm(b, a)
                    }
                }
            }
        };
        self.push(op)
    }
    /// Ends in a one-element node that is not a leaf, computed from `a`.
    pub fn root(&mut self, r: &mut Rng, a: usize) -> Option<usize> {
        let one = self.count(a) == 1 && self.nodes[a].op != Op::Leaf;
        if one && r.chance(1, 2) {
            return Some(a);
        }
        match r.below(6) {
            0 => self.push(Op::Dot(a, a)),
            1 | 2 => {
                let s = self.shape(a).to_vec();
                let c = self.random_leaf(r, &s);
                if r.chance(1, 2) {
                    self.push(Op::Dot(a, c))
                } else {
                    self.push(Op::Dot(c, a))
                }
            }
            3 if self.shape(a).len() == 2 => {
                let (m, n) = (self.shape(a)[0], self.shape(a)[1]);
                let u = self.random_leaf(r, &[1, m]);
                let v = self.random_leaf(r, &[n, 1]);
                let p = self.push(Op::Mm(u, a))?;
                self.push(Op::Mm(p, v))
            }
            _ => self.push(Op::Sum(a)),
        }
    }
    /// The library's computation of node i from its operands.
    pub fn apply(&self, r: &mut Rng, op: Op, t: &[RcTensor<T>]) -> RcTensor<T> {
        match op {
            Op::Leaf => unreachable!(),
            Op::Add(a, b) => {
                if r.chance(1, 2) {
                    Add::add(&t[a], &t[b].clone())
                } else {
                    Add::add(t[a].clone(), t[b].clone())
                }
            }
            Op::Sub(a, b) => T::l_sub(r.below(3), &t[a], &t[b]),
            Op::Neg(a) => T::l_neg(&t[a]),
            Op::Abs(a) => T::l_abs(&t[a]),
            Op::Relu(a) => T::l_relu(&t[a]),
            Op::Tanh(a) => T::l_tanh(&t[a]),
            Op::Sum(a) => TensorLike::sum(&t[a]),
            Op::Dot(a, b) => F::dot(&t[a], &t[b]),
            Op::Mm(a, b) => {
                if r.chance(1, 2) {
                    t[a].bmm(&t[b])
                } else {
                    t[a].bmm_rc(&t[b])
                }
            }
        }
    }
    pub fn fresh(&self, r: &mut Rng, i: usize) -> RcTensor<T> {
        let v = &self.nodes[i].val;
        match r.below(6) {
            0 => make_view(r, v).to_tensor(),
            1 if v.data.iter().all(|&x| x == v.data[0]) => RcTensor::new_with_filler(v.shape.clone(), v.data[0]),
            1 | 2 if v.shape.is_empty() => RcTensor::scalar(v.data[0]),
            3 if v.shape.len() == 1 => <RcTensor<T> as From<Vec<T>>>::from(v.data.clone()),
            _ => rc(v),
        }
    }
    pub fn eval_lib(&self, r: &mut Rng) -> Vec<RcTensor<T>> {
        let mut t = Vec::with_capacity(self.nodes.len());
        for i in 0..self.nodes.len() {
            let x = match self.nodes[i].op {
                Op::Leaf => self.fresh(r, i),
                op => self.apply(r, op, &t),
            };
            t.push(x);
        }
        t
    }
    /// d root / d node for every node the root depends on (also for the root), with error bounds.
    pub fn adjoint(&self, root: usize) -> Vec<Option<(Nd<T>, Nd<f64>)>> {
        let n = &self.nodes;
        let mut adj: Vec<Option<(Nd<T>, Nd<f64>)>> = vec![None; n.len()];
        let s = &n[root].val.shape;
        adj[root] = Some((Nd::full(s, T::one()), Nd::full(s, 1.0)));
        for i in (0..=root).rev() {
            let Some((g, gm)) = adj[i].clone() else { continue };
            let mut give = |to: usize, d: Nd<T>, m: Nd<f64>| match &mut adj[to] {
                Some((x, y)) => {
                    for p in 0..d.data.len() {
                        x.data[p] = x.data[p] + d.data[p];
                        y.data[p] += m.data[p];
                    }
                }
                e => *e = Some((d, m)),
            };
            match n[i].op {
                Op::Leaf => {}
                Op::Add(a, b) | Op::Sub(a, b) => {
                    let sub = matches!(n[i].op, Op::Sub(..));
                    for (to, neg) in [(a, false), (b, sub)] {
                        let mut d = Nd::full(&n[to].val.shape, T::zero());
                        let mut m = Nd::full(&n[to].val.shape, 0.0);
                        for (p, idx) in indices(&g.shape).enumerate() {
                            let q = d.bpos(&idx);
                            d.data[q] = d.data[q] + if neg { g.data[p].minus() } else { g.data[p] };
                            m.data[q] += gm.data[p];
                        }
                        give(to, d, m);
                    }
                }
                Op::Neg(a) => give(a, g.map(|x| x.minus()), gm),
                Op::Abs(a) => give(a, n[a].val.zip(&g, |x, g| if x.is_pos() { g } else { g.minus() }), gm),
                Op::Relu(a) => give(a, n[a].val.zip(&g, |x, g| if x.is_pos() { g } else { T::zero() }), gm),
                Op::Tanh(a) => give(
                    a,
                    n[a].val.zip(&g, |x, g| {
                        let t = x.tanh_();
                        g * (T::one() + (t * t).minus())
                    }),
                    gm.zip(&n[a].mag, |g, m| g * (2.0 + m)),
                ),
                Op::Sum(a) => give(a, Nd::full(&n[a].val.shape, g.data[0]), Nd::full(&n[a].val.shape, gm.data[0])),
                Op::Dot(a, b) => {
                    give(a, n[b].val.map(|x| x * g.data[0]), n[b].mag.map(|x| x * gm.data[0]));
                    give(b, n[a].val.map(|x| x * g.data[0]), n[a].mag.map(|x| x * gm.data[0]));
                }
                Op::Mm(a, b) => {
                    let (m, a2) = (|p: T, q: T| p * q, |p: T, q: T| p + q);
                    let (fm, fa) = (|p: f64, q: f64| p * q, |p: f64, q: f64| p + q);
                    give(a, g.matmul(&n[b].val.transpose(), T::zero(), m, a2), gm.matmul(&n[b].mag.transpose(), 0.0, fm, fa));
                    give(b, n[a].val.transpose().matmul(&g, T::zero(), m, a2), n[a].mag.transpose().matmul(&gm, 0.0, fm, fa));
                }
            }
        }
        adj
    }
    /// No gradient of this root can overflow the element type.
    pub fn gradients_fit(&self, root: usize) -> bool {
        if T::LIMIT.is_infinite() {
            return true;
        }
        // magnitudes only, to stay clear of overflow here too
        let n = &self.nodes;
        let mut m: Vec<f64> = vec![0.0; n.len()];
        m[root] = 1.0;
        for i in (0..=root).rev() {
            let g = m[i];
            if g == 0.0 {
                continue;
            }
            let big = |x: usize| n[x].mag.data.iter().cloned().fold(0.0, f64::max);
            let cnt = n[i].val.data.len() as f64;
            match n[i].op {
                Op::Leaf => {}
                Op::Add(a, b) | Op::Sub(a, b) => {
                    m[a] += g * (cnt / n[a].val.data.len() as f64);
                    m[b] += g * (cnt / n[b].val.data.len() as f64);
                }
                Op::Neg(a) | Op::Abs(a) | Op::Relu(a) | Op::Sum(a) => m[a] += g,
                Op::Tanh(a) => m[a] += g * (2.0 + big(a)),
                Op::Dot(a, b) => {
                    m[a] += g * big(b);
                    m[b] += g * big(a);
                }
                Op::Mm(a, b) => {
                    m[a] += g * big(b) * n[b].val.shape[1] as f64;
                    m[b] += g * big(a) * n[a].val.shape[0] as f64;
                }
            }
        }
        m.iter().all(|&x| x < T::LIMIT)
    }
    pub fn tol(&self, root: usize) -> f64 {
        let big = self.nodes.iter().map(|n| n.val.data.len()).max().unwrap_or(1);
        T::EPS * (1000.0 + 8.0 * big as f64 + 60.0 * self.nodes[root].depth as f64)
    }
    pub fn check_grad(&self, what: &str, got: &Nd<T>, want: &(Nd<T>, Nd<f64>), tol: f64) -> Res {
        if T::EPS == 0.0 {
            same(what, got, &want.0)
        } else {
            close(what, &got.map(|x| x.to_f()), &want.0.map(|x| x.to_f()), &want.1.map(|m| m * tol + 1e-300))
        }
    }
    /// The program, for reports.
    pub fn text(&self, root: usize) -> String {
        let mut s = String::new();
        for (i, n) in self.nodes.iter().enumerate() {
            if i > 40 {
                s += " ..";
                break;
            }
            match n.op {
                Op::Leaf => s += &format!("t{i}={} ", short(&n.val)),
                op => s += &format!("t{i}={}{:?}->{:?} ", op.name(), op.ins(), n.val.shape),
            }
        }
        s + &format!("root t{root}")
    }
}
