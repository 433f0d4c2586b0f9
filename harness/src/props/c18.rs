//! No hidden state: the same request gives the same answer, whatever ran before or runs beside it.
use crate::ctx::*;
use crate::cx::*;
use crate::el::*;
use crate::fp::Fp;
use crate::inst::{self, Inst};
use crate::nd::*;
use crate::prog::*;
use crate::props::c07;
use crate::rng::{cap, small, Rng};
use crate::{any_type, ensure, with};
use rust_light::tensor::{functional as F, *};
use std::sync::Mutex;

/// Something that can be asked for any number of times and whose answer is known.
trait Request: Sync + Send {
    fn text(&self) -> String;
    /// asks once; alone: no other thread asks for the same thing at the same time
    fn ask(&self, r: &mut Rng, alone: bool) -> Res;
    /// quick enough to be asked for a thousand times
    fn cheap(&self) -> bool {
        false
    }
}

/// A program with its gradients. The leaves are made anew, or are the ones kept.
struct Program<T: ElG> {
    g: Graph<T>,
    root: usize,
    adj: Vec<Option<(Nd<T>, Nd<f64>)>>,
    kept: Vec<Option<RcTensor<T>>>,
}
impl<T: ElG> Program<T> {
    fn new(r: &mut Rng, g: Graph<T>, root: usize) -> Program<T> {
        let adj = g.adjoint(root);
        let kept = (0..g.nodes.len()).map(|i| (g.nodes[i].op == Op::Leaf).then(|| g.fresh(r, i))).collect();
        Program { g, root, adj, kept }
    }
    /// The same operations on other data.
    fn again(&self, r: &mut Rng) -> Option<Program<T>> {
        let mut g = Graph::new(self.g.max_work, self.g.max_count);
        for n in &self.g.nodes {
            match n.op {
                Op::Leaf => g.random_leaf(r, &n.val.shape),
                op => g.push(op)?,
            };
        }
        g.gradients_fit(self.root).then(|| Program::new(r, g, self.root))
    }
}
impl<T: ElG> Request for Program<T> {
    fn cheap(&self) -> bool {
        self.g.nodes.iter().map(|n| n.val.data.len()).sum::<usize>() < 100
    }
    fn text(&self) -> String {
        format!("{} {}", T::NAME, self.g.text(self.root))
    }
    fn ask(&self, r: &mut Rng, alone: bool) -> Res {
        let (g, text) = (&self.g, self.text());
        // kept leaves: with gradients only when nobody else uses them now
        let kept = r.chance(1, 2);
        let gradients = !kept || alone;
        let mut t: Vec<RcTensor<T>> = Vec::with_capacity(g.nodes.len());
        for i in 0..g.nodes.len() {
            let x = match (g.nodes[i].op, &self.kept[i]) {
                (Op::Leaf, Some(k)) if kept => k.clone(),
                (Op::Leaf, _) => g.fresh(r, i),
                (op, _) => ok(&format!("forward of [{text}]"), || g.apply(r, op, &t))?,
            };
            t.push(x);
        }
        for (i, x) in t.iter().enumerate() {
            let what = format!("value of t{i} in [{text}]");
            let (got, want) = (dump(&what, x)?, &g.nodes[i].val);
            if T::EPS == 0.0 {
                same(&what, &got, want)?;
            } else {
                let tol = g.tol(i.max(self.root));
                close(&what, &got.map(|x| x.to_f()), &want.map(|x| x.to_f()), &g.nodes[i].mag.map(|m| m * tol + 1e-300))?;
            }
        }
        if !gradients {
            return Ok(());
        }
        for (x, n) in t.iter().zip(&g.nodes) {
            if n.op == Op::Leaf {
                ok("zero_grad", || x.zero_grad())?;
            }
        }
        ok(&format!("backward of [{text}]"), || t[self.root].backward())?;
        for (i, x) in t.iter().enumerate() {
            if i == self.root {
                continue;
            }
            let what = format!("gradient of t{i} in [{text}]");
            match (&self.adj[i], grad_of(x)) {
                (Some(w), Some(d)) => g.check_grad(&what, &dump(&what, &d)?, w, g.tol(self.root))?,
                (None, None) => {}
                (w, d) => return Err(format!("{what}: {d:?}, expected {}", if w.is_some() { "one" } else { "none" })),
            }
        }
        Ok(())
    }
}

/// One operation on operands of drawn kinds.
struct Single<T: El> {
    op: usize,
    x: Nd<T>,
    y: Nd<T>,
    want: Nd<T>,
}
const NAMES: [&str; 7] = ["sum of", "product of", "matrix product of", "dot product of", "total of", "copy of", "scaling of"];
impl<T: El> Single<T> {
    fn draw(r: &mut Rng) -> Single<T> {
        loop {
            let op = r.below(7);
            let s = shape(r, 3, 200);
            let (xs, ys, terms) = match op {
                0 => (s.clone(), partner(r, &s, 400), 1),
                2 => {
                    let (m, k, n) = (r.range(1, 9), r.range(1, 40), r.range(1, 9));
                    (vec![m, k], vec![k, n], k)
                }
                6 => (s, vec![], 1),
                _ => (s.clone(), s.clone(), count(&s)),
            };
            if matches!(T::NAME, "u8" | "i8") && terms > 60 {
                continue;
            }
            return Single::with(r, op, &xs, &ys, terms);
        }
    }
    fn with(r: &mut Rng, op: usize, xs: &[usize], ys: &[usize], terms: usize) -> Single<T> {
        // sums stay within the type too
        let (x, y) = (gen_nd::<T>(r, xs, terms.max(4)), gen_nd::<T>(r, ys, terms.max(4)));
        let (mul, add) = (|a: T, b: T| a * b, |a: T, b: T| a + b);
        let want = match op {
            0 => x.zip(&y, add),
            1 => x.zip(&y, mul),
            2 => x.matmul(&y, T::zero(), mul, add),
            3 => Nd::new(vec![1], vec![x.zip(&y, mul).fold(T::zero(), add)]),
            4 => Nd::new(vec![], vec![x.fold(T::zero(), add)]),
            5 => x.clone(),
            _ => x.map(|a| a * y.data[0]),
        };
        Single { op, x, y, want }
    }
}
impl<T: El> Request for Single<T> {
    fn cheap(&self) -> bool {
        self.x.data.len() + self.y.data.len() < 100
    }
    fn text(&self) -> String {
        format!("{} {} {} and {}", T::NAME, NAMES[self.op], short(&self.x), short(&self.y))
    }
    fn ask(&self, r: &mut Rng, _: bool) -> Res {
        let what = self.text();
        let (p, q) = (operand(r, &self.x), operand(r, &self.y));
        let what = format!("{what} ({}, {})", p.1, q.1);
        match self.op {
            0 => {
                let a = raw(&self.x);
                is(&what, &with!(&q.0, t => ok(&what, || &a + t)?), &self.want)
            }
            1 => is(&what, &with!(&p.0, l => with!(&q.0, t => ok(&what, || F::element_wise_multiplication(l, t))?)), &self.want),
            2 => is(&what, &with!(&p.0, l => with!(&q.0, t => ok(&what, || l.bmm_rc(t))?)), &self.want),
            3 => is(&what, &with!(&p.0, l => with!(&q.0, t => ok(&what, || F::dot_no_derivative(l, t))?)), &self.want),
            4 => with!(&p.0, l => is(&what, &ok(&what, || l.sum())?, &self.want)),
            5 => with!(&p.0, l => is(&what, &ok(&what, || l.to_tensor())?, &self.want)),
            _ => with!(&p.0, l => is(&what, &ok(&what, || l.right_scalar_multiplication(&self.y.data[0]))?, &self.want)),
        }
    }
}

fn program<T: ElG>(r: &mut Rng, to: &mut Vec<Box<dyn Request>>) {
    for _ in 0..20 {
        let (g, root, _) = c07::random::<T>(r, false);
        if g.nodes.len() > 40 || g.nodes.iter().map(|n| n.val.data.len()).sum::<usize>() > cap(1500, 100) {
            continue;
        }
        let p = Program::new(r, g, root);
        for _ in 0..r.below(3) {
            if let Some(q) = p.again(r) {
                to.push(Box::new(q));
            }
        }
        to.push(Box::new(p));
        return;
    }
}
fn single<T: El>(r: &mut Rng, to: &mut Vec<Box<dyn Request>>) {
    let s = Single::<T>::draw(r);
    for _ in 0..r.below(3) {
        // the same shapes with other data
        let terms = if s.op == 2 { s.x.shape[1] } else { s.x.data.len() };
        to.push(Box::new(Single::<T>::with(r, s.op, &s.x.shape, &s.y.shape, terms)));
    }
    to.push(Box::new(s));
}

/// Something else that happens in between; what it answers is other properties' business.
fn disturb(cx: &mut Cx, r: &mut Rng, hoard: &mut Vec<RcTensor<Fp>>) {
    match r.below(8) {
        0 | 1 => {
            let x = rc(&gen_nd::<Fp>(r, &[2, 3], 1));
            let y = rc(&gen_nd::<Fp>(r, &[2, 2], 1));
            let refused = match r.below(6) {
                0 => attempt(|| std::ops::Add::add(&x, &y)).is_none(),
                1 => attempt(|| x.bmm(&y)).is_none(),
                2 => attempt(|| F::dot(&x, &y)).is_none(),
                3 => attempt(|| x.backward()).is_none(),
                4 => attempt(|| RcTensor::new(vec![1u8], vec![2])).is_none(),
                _ => attempt(|| x.slice(vec![SliceRange::new(0, 9), SliceRange::new(0, 1)])).is_none(),
            };
            if refused {
                cx.hit("refused requests in between");
            }
        }
        2 | 3 => {
            // arithmetic that panics somewhere in a forward or backward pass
            let (m, k) = (r.range(1, 5), r.range(1, 5));
            let x = rc(&Nd::full(&[m, k], Inst(1.5)));
            let w = rc(&Nd::full(&[k, m], Inst(0.5)));
            let b = rc(&Nd::full(&[m], Inst(0.25)));
            let go = || {
                let y = std::ops::Add::add(&x.bmm(&w), &b);
                F::tanh(y).sum().backward()
            };
            let (_, n) = inst::counted(|| attempt(go));
            inst::arm(1 + r.below(n.max(1) as usize) as u64);
            let _ = attempt(go);
            if inst::disarm() > 0 {
                cx.hit("panics in between");
            }
        }
        4 => {
            let top = if r.chance(1, 10) { 40 } else { 18 };
            let n = cap(r.range(8, top), 4);
            let x = rc(&gen_nd::<Fp>(r, &[n, n], 1));
            let _ = attempt(|| x.bmm(&x).sum().backward());
            hoard.push(x);
            cx.hit("large operations in between");
        }
        5 => {
            hoard.clear();
            cx.hit("tensors dropped in between");
        }
        6 => {
            let x = rc(&gen_nd::<Fp>(r, &[3], 1));
            let _ = attempt(|| {
                for _ in 0..3 {
                    std::ops::Add::add(&x, &x.clone()).sum().backward();
                }
            });
            hoard.push(x.grad());
        }
        _ => {
            for _ in 0..r.range(1, 4) {
                let s = shape(r, 3, 60);
                hoard.push(rc(&gen_nd::<Fp>(r, &s, 1)));
            }
        }
    }
}

pub fn run(cx: &mut Cx) -> Res {
    let mut r = cx.rng.clone();
    let r = &mut r;
    let mut reqs: Vec<Box<dyn Request>> = Vec::new();
    for _ in 0..r.range(1, cap(4, 2)) {
        match r.below(6) {
            0 | 1 => program::<Fp>(r, &mut reqs),
            2 => program::<f64>(r, &mut reqs),
            3 => program::<i64>(r, &mut reqs),
            _ => any_type!(r, single(&mut r.clone(), &mut reqs)),
        }
    }
    if reqs.is_empty() {
        single::<Fp>(r, &mut reqs);
    }
    for q in &reqs {
        cx.describe(q.text());
    }
    cx.nontrivial = true;
    let mut asked = vec![0u64; reqs.len()];
    let mut hoard: Vec<RcTensor<Fp>> = Vec::new();
    let steps = r.range(6, cap(if cx.thorough { 80 } else { 30 }, 8));
    for step in 0..steps {
        if r.chance(1, 3) {
            disturb(cx, r, &mut hoard);
        }
        if r.chance(1, 12) {
            // several at the same time, in one of many surroundings
            let place = Ctx::random(r);
            let seed = r.u64();
            let done = Mutex::new(Vec::new());
            let reqs = &reqs;
            let out = place.run(|i| {
                let mut r = Rng::new(seed ^ (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15));
                let k = r.below(reqs.len());
                let res = reqs[k].ask(&mut r, false);
                done.lock().unwrap().push(k);
                res
            });
            for o in out {
                o.map_err(|e| format!("step {step}, {}: {e}", place.name()))?;
            }
            let done = done.into_inner().unwrap();
            cx.add("answers compared", done.len() as u64);
            cx.add("answers compared while others were asked for", done.len() as u64);
            cx.hit(&format!("surroundings: {}", place.name()));
            for k in done {
                asked[k] += 1;
            }
            continue;
        }
        let k = r.below(reqs.len());
        // now and then several times in a row
        let often = if !small() && reqs[k].cheap() && r.chance(1, 200) { r.range(100, 1500) } else { 0 };
        for _ in 0..if often > 0 { often } else if r.chance(1, 6) { r.range(2, 9) } else { 1 } {
            let q = &reqs[k];
            let mut s = r.clone();
            r.u64();
            let (res, place) = match if small() { r.below(24) } else { r.below(12) } {
                0 => (std::thread::scope(|t| t.spawn(|| q.ask(&mut s, true)).join().unwrap_or_else(|_| Err("the thread panicked".into()))), "a new thread"),
                1 => {
                    let n = *r.pick(&[1, 2, 4]);
                    (pool(n).install(|| q.ask(&mut s, true)), "a worker of a pool")
                }
                _ => (q.ask(&mut s, true), "the same thread"),
            };
            res.map_err(|e| format!("step {step}, asked for {} times before, on {place}: {e}", asked[k]))?;
            cx.hit("answers compared");
            cx.hit(&format!("asked on {place}"));
            if asked[k] > 0 {
                cx.hit("answers to repeated requests");
            }
            asked[k] += 1;
            cx.max("times the same request was made", asked[k]);
        }
    }
    ensure!(hoard.iter().all(|x| x.count() == count(x.shape())), "a kept tensor lost its shape");
    Ok(())
}
