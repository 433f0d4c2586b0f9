//! Networks: random models of 1 to 5 layers with a reference evaluation and reference gradients.
use crate::nd::*;
use crate::prog::*;
use crate::rng::Rng;
use num::traits::real::Real;
use rust_light::nn::{Linear, Mlp, Module};
use rust_light::tensor::{functional as F, *};
use std::ops::Add;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    None,
    Relu,
    Tanh,
    Abs,
    Double,
    Negate,
}
pub type ActFn<T> = fn(RcTensor<T>) -> RcTensor<T>;
impl Act {
    pub fn function<T: ElG + Real>(self) -> Option<ActFn<T>> {
        match self {
            Act::None => None,
            Act::Relu => Some(F::relu),
            Act::Tanh => Some(F::tanh),
            Act::Abs => Some(|t| t.abs()),
            Act::Double => Some(|t| Add::add(&t, &t.clone())),
            Act::Negate => Some(|t| T::l_neg(&t)),
        }
    }
    pub fn node<T: ElG>(self, g: &mut Graph<T>, a: usize) -> Option<usize> {
        match self {
            Act::None => Some(a),
            Act::Relu => g.push(Op::Relu(a)),
            Act::Tanh => g.push(Op::Tanh(a)),
            Act::Abs => g.push(Op::Abs(a)),
            Act::Double => g.push(Op::Add(a, a)),
            Act::Negate => g.push(Op::Neg(a)),
        }
    }
    pub fn random<T: ElG>(r: &mut Rng) -> Act {
        match r.below(8) {
            0 | 1 => Act::None,
            2 | 3 => Act::Relu,
            4 | 5 if T::TANH => Act::Tanh,
            6 => Act::Double,
            7 => Act::Negate,
            _ => Act::Abs,
        }
    }
}
pub enum Net<T: Numeric> {
    Layer(Linear<T>),
    M1(Mlp<T, 1>),
    M2(Mlp<T, 2>),
    M3(Mlp<T, 3>),
    M4(Mlp<T, 4>),
    M5(Mlp<T, 5>),
    M8(Mlp<T, 8>),
    M12(Mlp<T, 12>),
}
#[macro_export]
macro_rules! net {
    ($n:expr, $m:ident => $e:expr) => {
        match $n {
            $crate::props::net::Net::Layer($m) => $e,
            $crate::props::net::Net::M1($m) => $e,
            $crate::props::net::Net::M2($m) => $e,
            $crate::props::net::Net::M3($m) => $e,
            $crate::props::net::Net::M4($m) => $e,
            $crate::props::net::Net::M5($m) => $e,
            $crate::props::net::Net::M8($m) => $e,
            $crate::props::net::Net::M12($m) => $e,
        }
    };
}
/// One layer: weights, bias, activation.
#[derive(Clone)]
pub struct Spec<T> {
    pub params: Vec<Nd<T>>,
    pub acts: Vec<Act>,
    pub lone: bool,
}
impl<T: ElG + Real> Spec<T> {
    pub fn random(r: &mut Rng, leaf: &mut dyn FnMut(&mut Rng) -> T) -> Spec<T> {
        let n = crate::rng::cap(*r.pick(&[1, 1, 2, 2, 2, 3, 3, 4, 5]), 2);
        let n = if !crate::rng::small() && r.chance(1, 50) { *r.pick(&[8, 8, 12]) } else { n };
        let width = |r: &mut Rng| match r.below(10) {
            0 => crate::rng::cap(*r.pick(&[17, 32, 33, 40]), 5),
            1 => 1,
            _ => r.range(2, crate::rng::cap(if n > 5 { 4 } else { 9 }, 3)),
        };
        // once in a long while, layers far wider than usual
        let wide = !crate::rng::small() && r.chance(1, if cfg!(debug_assertions) { 12_000 } else { 2_000 });
        let n = if wide { n.min(2) } else { n };
        let width = |r: &mut Rng| if wide && r.chance(2, 3) { r.range(60, 270) } else { width(r) };
        let mut w = width(r);
        let mut params = vec![];
        for _ in 0..n {
            // equal widths often, so that mixed up layers still fit together
            let v = if r.chance(1, 2) { w } else { width(r) };
            params.push(Nd::new(vec![w, v], (0..w * v).map(|_| leaf(r)).collect()));
            let bs = match r.below(12) {
                0..=3 => vec![v],
                4 => vec![],
                5 => vec![1],
                6 => vec![1, 1],
                _ => vec![1, v],
            };
            params.push(Nd::new(bs.clone(), (0..count(&bs)).map(|_| leaf(r)).collect()));
            w = v;
        }
        Spec { params, acts: (0..n).map(|_| Act::random::<T>(r)).collect(), lone: n == 1 && r.chance(2, 3) }
    }
    pub fn width_in(&self) -> usize {
        self.params[0].shape[0]
    }
    pub fn width_out(&self) -> usize {
        self.params[self.params.len() - 2].shape[1]
    }
    pub fn text(&self) -> String {
        let mut s = format!("{} {}", T::NAME, self.width_in());
        for (k, a) in self.acts.iter().enumerate() {
            s += &format!("-{}({a:?}, bias {:?})", self.params[2 * k].shape[1], self.params[2 * k + 1].shape);
        }
        s
    }
    pub fn build(&self, t: &[RcTensor<T>]) -> Net<T> {
        let l = |k: usize| Linear::new(t[2 * k].clone(), t[2 * k + 1].clone(), self.acts[k].function::<T>());
        match self.acts.len() {
            1 if self.lone => Net::Layer(l(0)),
            1 => Net::M1(Mlp::new([l(0)])),
            2 => Net::M2(Mlp::new([l(0), l(1)])),
            3 => Net::M3(Mlp::new([l(0), l(1), l(2)])),
            4 => Net::M4(Mlp::new([l(0), l(1), l(2), l(3)])),
            5 => Net::M5(Mlp::new([l(0), l(1), l(2), l(3), l(4)])),
            8 => Net::M8(Mlp::new(std::array::from_fn(l))),
            _ => Net::M12(Mlp::new(std::array::from_fn(l))),
        }
    }
    /// Adds the network to a graph whose nodes first hold params, then the input; returns the output node.
    pub fn forward(&self, g: &mut Graph<T>, params: &[usize], x: usize) -> Option<usize> {
        let mut last = x;
        for (k, a) in self.acts.iter().enumerate() {
            last = if g.shape(last).len() == 2 {
                g.push(Op::Mm(last, params[2 * k]))?
            } else {
                return None;
            };
            last = g.push(Op::Add(last, params[2 * k + 1]))?;
            last = a.node(g, last)?;
        }
        Some(last)
    }
}
impl<T: Numeric> Net<T> {
    pub fn forward(&self, x: RcTensor<T>) -> RcTensor<T> {
        net!(self, m => Module::forward(m, x))
    }
    pub fn params(&self) -> Vec<RcTensor<T>> {
        net!(self, m => Module::params(m))
    }
    pub fn update_params(&mut self, p: Vec<RcTensor<T>>) {
        net!(self, m => Module::update_params(m, p))
    }
}
impl<T: ElG + Real> Net<T> {
    pub fn step(&mut self, s: RcTensor<T>) {
        net!(self, m => rust_light::optim::sgd::sgd_step(m, s))
    }
}
