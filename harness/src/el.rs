//! Element types the workloads run over.
use crate::fp::{Fp, P};
use crate::inst::Inst;
use crate::rng::Rng;
use rust_light::tensor::{functional as F, Numeric, RcTensor};
use std::fmt::Debug;
use std::ops::*;

pub trait El: Numeric + Copy + PartialEq + Debug + Send + Sync + 'static + Add<Output = Self> + Mul<Output = Self> + Sub<Output = Self> {
    const NAME: &'static str;
    /// a random value such that the sum of `terms` products of two of them is exact
    fn gen(r: &mut Rng, terms: usize) -> Self;
    /// labels that differ for i below `labels()`
    fn label(i: usize) -> Self;
    fn labels() -> usize {
        usize::MAX
    }
    /// a value that differs from itself
    fn nan() -> Option<Self> {
        None
    }
}
/// Element types with negation.
pub trait ElNeg: El + Neg<Output = Self> {}

macro_rules! int_el {
    ($($t:ident $max:expr, $signed:expr;)*) => {$(
        impl El for $t {
            const NAME: &'static str = stringify!($t);
            fn gen(r: &mut Rng, terms: usize) -> $t {
                let cap = ($t::MAX as f64 / terms.max(1) as f64).sqrt().min($max as f64).floor() as i64;
                let lo = if $signed { -cap } else { 0 };
                r.irange(lo, cap) as $t
            }
            fn label(i: usize) -> $t { (i % Self::labels()) as $t }
            fn labels() -> usize { ($t::MAX as u128).min(usize::MAX as u128 / 2) as usize }
        }
    )*};
}
int_el! { usize 1000, false; u8 100, false; u32 1000, false; u64 1000, false; u128 1000, false;
i8 100, true; i32 1000, true; i64 1000, true; i128 1000, true; }
impl El for f64 {
    const NAME: &'static str = "f64";
    fn nan() -> Option<f64> {
        Some(f64::NAN)
    }
    fn gen(r: &mut Rng, _: usize) -> f64 {
        r.irange(-40, 40) as f64 / 4.0
    }
    fn label(i: usize) -> f64 {
        i as f64 + 0.5
    }
}
impl El for f32 {
    const NAME: &'static str = "f32";
    fn nan() -> Option<f32> {
        Some(f32::NAN)
    }
    fn gen(r: &mut Rng, terms: usize) -> f32 {
        let cap = ((1 << 22) as f64 / terms.max(1) as f64).sqrt().min(30.0).floor() as i64;
        r.irange(-cap, cap) as f32
    }
    fn label(i: usize) -> f32 {
        (i % Self::labels()) as f32
    }
    fn labels() -> usize {
        1 << 24
    }
}
impl El for Fp {
    const NAME: &'static str = "field";
    fn gen(r: &mut Rng, _: usize) -> Fp {
        match r.below(12) {
            0 => Fp(0),
            1 => Fp(1),
            2 => Fp(P - 1),
            3 => Fp::int(r.irange(-9, 9)),
            _ => Fp(r.u64() % P),
        }
    }
    fn label(i: usize) -> Fp {
        Fp(i as u64)
    }
}
impl El for Inst {
    const NAME: &'static str = "instrumented f64";
    fn gen(r: &mut Rng, _: usize) -> Inst {
        Inst(r.irange(-40, 40) as f64 / 4.0)
    }
    fn label(i: usize) -> Inst {
        Inst(i as f64)
    }
}
impl ElNeg for i8 {}
impl ElNeg for i32 {}
impl ElNeg for i64 {}
impl ElNeg for i128 {}
impl ElNeg for f64 {}
impl ElNeg for f32 {}
impl ElNeg for Fp {}
impl ElNeg for Inst {}

/// Element types with relu and abs.
pub trait ElReal: ElNeg {
    fn lib_abs(t: &RcTensor<Self>) -> RcTensor<Self>;
    fn lib_relu(t: &RcTensor<Self>) -> RcTensor<Self>;
    fn lib_tanh(t: &RcTensor<Self>) -> RcTensor<Self>;
}
macro_rules! real { ($($t:ty),*) => {$(
    impl ElReal for $t {
        fn lib_abs(t: &RcTensor<$t>) -> RcTensor<$t> { t.abs() }
        fn lib_relu(t: &RcTensor<$t>) -> RcTensor<$t> { F::relu(t.clone()) }
        fn lib_tanh(t: &RcTensor<$t>) -> RcTensor<$t> { F::tanh(t.clone()) }
    }
)*} }
real!(f64, f32, Fp, Inst);

/// Run a generic case with a random element type.
#[cfg(feature = "few")]
#[macro_export]
macro_rules! any_type {
    ($r:expr, $f:ident ( $($a:expr),* )) => {
        match $r.below(16) {
            0..=3 => $f::<u8>($($a),*), 4..=7 => $f::<i32>($($a),*), 8..=11 => $f::<f64>($($a),*), _ => $f::<$crate::fp::Fp>($($a),*),
        }
    };
}
#[cfg(feature = "few")]
#[macro_export]
macro_rules! neg_type {
    ($r:expr, $f:ident ( $($a:expr),* )) => {
        match $r.below(12) {
            0..=2 => $f::<i32>($($a),*), 3..=6 => $f::<f64>($($a),*), _ => $f::<$crate::fp::Fp>($($a),*),
        }
    };
}
#[cfg(not(feature = "few"))]
#[macro_export]
macro_rules! any_type {
    ($r:expr, $f:ident ( $($a:expr),* )) => {
        match $r.below(16) {
            0 => $f::<usize>($($a),*), 1 => $f::<u8>($($a),*), 2 => $f::<u32>($($a),*), 3 => $f::<u64>($($a),*),
            4 => $f::<u128>($($a),*), 5 => $f::<i8>($($a),*), 6 | 7 => $f::<i32>($($a),*), 8 => $f::<i64>($($a),*),
            9 => $f::<i128>($($a),*), 10 => $f::<f32>($($a),*), 11 | 12 => $f::<f64>($($a),*), _ => $f::<$crate::fp::Fp>($($a),*),
        }
    };
}
#[cfg(not(feature = "few"))]
#[macro_export]
macro_rules! neg_type {
    ($r:expr, $f:ident ( $($a:expr),* )) => {
        match $r.below(12) {
            0 => $f::<i8>($($a),*), 1 | 2 => $f::<i32>($($a),*), 3 => $f::<i64>($($a),*), 4 => $f::<i128>($($a),*),
            5 => $f::<f32>($($a),*), 6 | 7 => $f::<f64>($($a),*), _ => $f::<$crate::fp::Fp>($($a),*),
        }
    };
}
