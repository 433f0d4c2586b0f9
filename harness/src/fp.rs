//! The prime field of order 2^61-1 as an element type: exact arithmetic without
//! overflow, so results are compared for equality whatever the order of summation.
//! Residues above half of the modulus count as negative, which makes relu and abs exact too.
use num::traits::real::Real;
use num::{Num, NumCast, One, ToPrimitive, Zero};
use rust_light::tensor::Numeric;
use std::ops::*;

pub const P: u64 = (1 << 61) - 1;
#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Fp(pub u64);
impl std::fmt::Display for Fp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.signed())
    }
}
impl Fp {
    pub fn int(i: i64) -> Fp {
        Fp(i.rem_euclid(P as i64) as u64)
    }
    pub fn signed(self) -> i64 {
        if self.0 > P / 2 {
            self.0 as i64 - P as i64
        } else {
            self.0 as i64
        }
    }
    fn pow(self, mut e: u64) -> Fp {
        let (mut b, mut r) = (self, Fp(1));
        while e > 0 {
            if e & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            e >>= 1;
        }
        r
    }
}
impl PartialOrd for Fp {
    fn partial_cmp(&self, o: &Fp) -> Option<std::cmp::Ordering> {
        self.signed().partial_cmp(&o.signed())
    }
}
impl Add for Fp {
    type Output = Fp;
    fn add(self, o: Fp) -> Fp {
        let s = self.0 + o.0;
        Fp(if s >= P { s - P } else { s })
    }
}
impl Neg for Fp {
    type Output = Fp;
    fn neg(self) -> Fp {
        Fp(if self.0 == 0 { 0 } else { P - self.0 })
    }
}
impl Sub for Fp {
    type Output = Fp;
    fn sub(self, o: Fp) -> Fp {
        self + -o
    }
}
impl Mul for Fp {
    type Output = Fp;
    fn mul(self, o: Fp) -> Fp {
        Fp((self.0 as u128 * o.0 as u128 % P as u128) as u64)
    }
}
impl Div for Fp {
    type Output = Fp;
    fn div(self, o: Fp) -> Fp {
        self * o.pow(P - 2)
    }
}
impl Rem for Fp {
    type Output = Fp;
    fn rem(self, _: Fp) -> Fp {
        Fp(0)
    }
}
impl AddAssign for Fp {
    fn add_assign(&mut self, o: Fp) {
        *self = *self + o
    }
}
impl SubAssign for Fp {
    fn sub_assign(&mut self, o: Fp) {
        *self = *self - o
    }
}
impl MulAssign for Fp {
    fn mul_assign(&mut self, o: Fp) {
        *self = *self * o
    }
}
impl std::iter::Sum for Fp {
    fn sum<I: Iterator<Item = Fp>>(i: I) -> Fp {
        i.fold(Fp(0), |a, b| a + b)
    }
}
impl Zero for Fp {
    fn zero() -> Fp {
        Fp(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for Fp {
    fn one() -> Fp {
        Fp(1)
    }
}
impl Numeric for Fp {}
impl ToPrimitive for Fp {
    fn to_i64(&self) -> Option<i64> {
        Some(self.signed())
    }
    fn to_u64(&self) -> Option<u64> {
        self.signed().try_into().ok()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.signed() as f64)
    }
}
impl NumCast for Fp {
    fn from<T: ToPrimitive>(n: T) -> Option<Fp> {
        n.to_i64().map(Fp::int)
    }
}
impl Num for Fp {
    type FromStrRadixErr = std::num::ParseIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<Fp, Self::FromStrRadixErr> {
        i64::from_str_radix(s, r).map(Fp::int)
    }
}
macro_rules! no {
    ($($n:ident($($a:ident),*) -> $r:ty;)*) => {$(fn $n(self $(, $a: Self)*) -> $r { $(let _ = $a;)* unimplemented!("not a field operation") })*};
}
impl Real for Fp {
    fn min_value() -> Fp {
        Fp(P / 2 + 1)
    }
    fn max_value() -> Fp {
        Fp(P / 2)
    }
    fn min_positive_value() -> Fp {
        Fp(1)
    }
    fn epsilon() -> Fp {
        Fp(1)
    }
    fn floor(self) -> Fp {
        self
    }
    fn ceil(self) -> Fp {
        self
    }
    fn round(self) -> Fp {
        self
    }
    fn trunc(self) -> Fp {
        self
    }
    fn fract(self) -> Fp {
        Fp(0)
    }
    fn abs(self) -> Fp {
        if self.signed() < 0 {
            -self
        } else {
            self
        }
    }
    fn signum(self) -> Fp {
        Fp::int(self.signed().signum())
    }
    fn is_sign_positive(self) -> bool {
        self.signed() >= 0
    }
    fn is_sign_negative(self) -> bool {
        self.signed() < 0
    }
    fn mul_add(self, a: Fp, b: Fp) -> Fp {
        self * a + b
    }
    fn recip(self) -> Fp {
        Fp(1) / self
    }
    fn powi(self, n: i32) -> Fp {
        if n < 0 {
            self.recip().pow(-(n as i64) as u64)
        } else {
            self.pow(n as u64)
        }
    }
    fn max(self, o: Fp) -> Fp {
        if self > o {
            self
        } else {
            o
        }
    }
    fn min(self, o: Fp) -> Fp {
        if self < o {
            self
        } else {
            o
        }
    }
    fn abs_sub(self, o: Fp) -> Fp {
        Real::max(self - o, Fp(0))
    }
    no! { powf(b) -> Self; sqrt() -> Self; exp() -> Self; exp2() -> Self; ln() -> Self;
    log(b) -> Self; log2() -> Self; log10() -> Self; to_degrees() -> Self; to_radians() -> Self;
    cbrt() -> Self; hypot(b) -> Self; sin() -> Self; cos() -> Self; tan() -> Self;
    asin() -> Self; acos() -> Self; atan() -> Self; atan2(b) -> Self; sin_cos() -> (Self, Self);
    exp_m1() -> Self; ln_1p() -> Self; sinh() -> Self; cosh() -> Self; tanh() -> Self;
    asinh() -> Self; acosh() -> Self; atanh() -> Self; }
}
