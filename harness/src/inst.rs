//! An instrumented element type: an f64 whose arithmetic can count events, log which
//! thread did them, inject delays and yields, and inject panics. It turns every
//! arithmetic operation inside the library's kernels into an observation and fault
//! point without touching the library.
use num::traits::real::Real;
use num::{Num, NumCast, One, ToPrimitive, Zero};
use rust_light::tensor::Numeric;
use std::cell::Cell;
use std::ops::*;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicU8, Ordering::*};
use std::sync::Mutex;

#[derive(Copy, Clone, PartialEq, PartialOrd, Debug, Default)]
pub struct Inst(pub f64);

pub const COUNT: u8 = 1;
pub const CHAOS: u8 = 2;
pub const FAULT: u8 = 4;
pub const LOG: u8 = 8;
static MODE: AtomicU8 = AtomicU8::new(0);
pub static OPS: AtomicU64 = AtomicU64::new(0);
pub static DELAYS: AtomicU64 = AtomicU64::new(0);
static FAULT_IN: AtomicI64 = AtomicI64::new(0);
static FIRED: AtomicU64 = AtomicU64::new(0);
static LOGBUF: Mutex<Vec<u16>> = Mutex::new(Vec::new());
static CHAOS_DENSITY: AtomicU64 = AtomicU64::new(8);
static NEXT_TID: AtomicU64 = AtomicU64::new(1);
pub const MARK: &str = "injected arithmetic fault";
static PAYLOAD: AtomicU64 = AtomicU64::new(2);
thread_local! {
    static TID: Cell<u64> = const { Cell::new(0) };
    static CRNG: Cell<u64> = const { Cell::new(0) };
}
fn tid() -> u64 {
    TID.with(|t| {
        if t.get() == 0 {
            t.set(NEXT_TID.fetch_add(1, Relaxed));
            CRNG.with(|c| c.set(crate::rng::mix(t.get() ^ 0xC0FFEE)));
        }
        t.get()
    })
}
#[inline(always)]
fn ev() {
    if MODE.load(Relaxed) != 0 {
        slow();
    }
}
#[inline(never)]
fn slow() {
    let m = MODE.load(Relaxed);
    if m & COUNT != 0 {
        OPS.fetch_add(1, Relaxed);
    }
    if m & LOG != 0 {
        let t = tid() as u16;
        let mut l = LOGBUF.lock().unwrap_or_else(|e| e.into_inner());
        if l.len() < 4096 {
            l.push(t);
        }
    }
    if m & CHAOS != 0 {
        tid();
        let z = CRNG.with(|c| {
            let v = crate::rng::mix(c.get());
            c.set(v);
            v
        });
        let d = CHAOS_DENSITY.load(Relaxed);
        match z % (d * 8) {
            0 => {
                DELAYS.fetch_add(1, Relaxed);
                std::thread::sleep(std::time::Duration::from_micros(1 + (z >> 32) % 60));
            }
            1..=3 => {
                DELAYS.fetch_add(1, Relaxed);
                for _ in 0..(z >> 32) % 2000 {
                    std::hint::spin_loop();
                }
            }
            4..=7 => {
                DELAYS.fetch_add(1, Relaxed);
                std::thread::yield_now();
            }
            _ => {}
        }
    }
    if m & FAULT != 0 && FAULT_IN.fetch_sub(1, SeqCst) == 1 {
        // the payload is a string, a literal or neither
        FIRED.fetch_add(1, SeqCst);
        match PAYLOAD.load(SeqCst) {
            0 => std::panic::panic_any(MARK),
            1 => std::panic::panic_any(0u64),
            _ => panic!("{}", MARK),
        }
    }
}
pub fn set_mode(m: u8) {
    MODE.store(m, SeqCst);
}
/// one delay every `d` operations on average
pub fn chaos_density(d: u64) {
    CHAOS_DENSITY.store(d.max(1), SeqCst);
}
/// Runs f with events counted; returns the number of arithmetic operations.
pub fn counted<R>(f: impl FnOnce() -> R) -> (R, u64) {
    OPS.store(0, SeqCst);
    set_mode(COUNT);
    let r = f();
    set_mode(0);
    (r, OPS.load(SeqCst))
}
pub fn arm(nth: u64) {
    FAULT_IN.store(nth as i64, SeqCst);
    FIRED.store(0, SeqCst);
    PAYLOAD.store(crate::rng::mix(nth) % 4, SeqCst);
    set_mode(FAULT);
}
pub fn odd_payload() -> bool {
    PAYLOAD.load(SeqCst) == 1
}
/// Switches faults off and says how many fired.
pub fn disarm() -> u64 {
    set_mode(0);
    FIRED.load(SeqCst)
}
pub fn take_log() -> Vec<u16> {
    std::mem::take(&mut *LOGBUF.lock().unwrap_or_else(|e| e.into_inner()))
}

macro_rules! bin { ($($t:ident $m:ident $ta:ident $ma:ident;)*) => {$(
    impl $t for Inst { type Output = Inst; fn $m(self, o: Inst) -> Inst { ev(); Inst(self.0.$m(o.0)) } }
    impl $ta for Inst { fn $ma(&mut self, o: Inst) { ev(); self.0.$ma(o.0) } }
)*} }
bin! { Add add AddAssign add_assign; Sub sub SubAssign sub_assign; Mul mul MulAssign mul_assign;
Div div DivAssign div_assign; Rem rem RemAssign rem_assign; }
impl Neg for Inst {
    type Output = Inst;
    fn neg(self) -> Inst {
        ev();
        Inst(-self.0)
    }
}
impl std::fmt::Display for Inst {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::iter::Sum for Inst {
    fn sum<I: Iterator<Item = Inst>>(i: I) -> Inst {
        i.fold(Inst(0.0), |a, b| a + b)
    }
}
impl Zero for Inst {
    fn zero() -> Inst {
        Inst(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for Inst {
    fn one() -> Inst {
        Inst(1.0)
    }
}
impl Numeric for Inst {}
impl ToPrimitive for Inst {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
impl NumCast for Inst {
    fn from<T: ToPrimitive>(n: T) -> Option<Inst> {
        n.to_f64().map(Inst)
    }
}
impl Num for Inst {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Inst, Self::FromStrRadixErr> {
        f64::from_str_radix(s, r).map(Inst)
    }
}
macro_rules! un { ($($n:ident)*) => {$( fn $n(self) -> Inst { ev(); Inst(Real::$n(self.0)) } )*} }
macro_rules! bi { ($($n:ident)*) => {$( fn $n(self, o: Inst) -> Inst { ev(); Inst(Real::$n(self.0, o.0)) } )*} }
impl Real for Inst {
    fn min_value() -> Inst {
        Inst(f64::MIN)
    }
    fn max_value() -> Inst {
        Inst(f64::MAX)
    }
    fn min_positive_value() -> Inst {
        Inst(f64::MIN_POSITIVE)
    }
    fn epsilon() -> Inst {
        Inst(f64::EPSILON)
    }
    fn is_sign_positive(self) -> bool {
        self.0.is_sign_positive()
    }
    fn is_sign_negative(self) -> bool {
        self.0.is_sign_negative()
    }
    fn mul_add(self, a: Inst, b: Inst) -> Inst {
        ev();
        Inst(self.0 * a.0 + b.0)
    }
    fn powi(self, n: i32) -> Inst {
        ev();
        Inst(self.0.powi(n))
    }
    fn sin_cos(self) -> (Inst, Inst) {
        let (a, b) = self.0.sin_cos();
        (Inst(a), Inst(b))
    }
    un! { floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 to_degrees to_radians cbrt sin cos tan
    asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh }
    bi! { powf log max min abs_sub hypot atan2 }
}
