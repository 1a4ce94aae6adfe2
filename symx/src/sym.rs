//! The symbolic scalar: a handle into the engine's arena that implements everything the code
//! under test asks of a coordinate type.
use crate::engine::{cx, unsupported};
use crate::int::Rat;
use crate::z3::{NEG, POS, ZERO};
use float_next_after::NextAfter;
use geo::kernels::{HasKernel, Kernel, Orientation};
use geo::Coordinate;
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct Sym(pub u32);

const CMP3: [u8; 3] = [NEG, ZERO, POS];

pub fn k(r: Rat) -> Sym {
    Sym(cx().cst(r))
}
pub fn ki(v: i64) -> Sym {
    k(Rat::int(v))
}

impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&cx().show(self.0))
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&cx().show(self.0))
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        cx().compare(self.0, o.0, &[ZERO, NEG | POS]) == Some(0)
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        cx().compare(self.0, o.0, &CMP3).map(|i| [Ordering::Less, Ordering::Equal, Ordering::Greater][i])
    }
    fn lt(&self, o: &Sym) -> bool {
        cx().compare(self.0, o.0, &[NEG, ZERO | POS]) == Some(0)
    }
    fn le(&self, o: &Sym) -> bool {
        cx().compare(self.0, o.0, &[NEG | ZERO, POS]) == Some(0)
    }
    fn gt(&self, o: &Sym) -> bool {
        cx().compare(self.0, o.0, &[POS, ZERO | NEG]) == Some(0)
    }
    fn ge(&self, o: &Sym) -> bool {
        cx().compare(self.0, o.0, &[POS | ZERO, NEG]) == Some(0)
    }
}
impl Add for Sym {
    type Output = Sym;
    fn add(self, o: Sym) -> Sym {
        Sym(cx().addsub(self.0, o.0, false))
    }
}
impl Sub for Sym {
    type Output = Sym;
    fn sub(self, o: Sym) -> Sym {
        Sym(cx().addsub(self.0, o.0, true))
    }
}
impl Mul for Sym {
    type Output = Sym;
    fn mul(self, o: Sym) -> Sym {
        Sym(cx().mul(self.0, o.0))
    }
}
impl Div for Sym {
    type Output = Sym;
    fn div(self, o: Sym) -> Sym {
        Sym(cx().div(self.0, o.0))
    }
}
impl Rem for Sym {
    type Output = Sym;
    fn rem(self, o: Sym) -> Sym {
        let q = (self / o).trunc();
        self - q * o
    }
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        Sym(cx().neg(self.0))
    }
}
macro_rules! assign {
    ($($t:ident $f:ident $o:tt),*) => {$(impl $t for Sym { fn $f(&mut self, o: Sym) { *self = *self $o o; } })*};
}
assign!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /);
impl RemAssign for Sym {
    fn rem_assign(&mut self, o: Sym) {
        *self = *self % o;
    }
}
// What `f64` offers beyond the bounds of today's API.
impl Default for Sym {
    fn default() -> Sym {
        ki(0)
    }
}
impl num_traits::Bounded for Sym {
    fn min_value() -> Sym {
        <Sym as Float>::min_value()
    }
    fn max_value() -> Sym {
        <Sym as Float>::max_value()
    }
}
impl num_traits::Signed for Sym {
    fn abs(&self) -> Sym {
        Float::abs(*self)
    }
    fn abs_sub(&self, o: &Sym) -> Sym {
        #[allow(deprecated)]
        Float::abs_sub(*self, *o)
    }
    fn signum(&self) -> Sym {
        Float::signum(*self)
    }
    fn is_positive(&self) -> bool {
        *self > ki(0)
    }
    fn is_negative(&self) -> bool {
        *self < ki(0)
    }
}
impl num_traits::FromPrimitive for Sym {
    fn from_i64(n: i64) -> Option<Sym> {
        Some(ki(n))
    }
    fn from_u64(n: u64) -> Option<Sym> {
        i64::try_from(n).ok().map(ki)
    }
    fn from_f64(n: f64) -> Option<Sym> {
        <Sym as NumCast>::from(n)
    }
}
macro_rules! from {
    ($($t:ty),*) => {$(impl From<$t> for Sym { fn from(v: $t) -> Sym { <Sym as NumCast>::from(v).unwrap() } })*};
}
from!(i8, u8, i16, u16, i32, u32, f32, f64);
impl From<Sym> for f64 {
    fn from(s: Sym) -> f64 {
        boxed(s)
    }
}
impl std::iter::Product for Sym {
    fn product<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(ki(1), |a, b| a * b)
    }
}
impl<'a> std::iter::Sum<&'a Sym> for Sym {
    fn sum<I: Iterator<Item = &'a Sym>>(it: I) -> Sym {
        it.fold(ki(0), |a, b| a + *b)
    }
}
impl std::iter::Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(ki(0), |a, b| a + b)
    }
}
impl Zero for Sym {
    fn zero() -> Sym {
        ki(0)
    }
    fn is_zero(&self) -> bool {
        *self == ki(0)
    }
}
impl One for Sym {
    fn one() -> Sym {
        ki(1)
    }
}
impl Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, _r: u32) -> Result<Sym, ()> {
        Rat::parse(s).map(k).ok_or(())
    }
}
/// A symbolic value travels through `f64` as a tagged NaN.
pub fn boxed(s: Sym) -> f64 {
    f64::from_bits(robust::SYMX_TAG | s.0 as u64)
}
pub fn unboxed(v: f64) -> Option<Sym> {
    if v.to_bits() >> 32 == robust::SYMX_TAG >> 32 {
        Some(Sym(v.to_bits() as u32))
    } else {
        None
    }
}
impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        self.trunc().cst().and_then(|c| c.floor().to_i64())
    }
    fn to_u64(&self) -> Option<u64> {
        self.to_i64().and_then(|v| u64::try_from(v).ok())
    }
    fn to_f64(&self) -> Option<f64> {
        Some(boxed(*self))
    }
    fn to_f32(&self) -> Option<f32> {
        unsupported("to_f32")
    }
}
impl NumCast for Sym {
    fn from<N: ToPrimitive>(n: N) -> Option<Sym> {
        let f = n.to_f64()?;
        if let Some(s) = unboxed(f) {
            return Some(s);
        }
        Some(if f.is_nan() {
            Sym(cx().nan())
        } else if f.is_infinite() {
            Sym(cx().inf(f < 0.0))
        } else {
            k(Rat::from_f64(f)?)
        })
    }
}
impl Sym {
    fn kind(&self) -> u8 {
        match &cx().vals[self.0 as usize] {
            crate::engine::Val::Nan => 0,
            crate::engine::Val::Inf(false) => 1,
            crate::engine::Val::Inf(true) => 2,
            _ => 3,
        }
    }
    pub fn cst(&self) -> Option<Rat> {
        cx().as_const(self.0)
    }
}
impl Float for Sym {
    fn nan() -> Self {
        Sym(cx().nan())
    }
    fn infinity() -> Self {
        Sym(cx().inf(false))
    }
    fn neg_infinity() -> Self {
        Sym(cx().inf(true))
    }
    fn neg_zero() -> Self {
        ki(0)
    }
    fn min_value() -> Self {
        k(Rat::from_f64(f64::MIN).unwrap())
    }
    fn min_positive_value() -> Self {
        k(Rat::from_f64(f64::MIN_POSITIVE).unwrap())
    }
    fn epsilon() -> Self {
        k(Rat::from_f64(f64::EPSILON).unwrap())
    }
    fn max_value() -> Self {
        k(Rat::from_f64(f64::MAX).unwrap())
    }
    fn is_nan(self) -> bool {
        self.kind() == 0
    }
    fn is_infinite(self) -> bool {
        matches!(self.kind(), 1 | 2)
    }
    fn is_finite(self) -> bool {
        self.kind() == 3
    }
    fn is_normal(self) -> bool {
        self.kind() == 3 && !self.is_zero()
    }
    fn classify(self) -> std::num::FpCategory {
        match self.kind() {
            0 => std::num::FpCategory::Nan,
            1 | 2 => std::num::FpCategory::Infinite,
            _ if self.is_zero() => std::num::FpCategory::Zero,
            _ => std::num::FpCategory::Normal,
        }
    }
    fn floor(self) -> Self {
        Sym(cx().floor(self.0))
    }
    fn ceil(self) -> Self {
        -(-self).floor()
    }
    fn round(self) -> Self {
        let h = k(Rat::frac(1, 2));
        if self < ki(0) {
            -((-self + h).floor())
        } else {
            (self + h).floor()
        }
    }
    fn trunc(self) -> Self {
        if self.kind() != 3 {
            return self;
        }
        if self < ki(0) {
            self.ceil()
        } else {
            self.floor()
        }
    }
    fn fract(self) -> Self {
        self - self.trunc()
    }
    fn abs(self) -> Self {
        if self < ki(0) {
            -self
        } else {
            self
        }
    }
    fn signum(self) -> Self {
        if self < ki(0) {
            ki(-1)
        } else {
            ki(1)
        }
    }
    fn is_sign_positive(self) -> bool {
        self >= ki(0)
    }
    fn is_sign_negative(self) -> bool {
        self < ki(0)
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        self * a + b
    }
    fn recip(self) -> Self {
        ki(1) / self
    }
    fn powi(self, n: i32) -> Self {
        let mut r = ki(1);
        for _ in 0..n.abs() {
            r = r * self;
        }
        if n < 0 {
            r.recip()
        } else {
            r
        }
    }
    fn powf(self, _n: Self) -> Self {
        unsupported("powf")
    }
    fn sqrt(self) -> Self {
        Sym(cx().sqrt(self.0))
    }
    fn exp(self) -> Self {
        unsupported("exp")
    }
    fn exp2(self) -> Self {
        unsupported("exp2")
    }
    fn ln(self) -> Self {
        unsupported("ln")
    }
    fn log(self, _b: Self) -> Self {
        unsupported("log")
    }
    fn log2(self) -> Self {
        unsupported("log2")
    }
    fn log10(self) -> Self {
        unsupported("log10")
    }
    fn max(self, o: Self) -> Self {
        if self.is_nan() {
            return o;
        }
        if o.is_nan() {
            return self;
        }
        if self < o {
            o
        } else {
            self
        }
    }
    fn min(self, o: Self) -> Self {
        if self.is_nan() {
            return o;
        }
        if o.is_nan() {
            return self;
        }
        if o < self {
            o
        } else {
            self
        }
    }
    #[allow(deprecated)]
    fn abs_sub(self, o: Self) -> Self {
        if self <= o {
            ki(0)
        } else {
            self - o
        }
    }
    fn cbrt(self) -> Self {
        unsupported("cbrt")
    }
    fn hypot(self, o: Self) -> Self {
        (self * self + o * o).sqrt()
    }
    fn sin(self) -> Self {
        unsupported("sin")
    }
    fn cos(self) -> Self {
        unsupported("cos")
    }
    fn tan(self) -> Self {
        unsupported("tan")
    }
    fn asin(self) -> Self {
        unsupported("asin")
    }
    fn acos(self) -> Self {
        unsupported("acos")
    }
    fn atan(self) -> Self {
        unsupported("atan")
    }
    fn atan2(self, _o: Self) -> Self {
        unsupported("atan2")
    }
    fn sin_cos(self) -> (Self, Self) {
        unsupported("sin_cos")
    }
    fn exp_m1(self) -> Self {
        unsupported("exp_m1")
    }
    fn ln_1p(self) -> Self {
        unsupported("ln_1p")
    }
    fn sinh(self) -> Self {
        unsupported("sinh")
    }
    fn cosh(self) -> Self {
        unsupported("cosh")
    }
    fn tanh(self) -> Self {
        unsupported("tanh")
    }
    fn asinh(self) -> Self {
        unsupported("asinh")
    }
    fn acosh(self) -> Self {
        unsupported("acosh")
    }
    fn atanh(self) -> Self {
        unsupported("atanh")
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        unsupported("integer_decode")
    }
}
/// The neighbouring representable number is modelled as a tiny exact step (2^-60) and noted.
impl NextAfter<Sym> for Sym {
    fn next_after(self, y: Sym) -> Sym {
        let c = cx();
        c.nudged = true;
        let t = k(Rat::new(crate::int::Int::ONE, crate::int::Int::from(2).pow_big(60)));
        if y > self {
            self + t
        } else if y < self {
            self - t
        } else {
            self
        }
    }
}

pub struct SymKernel;
impl Kernel<Sym> for SymKernel {
    fn orient2d(p: Coordinate<Sym>, q: Coordinate<Sym>, r: Coordinate<Sym>) -> Orientation {
        match cx().orient([p.x.0, p.y.0, q.x.0, q.y.0, r.x.0, r.y.0]) {
            1 => Orientation::CounterClockwise,
            -1 => Orientation::Clockwise,
            _ => Orientation::Collinear,
        }
    }
}
impl HasKernel for Sym {
    type Ker = SymKernel;
}
fn orient_hook(c: [f64; 6]) -> f64 {
    if c.iter().any(|v| crate::fp::is_boxed(*v)) {
        return crate::fp::orient_hook(c);
    }
    let mut h = [0u32; 6];
    for i in 0..6 {
        h[i] = match unboxed(c[i]) {
            Some(s) => s.0,
            None => match Rat::from_f64(c[i]) {
                Some(r) => cx().cst(r),
                None => return f64::NAN,
            },
        };
    }
    cx().orient(h) as f64
}
pub fn install() {
    let _ = robust::SYMX_ORIENT2D.set(orient_hook);
}
