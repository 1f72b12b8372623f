//! Exact rational scalar: the real (generic) code of /repo/crates is run with it, so every result
//! can be compared with the mathematical one without any tolerance.  Overflow of the 128-bit
//! numerator/denominator, division by zero and every irrational function give the poison value
//! `NAN` (den = 0), which is equal to nothing; it never enters `==`, so it cannot satisfy an oracle.
use approx::{AbsDiffEq, RelativeEq, UlpsEq};
use mcengine::tick;
use nalgebra::{ComplexField, Field, RealField, SimdValue};
use num_traits::{FromPrimitive, Num, One, Signed, Zero};
use simba::scalar::{SubsetOf, SupersetOf};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::*;

#[derive(Clone, Copy)]
pub struct Rat {
    n: i128,
    d: i128,
}
pub const NAN: Rat = Rat { n: 0, d: 0 };

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        if a <= u64::MAX as u128 && b <= u64::MAX as u128 {
            let (mut x, mut y) = (a as u64, b as u64);
            while y != 0 {
                let t = x % y;
                x = y;
                y = t;
            }
            return x as i128;
        }
        let t = a % b;
        a = b;
        b = t;
    }
    a as i128
}

impl Rat {
    pub fn new(n: i128, d: i128) -> Rat {
        if d == 0 || n == i128::MIN || d == i128::MIN {
            return NAN;
        }
        if d == 1 {
            return Rat { n, d };
        }
        let g = gcd(n, d);
        let s = if d < 0 { -1 } else { 1 };
        Rat { n: s * n / g, d: s * d / g }
    }
    pub fn int(n: i64) -> Rat {
        Rat { n: n as i128, d: 1 }
    }
    pub fn is_nan(&self) -> bool {
        self.d == 0
    }
    pub fn f(&self) -> f64 {
        self.n as f64 / self.d as f64
    }
    /// exact value of a finite double, if it fits
    pub fn from_f64(x: f64) -> Rat {
        if !x.is_finite() {
            return NAN;
        }
        if x == 0.0 {
            return Rat::int(0);
        }
        let (mut m, mut e) = (x, 0i32);
        while m.fract() != 0.0 {
            m *= 2.0;
            e += 1;
            if e > 1100 {
                return NAN;
            }
        }
        if m.abs() >= 1e37 || e > 120 {
            return NAN;
        }
        Rat::new(m as i128, 1i128 << e)
    }
}
fn opt(n: Option<i128>, d: Option<i128>) -> Rat {
    match (n, d) {
        (Some(n), Some(d)) => Rat::new(n, d),
        _ => NAN,
    }
}
impl Add for Rat {
    type Output = Rat;
    fn add(self, o: Rat) -> Rat {
        tick(1);
        if self.d == 1 && o.d == 1 {
            return match self.n.checked_add(o.n) {
                Some(n) => Rat { n, d: 1 },
                None => NAN,
            };
        }
        if self.d == 0 || o.d == 0 {
            return NAN;
        }
        let g = gcd(self.d, o.d);
        let (a, b) = (self.d / g, o.d / g);
        opt(
            self.n.checked_mul(b).and_then(|x| o.n.checked_mul(a).and_then(|y| x.checked_add(y))),
            self.d.checked_mul(b),
        )
    }
}
impl Neg for Rat {
    type Output = Rat;
    fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
}
impl Sub for Rat {
    type Output = Rat;
    fn sub(self, o: Rat) -> Rat {
        self + (-o)
    }
}
impl Mul for Rat {
    type Output = Rat;
    fn mul(self, o: Rat) -> Rat {
        tick(1);
        if self.d == 0 || o.d == 0 {
            return NAN;
        }
        let (g, h) = (gcd(self.n, o.d).max(1), gcd(o.n, self.d).max(1));
        let n = (self.n / g).checked_mul(o.n / h);
        let d = (self.d / h).checked_mul(o.d / g);
        match (n, d) {
            (Some(n), Some(d)) => Rat { n, d },
            _ => NAN,
        }
    }
}
impl Div for Rat {
    type Output = Rat;
    fn div(self, o: Rat) -> Rat {
        if o.n == 0 || o.d == 0 {
            return NAN;
        }
        let r = if o.n < 0 { Rat { n: -o.d, d: -o.n } } else { Rat { n: o.d, d: o.n } };
        self * r
    }
}
impl Rem for Rat {
    type Output = Rat;
    fn rem(self, _: Rat) -> Rat {
        NAN
    }
}
macro_rules! asg {($($t:ident $f:ident $op:tt),*) => {$(impl $t for Rat { fn $f(&mut self, o: Rat) { *self = *self $op o; } })*}}
asg!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /, RemAssign rem_assign %);

impl PartialEq for Rat {
    fn eq(&self, o: &Rat) -> bool {
        self.d != 0 && o.d != 0 && self.n == o.n && self.d == o.d
    }
}
impl PartialOrd for Rat {
    fn partial_cmp(&self, o: &Rat) -> Option<Ordering> {
        if self.d == 0 || o.d == 0 {
            return None;
        }
        if self.d == o.d {
            return self.n.partial_cmp(&o.n);
        }
        match (self.n.checked_mul(o.d), o.n.checked_mul(self.d)) {
            (Some(a), Some(b)) => a.partial_cmp(&b),
            _ => self.f().partial_cmp(&o.f()),
        }
    }
}
impl Hash for Rat {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_i128(self.n);
        h.write_i128(self.d);
    }
}
impl fmt::Display for Rat {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.d == 0 {
            write!(f, "nan")
        } else if self.d == 1 {
            write!(f, "{}", self.n)
        } else {
            write!(f, "{}/{}", self.n, self.d)
        }
    }
}
impl fmt::Debug for Rat {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl Zero for Rat {
    fn zero() -> Rat {
        Rat::int(0)
    }
    fn is_zero(&self) -> bool {
        self.n == 0 && self.d != 0
    }
}
impl One for Rat {
    fn one() -> Rat {
        Rat::int(1)
    }
}
impl Num for Rat {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Rat, ()> {
        Err(())
    }
}
impl Signed for Rat {
    fn abs(&self) -> Rat {
        Rat { n: self.n.abs(), d: self.d }
    }
    fn abs_sub(&self, o: &Rat) -> Rat {
        let x = *self - *o;
        if x.n < 0 { Rat::int(0) } else { x }
    }
    fn signum(&self) -> Rat {
        if self.d == 0 { NAN } else { Rat::int(self.n.signum() as i64) }
    }
    fn is_positive(&self) -> bool {
        self.n > 0
    }
    fn is_negative(&self) -> bool {
        self.n < 0
    }
}
impl From<u32> for Rat {
    fn from(x: u32) -> Rat {
        Rat::int(x as i64)
    }
}
impl From<f64> for Rat {
    fn from(x: f64) -> Rat {
        Rat::from_f64(x)
    }
}
impl std::iter::Sum for Rat {
    fn sum<I: Iterator<Item = Rat>>(i: I) -> Rat {
        i.fold(Rat::int(0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Rat> for Rat {
    fn sum<I: Iterator<Item = &'a Rat>>(i: I) -> Rat {
        i.fold(Rat::int(0), |a, b| a + *b)
    }
}
impl FromPrimitive for Rat {
    fn from_i64(n: i64) -> Option<Rat> {
        Some(Rat::int(n))
    }
    fn from_u64(n: u64) -> Option<Rat> {
        Some(Rat { n: n as i128, d: 1 })
    }
    fn from_f64(n: f64) -> Option<Rat> {
        Some(Rat::from_f64(n))
    }
}
impl AbsDiffEq for Rat {
    type Epsilon = Rat;
    fn default_epsilon() -> Rat {
        Rat { n: 1, d: 1 << 52 }
    }
    fn abs_diff_eq(&self, o: &Rat, e: Rat) -> bool {
        Signed::abs(&(*self - *o)) <= e
    }
}
impl RelativeEq for Rat {
    fn default_max_relative() -> Rat {
        Rat { n: 1, d: 1 << 52 }
    }
    fn relative_eq(&self, o: &Rat, e: Rat, r: Rat) -> bool {
        let d = Signed::abs(&(*self - *o));
        d <= e || d <= RealField::max(Signed::abs(self), Signed::abs(o)) * r
    }
}
impl UlpsEq for Rat {
    fn default_max_ulps() -> u32 {
        4
    }
    fn ulps_eq(&self, o: &Rat, e: Rat, _: u32) -> bool {
        RelativeEq::relative_eq(self, o, e, Rat { n: 1, d: 1 << 50 })
    }
}
impl SimdValue for Rat {
    type Element = Rat;
    type SimdBool = bool;
    fn lanes() -> usize {
        1
    }
    fn splat(v: Rat) -> Rat {
        v
    }
    fn extract(&self, _: usize) -> Rat {
        *self
    }
    unsafe fn extract_unchecked(&self, _: usize) -> Rat {
        *self
    }
    fn replace(&mut self, _: usize, v: Rat) {
        *self = v
    }
    unsafe fn replace_unchecked(&mut self, _: usize, v: Rat) {
        *self = v
    }
    fn select(self, c: bool, o: Rat) -> Rat {
        if c { self } else { o }
    }
}
impl Field for Rat {}
impl SubsetOf<Rat> for Rat {
    fn to_superset(&self) -> Rat {
        *self
    }
    fn from_superset_unchecked(e: &Rat) -> Rat {
        *e
    }
    fn is_in_subset(_: &Rat) -> bool {
        true
    }
}
macro_rules! sup {($($t:ty),*) => {$(impl SupersetOf<$t> for Rat {
    fn is_in_subset(&self) -> bool { true }
    fn to_subset_unchecked(&self) -> $t { self.f() as $t }
    fn from_subset(e: &$t) -> Rat { Rat::from_f64(*e as f64) }
})*}}
sup!(f32, f64);

macro_rules! irr {($($f:ident),*) => {$(fn $f(self) -> Rat { NAN })*}}
impl ComplexField for Rat {
    type RealField = Rat;
    fn from_real(r: Rat) -> Rat {
        r
    }
    fn real(self) -> Rat {
        self
    }
    fn imaginary(self) -> Rat {
        Rat::int(0)
    }
    fn modulus(self) -> Rat {
        Signed::abs(&self)
    }
    fn modulus_squared(self) -> Rat {
        self * self
    }
    fn argument(self) -> Rat {
        NAN
    }
    fn norm1(self) -> Rat {
        Signed::abs(&self)
    }
    fn scale(self, f: Rat) -> Rat {
        self * f
    }
    fn unscale(self, f: Rat) -> Rat {
        self / f
    }
    fn floor(self) -> Rat {
        if self.d == 0 { NAN } else { Rat { n: self.n.div_euclid(self.d), d: 1 } }
    }
    fn ceil(self) -> Rat {
        -ComplexField::floor(-self)
    }
    fn round(self) -> Rat {
        ComplexField::floor(self + Rat::new(1, 2))
    }
    fn trunc(self) -> Rat {
        if self.d == 0 { NAN } else { Rat { n: self.n / self.d, d: 1 } }
    }
    fn fract(self) -> Rat {
        self - ComplexField::trunc(self)
    }
    fn mul_add(self, a: Rat, b: Rat) -> Rat {
        self * a + b
    }
    fn abs(self) -> Rat {
        Signed::abs(&self)
    }
    fn hypot(self, o: Rat) -> Rat {
        ComplexField::sqrt(self * self + o * o)
    }
    fn recip(self) -> Rat {
        Rat::int(1) / self
    }
    fn conjugate(self) -> Rat {
        self
    }
    fn sin_cos(self) -> (Rat, Rat) {
        (NAN, NAN)
    }
    fn sinh_cosh(self) -> (Rat, Rat) {
        (NAN, NAN)
    }
    irr!(sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh, log2, log10, ln, ln_1p, exp, exp2, exp_m1, cbrt);
    fn log(self, _: Rat) -> Rat {
        NAN
    }
    fn sqrt(self) -> Rat {
        fn isq(x: i128) -> Option<i128> {
            if x < 0 {
                return None;
            }
            let mut r = (x as f64).sqrt() as i128;
            while r * r > x {
                r -= 1;
            }
            while (r + 1) * (r + 1) <= x {
                r += 1;
            }
            if r * r == x { Some(r) } else { None }
        }
        match (isq(self.n), isq(self.d)) {
            (Some(n), Some(d)) if d != 0 => Rat { n, d },
            _ => NAN,
        }
    }
    fn try_sqrt(self) -> Option<Rat> {
        Some(ComplexField::sqrt(self))
    }
    fn powi(self, n: i32) -> Rat {
        let mut r = Rat::int(1);
        for _ in 0..n.unsigned_abs() {
            r *= self;
        }
        if n < 0 { Rat::int(1) / r } else { r }
    }
    fn powf(self, n: Rat) -> Rat {
        if n.d == 1 && n.n.abs() < 64 {
            ComplexField::powi(self, n.n as i32)
        } else if n == Rat::new(1, 2) {
            ComplexField::sqrt(self)
        } else {
            NAN
        }
    }
    fn powc(self, n: Rat) -> Rat {
        ComplexField::powf(self, n)
    }
    fn is_finite(&self) -> bool {
        self.d != 0
    }
}
macro_rules! cst {($($f:ident),*) => {$(fn $f() -> Rat { NAN })*}}
impl RealField for Rat {
    fn is_sign_positive(&self) -> bool {
        self.n >= 0
    }
    fn is_sign_negative(&self) -> bool {
        self.n < 0
    }
    fn copysign(self, s: Rat) -> Rat {
        let a = Signed::abs(&self);
        if s.n < 0 { -a } else { a }
    }
    fn max(self, o: Rat) -> Rat {
        if self.d == 0 || o > self { o } else { self }
    }
    fn min(self, o: Rat) -> Rat {
        if self.d == 0 || o < self { o } else { self }
    }
    fn clamp(self, a: Rat, b: Rat) -> Rat {
        RealField::min(RealField::max(self, a), b)
    }
    fn atan2(self, _: Rat) -> Rat {
        NAN
    }
    fn min_value() -> Option<Rat> {
        Some(Rat { n: -(i128::MAX), d: 1 })
    }
    fn max_value() -> Option<Rat> {
        Some(Rat { n: i128::MAX, d: 1 })
    }
    cst!(pi, two_pi, frac_pi_2, frac_pi_3, frac_pi_4, frac_pi_6, frac_pi_8, frac_1_pi, frac_2_pi, frac_2_sqrt_pi, e, log2_e, log10_e, ln_2, ln_10);
}
