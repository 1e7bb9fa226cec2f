//! The prime field GF(P) as a scalar type of the library.
//!
//! For P = 35279 (P % 8 == 7, P + 1 = 720 * 49, 2..23 are squares) the field also has an exact
//! trigonometry: (576, 12637) generates the circle group of order 720, so the angle k * DELTA
//! (k half-degrees) has exact cosine and sine. "Positive" means "non-zero square".
//! Whatever has no exact meaning reports `unsup()`; the recorder then only loads the result.
use crate::rec::{unsup, J};
use num_traits::{Float, FloatConst, Inv, Num, NumCast, One, ToPrimitive, Zero};
use std::{cmp::Ordering, num::FpCategory, ops::*};

pub const BIG: u32 = 35279;
/// field element standing for half a degree in radians
pub const DELTA: u32 = 24683;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct G<const P: u32>(pub u32);
pub type GB = G<BIG>;

impl<const P: u32> G<P> {
    pub fn new(v: i64) -> Self { G(v.rem_euclid(P as i64) as u32) }
    pub fn pw(self, mut e: u32) -> Self {
        let (mut b, mut r) = (self.0 as u64, 1u64);
        while e > 0 {
            if e & 1 == 1 {
                r = r * b % P as u64;
            }
            b = b * b % P as u64;
            e >>= 1;
        }
        G(r as u32)
    }
    pub fn is_square(self) -> bool { self.0 == 0 || self.pw((P - 1) / 2).0 == 1 }
    /// the square root that is itself a square
    pub fn root(self) -> Option<Self> {
        if P % 4 != 3 {
            return None;
        }
        let r = self.pw((P + 1) / 4);
        if r * r == self { Some(r) } else { None }
    }
}
impl<const P: u32> J for G<P> {
    fn j(&self, o: &mut String) { self.0.j(o) }
}
impl<const P: u32> std::fmt::Display for G<P> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl<const P: u32> std::iter::Sum for G<P> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(G(0), |a, b| a + b) } }
impl<const P: u32> std::iter::Product for G<P> { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(G(1 % P), |a, b| a * b) } }
impl<const P: u32> Add for G<P> { type Output = Self; fn add(self, b: Self) -> Self { G((self.0 + b.0) % P) } }
impl<const P: u32> Sub for G<P> { type Output = Self; fn sub(self, b: Self) -> Self { G((self.0 + P - b.0) % P) } }
impl<const P: u32> Mul for G<P> { type Output = Self; fn mul(self, b: Self) -> Self { G((self.0 as u64 * b.0 as u64 % P as u64) as u32) } }
impl<const P: u32> Div for G<P> {
    type Output = Self;
    fn div(self, b: Self) -> Self {
        if b.0 == 0 {
            unsup();
            return G(0);
        }
        self * b.pw(P - 2)
    }
}
impl<const P: u32> Rem for G<P> { type Output = Self; fn rem(self, b: Self) -> Self { if b.0 == 0 { unsup(); } G(0) } }
impl<const P: u32> Neg for G<P> { type Output = Self; fn neg(self) -> Self { G((P - self.0) % P) } }
macro_rules! asg { ($($Tr:ident $f:ident $op:tt;)*) => {$(
    impl<const P: u32> $Tr for G<P> { fn $f(&mut self, b: Self) { *self = *self $op b; } }
)*} }
asg! { AddAssign add_assign +; SubAssign sub_assign -; MulAssign mul_assign *; DivAssign div_assign /; RemAssign rem_assign %; }
impl<const P: u32> Zero for G<P> { fn zero() -> Self { G(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl<const P: u32> One for G<P> { fn one() -> Self { G(1 % P) } }
impl<const P: u32> Inv for G<P> { type Output = Self; fn inv(self) -> Self { G(1) / self } }
impl<const P: u32> Num for G<P> {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, ()> { i64::from_str_radix(s, radix).map(Self::new).map_err(|_| ()) }
}
impl<const P: u32> ToPrimitive for G<P> {
    fn to_i64(&self) -> Option<i64> { unsup(); None }
    fn to_u64(&self) -> Option<u64> { unsup(); None }
    fn to_f64(&self) -> Option<f64> { unsup(); None }
}
impl<const P: u32> NumCast for G<P> {
    fn from<N: ToPrimitive>(n: N) -> Option<Self> {
        let f = n.to_f64()?;
        // dyadic rationals only
        let (mut v, mut d) = (f, 1i64);
        for _ in 0..12 {
            if v == v.trunc() {
                break;
            }
            v *= 2.0;
            d *= 2;
        }
        if v != v.trunc() || v.abs() > 1e15 {
            unsup();
            return Some(G(0));
        }
        Some(Self::new(v as i64) / Self::new(d))
    }
}
/// a < b iff b - a is a non-zero square: right for small integers, trichotomous, not transitive.
impl<const P: u32> PartialOrd for G<P> {
    fn partial_cmp(&self, b: &Self) -> Option<Ordering> {
        Some(if self == b {
            Ordering::Equal
        } else if (*b - *self).is_square() {
            Ordering::Less
        } else {
            Ordering::Greater
        })
    }
}
impl<const P: u32> vecmat::traits::NormL1 for G<P> { type Output = Self; fn norm_l1(self) -> Self { Float::abs(self) } }
impl<const P: u32> vecmat::traits::NormLInf for G<P> { type Output = Self; fn norm_l_inf(self) -> Self { Float::abs(self) } }
impl<const P: u32> vecmat::traits::Dot for G<P> { type Output = Self; fn dot(self, o: Self) -> Self { self * o } }
impl<const P: u32> vecmat::traits::Conj for G<P> { fn conj(self) -> Self { self } }
impl<const P: u32> vecmat::traits::Epsilon for G<P> { fn is_epsilon(&self) -> bool { self.0 == 0 } }
impl<const P: u32> approx::AbsDiffEq for G<P> {
    type Epsilon = Self;
    fn default_epsilon() -> Self { G(0) }
    fn abs_diff_eq(&self, o: &Self, _: Self) -> bool { self == o }
}

struct Trig {
    cs: Vec<(u32, u32)>,
    ang: std::collections::HashMap<u32, i32>,
    pos: std::collections::HashMap<(u32, u32), i32>,
}
fn trig() -> &'static Trig {
    static T: std::sync::OnceLock<Trig> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let (c, s) = (GB::new(576), GB::new(12637));
        let (mut x, mut y) = (GB::new(1), GB::new(0));
        let mut t = Trig { cs: vec![], ang: Default::default(), pos: Default::default() };
        for k in 0..720 {
            t.cs.push((x.0, y.0));
            t.pos.insert((x.0, y.0), if k <= 360 { k } else { k - 720 });
            (x, y) = (x * c - y * s, x * s + y * c);
        }
        assert!(x.0 == 1 && y.0 == 0);
        for k in -3000i32..=3000 {
            let e = GB::new(k as i64) * G(DELTA);
            assert!(t.ang.insert(e.0, k).is_none());
        }
        t
    })
}
/// the angle of k half-degrees
pub fn angle(k: i32) -> GB { GB::new(k as i64) * G(DELTA) }
pub fn cos_sin(k: i32) -> (GB, GB) {
    let (c, s) = trig().cs[k.rem_euclid(720) as usize];
    (G(c), G(s))
}
pub fn angle_index(g: GB) -> Option<i32> { trig().ang.get(&g.0).copied() }

macro_rules! uns { ($($f:ident)*) => {$( fn $f(self) -> Self { unsup(); G(0) } )*} }
impl<const P: u32> G<P> {
    fn cs(self) -> (Self, Self) {
        if P != BIG {
            unsup();
            return (G(0), G(0));
        }
        match trig().ang.get(&self.0) {
            Some(&k) => {
                let (c, s) = cos_sin(k);
                (G(c.0), G(s.0))
            }
            None => {
                unsup();
                (G(0), G(0))
            }
        }
    }
}
impl<const P: u32> Float for G<P> {
    fn nan() -> Self { unsup(); G(0) }
    fn infinity() -> Self { unsup(); G(0) }
    fn neg_infinity() -> Self { unsup(); G(0) }
    fn neg_zero() -> Self { G(0) }
    fn min_value() -> Self { unsup(); G(0) }
    fn min_positive_value() -> Self { unsup(); G(0) }
    fn max_value() -> Self { unsup(); G(0) }
    fn epsilon() -> Self { G(0) }
    fn is_nan(self) -> bool { false }
    fn is_infinite(self) -> bool { false }
    fn is_finite(self) -> bool { true }
    fn is_normal(self) -> bool { self.0 != 0 }
    fn classify(self) -> FpCategory { if self.0 == 0 { FpCategory::Zero } else { FpCategory::Normal } }
    uns! { floor ceil round trunc fract exp exp2 ln log2 log10 exp_m1 ln_1p sinh cosh tanh asinh acosh atanh asin acos atan to_degrees to_radians }
    fn abs(self) -> Self { if self.is_square() { self } else { -self } }
    fn signum(self) -> Self { if self.0 == 0 || self.is_square() { G(1) } else { -G(1) } }
    fn is_sign_positive(self) -> bool { self.is_square() }
    fn is_sign_negative(self) -> bool { !self.is_square() }
    fn mul_add(self, a: Self, b: Self) -> Self { self * a + b }
    fn recip(self) -> Self { G(1) / self }
    fn powi(self, n: i32) -> Self { if n < 0 { (G(1) / self).pw(n.unsigned_abs()) } else { self.pw(n as u32) } }
    fn powf(self, _: Self) -> Self { unsup(); G(0) }
    fn log(self, _: Self) -> Self { unsup(); G(0) }
    fn sqrt(self) -> Self {
        match self.root() {
            Some(r) => r,
            None => {
                unsup();
                G(0)
            }
        }
    }
    fn cbrt(self) -> Self { unsup(); G(0) }
    fn max(self, o: Self) -> Self { if self < o { o } else { self } }
    fn min(self, o: Self) -> Self { if self < o { self } else { o } }
    fn abs_sub(self, o: Self) -> Self { if self <= o { G(0) } else { self - o } }
    fn hypot(self, o: Self) -> Self { (self * self + o * o).sqrt() }
    fn sin(self) -> Self { self.cs().1 }
    fn cos(self) -> Self { self.cs().0 }
    fn tan(self) -> Self { let (c, s) = self.cs(); s / c }
    fn sin_cos(self) -> (Self, Self) { let (c, s) = self.cs(); (s, c) }
    fn atan2(self, x: Self) -> Self {
        if P != BIG {
            unsup();
            return G(0);
        }
        let h = (self * self + x * x).root();
        match h {
            Some(h) if h.0 != 0 => match trig().pos.get(&((x / h).0, (self / h).0)) {
                Some(&k) => G(angle(k).0),
                None => { unsup(); G(0) }
            },
            _ => { unsup(); G(0) }
        }
    }
    fn integer_decode(self) -> (u64, i16, i8) { unsup(); (0, 0, 0) }
}
macro_rules! unc { ($($f:ident)*) => {$( fn $f() -> Self { unsup(); G(0) } )*} }
impl<const P: u32> FloatConst for G<P> {
    fn PI() -> Self { G(angle(360).0) }
    fn TAU() -> Self { G(angle(720).0) }
    fn FRAC_PI_2() -> Self { G(angle(180).0) }
    fn FRAC_PI_3() -> Self { G(angle(120).0) }
    fn FRAC_PI_4() -> Self { G(angle(90).0) }
    fn FRAC_PI_6() -> Self { G(angle(60).0) }
    fn FRAC_PI_8() -> Self { G(angle(45).0) }
    fn SQRT_2() -> Self { G(2).sqrt() }
    fn FRAC_1_SQRT_2() -> Self { G(1) / G(2).sqrt() }
    unc! { E FRAC_1_PI FRAC_2_PI FRAC_2_SQRT_PI LN_10 LN_2 LOG10_E LOG2_E }
}
