//! A float of our own: ordinary arithmetic, an epsilon of 4, and scripted normal draws.
use crate::rec::J;
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use rand_::{distributions::Distribution, Rng as RandRng, RngCore};
use std::{cell::RefCell, num::FpCategory, ops::*};

pub const W_EPS: f64 = 4.0;
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug, Default)]
pub struct W(pub f64);
impl J for W { fn j(&self, o: &mut String) { self.0.j(o) } }
macro_rules! bin { ($($Tr:ident $f:ident $TrA:ident $fa:ident;)*) => {$(
    impl $Tr for W { type Output = W; fn $f(self, b: W) -> W { W(self.0.$f(b.0)) } }
    impl $TrA for W { fn $fa(&mut self, b: W) { *self = self.$f(b) } }
)*} }
bin! { Add add AddAssign add_assign; Sub sub SubAssign sub_assign; Mul mul MulAssign mul_assign; Div div DivAssign div_assign; Rem rem RemAssign rem_assign; }
impl Neg for W { type Output = W; fn neg(self) -> W { W(-self.0) } }
impl Zero for W { fn zero() -> W { W(0.0) } fn is_zero(&self) -> bool { self.0 == 0.0 } }
impl One for W { fn one() -> W { W(1.0) } }
impl Num for W { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<W, ()> { Err(()) } }
impl ToPrimitive for W {
    fn to_i64(&self) -> Option<i64> { self.0.to_i64() }
    fn to_u64(&self) -> Option<u64> { self.0.to_u64() }
    fn to_f64(&self) -> Option<f64> { Some(self.0) }
}
impl NumCast for W { fn from<T: ToPrimitive>(n: T) -> Option<W> { n.to_f64().map(W) } }
macro_rules! un { ($($f:ident)*) => {$( fn $f(self) -> W { W(self.0.$f()) } )*} }
macro_rules! two { ($($f:ident)*) => {$( fn $f(self, b: W) -> W { W(self.0.$f(b.0)) } )*} }
macro_rules! cst { ($($f:ident $e:expr;)*) => {$( fn $f() -> W { W($e) } )*} }
macro_rules! is { ($($f:ident)*) => {$( fn $f(self) -> bool { self.0.$f() } )*} }
impl Float for W {
    cst! { nan f64::NAN; infinity f64::INFINITY; neg_infinity f64::NEG_INFINITY; neg_zero -0.0; min_value f64::MIN; min_positive_value f64::MIN_POSITIVE; max_value f64::MAX; epsilon W_EPS; }
    is! { is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative }
    fn classify(self) -> FpCategory { self.0.classify() }
    un! { floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh to_degrees to_radians }
    two! { powf log max min hypot atan2 }
    fn abs_sub(self, b: W) -> W { W(if self.0 <= b.0 { 0.0 } else { self.0 - b.0 }) }
    fn mul_add(self, a: W, b: W) -> W { W(self.0.mul_add(a.0, b.0)) }
    fn powi(self, n: i32) -> W { W(self.0.powi(n)) }
    fn sin_cos(self) -> (W, W) { let (s, c) = self.0.sin_cos(); (W(s), W(c)) }
    fn integer_decode(self) -> (u64, i16, i8) { Float::integer_decode(self.0) }
}
impl vecmat::traits::NormL1 for W { type Output = W; fn norm_l1(self) -> W { W(self.0.abs()) } }
impl vecmat::traits::NormL2 for W { type Output = W; fn norm_l2(self) -> W { W(self.0.abs()) } fn norm_l2_sqr(self) -> W { self * self } }
impl vecmat::traits::NormLInf for W { type Output = W; fn norm_l_inf(self) -> W { W(self.0.abs()) } }
impl vecmat::traits::Dot for W { type Output = W; fn dot(self, o: W) -> W { self * o } }
impl vecmat::traits::Conj for W { fn conj(self) -> W { self } }
impl vecmat::traits::Epsilon for W { fn is_epsilon(&self) -> bool { self.0.abs() <= W_EPS } }

thread_local! { static SCRIPT: RefCell<(Vec<f64>, usize)> = const { RefCell::new((Vec::new(), 0)) }; }
pub fn set_script(v: &[f64]) { SCRIPT.with(|s| *s.borrow_mut() = (v.to_vec(), 0)) }
/// How many draws have been made.
pub fn drawn() -> usize { SCRIPT.with(|s| s.borrow().1) }
pub fn next_draw() -> f64 {
    SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        s.1 += 1;
        assert!(s.1 <= s.0.len(), "script exhausted");
        s.0[s.1 - 1]
    })
}
impl Distribution<W> for vecmat::distr::Normal {
    fn sample<R: RandRng + ?Sized>(&self, _: &mut R) -> W { W(next_draw()) }
}
/// A component distribution that is not one of the library's.
pub struct Scripted;
impl Distribution<W> for Scripted { fn sample<R: RandRng + ?Sized>(&self, _: &mut R) -> W { W(next_draw()) } }
impl Distribution<String> for Scripted { fn sample<R: RandRng + ?Sized>(&self, _: &mut R) -> String { format!("{}", next_draw() as i64) } }

/// Our generator as a `rand` generator.
impl RngCore for crate::rng::Rng {
    fn next_u32(&mut self) -> u32 { (self.u() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 { self.u() }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.u() as u8 } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_::Error> { self.fill_bytes(d); Ok(()) }
}
/// Extreme generator words first, ordinary ones afterwards.
pub struct Edges(pub Vec<u64>, pub usize, pub crate::rng::Rng);
impl RngCore for Edges {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 {
        self.1 += 1;
        if self.1 <= self.0.len() { self.0[self.1 - 1] } else { self.2.u() }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8 } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_::Error> { self.fill_bytes(d); Ok(()) }
}
impl approx::AbsDiffEq for W {
    type Epsilon = W;
    fn default_epsilon() -> W { W(7.0) }
    fn abs_diff_eq(&self, o: &W, e: W) -> bool { (self.0 - o.0).abs() <= e.0 }
}
