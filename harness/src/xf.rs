//! Transformations seen uniformly by the drivers, over GF(35279) and floats.
use crate::{cont::Cont, gf::*, rec::*, rng::Rng};
use num_traits::{Float, FloatConst, Inv};
use vecmat::{
    traits::*,
    transform::*,
    Complex, Matrix, Quaternion, Transform, Vector,
};

/// Scalars the transformations are run over.
pub trait Sc: Float + crate::fat::FatLine + FloatConst + Inv<Output = Self> + Dot<Output = Self> + Conj + approx::AbsDiffEq<Epsilon = Self> {
    fn lane() -> String;
    /// any scalar of moderate size
    fn any(r: &mut Rng) -> Self;
    /// a scalar that is safe to divide by
    fn inv_able(r: &mut Rng) -> Self;
    /// entry of a matrix with a safe inverse, `big` where the large entries go
    fn entry(r: &mut Rng, big: bool) -> Self;
    /// cosine and sine of some angle
    fn unit2(r: &mut Rng) -> (Self, Self);
    /// unit vector
    fn unit(r: &mut Rng, n: usize) -> Vec<Self>;
    /// a power of two, far from one for floats
    fn pow2(r: &mut Rng) -> Self;
    /// an angle (whose half is an angle too)
    fn angle(r: &mut Rng) -> Self;
}
impl Sc for GB {
    fn lane() -> String { "[\"p\",35279]".into() }
    fn any(r: &mut Rng) -> Self { if r.chance(1, 8) { GB::new(r.range(-2, 2)) } else { GB::new(r.range(0, 35278)) } }
    fn inv_able(r: &mut Rng) -> Self { GB::new(r.range(1, 35278)) }
    fn entry(r: &mut Rng, _: bool) -> Self { Self::any(r) }
    fn unit2(r: &mut Rng) -> (Self, Self) { cos_sin(r.range(0, 719) as i32) }
    fn unit(r: &mut Rng, n: usize) -> Vec<Self> {
        if r.chance(1, 6) {
            let i = r.below(n);
            let s = if r.chance(1, 2) { 1 } else { -1 };
            return (0..n).map(|j| GB::new(if i == j { s } else { 0 })).collect();
        }
        loop {
            let v: Vec<GB> = (0..n).map(|_| GB::new(r.range(0, 35278))).collect();
            let s = v.iter().fold(GB::new(0), |a, x| a + *x * *x);
            if s.0 != 0 {
                if let Some(q) = s.root() {
                    return v.into_iter().map(|x| x / q).collect();
                }
            }
        }
    }
    fn pow2(r: &mut Rng) -> Self { GB::new(2).pw(r.below(100) as u32) }
    fn angle(r: &mut Rng) -> Self { angle(2 * r.range(-360, 360) as i32) }
}
macro_rules! fl { ($T:ident, $tol:literal, $pw:literal) => {
    impl Sc for $T {
        fn lane() -> String { concat!("[\"fx\",16384,", $tol, "]").into() }
        fn any(r: &mut Rng) -> Self { r.range(-16, 16) as $T / 16.0 }
        fn inv_able(r: &mut Rng) -> Self { let v = r.range(10, 26) as $T / 16.0; if r.chance(1, 2) { v } else { -v } }
        fn entry(r: &mut Rng, big: bool) -> Self {
            let d = r.range(-16, 16) as $T / 128.0;
            if !big { d } else if r.chance(1, 2) { d + 1.0 } else { d - 1.0 }
        }
        fn unit2(r: &mut Rng) -> (Self, Self) {
            let a = if r.chance(1, 3) { r.range(-8, 8) as f64 * std::f64::consts::FRAC_PI_4 } else { r.unit() * 6.28 };
            (a.cos() as $T, a.sin() as $T)
        }
        fn unit(r: &mut Rng, n: usize) -> Vec<Self> {
            loop {
                let v: Vec<f64> = match r.below(4) {
                    0 => (0..n).map(|_| r.range(-1, 1) as f64).collect(),
                    1 => { let i = r.below(n); let s = if r.chance(1, 2) { 1.0 } else { -1.0 }; (0..n).map(|j| if i == j { s } else { 0.0 }).collect() }
                    2 => { let i = r.below(n); let s = if r.chance(1, 2) { 1.0 } else { -1.0 }; (0..n).map(|j| if i == j { s } else { r.unit() * 0.01 - 0.005 }).collect() }
                    _ => (0..n).map(|_| r.unit() * 2.0 - 1.0).collect(),
                };
                let s: f64 = v.iter().map(|x| x * x).sum();
                if s > 0.01 {
                    return v.into_iter().map(|x| (x / s.sqrt()) as $T).collect();
                }
            }
        }
        fn pow2(r: &mut Rng) -> Self { (2.0 as $T).powi(r.range(-$pw, $pw) as i32) }
        fn angle(r: &mut Rng) -> Self {
            if r.chance(1, 3) { (r.range(-8, 8) as f64 * std::f64::consts::FRAC_PI_4) as $T } else { (r.unit() * 12.0 - 6.0) as $T }
        }
    }
} }
fl!(f64, 48, 40);
fl!(f32, 64, 20);

/// whether every number of an encoded value is small enough for the next operation
pub fn small<V: J>(v: &V, lane: &str) -> bool {
    !lane.contains("fx")
        || v.js().split(|c: char| !(c.is_ascii_digit() || c == '-')).filter(|s| !s.is_empty()).all(|s| s.parse::<i64>().unwrap().abs() <= 2 * 16384)
}
/// an encoded description `[n, t]`
pub fn nk(n: usize, t: &str) -> String { format!("[{},{}]", n, t) }

pub fn uvec<T: Sc, const N: usize>(r: &mut Rng) -> Vector<T, N> {
    let v = T::unit(r, N);
    Vector::from_array(std::array::from_fn(|i| v[i]))
}
pub fn vec<T: Sc, const N: usize>(r: &mut Rng) -> Vector<T, N> { Vector::from_array(std::array::from_fn(|_| T::any(r))) }
pub fn uquat<T: Sc>(r: &mut Rng) -> Quaternion<T> {
    let v = T::unit(r, 4);
    Quaternion::new(v[0], v[1], v[2], v[3])
}

pub trait Tr<T: Sc, const N: usize>: Transform<Vector<T, N>> + Copy + J {
    fn desc() -> String;
    fn gen(r: &mut Rng) -> Self;
    /// conjugated by the scaling of space by `s` (multiplies the shifts by `s`)
    fn rescaled(self, _s: T) -> Self { self }
}
impl<T: Sc, const N: usize> Tr<T, N> for Shift<T, N> {
    fn desc() -> String { "[\"sh\"]".into() }
    fn gen(r: &mut Rng) -> Self { if r.chance(1, 10) { Shift::from_vector(Vector::from_array([T::zero(); N])) } else { Shift::from_vector(vec(r)) } }
    fn rescaled(self, s: T) -> Self { Shift::from_vector(Vector::from_array(self.into_vector().into_array().map(|x| x * s))) }
}
impl<T: Sc, const N: usize> Tr<T, N> for Scale<T> {
    fn desc() -> String { "[\"sc\"]".into() }
    fn gen(r: &mut Rng) -> Self { 
        Scale::from_mag(match r.below(8) { 0 => T::one(), 1 => -T::one(), _ => T::inv_able(r) })
    }
}
impl<T: Sc, const N: usize> Tr<T, N> for Linear<T, N> {
    fn desc() -> String { "[\"li\"]".into() }
    fn gen(r: &mut Rng) -> Self {
        let mut p: Vec<usize> = (0..N).collect();
        for i in (1..N).rev() {
            p.swap(i, r.below(i + 1));
        }
        let mut n = 0;
        // a signed permutation, a diagonal or triangular matrix, the identity, or anything
        let kind = r.below(10);
        if kind == 0 {
            p = (0..N).collect();
        }
        Linear::from_matrix(Matrix::gen(&mut || {
            let (i, j) = (n / N, n % N);
            n += 1;
            match kind {
                0 => if i == j { T::inv_able(r) } else { T::zero() },
                1 => if p[i] != j { T::zero() } else if r.chance(1, 2) { T::one() } else { -T::one() },
                2 => if i == j { T::one() } else { T::zero() },
                3 => if i == j { T::one() } else if i < j { T::entry(r, false) } else { T::zero() },
                4 => if i == j { T::one() } else if i > j { T::entry(r, false) } else { T::zero() },
                _ => T::entry(r, p[i] == j),
            }
        }))
    }
}
impl<T: Sc> Tr<T, 2> for Rotation2<T> {
    fn desc() -> String { "[\"r2\"]".into() }
    fn gen(r: &mut Rng) -> Self {
        let (c, s) = T::unit2(r);
        Rotation2::from_complex(Complex::new(c, s))
    }
}
impl<T: Sc> Tr<T, 3> for Rotation3<T> {
    fn desc() -> String { "[\"r3\"]".into() }
    fn gen(r: &mut Rng) -> Self { Rotation3::from_quaternion(uquat(r)) }
}
impl<T: Sc, A: Tr<T, N>, B: Tr<T, N>, const N: usize> Tr<T, N> for Chain<A, B, Vector<T, N>>
where
    A: Reorder<B, Vector<T, N>>,
    B: Reorder<A, Vector<T, N>>,
{
    fn desc() -> String { format!("[\"ch\",{},{}]", A::desc(), B::desc()) }
    fn gen(r: &mut Rng) -> Self { Chain::new(A::gen(r), B::gen(r)) }
    fn rescaled(self, s: T) -> Self { let (a, b) = self.split(); Chain::new(a.rescaled(s), b.rescaled(s)) }
}
/// Runs `$m!(T, N, Type)` for every transformation type over `$T`.
#[macro_export]
macro_rules! xforms {
    ($T:ty; $m:ident) => {
        $crate::xforms!(@n $T; $m; 1);
        $crate::xforms!(@n $T; $m; 2);
        $crate::xforms!(@n $T; $m; 3);
        $crate::xforms!(@n $T; $m; 4);
        $m!($T, 2, Rotation2<$T>);
        $m!($T, 3, Rotation3<$T>);
        $m!($T, 2, Chain<Shift<$T, 2>, Rotation2<$T>, Vector<$T, 2>>);
        $m!($T, 2, Chain<Rotation2<$T>, Shift<$T, 2>, Vector<$T, 2>>);
        $m!($T, 3, Chain<Shift<$T, 3>, Rotation3<$T>, Vector<$T, 3>>);
        $m!($T, 3, Chain<Rotation3<$T>, Shift<$T, 3>, Vector<$T, 3>>);
    };
    (@n $T:ty; $m:ident; $N:literal) => {
        $m!($T, $N, Shift<$T, $N>);
        $m!($T, $N, Scale<$T>);
        $m!($T, $N, Linear<$T, $N>);
        $m!($T, $N, Chain<Shift<$T, $N>, Linear<$T, $N>, Vector<$T, $N>>);
        $m!($T, $N, Chain<Linear<$T, $N>, Shift<$T, $N>, Vector<$T, $N>>);
        $m!($T, $N, Chain<Shift<$T, $N>, Scale<$T>, Vector<$T, $N>>);
        $m!($T, $N, Chain<Scale<$T>, Shift<$T, $N>, Vector<$T, $N>>);
    };
}
