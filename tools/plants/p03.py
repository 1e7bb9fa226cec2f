RNG = '''
/// A source that replays fixed words.
struct Fixed(Vec<u64>, usize);
impl rand_::RngCore for Fixed {
    fn next_u32(&mut self) -> u32 { (self.next_u64() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 { let x = self.0[self.1 % self.0.len()]; self.1 += 1; x }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8 } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_::Error> { self.fill_bytes(d); Ok(()) }
}
'''
PLANTS = [
dict(id="c15-apply-affine", property="C15",
 edits=[("src/complex/moebius.rs", "        T: Mul<U, Output = U> + Copy,\n        U: Add<T, Output = U> + Div<Output = U> + Copy,\n    {\n        (self.a() * x",
 "        T: Mul<U, Output = U> + Copy + PartialEq + core::ops::Sub<Output = T>,\n        U: Add<T, Output = U> + Div<Output = U> + Copy,\n    {\n        if self.c() == self.c() - self.c() {\n            // Affine map.\n            return self.a() * x + self.b();\n        }\n        (self.a() * x")],
 needs="a map with c = 0 and d other than 1",
 what="the shortcut for affine maps forgets to divide by d",
 demo='''
use vecmat::{complex::Moebius, Complex};
fn main() {
    let m = Moebius::new(Complex::new(2.0, 0.0), Complex::new(0.0, 4.0), Complex::new(0.0, 0.0), Complex::new(2.0, 0.0));
    assert_eq!(m.apply(Complex::new(1.0, 1.0)), Complex::new(1.0, 3.0));
}
'''),
dict(id="c15-inv-unimodular", property="C15",
 edits=[("src/complex/moebius.rs", "        (self.a() * d - u * self.c()) / (d * d)\n", "        if self.c().is_zero() {\n            return self.a();\n        }\n        (self.a() * d - u * self.c()) / (d * d)\n")],
 needs="the derivative of a map with c = 0 and d other than 1",
 what="the derivative of affine maps is a instead of a/d",
 demo='''
use vecmat::{complex::Moebius, Complex};
fn main() {
    let m = Moebius::new(Complex::new(6.0, 0.0), Complex::new(0.0, 4.0), Complex::new(0.0, 0.0), Complex::new(2.0, 0.0));
    assert_eq!(m.deriv(Complex::new(1.0, 1.0)), Complex::new(3.0, 0.0));
}
'''),
dict(id="c15-quat-normal", property="C15",
 edits=[("src/transform/moebius.rs", "    fn deriv(&self, pos: Quaternion<T>, dir: Quaternion<T>) -> Quaternion<T> {\n        Moebius::deriv_dir(self, pos, dir)\n",
 "    fn deriv(&self, pos: Quaternion<T>, dir: Quaternion<T>) -> Quaternion<T> {\n        if pos.y().is_zero() && pos.z().is_zero() {\n            // The point is a complex number.\n            return Moebius::deriv(self, Complex::new(pos.w(), pos.x())) * dir;\n        }\n        Moebius::deriv_dir(self, pos, dir)\n")],
 needs="the quaternion derivative at a point without j and k components along a direction that has them",
 what="at complex points the quaternion derivative is taken to be the complex one, which is wrong along j and k",
 demo='''
use vecmat::{complex::Moebius, Complex, Quaternion, Transform};
fn main() {
    let c = Complex::new;
    let m = Moebius::new(c(1.0, 2.0), c(0.5, -1.0), c(0.3, 0.7), c(1.0, 0.2));
    let (p, v, e) = (Quaternion::new(0.4, -0.3, 0.0, 0.0), Quaternion::new(0.1, 0.2, 0.6, -0.5), 1e-6);
    let n = (m.apply(p + v * e) - m.apply(p - v * e)) / (2.0 * e);
    let d = Transform::<Quaternion<f64>>::deriv(&m, p, v);
    assert!((d - n).norm() < 1e-6, "{} {}", d, n);
}
'''),
dict(id="c16-nonzero-once", property="C16",
 edits=[("src/vector/distr.rs", "        loop {\n            let x = rng.sample(&Normal);\n            if x.length() > T::epsilon() {\n                break x;\n            }\n        }\n",
 "        let x: Vector<T, N> = rng.sample(&Normal);\n        if x.length() > T::epsilon() {\n            x\n        } else {\n            rng.sample(&Normal)\n        }\n")],
 needs="two epsilon-small draws in a row",
 what="a draw that is too short is redrawn once only, and the second one is returned unchecked",
 demo=RNG + '''
use rand_::Rng;
use vecmat::{distr::NonZero, Vector};
fn main() {
    // zero words give a sample of radius zero
    let mut w = vec![0u64; 8];
    w.extend((1..40u64).map(|k| k.wrapping_mul(0x9E3779B97F4A7C15)));
    let v: Vector<f64, 2> = Fixed(w, 0).sample(&NonZero);
    assert!(v.length() > f64::EPSILON, "{}", v);
}
'''),
dict(id="c16-invertible-zero", property="C16",
 edits=[("src/matrix/distr.rs", "            if !x.det().norm_l1().is_epsilon() {\n", "            if !x.det().is_zero() {\n")],
 needs="a drawn matrix whose determinant is tiny but not exactly zero",
 what="invertible samples may have an epsilon-small determinant",
 demo=RNG + '''
use rand_::Rng;
use vecmat::{distr::Invertible, Matrix};
fn main() {
    // two rows drawn from almost the same words: the determinant is about 1e-17
    let f = |k: u64| k.wrapping_mul(0x9E3779B97F4A7C15);
    for t in 0..200u64 {
        let row = [f(4 * t + 1), f(4 * t + 2), f(4 * t + 3), f(4 * t + 4)];
        let mut w = row.to_vec();
        w.extend(row.iter().map(|x| x ^ (1 << 12)));
        w.extend((1..400u64).map(|k| f(k + 17 * t)));
        let m: Matrix<f64, 2, 2> = Fixed(w, 0).sample(&Invertible);
        assert!(m.det().abs() > f64::EPSILON, "{}", m.det());
    }
}
'''),
dict(id="c16-rotation-half", property="C16",
 edits=[("src/transform/rotation.rs", "        Rotation2::new(rng.sample(&RangedUniform::new(\n            T::zero(),\n            T::from(2.0).unwrap() * T::PI(),\n        )))", "        Rotation2::new(rng.sample(&RangedUniform::new(T::zero(), T::PI())))")],
 needs="looking at where uniform plane rotations end up",
 what="uniform plane rotations only reach half of the angles",
 demo='''
use rand_::{Rng, SeedableRng};
use vecmat::{distr::Uniform, transform::Rotation2};
fn main() {
    let mut rng = rand_::rngs::StdRng::seed_from_u64(7);
    let n = (0..1000).filter(|_| { let r: Rotation2<f64> = rng.sample(&Uniform); r.angle() < 0.0 }).count();
    assert!(n > 300 && n < 700, "{}", n);
}
'''),
dict(id="c16-normal-zero-draw", property="C16",
 edits=[("src/distr.rs", "((1.0 - RangedUniform::new(0.0, 1.0).sample(rng)).ln() * -2.0).sqrt()", "(RangedUniform::<$T>::new(0.0, 1.0).sample(rng).ln() * -2.0).sqrt()")],
 needs="the uniform draw behind a normal sample being exactly zero",
 what="a zero draw gives an infinite normal sample",
 demo=RNG + '''
use rand_::Rng;
use vecmat::distr::Normal;
fn main() {
    let x: f64 = Fixed(vec![0, 1 << 60], 0).sample(&Normal);
    assert!(x.is_finite(), "{}", x);
    let x: f32 = Fixed(vec![0, 1 << 60], 0).sample(&Normal);
    assert!(x.is_finite(), "{}", x);
}
'''),
dict(id="c17-debug-elide", property="C17",
 edits=[("src/vector/base/format.rs", "            write!(f, \"{:?}\", self[i])?;\n", "            if i == 32 && N > 33 {\n                write!(f, \"...\")?;\n                break;\n            }\n            write!(f, \"{:?}\", self[i])?;\n")],
 needs="the debug form of a vector of more than 33 elements",
 what="long vectors are abbreviated, omitting components",
 demo='''
use vecmat::Vector;
fn main() {
    let s = format!("{:?}", Vector::<usize, 40>::indices());
    assert!(s.contains("39"), "{}", s);
}
'''),
dict(id="c17-matrix-shape", property="C17",
 edits=[("src/matrix/format.rs", "        writeln!(f, \"Matrix{}x{}(\", M, N)?;\n        for j in 0..M {\n            write!(f, \"  \")?;\n            for i in 0..N {\n                write!(f, \"{}, \", self[(j, i)])?;",
 "        writeln!(f, \"Matrix{}x{}(\", N, M)?;\n        for j in 0..M {\n            write!(f, \"  \")?;\n            for i in 0..N {\n                write!(f, \"{}, \", self[(j, i)])?;")],
 needs="the display form of a matrix that is not square",
 what="the display form names the shape as columns x rows",
 demo='''
use vecmat::Matrix;
fn main() {
    let m = Matrix::<i32, 1, 2>::from([[7, 8]]);
    assert_eq!(format!("{}", m), "\\nMatrix1x2(\\n  7, 8, \\n)\\n");
    assert_eq!(format!("{:?}", m), "\\nMatrix1x2(\\n  7, 8, \\n)\\n");
}
'''),
dict(id="c18-vector-strict", property="C18",
 edits=[("src/complex/approx.rs", "        abs_diff_eq!(self.into_vector(), other.into_vector(), epsilon = epsilon)\n    }\n}\n\nimpl<T> AbsDiffEq for Quaternion<T>",
 "        abs_diff_eq!(self.into_vector(), other.into_vector(), epsilon = epsilon)\n            || (self.re() == other.re() && abs_diff_eq!(self.im(), other.im()))\n    }\n}\n\nimpl<T> AbsDiffEq for Quaternion<T>"),
 ("src/complex/approx.rs", "impl<T> AbsDiffEq for Complex<T>\nwhere\n    T: AbsDiffEq<Epsilon = T> + Copy,", "impl<T> AbsDiffEq for Complex<T>\nwhere\n    T: AbsDiffEq<Epsilon = T> + Copy + PartialEq,")],
 needs="a tolerance smaller than the default one",
 what="complex numbers with equal real parts are compared with at least the default tolerance",
 demo='''
use approx::AbsDiffEq;
use vecmat::Complex;
fn main() {
    let a = Complex::new(1.0f64, 0.0);
    let b = Complex::new(1.0f64, 1e-17);
    assert!(a.abs_diff_eq(&b, 1e-16));
    assert!(!a.abs_diff_eq(&b, 1e-18));
    assert!(!a.abs_diff_eq(&b, 0.0));
}
'''),
dict(id="c18-matrix-early", property="C18",
 edits=[("src/matrix/approx.rs", "        self.zip(*other)\n            .map(|(x, y)| abs_diff_eq!(x, y, epsilon = epsilon))\n            .all()\n",
 "        // Row by row, stop when the rest is identical.\n        (0..M.min(N)).all(|i| self.row_ref(i).abs_diff_eq(other.row_ref(i), epsilon))\n            && (0..N.min(M)).all(|j| self.col(j).abs_diff_eq(&other.col(j), epsilon))\n")],
 needs="(placeholder)", what="", demo="fn main() {}"),
dict(id="c18-scale-default", property="C18",
 edits=[("src/transform/scale.rs", "        abs_diff_eq!(self.mag, other.mag, epsilon = epsilon)\n", "        let _ = epsilon;\n        abs_diff_eq!(self.mag, other.mag)\n")],
 needs="comparing scalings with an explicit tolerance",
 what="the tolerance is ignored",
 demo='''
use approx::AbsDiffEq;
use vecmat::transform::*;
fn main() {
    let (a, b) = (Scale::from_mag(1.0f64), Scale::from_mag(1.25));
    assert!(a.abs_diff_eq(&b, 0.25) && !a.abs_diff_eq(&b, 0.125));
}
'''),
dict(id="c19-epsilon-strict", property="C19",
 edits=[("src/traits.rs", "                self.abs() <= Self::EPSILON\n", "                self.abs() < Self::EPSILON\n")],
 needs="a value of exactly the machine epsilon",
 what="the machine epsilon itself is not epsilon-small",
 demo='''
use vecmat::prelude::*;
fn main() { assert!(f64::EPSILON.is_epsilon() && (-f32::EPSILON).is_epsilon() && !(2.0 * f64::EPSILON).is_epsilon()); }
'''),
dict(id="c19-signed-sqr", property="C19",
 edits=[("src/traits.rs", "            fn norm_l1(self) -> Self {\n                self.abs()\n            }\n        }\n        impl NormL2 for $T {\n            type Output = Self;\n            fn norm_l2(self) -> Self {\n                self.abs()\n",
 "            fn norm_l1(self) -> Self {\n                self.abs()\n            }\n        }\n        impl NormL2 for $T {\n            type Output = Self;\n            fn norm_l2(self) -> Self {\n                // sqrt(x * x)\n                num_traits::Float::sqrt(self.wrapping_mul(self) as f64) as Self\n")],
 needs="the L2 norm of a signed integer whose square does not fit its type",
 what="the L2 norm of signed integers goes through the square, which wraps around",
 demo='''
use vecmat::prelude::*;
fn main() { assert_eq!((-100i8).norm_l2(), 100); assert_eq!(70000i32.norm_l2(), 70000); assert_eq!((-3i64).norm_l2(), 3); }
'''),
dict(id="c20-is-zero-empty", property="C20",
 edits=[("src/vector/ops/base.rs", "        self.iter().all(|x| x.is_zero())\n", "        self.iter()\n            .map(|x| x.is_zero())\n            .reduce(|a, b| a && b)\n            .unwrap_or(false)\n")],
 needs="the zero test of a vector without elements",
 what="the empty vector is not zero although it equals Vector::zero()",
 demo='''
use vecmat::{prelude::*, Vector};
fn main() { assert!(Vector::<i32, 0>::zero().is_zero()); assert!(Vector::<i32, 2>::zero().is_zero()); assert!(!Vector::<i32, 2>::from([0, 1]).is_zero()); }
'''),
dict(id="c20-chunks-empty", property="C20",
 edits=[("src/matrix/base/convert.rs", "            Ok(Matrix::try_from_iter(s.iter().cloned()).unwrap())\n", "            Ok(Matrix::try_from_iter_of_vectors(s.chunks_exact(N).map(|c| Vector::try_from(c).unwrap())).unwrap())\n")],
 needs="building a matrix without columns from an empty slice",
 what="conversion from a slice panics for matrices with zero columns",
 demo='''
use std::convert::TryFrom;
use vecmat::Matrix;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    assert!(Matrix::<i32, 2, 2>::try_from(&[1, 2, 3, 4][..]).is_ok());
    let e: &[i32] = &[];
    assert!(Matrix::<i32, 0, 2>::try_from(e).is_ok());
    assert_eq!(std::panic::catch_unwind(|| Matrix::<i32, 2, 0>::try_from(e).is_ok()).ok(), Some(true));
}
'''),
dict(id="c20-det-base", property="C20",
 edits=[("src/matrix/square.rs", "        if self.mask.deg == 0 {\n            T::one()\n", "        if self.mask.deg == 1 {\n            self.matrix[(self.mask.col.find(0), self.mask.row.find(0))]\n")],
 needs="the determinant of a 0x0 matrix, or the cofactor, adjugate or inverse of a 1x1 matrix",
 what="the recursion stops at 1x1 and runs out of the mask for the empty determinant",
 demo='''
use vecmat::Matrix;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    assert_eq!(Matrix::<i32, 2, 2>::from([[1, 2], [3, 4]]).det(), -2);
    let e: [[i32; 0]; 0] = [];
    assert_eq!(std::panic::catch_unwind(|| Matrix::<i32, 0, 0>::from(e).det()).ok(), Some(1));
    assert_eq!(std::panic::catch_unwind(|| Matrix::<f64, 1, 1>::from([[2.0]]).inv()[(0, 0)]).ok(), Some(0.5));
}
'''),
dict(id="c21-sqrt-branch", property="C21",
 edits=[("src/complex/complex_.rs", "        self.into_num().sqrt().into()\n", "        let two = T::one() + T::one();\n        let n = self.norm();\n        Self::new(((n + self.re()) / two).sqrt(), ((n - self.re()) / two).sqrt())\n")],
 needs="the square root of a number with negative imaginary part",
 what="the square root of numbers in the lower half plane has the wrong sign of the imaginary part",
 demo='''
use vecmat::Complex;
fn main() {
    let z = Complex::new(3.0, -4.0f64);
    let r = z.sqrt();
    assert!((r * r - z).norm() < 1e-9, "{}", r);
}
'''),
dict(id="c21-arg-asin", property="C21",
 edits=[("src/complex/complex_.rs", "        self.im().atan2(self.re())\n", "        (self.im() / self.norm()).asin()\n")],
 needs="a number in the left half plane",
 what="the argument is the arcsine, which is wrong for negative real parts",
 demo='''
use vecmat::Complex;
fn main() {
    let (r, t) = Complex::new(-3.0, 4.0f64).to_polar();
    let z = Complex::from_polar(r, t);
    assert!((z - Complex::new(-3.0, 4.0)).norm() < 1e-9);
}
'''),
dict(id="c21-powi-square", property="C21",
 edits=[("src/complex/complex_.rs", "        self.into_num().powi(exp).into()\n", "        // Square and multiply.\n        let (mut base, mut n, mut acc) = (if exp < 0 { self.inv() } else { *self }, exp.unsigned_abs(), Self::one());\n        while n > 1 {\n            if n % 2 == 1 {\n                acc = acc * base;\n            }\n            base = base * base;\n            n >>= 1;\n        }\n        acc * base\n")],
 needs="an exponent of zero",
 what="the zeroth power is the number itself",
 demo='''
use vecmat::Complex;
fn main() {
    let z = Complex::new(2, 3);
    assert_eq!(z.powi(3), z * z * z);
    assert_eq!(z.powi(1), z);
    assert_eq!(z.powi(0), Complex::new(1, 0));
}
'''),
]
PLANTS = [p for p in PLANTS if p["needs"] != "(placeholder)"]
