PLANTS = [
dict(id="c06-mul-add-unfused", property="C06",
 edits=[("src/vector/math.rs", "T::mul_add(s, a, b)", "s * a + b")],
 needs="operands whose product is not exactly representable",
 what="mul_add() of vectors rounds twice instead of being the scalar type's fused operation",
 demo='''
use vecmat::Vector;
fn main() {
    let (a, b, c) = (1.0f64 + f64::EPSILON, 1.0 - f64::EPSILON, -1.0);
    let v = Vector::<f64, 2>::from([a, 2.0]).mul_add(Vector::from([b, 3.0]), Vector::from([c, 1.0]));
    assert_eq!(v, [a.mul_add(b, c), 7.0].into());
}
'''),
dict(id="c06-ln1p-naive", property="C06",
 edits=[("src/matrix/math.rs", "self.map(T::ln_1p)", "self.map(|x| (x + T::one()).ln())")],
 needs="components close to zero",
 what="ln_1p() of matrices is computed as ln(1 + x), losing the precision the function exists for",
 demo='''
use vecmat::Matrix;
fn main() {
    let m = Matrix::<f64, 1, 2>::from([[1e-20, 0.5]]).ln_1p();
    assert_eq!(m, [[(1e-20f64).ln_1p(), 0.5f64.ln_1p()]].into());
}
'''),
dict(id="c06-round-half", property="C06",
 edits=[("src/vector/math.rs", "self.map(T::round)", "self.map(|x| (x + (T::one() + T::one()).recip()).floor())")],
 needs="a negative component exactly halfway between integers",
 what="round() of vectors rounds halves up instead of away from zero",
 demo='''
use vecmat::Vector;
fn main() {
    let a = [-2.5f64, -0.5, 0.5, 1.4, -1.6, 2.5];
    assert_eq!(Vector::<f64, 6>::from(a).round(), a.map(f64::round).into());
}
'''),
dict(id="c06-row-broadcast", property="C06",
 edits=[("src/matrix/math.rs", "fn broadcast(self) -> Matrix<T, M, N> { Matrix::from_vector_of_vectors(Vector::fill(self)) }",
 "fn broadcast(self) -> Matrix<T, M, N> { Matrix::indices().map(|(i, j)| self[if M == N { i } else { j }]) }")],
 needs="a row vector given as argument to a function of a square matrix",
 what="a row vector argument is broadcast along the columns for square matrices",
 demo='''
use vecmat::{Matrix, Vector};
fn main() {
    let m = Matrix::<f64, 2, 2>::from([[1.0, 5.0], [9.0, 2.0]]);
    assert_eq!(m.vmin(Vector::from([3.0, 4.0])), [[1.0, 4.0], [3.0, 2.0]].into());
}
'''),
dict(id="c07-normalize-guard", property="C07",
 edits=[("src/vector/dot.rs", "        self / self.length()\n", "        let length = self.length();\n        if length > T::epsilon() {\n            self / length\n        } else {\n            self\n        }\n")],
 needs="normalising a vector that is not zero but shorter than the machine epsilon",
 what="normalize() returns short non-zero vectors unchanged",
 demo='''
use vecmat::Vector;
fn main() {
    let v = Vector::<f64, 2>::from([3e-20, -4e-20]).normalize();
    assert!((v.length() - 1.0).abs() < 1e-9, "{}", v.length());
    assert!((v[0] - 0.6).abs() < 1e-9 && (v[1] + 0.8).abs() < 1e-9);
}
'''),
dict(id="c07-linf-signed", property="C07",
 edits=[("src/matrix/ops/base.rs", "        self.map(|x| x.norm_l_inf()).max()\n", "        self.fold_first(|x, y| if x < y { y } else { x }).norm_l_inf()\n")],
 needs="a matrix whose component of largest magnitude is negative",
 what="the maximum norm of matrices is the magnitude of the largest component, not the largest magnitude",
 demo='''
use vecmat::{prelude::*, Matrix};
fn main() {
    assert_eq!(Matrix::<i32, 2, 2>::from([[1, -7], [2, 3]]).norm_l_inf(), 7);
    assert_eq!(Matrix::<i32, 2, 2>::from([[-5, -7], [-2, -3]]).norm_l_inf(), 7);
}
'''),
dict(id="c07-matrix-zero-row", property="C07",
 edits=[("src/matrix/ops/base.rs", "        self.iter().all(|x| x.is_zero())\n", "        (0..M.max(1).min(N)).all(|k| self.row_ref(k.min(M - 1)).is_zero())\n            && self.iter().take(M * N - N * M.saturating_sub(N)).all(|x| x.is_zero())\n")],
 needs="a tall matrix whose only non-zero components are below row N",
 what="is_zero() of matrices looks at no more than N rows",
 demo='''
use vecmat::{prelude::*, Matrix};
fn main() {
    let mut m = Matrix::<i32, 3, 2>::zero();
    assert!(m.is_zero());
    m[(2, 1)] = 1;
    assert!(!m.is_zero());
}
'''),
dict(id="c08-vecmat-order", property="C08",
 edits=[("src/matrix/product.rs", "        Vector::indices().map(|j| self.dot(mat.col(j)))\n", "        mat.transpose().dot(self)\n")],
 needs="entries that do not commute (quaternions)",
 what="the vector-matrix product multiplies the matrix entry from the left",
 demo='''
use vecmat::{prelude::*, Matrix, Quaternion, Vector};
type Q = Quaternion<f64>;
fn main() {
    let v = Vector::<Q, 2>::from([Q::i(), Q::j()]);
    let m = Matrix::<Q, 2, 1>::from([[Q::j()], [Q::k()]]);
    assert_eq!(v.dot(m), [Q::i() * Q::j() + Q::j() * Q::k()].into());
}
'''),
dict(id="c08-dot-pairwise", property="C08",
 edits=[("src/vector/dot.rs", "        self.zip(other).map(|(x, y)| x * y).sum()\n",
"""        if N <= 4 {
            return self.zip(other).map(|(x, y)| x * y).sum();
        }
        // Accumulate four terms at a time.
        let mut it = self.into_iter().zip(other).map(|(x, y)| x * y);
        let mut acc = it.next().unwrap();
        while let Some(a) = it.next() {
            acc = match (it.next(), it.next()) {
                (Some(b), Some(c)) => match it.next() {
                    Some(d) => acc + ((a + b) + (c + d)),
                    None => acc + (a + c),
                },
                (Some(b), None) => acc + (a + b),
                _ => acc + a,
            };
        }
        acc
""")],
 needs="a dot product or matrix product over 8 (or 12, ...) components",
 what="the unrolled dot product drops one term when three are left over after the first block (length 8, 12, ...)",
 demo='''
use vecmat::{prelude::*, Matrix, Vector};
fn dot<const N: usize>() {
    let a = Vector::<usize, N>::indices().map(|x| x + 1);
    assert_eq!(a.dot(a), (1..=N).map(|x| x * x).sum::<usize>(), "length {}", N);
}
fn main() {
    dot::<1>(); dot::<2>(); dot::<3>(); dot::<4>(); dot::<5>(); dot::<6>(); dot::<7>(); dot::<8>(); dot::<9>(); dot::<12>();
    let m = Matrix::<i32, 8, 8>::one();
    assert_eq!(m.dot(m), m);
}
'''),
dict(id="c08-cross4-scale", property="C08",
 edits=[("src/vector/spec.rs", "            T::zero(),\n", "            a.w() * b.w() - b.w() * a.w(),\n")],
 needs="(placeholder)", what="", demo="fn main() {}"),
dict(id="c09-bareiss", property="C09",
 edits=[("src/matrix/square.rs", "    pub fn det(&self) -> T {\n        Determinator::new(self).det()\n    }\n\n    /// Adjugate",
"""    pub fn det(&self) -> T {
        if N < 4 {
            return Determinator::new(self).det();
        }
        // Fraction-free elimination for larger matrices.
        let mut m = *self;
        let mut prev = T::one();
        for k in 0..(N - 1) {
            if m[(k, k)].is_zero() {
                match ((k + 1)..N).find(|&i| !m[(i, k)].is_zero()) {
                    Some(i) => {
                        let row = m.row(i);
                        *m.row_mut(i) = m.row(k);
                        *m.row_mut(k) = row;
                    }
                    None => return T::zero(),
                }
            }
            for i in (k + 1)..N {
                for j in (k + 1)..N {
                    m[(i, j)] = (m[(i, j)] * m[(k, k)] - m[(i, k)] * m[(k, j)]) / prev;
                }
            }
            prev = m[(k, k)];
        }
        m[(N - 1, N - 1)]
    }

    /// Adjugate""")],
 needs="a 4x4 or larger matrix one of whose leading minors vanishes, so that rows are exchanged",
 what="determinants of matrices from 4x4 on lose the sign of the row exchanges",
 demo='''
use vecmat::Matrix;
fn main() {
    let m = Matrix::<i64, 4, 4>::from([[0, 1, 0, 0], [1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]);
    assert_eq!(m.det(), -1);
    let m = Matrix::<i64, 4, 4>::from([[2, 1, 0, 0], [1, 2, 0, 0], [0, 0, 3, 0], [5, 0, 0, 1]]);
    assert_eq!(m.det(), 9);
}
'''),
dict(id="c09-mask-byte", property="C09",
 edits=[("src/matrix/square.rs", "    data: [bool; N],\n}\n\nimpl<const N: usize> IndexMask<N> {\n    pub fn new() -> Self {\n        Self { data: [true; N] }\n    }\n",
 "    data: [bool; N],\n}\n\nimpl<const N: usize> IndexMask<N> {\n    pub fn new() -> Self {\n        let mut data = [false; N];\n        for i in 0..N.min(8) {\n            data[i] = true;\n        }\n        Self { data }\n    }\n")],
 needs="a square matrix of nine or more rows",
 what="only the first eight rows and columns are marked as present: determinants from 9x9 on fail",
 demo='''
use num_traits::One;
use vecmat::Matrix;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    assert_eq!(Matrix::<i32, 7, 7>::one().det(), 1);
    assert_eq!(std::panic::catch_unwind(|| Matrix::<i32, 9, 9>::one().det()).ok(), Some(1));
}
'''),
dict(id="c09-cofactor-bounds", property="C09",
 edits=[("src/matrix/square.rs", "        assert!(i < N && j < N);\n", "        assert!(i * N + j < N * N);\n")],
 needs="(placeholder)", what="", demo="fn main() {}"),
dict(id="c09-zero-skip", property="C09",
 edits=[("src/matrix/square.rs", "                a = a + self.matrix[(i, j)] * self.cofactor((i, 0), (j, rj));\n                j += 1;\n",
"""                let x = self.matrix[(i, j)];
                if self.mask.deg > 3 && x.is_zero() && rj + 1 < self.mask.deg {
                    // The whole minor vanishes, the next entry takes its place.
                    let next = self.mask.row.find(j + 1);
                    if self.matrix[(i, next)].is_zero() {
                        break;
                    }
                }
                a = a + x * self.cofactor((i, 0), (j, rj));
                j += 1;
""")],
 needs="a 4x4 or larger matrix with two adjacent zeros in the row being expanded, followed by a non-zero entry",
 what="the expansion stops at two zeros in a row",
 demo='''
use vecmat::Matrix;
fn main() {
    let m = Matrix::<i64, 4, 4>::from([[0, 0, 0, 1], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0]]);
    assert_eq!(m.det(), -1);
    let m = Matrix::<i64, 4, 4>::from([[0, 0, 2, 1], [1, 2, 0, 3], [4, 1, 0, 2], [0, 3, 1, 0]]);
    assert_eq!(m.det(), m.transpose().det());
}
'''),
dict(id="c10-mul-assign-alias", property="C10",
 edits=[("src/complex/complex_.rs", "impl<T> MulAssign for Complex<T>\nwhere\n    Self: Mul<Output = Self> + Copy,\n{\n    fn mul_assign(&mut self, other: Self) {\n        *self = *self * other;\n",
 "impl<T> MulAssign for Complex<T>\nwhere\n    T: Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy,\n{\n    fn mul_assign(&mut self, other: Self) {\n        *self.re_mut() = self.re() * other.re() - self.im() * other.im();\n        *self.im_mut() = self.re() * other.im() + self.im() * other.re();\n")],
 needs="*= with a factor that has an imaginary part",
 what="the in-place product reads the real part after overwriting it",
 demo='''
use vecmat::Complex;
fn main() {
    let a = Complex::new(2, 3);
    let b = Complex::new(5, -7);
    let mut c = a;
    c *= b;
    assert_eq!(c, a * b);
}
'''),
dict(id="c10-inv-linf", property="C10",
 edits=[("src/complex/complex_.rs", "        self * other.inv()\n    }\n}\n\nimpl<T> DivAssign for Complex<T>\n", "        if other.im().is_zero() {\n            return self / other.re();\n        }\n        if other.re().is_zero() {\n            // Division by an imaginary number is a quarter turn.\n            return Self::new(self.im(), self.re()) / other.im();\n        }\n        self * other.inv()\n    }\n}\n\nimpl<T> DivAssign for Complex<T>\n")],
 needs="dividing by a purely imaginary number",
 what="the special case for a purely imaginary divisor forgets the sign of the imaginary part",
 demo='''
use vecmat::Complex;
fn main() {
    let a = Complex::<f64>::new(6.0, -4.0);
    let b = Complex::<f64>::new(0.0, 2.0);
    assert_eq!((a / b) * b, a);
}
'''),
dict(id="c10-rev-sub-f32", property="C10",
 edits=[("src/complex/complex_.rs", "                -other + self\n", "                (other - self).conj()\n")],
 needs="subtracting a complex number from a scalar when the real parts differ",
 what="scalar minus complex negates only the imaginary part",
 demo='''
use vecmat::Complex;
fn main() { assert_eq!(5.0f64 - Complex::new(2.0, 3.0), Complex::new(3.0, -3.0)); assert_eq!(5.0f32 - Complex::new(2.0, 3.0), Complex::new(3.0, -3.0)); }
'''),
dict(id="c11-div-assign-left", property="C11",
 edits=[("src/complex/quaternion.rs", "impl<T> DivAssign for Quaternion<T>\nwhere\n    Self: Div<Output = Self> + Copy,\n{\n    fn div_assign(&mut self, other: Self) {\n        *self = *self / other;\n",
 "impl<T> DivAssign for Quaternion<T>\nwhere\n    T: Neg<Output = T> + Num + Copy,\n{\n    fn div_assign(&mut self, other: Self) {\n        *self = other.inv() * *self;\n")],
 needs="/= between quaternions that do not commute",
 what="the in-place division divides from the left",
 demo='''
use vecmat::Quaternion;
fn main() {
    let a = Quaternion::<f64>::new(1.0, 2.0, 3.0, 4.0);
    let b = Quaternion::<f64>::new(1.0, -1.0, 1.0, -1.0);
    let mut c = a;
    c /= b;
    assert_eq!(c, a / b);
}
'''),
dict(id="c11-mul-assign-complex", property="C11",
 edits=[("src/complex/quaternion.rs", "impl<T> MulAssign<Complex<T>> for Quaternion<T>\nwhere\n    Self: Mul<Complex<T>, Output = Self> + Copy,\n{\n    fn mul_assign(&mut self, other: Complex<T>) {\n        *self = *self * other;\n",
 "impl<T> MulAssign<Complex<T>> for Quaternion<T>\nwhere\n    Complex<T>: Mul<Self, Output = Self>,\n    T: Copy,\n{\n    fn mul_assign(&mut self, other: Complex<T>) {\n        *self = other * *self;\n")],
 needs="multiplying a quaternion with j or k components in place by a complex number with an imaginary part",
 what="quaternion *= complex multiplies from the left",
 demo='''
use vecmat::{Complex, Quaternion};
fn main() {
    let a = Quaternion::<i32>::new(1, 2, 3, 4);
    let c = Complex::new(5, 6);
    let mut b = a;
    b *= c;
    assert_eq!(b, a * c);
}
'''),
dict(id="c11-product-reversed", property="C11",
 edits=[("src/complex/quaternion.rs", "        iter.fold(Self::one(), |a, x| a * x)\n", "        iter.fold(Self::one(), |a, x| x * a)\n")],
 needs="the product of an iterator over quaternions that do not commute",
 what="the product over an iterator multiplies in reverse order",
 demo='''
use vecmat::Quaternion;
fn main() {
    let q = [Quaternion::<i32>::i(), Quaternion::j()];
    assert_eq!(q.iter().copied().product::<Quaternion<i32>>(), Quaternion::k());
}
'''),
dict(id="c12-reorder-rot3", property="C12",
 edits=[("src/transform/rotation.rs", "    fn reorder(self, other: Rotation3<T>) -> (Rotation3<T>, Shift<T, 3>) {\n        (other, other.inv().apply(self.into_vector()).into())\n",
 "    fn reorder(self, other: Rotation3<T>) -> (Rotation3<T>, Shift<T, 3>) {\n        (other, other.apply(self.into_vector()).into())\n")],
 needs="a chain with the rotation outside and the shift inside being composed, inverted or reordered",
 what="moving a shift past a 3-D rotation rotates the shift the wrong way",
 demo='''
use vecmat::{transform::*, Transform, Vector};
fn main() {
    type C = Chain<Rotation3<f64>, Shift3<f64>, Vector<f64, 3>>;
    let v = Vector::from([1.0, 2.0, 3.0]);
    let a = C::new(Rotation3::new([0.0, 0.0, 1.0].into(), 0.5), Shift::from_vector(v));
    let b = C::new(Rotation3::new([1.0, 0.0, 0.0].into(), 1.5), Shift::from_vector(v * 2.0));
    let p = a.chain(b).apply(v);
    let q = a.apply(b.apply(v));
    assert!((p - q).length() < 1e-9);
}
'''),
dict(id="c12-scale-reorder", property="C12",
 edits=[("src/transform/scale.rs", "        (self.apply(other.into_vector()).into(), self)\n", "        (other.chain(other).apply(other.into_vector() * T::zero()).into(), self)\n")],
 needs="(placeholder)", what="", demo="fn main() {}"),
dict(id="c12-rot-inv-norm", property="C12",
 edits=[("src/transform/scale.rs", "        Self { mag: self.mag * other.mag }\n", "        Self { mag: other.mag * other.mag / other.mag * self.mag }\n")],
 needs="(placeholder)", what="", demo="fn main() {}"),
dict(id="c12-rot3-half-turn", property="C12",
 edits=[("src/transform/rotation.rs", "    fn chain(self, other: Self) -> Self {\n        Self {\n            quat: self.quat * other.quat,\n        }\n",
"""    fn chain(self, other: Self) -> Self {
        // `q` and `-q` are the same rotation, a half turn needs no sign at all.
        let quat = self.quat * other.quat;
        let (w, v) = quat.into();
        Self {
            quat: if w.is_zero() { (w, v.map(|x| x * x)).into() } else { quat },
        }
""")],
 needs="composing rotations to an exact half turn",
 what="a composition that is an exact half turn gets a wrong axis",
 demo='''
use vecmat::{transform::*, Quaternion, Transform, Vector};
fn main() {
    let r = Rotation3::from(Quaternion::<f64>::i()).chain(Rotation3::from(Quaternion::j()));
    let v = Vector::from([1.0, 2.0, 3.0]);
    assert_eq!(r.apply(v), [-1.0, -2.0, 3.0].into());
    let h = Rotation3::from(Quaternion::new(0.0, 0.6, 0.8, 0.0)).chain(Rotation3::identity());
    let e = Rotation3::from(Quaternion::new(0.0, 0.6, 0.8, 0.0)).apply(v);
    assert!((h.apply(v) - e).length() < 1e-9);
    let q = Quaternion::<f64>::new(0.6, 0.0, 0.0, 0.8);
    let r = Rotation3::from(Quaternion::new(0.0, 0.6, 0.8, 0.0)).chain(Rotation3::from(q));
    let e = Rotation3::from(Quaternion::new(0.0, 0.6, 0.8, 0.0)).apply(Rotation3::from(q).apply(v));
    assert!((r.apply(v) - e).length() < 1e-9);
}
'''),
dict(id="c12-chain-inv-order", property="C12",
 edits=[("src/transform/chain.rs", "        self.inner.inv().reorder(self.outer.inv()).into()\n", "        let (outer, inner) = self.outer.reorder(self.inner);\n        Self::new(inner.inv(), outer.inv())\n")],
 needs="(placeholder)", what="", demo="fn main() {}"),
dict(id="c13-chain-deriv-point", property="C13",
 edits=[("src/transform/chain.rs", "            .deriv(self.inner.apply(pos), self.inner.deriv(pos, dir))\n", "            .deriv(pos, self.inner.deriv(pos, dir))\n")],
 needs="a chain whose outer part is a user-defined transformation that is not affine, so that its derivative depends on the point",
 what="the derivative of a chain evaluates the outer derivative at the original point instead of at the image under the inner map",
 demo='''
use vecmat::{transform::*, Transform};
/// x -> x + c on the reals, and the real functions x -> x^3 scaled, in one group generated by maps.
#[derive(Clone, Copy)] struct Cube(i32);
#[derive(Clone, Copy)] struct Add(f64);
impl Transform<f64> for Cube {
    fn identity() -> Self { Cube(0) }
    fn inv(self) -> Self { Cube(-self.0) }
    fn apply(&self, x: f64) -> f64 { let mut x = x; for _ in 0..self.0 { x = x * x * x } for _ in self.0..0 { x = x.cbrt() } x }
    fn deriv(&self, x: f64, d: f64) -> f64 { assert!(self.0 == 1 || self.0 == 0); if self.0 == 1 { 3.0 * x * x * d } else { d } }
    fn chain(self, o: Self) -> Self { Cube(self.0 + o.0) }
}
impl Transform<f64> for Add {
    fn identity() -> Self { Add(0.0) }
    fn inv(self) -> Self { Add(-self.0) }
    fn apply(&self, x: f64) -> f64 { x + self.0 }
    fn deriv(&self, _: f64, d: f64) -> f64 { d }
    fn chain(self, o: Self) -> Self { Add(self.0 + o.0) }
}
impl Reorder<Add, f64> for Cube { fn reorder(self, _: Add) -> (Add, Cube) { unimplemented!() } }
impl Reorder<Cube, f64> for Add { fn reorder(self, _: Cube) -> (Cube, Add) { unimplemented!() } }
fn main() {
    let c = Chain::<Cube, Add, f64>::new(Cube(1), Add(2.0));
    assert_eq!(c.apply(1.0), 27.0);
    assert_eq!(c.deriv(1.0, 1.0), 27.0);
}
'''),
dict(id="c13-normal-adjugate", property="C13",
 edits=[("src/transform/linear.rs", "        Self { lin: self.lin.inv().transpose() }\n", "        // Only the direction matters, so there is no need to divide by the determinant.\n        Self { lin: self.lin.adj().transpose() }\n")],
 needs="a linear map with negative determinant (a reflection)",
 what="normals are transformed by the cofactor matrix, which flips them to the other side of the surface for orientation-reversing maps",
 demo='''
use vecmat::{transform::*, Matrix, Vector};
fn main() {
    let m = Linear::from_matrix(Matrix::<f64, 3, 3>::from([[-1.0, 0.0, 0.0], [0.0, 2.0, 0.0], [0.0, 0.0, 1.0]]));
    let z = Vector::from([0.0, 0.0, 0.0]);
    let n = m.apply_normal(z, Vector::from([0.0, 1.0, 0.0]));
    assert_eq!(n, [0.0, 1.0, 0.0].into());
}
'''),
dict(id="c13-chain-dir-order", property="C13",
 edits=[("src/transform/chain.rs", "        self.outer.apply_normal(self.inner.apply(pos), self.inner.apply_normal(pos, normal))\n", "        self.outer.apply_normal(self.inner.apply(pos), self.inner.apply_dir(pos, normal))\n")],
 needs="a chain with a linear inner part that is neither conformal nor symmetric, transforming a normal",
 what="chains transform normals with the inner map's direction rule",
 demo='''
use vecmat::{transform::*, Matrix, Vector};
fn main() {
    let l = Linear::from_matrix(Matrix::<f64, 2, 2>::from([[1.0, 1.0], [0.0, 1.0]]));
    let c = Chain::<Shift<f64, 2>, Linear<f64, 2>, Vector<f64, 2>>::new(Shift::from_vector([5.0, 6.0].into()), l);
    let z = Vector::from([0.0, 0.0]);
    let n = c.apply_normal(z, Vector::from([1.0, 0.0]));
    let e = l.apply_normal(z, Vector::from([1.0, 0.0]));
    assert!((n - e).length() < 1e-9);
}
'''),
dict(id="c14-look-at-threshold", property="C14",
 edits=[("src/transform/linear.rs", "        if dir.z().abs() < T::from(0.5).unwrap() {\n", "        if dir.z() < T::from(0.5).unwrap() {\n")],
 needs="looking exactly along the default viewing direction (0, 0, -1)",
 what="look_at_any() picks an up vector parallel to the direction (0, 0, -1) and returns NaNs",
 demo='''
use vecmat::{transform::*, Transform, Vector};
fn main() {
    let z = Vector::from([0.0, 0.0, -1.0f64]);
    assert!((Linear::look_at_any(z).apply(z) - z).length() < 1e-9);
    let x = Vector::from([1.0, 0.0, 0.0f64]);
    assert!((Linear::look_at_any(x).apply(z) - x).length() < 1e-9);
}
'''),
dict(id="c14-angle-acos", property="C14",
 edits=[("src/transform/rotation.rs", "        let (w, ax) = self.quat.into();\n        T::from(2.0).unwrap() * ax.length().atan2(w)\n", "        T::from(2.0).unwrap() * self.quat.w().acos()\n")],
 needs="a rotation whose real part has been rounded to slightly above one (after composing), or a very small angle",
 what="the reported angle is computed by acos: NaN when rounding leaves the real part above 1, imprecise for small angles",
 demo='''
use vecmat::{transform::*, Quaternion};
fn main() {
    let r = Rotation3::from(Quaternion::<f64>::new(1.0 + f64::EPSILON, 1e-9, 0.0, 0.0));
    assert!((r.angle() - 2e-9).abs() < 1e-12, "{}", r.angle());
    let r = Rotation3::new([0.0, 1.0, 0.0].into(), 1e-9f64);
    assert!((r.angle() - 1e-9).abs() < 1e-12, "{}", r.angle());
}
'''),
dict(id="c14-look-opposite", property="C14",
 edits=[("src/transform/rotation.rs", "        if dir.z() < T::zero() {\n            Self::look_at_any_cont(dir)\n", "        if dir.z() <= T::one() - T::epsilon().sqrt() {\n            Self::look_at_any_direct(dir)\n"),
        ("src/transform/rotation.rs", "    /// Returns any of transformations that rotate `-z`-axis to `dir`.\n    pub fn look_at_any(dir: Vector<T, 3>) -> Self {\n        if",
 "    /// Shortest rotation, for directions away from the singular point.\n    fn look_at_any_direct(dir: Vector<T, 3>) -> Self {\n        let two = T::one() + T::one();\n        let cos = ((T::one() - dir.z()) / two).sqrt();\n        let axis = Vector::from((dir.y(), -dir.x(), T::zero())).normalize();\n        let sin = (T::one() - cos * cos).sqrt();\n        Self::from_quaternion((cos, axis * sin).into())\n    }\n\n    /// Returns any of transformations that rotate `-z`-axis to `dir`.\n    pub fn look_at_any(dir: Vector<T, 3>) -> Self {\n        if")],
 needs="looking exactly along (0, 0, -1), where the rotation axis is undefined",
 what="the direct construction normalises a zero axis for the direction (0, 0, -1) and returns NaNs",
 demo='''
use vecmat::{transform::*, Transform, Vector};
fn main() {
    let z = Vector::from([0.0, 0.0, -1.0f64]);
    for d in [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.0, -1.0], [0.6, 0.0, -0.8], [0.0, -0.6, 0.8]] {
        let d = Vector::from(d);
        assert!((Rotation3::look_at_any(d).apply(z) - d).length() < 1e-9, "{}", d);
    }
}
'''),
]
PLANTS = [p for p in PLANTS if p["needs"] != "(placeholder)"]
