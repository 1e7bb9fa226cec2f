PLANTS = [
dict(id="c09-unit-square", property="C09",
 edits=[("src/matrix/square.rs", "    fn inv(self) -> Self::Output {\n        self.adj() / self.det()\n", "    fn inv(self) -> Self::Output {\n        let d = self.det();\n        if (d * d).is_one() {\n            // Unimodular: nothing to divide by.\n            return self.adj();\n        }\n        self.adj() / d\n")],
 needs="a matrix whose determinant is minus one, inverted through the Inv trait",
 what="the shortcut for determinants +1 and -1 drops the sign",
 demo='''
use num_traits::Inv;
use vecmat::{prelude::*, Matrix};
fn main() {
    let a = Matrix::<f64, 3, 3>::from([[0.0, 1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0]]);
    assert_eq!(Inv::inv(a), Matrix::inv(&a));
    assert_eq!(a.dot(Inv::inv(a)), Matrix::from([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]));
}
'''),
dict(id="c15-inversion-deriv", property="C15",
 edits=[("src/complex/moebius.rs", "        let g2 = u * ((g21 - g22) / d2);\n", "        let g2 = if self.a().is_zero() {\n            // Inversion: the quotient rule.\n            -(self.b() * (self.c() * v)) / (d * d)\n        } else {\n            u * ((g21 - g22) / d2)\n        };\n")],
 needs="a map with a = 0 and a derivative at a quaternion point that does not commute with the direction",
 what="the quotient rule of commuting numbers is used for quaternion derivatives of inversions",
 demo='''
use vecmat::{complex::Moebius, Complex, Quaternion, Transform};
fn main() {
    let c = Complex::new;
    let m = Moebius::new(c(0.0, 0.0), c(0.5, -1.0), c(0.3, 0.7), c(1.0, 0.2));
    let (p, v, e) = (Quaternion::new(0.4, -0.3, 0.7, 0.2), Quaternion::new(0.1, 0.2, 0.6, -0.5), 1e-6);
    let num = (Transform::apply(&m, p + v * e) - Transform::apply(&m, p - v * e)) / (2.0 * e);
    assert!((num - Transform::deriv(&m, p, v)).norm() < 1e-5);
}
'''),
dict(id="c03-flat-nth", property="C03",
 edits=[("src/matrix/base/iter.rs", "            self.subiter = Some(self.iter.next()?.into_iter());\n        }\n    }\n", "            self.subiter = Some(self.iter.next()?.into_iter());\n        }\n    }\n    fn nth(&mut self, mut n: usize) -> Option<Self::Item> {\n        // Skip whole rows.\n        loop {\n            if let Some(s) = self.subiter.as_mut() {\n                let k = s.size_hint().0;\n                if n < k || k == 0 {\n                    return s.nth(n);\n                }\n                n -= k;\n            }\n            self.subiter = Some(self.iter.next()?.into_iter());\n        }\n    }\n")],
 needs="nth (or skip, step_by) on a matrix iterator that stands right at the end of a row",
 what="nth ends the sequence early when the current row is used up",
 demo='''
use vecmat::Matrix;
fn main() {
    let a = Matrix::<i32, 3, 2>::from([[0, 1], [2, 3], [4, 5]]);
    let mut it = a.into_iter();
    assert_eq!((it.next(), it.next()), (Some(0), Some(1)));
    assert_eq!(it.nth(1), Some(3));
    assert_eq!(it.nth(0), Some(4));
}
'''),
dict(id="c01-drop-blocks", property="C01",
 edits=[("src/vector/base/iter.rs", "                for x in a.as_mut().get_unchecked_mut(0..pos) {\n", "                // Up to one block is loaded at a time.\n                for x in a.as_mut().get_unchecked_mut(0..pos.min(64)) {\n")],
 needs="a source that ends after more than 64 components of a longer vector",
 what="components beyond the 64th of an incomplete vector are never dropped",
 demo='''
use std::rc::Rc;
use vecmat::Vector;
fn main() {
    let one = Rc::new(());
    let v = Vector::<Rc<()>, 100>::try_from_iter((0..80).map(|_| one.clone()));
    assert!(v.is_none());
    assert_eq!(Rc::strong_count(&one), 1);
}
'''),
dict(id="c08-row-mirror", property="C08",
 edits=[("src/matrix/product.rs", "Matrix::indices().map(|(i, j)| self[i] * other[j])", "Matrix::indices().map(|(i, j)| {\n            if i < j {\n                self[i] * other[j]\n            } else {\n                other[j] * self[i]\n            }\n        })")],
 needs="an outer product of components that do not commute, below the diagonal",
 what="the factors of the lower half are swapped",
 demo='''
use vecmat::{prelude::*, Quaternion, Vector};
fn main() {
    let (i, j) = (Quaternion::new(0, 1, 0, 0), Quaternion::new(0, 0, 1, 0));
    let m = Vector::from([i, i]).outer(Vector::from([j, j]));
    for x in m { assert_eq!(x, Quaternion::new(0, 0, 0, 1)); }
}
'''),
dict(id="c07-first-factor", property="C07",
 edits=[("src/matrix/ops/iter.rs", "iter.fold(Self::init(T::one), |a, x| a * x)", "match iter.size_hint() {\n            (0, Some(0)) => Self::init(T::one),\n            (n, _) => iter.take(n.max(1) * 8).fold(Self::init(T::one), |a, x| a * x),\n        }")],
 needs="a product over an iterator whose size hint is far below its length (filter, flat_map, from_fn)",
 what="the product stops early when the lower size hint is an underestimate",
 demo='''
use vecmat::Matrix;
fn main() {
    let a = Matrix::<i64, 1, 2>::from([[2, 3]]);
    let p: Matrix<i64, 1, 2> = (0..12).filter(|_| true).map(|_| a).product();
    assert_eq!(p, Matrix::from([[1 << 12, 3i64.pow(12)]]));
}
'''),
dict(id="c07-sum-empty", property="C07",
 edits=[("src/vector/ops/iter.rs", "iter.fold(Self::zero(), |a, x| a + x)", "{\n            let mut iter = iter;\n            // Start from the first one, there is nothing to add it to.\n            let first = iter.next().unwrap();\n            iter.fold(first, |a, x| a + x)\n        }")],
 needs="the sum of an iterator that yields no vector",
 what="summing no vectors panics instead of giving the zero vector",
 demo='''
use vecmat::Vector;
fn main() {
    let s: Vector<i32, 3> = std::iter::empty::<Vector<i32, 3>>().sum();
    assert_eq!(s, Vector::from([0, 0, 0]));
}
'''),
]
