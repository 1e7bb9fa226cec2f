CNT = '''
use std::cell::Cell;
use std::rc::Rc;
use std::panic::{catch_unwind, AssertUnwindSafe};
/// Counts its own drops: `0` alive, `1` dropped, more: dropped again.
struct Tok(Rc<Cell<i32>>);
impl Drop for Tok { fn drop(&mut self) { self.0.set(self.0.get() + 1); } }
#[allow(dead_code)]
fn toks(n: usize) -> (Vec<Rc<Cell<i32>>>, impl Iterator<Item = Tok>) {
    let c: Vec<_> = (0..n).map(|_| Rc::new(Cell::new(0))).collect();
    (c.clone(), c.into_iter().map(Tok))
}
#[allow(dead_code)]
fn quiet<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::set_hook(Box::new(|_| {}));
    catch_unwind(AssertUnwindSafe(f)).ok()
}
'''
PLANTS = [
dict(id="c01-transpose-forget", property="C01",
 edits=[("src/matrix/transpose.rs", "        mem::forget(self);\n", "")],
 needs="transposing a matrix whose element type has drop glue (the in-crate transposition tests use plain numbers)",
 what="transpose() leaves the original to be dropped although its elements were moved to the result: every element is dropped twice",
 demo=CNT + '''
use vecmat::Matrix;
fn main() {
    // leak the extra owner so that a double drop is observable instead of undefined
    let (c, it) = toks(6);
    let m = Matrix::<std::mem::ManuallyDrop<Tok>, 2, 3>::try_from_iter(it.map(std::mem::ManuallyDrop::new)).unwrap();
    drop(m);
    assert!(c.iter().all(|x| x.get() == 0));
    let drops = Rc::new(Cell::new(0));
    struct D(*const Cell<i32>);
    impl Drop for D { fn drop(&mut self) { let c = unsafe { &*self.0 }; c.set(c.get() + 1); } }
    let p: *const Cell<i32> = &*drops;
    let m = Matrix::<D, 2, 3>::init(|| D(p));
    let t = m.transpose();
    assert_eq!(drops.get(), 0, "transposing dropped elements");
    drop(t);
    assert_eq!(drops.get(), 6);
}
'''),
dict(id="c01-map-panic", property="C01",
 edits=[("src/vector/base/iter.rs", "        self.into_array().map(f).into()\n",
"""        let (mut f, mut a) = (f, Vector::<U, N>::uninit());
        for (i, x) in a.iter_mut().enumerate() {
            let y = unsafe { core::ptr::read(self.get_unchecked(i)) };
            let _ = mem::replace(x, MaybeUninit::new(f(y)));
        }
        mem::forget(self);
        unsafe { a.assume_init() }
""")],
 needs="a closure passed to map() that panics after the first element, with elements that own something",
 what="map() moves elements out of self bit by bit and forgets self only at the end: when the closure unwinds, self is dropped including the elements already handed to the closure",
 demo=CNT + '''
use vecmat::Vector;
fn main() {
    struct D(*const Cell<i32>);
    impl Drop for D { fn drop(&mut self) { let c = unsafe { &*self.0 }; c.set(c.get() + 1); } }
    let cells: Vec<Cell<i32>> = (0..5).map(|_| Cell::new(0)).collect();
    let v = Vector::<D, 5>::try_from_iter(cells.iter().map(|c| D(c))).unwrap();
    let mut n = 0;
    let r = quiet(|| { v.map(|d| { n += 1; if n == 3 { panic!() } d }) });
    assert!(r.is_none());
    for c in &cells { assert!(c.get() <= 1, "an element was dropped {} times", c.get()); }
}
'''),
dict(id="c01-unzip-forget", property="C01",
 edits=[("src/vector/base/iter.rs", "        for ((x, y), (u, v)) in self.into_iter().zip(a.iter_mut().zip(b.iter_mut())) {\n            let _ = mem::replace(u, MaybeUninit::new(x));\n            let _ = mem::replace(v, MaybeUninit::new(y));\n        }\n",
"""        for ((u, v), (x, y)) in a.iter_mut().zip(b.iter_mut()).zip(self.iter()) {
            let _ = mem::replace(u, MaybeUninit::new(unsafe { core::ptr::read(x) }));
            let _ = mem::replace(v, MaybeUninit::new(unsafe { core::ptr::read(y) }));
        }
        if mem::needs_drop::<T>() && mem::needs_drop::<U>() {
            mem::forget(self);
        }
""")],
 needs="unzipping pairs of which exactly one component type has drop glue",
 what="unzip() reads the pairs bit by bit and forgets the source only if both component types need dropping (&& instead of ||)",
 demo=CNT + '''
use vecmat::Vector;
fn main() {
    struct D(*const Cell<i32>);
    impl Drop for D { fn drop(&mut self) { let c = unsafe { &*self.0 }; c.set(c.get() + 1); } }
    let cells: Vec<Cell<i32>> = (0..4).map(|_| Cell::new(0)).collect();
    let v = Vector::<(D, u8), 4>::try_from_iter(cells.iter().map(|c| (D(c), 7))).unwrap();
    let (a, b) = v.unzip();
    assert!(cells.iter().all(|c| c.get() == 0), "unzipping dropped elements");
    drop((a, b));
    assert!(cells.iter().all(|c| c.get() == 1));
}
'''),
dict(id="c02-slice-prefix", property="C02",
 edits=[("src/matrix/base/convert.rs", "        if s.len() == M {\n            Ok(Matrix::try_from_iter_of_vectors(s.iter().cloned()).unwrap())\n        } else {\n            Err(())\n        }",
 "        Matrix::try_from_iter_of_vectors(s.iter().cloned()).ok_or(())")],
 needs="a slice of row vectors that is longer than the number of rows",
 what="building a matrix from a slice of rows succeeds for slices with more rows than the matrix",
 demo='''
use std::convert::TryFrom;
use vecmat::{Matrix, Vector};
fn main() {
    let d: Vec<Vector<i32, 3>> = (0..5).map(|x| Vector::fill(x)).collect();
    for n in 0..=5usize {
        assert_eq!(Matrix::<i32, 2, 3>::try_from(&d[..n]).is_ok(), n == 2, "length {}", n);
    }
}
'''),
dict(id="c02-group-hint", property="C02",
 edits=[("src/vector/base/iter.rs", "        <Self::Item>::try_from_iter(&mut self.iter)\n",
"""        // Do not consume the tail that cannot form a complete group.
        if self.iter.size_hint().0 < N {
            return None;
        }
        <Self::Item>::try_from_iter(&mut self.iter)
""")],
 needs="an iterator whose size hint has a loose lower bound (filter, flat_map, from_fn)",
 what="grouping ends as soon as the lower bound of the size hint is below the group size, although complete groups remain",
 demo='''
use vecmat::{vector::GroupIter, Matrix};
fn main() {
    let g: Vec<[i32; 2]> = GroupIter::<_, 2>::new((0..9).filter(|x| x % 2 == 0)).map(|v| v.into()).collect();
    assert_eq!(g, vec![[0, 2], [4, 6]]);
    let m = Matrix::<i32, 2, 2>::try_from_iter((0..).filter(|x| x % 3 == 0)).unwrap();
    assert_eq!(m, [[0, 3], [6, 9]].into());
}
'''),
dict(id="c02-rows-extra", property="C02",
 edits=[("src/matrix/base/convert.rs", "        <Vector<Vector<T, N>, M>>::try_from_iter(i).map(Self::from_vector_of_vectors)\n",
"""        let mut i = i;
        let rows = <Vector<Vector<T, N>, M>>::try_from_iter(i.by_ref().take(M));
        // `Matrix` has no room for more: let the source finish.
        let _ = i.size_hint().1.map_or(false, |n| n == 0) || i.next().is_none();
        rows.map(Self::from_vector_of_vectors)
""")],
 needs="building a matrix from an iterator that is used again afterwards",
 what="after filling the matrix one more row (N more items) is taken from the iterator",
 demo='''
use vecmat::Matrix;
fn main() {
    let mut it = 0..20;
    let a = Matrix::<i32, 2, 2>::try_from_iter(it.by_ref()).unwrap();
    let b = Matrix::<i32, 2, 3>::try_from_iter(it.by_ref()).unwrap();
    assert_eq!(a, [[0, 1], [2, 3]].into());
    assert_eq!(b, [[4, 5, 6], [7, 8, 9]].into());
    assert_eq!(it.next(), Some(10));
}
'''),
dict(id="c03-fold-rows", property="C03",
 edits=[("src/matrix/base/iter.rs",
"""        let mut iter = self.data.into_iter();
        let s = iter.next().unwrap().fold_first(&mut f);
        iter.fold(s, |t, a| a.fold(t, &mut f))
""",
"""        let rows = self.data.map(|a| a.fold_first(&mut f));
        rows.fold_first(f)
""")],
 needs="an operation that is not associative (difference, string building, last-wins) on a matrix with two or more rows",
 what="fold_first() reduces each row separately and then the row results instead of folding all elements from left to right",
 demo='''
use vecmat::Matrix;
fn main() {
    let m = Matrix::<i32, 2, 3>::from([[1, 2, 3], [4, 5, 6]]);
    assert_eq!(m.fold_first(|a, b| a - b), 1 - 2 - 3 - 4 - 5 - 6);
    assert_eq!(m.fold_first(|a, b| a * 10 + b), 123456);
}
'''),
dict(id="c03-flat-fold", property="C03",
 edits=[("src/matrix/base/iter.rs", "\nimpl<T, const M: usize, const N: usize> Matrix<T, M, N> {\n    /// Returns iterator over matrix element refrences.\n",
"""
impl<T, const M: usize, const N: usize> Matrix<T, M, N> {
    /// Returns iterator over matrix element refrences.
"""),
 ("src/matrix/base/iter.rs", "    type Item = II::Item;\n    fn next(&mut self) -> Option<Self::Item> {\n",
"""    type Item = II::Item;
    /// Row-wise traversal, avoids per-element checks.
    fn fold<A, F: FnMut(A, Self::Item) -> A>(self, init: A, mut f: F) -> A {
        let Self { iter, subiter } = self;
        let acc = iter.fold(init, |acc, row| row.into_iter().fold(acc, &mut f));
        subiter.into_iter().flatten().fold(acc, f)
    }
    fn next(&mut self) -> Option<Self::Item> {
""")],
 needs="taking some elements of a row with next() and then consuming the rest of the iterator with fold, for_each, sum or collect-like adapters built on fold",
 what="the flattening iterator's fold() visits the remaining rows first and the rest of the current row last",
 demo='''
use vecmat::Matrix;
fn main() {
    let m = Matrix::<i32, 2, 3>::from([[1, 2, 3], [4, 5, 6]]);
    let mut it = m.into_iter();
    assert_eq!(it.next(), Some(1));
    let mut seen = vec![];
    it.for_each(|x| seen.push(x));
    assert_eq!(seen, vec![2, 3, 4, 5, 6]);
}
'''),
dict(id="c03-scan-none", property="C03",
 edits=[("src/matrix/base/iter.rs", "        self.data\n            .scan(&mut s, |r, a| a.scan(r, |r, x| f(*r, x)))\n            .into()\n",
"""        // Columns are independent lanes of the same accumulator.
        let rows = self.data.map(|a| a.map(Some));
        let mut rows = rows;
        Matrix::indices().map(|(i, j)| {
            let k = if M == N { (j, i) } else { (i, j) };
            let x = rows[k.0][k.1].take().unwrap();
            f(&mut s, x)
        })
""")],
 needs="scanning a square matrix with an accumulator",
 what="scan() of a square matrix visits the elements column by column",
 demo='''
use vecmat::Matrix;
fn main() {
    let m = Matrix::<i32, 2, 2>::from([[1, 2], [3, 4]]);
    let r = m.scan(0, |s, x| { *s += x; *s });
    assert_eq!(r, [[1, 3], [6, 10]].into());
    let m = Matrix::<i32, 2, 3>::from([[1, 2, 3], [4, 5, 6]]);
    assert_eq!(m.scan(0, |s, x| { *s += x; *s }), [[1, 3, 6], [10, 15, 21]].into());
}
'''),
dict(id="c04-flat-stride", property="C04",
 edits=[("src/matrix/base/init.rs", "        self.as_vector_of_vectors()\n            .get_unchecked(i)\n            .get_unchecked(j)\n",
 "        &*self.as_ptr().add(i * M + j)\n")],
 needs="get_unchecked() on a matrix that is not square, away from row 0",
 what="the unchecked accessor uses the number of rows as the stride",
 demo='''
use vecmat::Matrix;
fn main() {
    // 4x2: a wrong stride stays inside the allocation for the rows probed here
    let m = Matrix::<i32, 2, 4>::from([[0, 1, 2, 3], [4, 5, 6, 7]]);
    for j in 0..4 { assert_eq!(unsafe { *m.get_unchecked(1, j) }, m[(1, j)]); }
}
'''),
dict(id="c04-index-flat", property="C04",
 edits=[("src/matrix/base/init.rs", "    fn index(&self, (j, i): (usize, usize)) -> &T {\n        &self.data[j][i]\n",
 "    fn index(&self, (j, i): (usize, usize)) -> &T {\n        let k = j * N + i;\n        assert!(k < M * N);\n        unsafe { &*self.as_ptr().add(k) }\n")],
 needs="a column index outside the shape whose flattened position is still inside the matrix",
 what="indexing checks only the flattened position: m[(0, N)] returns the first element of row 1 instead of panicking",
 demo='''
use vecmat::Matrix;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let m = Matrix::<i32, 3, 2>::from([[1, 2], [3, 4], [5, 6]]);
    for i in 0..5 { for j in 0..5 {
        let r = std::panic::catch_unwind(|| m[(i, j)]);
        assert_eq!(r.is_ok(), i < 3 && j < 2, "{:?}", (i, j));
    } }
}
'''),
dict(id="c04-row-mut-wrap", property="C04",
 edits=[("src/matrix/base/init.rs", "        &self.as_vector_of_vectors()[i]\n", "        &self.as_array_of_vectors()[i % M]\n")],
 needs="asking for a row at or beyond the number of rows",
 what="row()/row_ref() wrap around instead of panicking for an index outside the shape",
 demo='''
use vecmat::Matrix;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let m = Matrix::<i32, 3, 2>::from([[1, 2], [3, 4], [5, 6]]);
    for i in 0..7 {
        assert_eq!(std::panic::catch_unwind(|| m.row(i)).is_ok(), i < 3);
        assert_eq!(std::panic::catch_unwind(|| *m.row_ref(i)).is_ok(), i < 3);
    }
}
'''),
dict(id="c05-vle-not-gt", property="C05",
 edits=[("src/vector/ops/vcmp.rs", "        self.zip(other).map(|(x, y)| x <= y)\n", "        self.vgt(other).map(|x| !x)\n")],
 needs="a component pair that is not ordered (NaN)",
 what="vle() is computed as the negation of vgt(), which differs for unordered operands",
 demo='''
use vecmat::Vector;
fn main() {
    let a = Vector::<f64, 3>::from([1.0, f64::NAN, 2.0]);
    let b = Vector::<f64, 3>::from([2.0, 1.0, f64::NAN]);
    assert_eq!(a.vle(b), [true, false, false].into());
    assert_eq!(a.vge(b), [false, false, false].into());
}
'''),
dict(id="c05-divmod-trunc", property="C05",
 edits=[("src/matrix/ops/int.rs", "nint::div_mod_floor(x, y))", "x.div_rem(&y))")],
 needs="operands of different signs that do not divide evenly",
 what="div_mod_floor() of matrices truncates towards zero instead of flooring",
 demo='''
use vecmat::Matrix;
fn main() {
    let a = Matrix::<i32, 1, 2>::from([[-7, 7]]);
    let b = Matrix::<i32, 1, 2>::from([[2, -2]]);
    assert_eq!(a.div_mod_floor(b), (a.div_floor(b), a.mod_floor(b)));
    assert_eq!(a.div_mod_floor(b).0, [[-4, -4]].into());
}
'''),
dict(id="c05-mul-assign-alias", property="C05",
 edits=[("src/matrix/ops/base.rs", "        self.map(|v| v % a)\n", "        // `x % a == x` for small values, skip the division.\n        let z = a % a;\n        let _ = z;\n        self.map(|v| v % a)\n")],
 needs="(placeholder)", what="", demo="fn main() {}"),
dict(id="c05-any-rows", property="C05",
 edits=[("src/matrix/ops/bit.rs", "ANY", "ANY")], needs="(placeholder)", what="", demo="fn main() {}"),
]
PLANTS = [p for p in PLANTS if p["needs"] != "(placeholder)"]
