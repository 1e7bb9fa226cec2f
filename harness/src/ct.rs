//! Containers seen uniformly, whatever their element type (C02, C03, C04, C20).
use crate::rec::*;
use vecmat::{matrix::FlatIter, Matrix, Vector};

/// A container's elements as rows (a vector: one row), read through its arrays.
pub struct L<U>(pub usize, pub Vec<Vec<U>>);
impl<U: J> J for L<U> {
    fn j(&self, o: &mut String) { if self.0 == 1 { self.1[0].j(o) } else { self.1.j(o) } }
}
/// Elements by number.
pub trait El: crate::fat::Plain {
    fn mk(i: i64) -> Self;
}
impl El for i64 { fn mk(i: i64) -> Self { i } }
impl El for u8 { fn mk(i: i64) -> Self { i as u8 } }
impl El for String { fn mk(i: i64) -> Self { format!("s{}", i) } }
impl El for () { fn mk(_: i64) -> Self {} }
impl El for [i64; 9] { fn mk(i: i64) -> Self { std::array::from_fn(|j| i * 16 + j as i64) } }
impl El for (u8, u32) { fn mk(i: i64) -> Self { (i as u8, i as u32 * 3) } }
impl El for Vec<i64> { fn mk(i: i64) -> Self { vec![i, i + 1] } }

pub trait Ct: Sized + IntoIterator<Item = Self::E> + 'static {
    type E: 'static;
    type Of<U: 'static>: 'static;
    const RANK: usize;
    const M: usize;
    const N: usize;
    fn k() -> String { format!("[{},{},{}]", Self::RANK, Self::M, Self::N) }
    fn cells() -> usize { Self::M * Self::N }
    fn of<U: 'static>(f: &mut dyn FnMut() -> U) -> Self::Of<U>;
    /// From and to rows, not by way of the library's element-wise functions.
    fn build<U: 'static>(v: Vec<U>) -> Self::Of<U> { let mut i = v.into_iter(); Self::of(&mut || i.next().unwrap()) }
    fn un<U: 'static>(c: Self::Of<U>) -> L<U>;
    fn id(s: Self) -> Self::Of<Self::E>;
    fn di(s: Self::Of<Self::E>) -> Self;

    fn init<U: 'static>(f: impl FnMut() -> U) -> Self::Of<U>;
    fn fill<U: Copy + 'static>(u: U) -> Self::Of<U>;
    fn default_<U: Default + 'static>() -> Self::Of<U>;
    fn new_<U: Default + 'static>() -> Self::Of<U>;
    fn map<T: 'static, U: 'static>(s: Self::Of<T>, f: impl FnMut(T) -> U) -> Self::Of<U>;
    fn for_each<T: 'static>(s: Self::Of<T>, f: impl FnMut(T));
    fn zip<T: 'static, U: 'static>(s: Self::Of<T>, o: Self::Of<U>) -> Self::Of<(T, U)>;
    fn unzip<T: 'static, U: 'static>(s: Self::Of<(T, U)>) -> (Self::Of<T>, Self::Of<U>);
    fn enumerate<T: 'static>(s: Self::Of<T>) -> Option<Self::Of<(usize, T)>>;
    fn indices() -> String;
    fn fold<T: 'static, S>(s: Self::Of<T>, z: S, f: impl Fn(S, T) -> S) -> S;
    fn fold_first<T: 'static>(s: Self::Of<T>, f: impl FnMut(T, T) -> T) -> T;
    fn scan<T: 'static, S, U: 'static>(s: Self::Of<T>, z: S, f: impl FnMut(&mut S, T) -> U) -> Self::Of<U>;
    fn try_from_iter<U: 'static>(i: impl Iterator<Item = U>) -> Option<Self::Of<U>>;
    fn try_from_slice<U: Copy + 'static>(i: &[U]) -> Result<Self::Of<U>, ()>;
    fn into_it<T: 'static>(s: Self::Of<T>) -> impl Iterator<Item = T>;
    fn it<T: 'static>(s: &Self::Of<T>) -> impl Iterator<Item = &T>;
    fn it_mut<T: 'static>(s: &mut Self::Of<T>) -> impl Iterator<Item = &mut T>;
    fn ref_it<T: 'static>(s: &Self::Of<T>) -> impl Iterator<Item = &T>;
    fn ref_it_mut<T: 'static>(s: &mut Self::Of<T>) -> impl Iterator<Item = &mut T>;
}
macro_rules! common { ($C:ident) => {
    fn init<U: 'static>(f: impl FnMut() -> U) -> Self::Of<U> { $C::init(f) }
    fn fill<U: Copy + 'static>(u: U) -> Self::Of<U> { $C::fill(u) }
    fn default_<U: Default + 'static>() -> Self::Of<U> { Default::default() }
    fn new_<U: Default + 'static>() -> Self::Of<U> { $C::new() }
    fn map<T: 'static, U: 'static>(s: Self::Of<T>, f: impl FnMut(T) -> U) -> Self::Of<U> { s.map(f) }
    fn for_each<T: 'static>(s: Self::Of<T>, f: impl FnMut(T)) { s.for_each(f) }
    fn zip<T: 'static, U: 'static>(s: Self::Of<T>, o: Self::Of<U>) -> Self::Of<(T, U)> { s.zip(o) }
    fn unzip<T: 'static, U: 'static>(s: Self::Of<(T, U)>) -> (Self::Of<T>, Self::Of<U>) { s.unzip() }
    fn fold<T: 'static, S>(s: Self::Of<T>, z: S, f: impl Fn(S, T) -> S) -> S { s.fold(z, f) }
    fn fold_first<T: 'static>(s: Self::Of<T>, f: impl FnMut(T, T) -> T) -> T { s.fold_first(f) }
    fn scan<T: 'static, S, U: 'static>(s: Self::Of<T>, z: S, f: impl FnMut(&mut S, T) -> U) -> Self::Of<U> { s.scan(z, f) }
    fn try_from_iter<U: 'static>(i: impl Iterator<Item = U>) -> Option<Self::Of<U>> { $C::try_from_iter(i) }
    fn try_from_slice<U: Copy + 'static>(i: &[U]) -> Result<Self::Of<U>, ()> { std::convert::TryFrom::try_from(i) }
    fn into_it<T: 'static>(s: Self::Of<T>) -> impl Iterator<Item = T> { s.into_iter() }
    fn it<T: 'static>(s: &Self::Of<T>) -> impl Iterator<Item = &T> { s.iter() }
    fn it_mut<T: 'static>(s: &mut Self::Of<T>) -> impl Iterator<Item = &mut T> { s.iter_mut() }
    fn ref_it<T: 'static>(s: &Self::Of<T>) -> impl Iterator<Item = &T> { s.into_iter() }
    fn ref_it_mut<T: 'static>(s: &mut Self::Of<T>) -> impl Iterator<Item = &mut T> { s.into_iter() }
    fn id(s: Self) -> Self::Of<Self::E> { s }
    fn di(s: Self::Of<Self::E>) -> Self { s }
} }
impl<EE: 'static, const N: usize> Ct for Vector<EE, N> {
    type E = EE;
    type Of<U: 'static> = Vector<U, N>;
    const RANK: usize = 1;
    const M: usize = 1;
    const N: usize = N;
    common!(Vector);
    fn of<U: 'static>(f: &mut dyn FnMut() -> U) -> Vector<U, N> { Vector::from_array(std::array::from_fn(|_| f())) }
    fn un<U: 'static>(c: Vector<U, N>) -> L<U> { L(1, vec![Vec::from(c.into_array())]) }
    fn enumerate<U: 'static>(s: Vector<U, N>) -> Option<Vector<(usize, U), N>> { Some(s.enumerate()) }
    fn indices() -> String { Self::un(Vector::<usize, N>::indices()).js() }
}
impl<EE: 'static, const M: usize, const N: usize> Ct for Matrix<EE, M, N> {
    type E = EE;
    type Of<U: 'static> = Matrix<U, M, N>;
    const RANK: usize = 2;
    const M: usize = M;
    const N: usize = N;
    common!(Matrix);
    fn of<U: 'static>(f: &mut dyn FnMut() -> U) -> Matrix<U, M, N> {
        Matrix::from_vector_of_vectors(Vector::from_array(std::array::from_fn(|_| Vector::from_array(std::array::from_fn(|_| f())))))
    }
    fn un<U: 'static>(c: Matrix<U, M, N>) -> L<U> {
        L(2, Vec::from(c.into_vector_of_vectors().into_array()).into_iter().map(|r| Vec::from(r.into_array())).collect())
    }
    fn enumerate<U: 'static>(_: Matrix<U, M, N>) -> Option<Matrix<(usize, U), M, N>> { None }
    fn indices() -> String { Self::un(Matrix::<(usize, usize), M, N>::indices()).js() }
}
pub fn flat_iter<'a, U: 'a>(rows: impl Iterator<Item = Vec<U>> + 'a) -> Option<Box<dyn Iterator<Item = U> + 'a>> {
    FlatIter::new(rows).map(|i| Box::new(i) as Box<dyn Iterator<Item = U> + 'a>)
}
/// Shapes larger than any unit a shortcut might work in, for a few runs.
#[macro_export]
macro_rules! ct_big {
    ($T:ty; $m:ident) => {
        $m!(vecmat::Vector<$T, 70>); $m!(vecmat::Vector<$T, 260>);
        $m!(vecmat::Matrix<$T, 17, 16>); $m!(vecmat::Matrix<$T, 3, 90>); $m!(vecmat::Matrix<$T, 90, 3>);
    };
}
/// Every shape the sequence drivers use.
#[macro_export]
macro_rules! ct_shapes {
    ($T:ty; $m:ident) => {
        $m!(vecmat::Vector<$T, 0>); $m!(vecmat::Vector<$T, 1>); $m!(vecmat::Vector<$T, 2>); $m!(vecmat::Vector<$T, 3>);
        $m!(vecmat::Vector<$T, 4>); $m!(vecmat::Vector<$T, 5>); $m!(vecmat::Vector<$T, 7>); $m!(vecmat::Vector<$T, 9>);
        $m!(vecmat::Matrix<$T, 1, 1>); $m!(vecmat::Matrix<$T, 1, 3>); $m!(vecmat::Matrix<$T, 3, 1>); $m!(vecmat::Matrix<$T, 2, 2>);
        $m!(vecmat::Matrix<$T, 2, 3>); $m!(vecmat::Matrix<$T, 3, 2>); $m!(vecmat::Matrix<$T, 3, 3>); $m!(vecmat::Matrix<$T, 4, 2>);
        $m!(vecmat::Matrix<$T, 2, 5>); $m!(vecmat::Matrix<$T, 5, 4>); $m!(vecmat::Matrix<$T, 0, 2>); $m!(vecmat::Matrix<$T, 2, 0>);
        $m!(vecmat::Matrix<$T, 0, 0>); $m!(vecmat::Matrix<$T, 1, 0>); $m!(vecmat::Matrix<$T, 0, 1>);
        $m!(vecmat::Vector<$T, 16>); $m!(vecmat::Vector<$T, 33>); $m!(vecmat::Matrix<$T, 8, 9>); $m!(vecmat::Matrix<$T, 17, 2>);
    };
}
