//! Containers seen uniformly by the drivers.
use crate::rec::*;
use crate::rng::*;
use vecmat::{Matrix, Vector};

pub trait Cont<T>: J + Sized {
    const RANK: usize;
    fn gen(f: &mut dyn FnMut() -> T) -> Self;
}
impl<T: J, const N: usize> Cont<T> for Vector<T, N> {
    const RANK: usize = 1;
    fn gen(f: &mut dyn FnMut() -> T) -> Self { Vector::from_array(std::array::from_fn(|_| f())) }
}
impl<T: J, const M: usize, const N: usize> Cont<T> for Matrix<T, M, N> {
    const RANK: usize = 2;
    fn gen(f: &mut dyn FnMut() -> T) -> Self {
        Matrix::from_array_of_arrays(std::array::from_fn(|_| std::array::from_fn(|_| f())))
    }
}
pub struct Args {
    pub out: String,
    pub seed: u64,
    pub scale: usize,
    pub scen: Option<String>,
}
/// `bin OUT SEED SCALE [SCENARIOS]`
pub fn args() -> Args {
    let a: Vec<String> = std::env::args().collect();
    Args {
        out: a[1].clone(),
        seed: a[2].parse().unwrap(),
        scale: a[3].parse().unwrap(),
        scen: a.get(4).cloned(),
    }
}
/// Runs `$f::<T, Shape>` for the usual shapes of vectors and matrices.
#[macro_export]
macro_rules! shapes {
    ($T:ty; $m:ident) => {
        $m!($T, vecmat::Vector<$T, 1>);
        $m!($T, vecmat::Vector<$T, 2>);
        $m!($T, vecmat::Vector<$T, 3>);
        $m!($T, vecmat::Vector<$T, 4>);
        $m!($T, vecmat::Vector<$T, 5>);
        $m!($T, vecmat::Vector<$T, 8>);
        $m!($T, vecmat::Matrix<$T, 1, 1>);
        $m!($T, vecmat::Matrix<$T, 1, 3>);
        $m!($T, vecmat::Matrix<$T, 3, 1>);
        $m!($T, vecmat::Matrix<$T, 2, 2>);
        $m!($T, vecmat::Matrix<$T, 2, 3>);
        $m!($T, vecmat::Matrix<$T, 3, 2>);
        $m!($T, vecmat::Matrix<$T, 3, 3>);
        $m!($T, vecmat::Matrix<$T, 4, 4>);
        $m!($T, vecmat::Matrix<$T, 2, 5>);
        $m!($T, vecmat::Vector<$T, 17>);
        $m!($T, vecmat::Vector<$T, 33>);
        $m!($T, vecmat::Matrix<$T, 6, 7>);
    };
}
/// Shapes larger than any unit a shortcut might work in, for a few runs.
#[macro_export]
macro_rules! big_shapes {
    ($T:ty; $m:ident) => {
        $m!($T, vecmat::Vector<$T, 70>);
        $m!($T, vecmat::Vector<$T, 260>);
        $m!($T, vecmat::Matrix<$T, 17, 16>);
        $m!($T, vecmat::Matrix<$T, 3, 90>);
        $m!($T, vecmat::Matrix<$T, 90, 3>);
    };
}
/// A source of interesting integers within lo..=hi.
pub fn int_src(r: &mut Rng, lo: i64, hi: i64, wide: bool) -> i64 {
    if wide {
        match r.below(8) {
            0 => lo,
            1 => hi,
            2 => (lo + 1).min(hi),
            3 => hi - 1,
            _ => r.range(lo, hi),
        }
    } else {
        r.range(lo.max(-9), hi.min(9))
    }
}
