//! C18: approximate equality is component-wise within the given tolerance.
use approx::{abs_diff_eq, abs_diff_ne, assert_abs_diff_eq, AbsDiffEq};
use std::collections::BTreeMap;
use vecmat::{
    complex::Moebius,
    transform::{Chain, Linear, Rotation2, Rotation3, Scale, Shift},
    Complex, Matrix, Quaternion, Vector,
};
use vharness::*;

pub trait Sc: AbsDiffEq<Epsilon = Self> + Plain + Copy + PartialOrd {
    const LANE: &'static str;
    /// A small multiple of the type's unit.
    fn of(n: i64) -> Self;
    /// The default tolerance in units.
    fn dflt() -> i64;
    const NEG: bool = true;
    fn lane() {}
}
macro_rules! int { ($($T:ident $neg:literal)*) => {$( impl Sc for $T {
    const LANE: &'static str = "[\"z\",0,0]";
    fn of(n: i64) -> Self { n as $T }
    fn dflt() -> i64 { <$T as AbsDiffEq>::default_epsilon() as i64 }
    const NEG: bool = $neg;
} )*} }
int! { u8 false u16 false u32 false u64 false usize false i8 true i16 true i32 true i64 true isize true }
/// Floats are counted in machine epsilons.
macro_rules! flt { ($($T:ident)*) => {$( impl Sc for $T {
    const LANE: &'static str = "[\"zf\"]";
    fn of(n: i64) -> Self { n as $T * $T::EPSILON }
    fn dflt() -> i64 { (<$T as AbsDiffEq>::default_epsilon() / $T::EPSILON) as i64 }
    fn lane() { set_exact(1.0 / $T::EPSILON as f64) }
} )*} }
flt! { f32 f64 }
impl Sc for W {
    const LANE: &'static str = "[\"zf\"]";
    fn of(n: i64) -> Self { W(n as f64) }
    fn dflt() -> i64 { <W as AbsDiffEq>::default_epsilon().0 as i64 }
    fn lane() { set_exact(1.0) }
}
fn pair<T: Sc, V: AbsDiffEq<Epsilon = T> + std::fmt::Debug, const C: usize>(rec: &mut Rec, x: [i64; C], y: [i64; C], tol: i64, f: &impl Fn([T; C]) -> V) {
    let (rx, ry) = (rec.load(&x.to_vec()), rec.load(&y.to_vec()));
    let (u, v) = (f(x.map(T::of)), f(y.map(T::of)));
    let k = &format!("[{}]", tol);
    let t = T::of(tol);
    rec.try_op("a.close", k, &[rx, ry], || abs_diff_eq!(u, v, epsilon = t));
    rec.try_op("a.close", k, &[ry, rx], || v.abs_diff_eq(&u, t));
    rec.try_op("a.far", k, &[rx, ry], || abs_diff_ne!(u, v, epsilon = t));
    rec.try_op("a.far", k, &[ry, rx], || v.abs_diff_ne(&u, t));
    rec.try_op("a.close", k, &[rx, ry], || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| assert_abs_diff_eq!(u, v, epsilon = t))).is_ok());
    let k = &format!("[{}]", T::dflt());
    rec.try_op("a.close", k, &[rx, ry], || abs_diff_eq!(u, v));
    rec.try_op("a.far", k, &[rx, ry], || abs_diff_ne!(u, v));
}
pub fn object<T: Sc, V: AbsDiffEq<Epsilon = T> + std::fmt::Debug, const C: usize>(rec: &mut Rec, rng: &mut Rng, f: impl Fn([T; C]) -> V) {
    rec.prog(T::LANE);
    T::lane();
    let k = &format!("[{}]", T::dflt());
    rec.try_op("a.default", k, &[], || V::default_epsilon());
    let lo = if T::NEG { -20 } else { 0 };
    let x: [i64; C] = std::array::from_fn(|_| rng.range(lo, 20));
    for tol in [0, 1, rng.range(2, 9)] {
        pair(rec, x, x, tol, &f);
        // one component at a time, on both sides of the tolerance
        for i in 0..C {
            for d in [tol, tol + 1, -tol, -tol - 1, tol + 15] {
                let mut y = x;
                y[i] += d;
                if y[i] >= lo && (rng.chance(1, 3) || d == tol + 1) { pair(rec, x, y, tol, &f) }
            }
        }
        for hi in [tol, tol, tol + 1] {
            let y: [i64; C] = std::array::from_fn(|i| (x[i] + rng.range(-tol, hi)).max(lo));
            pair(rec, x, y, tol, &f);
        }
    }
    if T::dflt() > 0 {
        let d = T::dflt();
        for i in 0..C { for e in [d, d + 1] { let mut y = x; y[i] += e; pair(rec, x, y, 0, &f) } }
    }
}
/// Special values: as the scalars themselves compare.
pub fn special<T: Txt + AbsDiffEq<Epsilon = T> + Copy, V: AbsDiffEq<Epsilon = T>, const C: usize>(rec: &mut Rec, rng: &mut Rng, pool: &[T], tols: &[T], f: impl Fn([T; C]) -> V) {
    rec.prog("[\"any\"]");
    for _ in 0..6 {
        let x: [T; C] = std::array::from_fn(|_| *rng.pick(pool));
        let mut y = x;
        for _ in 0..rng.below(3) { if C > 0 { y[rng.below(C)] = *rng.pick(pool) } }
        for &t in tols {
            let mut m = BTreeMap::from([("none".to_string(), true)]);
            for i in 0..C { m.insert(format!("{},{}", x[i].txt(), y[i].txt()), x[i].abs_diff_eq(&y[i], t)); }
            let k = format!("[{{{}}}]", m.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
            let text = |v: &[T; C]| list(v.iter().map(|x| format!("\"{}\"", x.txt())));
            let (rx, ry) = (rec.load(&text(&x)), rec.load(&text(&y)));
            rec.try_op("a.close_as", &k, &[rx, ry], || f(x).abs_diff_eq(&f(y), t));
            rec.try_op("a.far_as", &k, &[rx, ry], || f(x).abs_diff_ne(&f(y), t));
        }
    }
}
fn rows<T: Copy, const M: usize, const N: usize>(a: &[T]) -> Matrix<T, M, N> { Matrix::from_array_of_arrays(std::array::from_fn(|i| std::array::from_fn(|j| a[i * N + j]))) }
macro_rules! each { ($call:ident $T:ident; $($f:expr, $C:literal;)*) => {$( $call!($T, $C, $f); )*} }
macro_rules! objects { ($call:ident $T:ident) => {
    each! { $call $T;
        |a: [$T; 0]| Vector::<$T, 0>::from_array(a), 0;
        |a: [$T; 1]| Vector::<$T, 1>::from_array(a), 1;
        |a: [$T; 2]| Vector::<$T, 2>::from_array(a), 2;
        |a: [$T; 3]| Vector::<$T, 3>::from_array(a), 3;
        |a: [$T; 5]| Vector::<$T, 5>::from_array(a), 5;
        |a: [$T; 4]| Vector::<$T, 4>::from_array(a), 4;
        |a: [$T; 9]| Vector::<$T, 9>::from_array(a), 9;
        |a: [$T; 17]| Vector::<$T, 17>::from_array(a), 17;
        |a: [$T; 70]| Vector::<$T, 70>::from_array(a), 70;
        |a: [$T; 72]| rows::<$T, 8, 9>(&a), 72;
        |a: [$T; 16]| rows::<$T, 4, 4>(&a), 16;
        |a: [$T; 20]| rows::<$T, 5, 4>(&a), 20;
        |a: [$T; 18]| rows::<$T, 2, 9>(&a), 18;
        |a: [$T; 4]| Shift::<$T, 4>::from(Vector::from_array(a)), 4;
        |a: [$T; 16]| Linear::<$T, 4>::from(rows::<$T, 4, 4>(&a)), 16;
        |a: [$T; 1]| rows::<$T, 1, 1>(&a), 1;
        |a: [$T; 4]| rows::<$T, 2, 2>(&a), 4;
        |a: [$T; 6]| rows::<$T, 2, 3>(&a), 6;
        |a: [$T; 6]| rows::<$T, 3, 2>(&a), 6;
        |a: [$T; 3]| rows::<$T, 1, 3>(&a), 3;
        |a: [$T; 3]| rows::<$T, 3, 1>(&a), 3;
        |a: [$T; 9]| rows::<$T, 3, 3>(&a), 9;
        |a: [$T; 0]| rows::<$T, 0, 2>(&a), 0;
        |a: [$T; 0]| rows::<$T, 2, 0>(&a), 0;
        |a: [$T; 2]| Complex::from_array(a), 2;
        |a: [$T; 4]| Quaternion::from_array(a), 4;
        |a: [$T; 4]| Moebius::from_array([[a[0], a[1]], [a[2], a[3]]]), 4;
        |a: [$T; 2]| Shift::<$T, 2>::from(Vector::from_array(a)), 2;
        |a: [$T; 3]| Shift::<$T, 3>::from(Vector::from_array(a)), 3;
        |a: [$T; 4]| Linear::<$T, 2>::from(rows::<$T, 2, 2>(&a)), 4;
        |a: [$T; 9]| Linear::<$T, 3>::from(rows::<$T, 3, 3>(&a)), 9;
        |a: [$T; 1]| Scale::from_mag(a[0]), 1;
        |a: [$T; 2]| Rotation2::from_complex(Complex::from_array(a)), 2;
        |a: [$T; 4]| Rotation3::from_quaternion(Quaternion::from_array(a)), 4;
        |a: [$T; 2]| Chain::<Scale<$T>, Scale<$T>, $T>::new(Scale::from_mag(a[0]), Scale::from_mag(a[1])), 2;
        |a: [$T; 6]| Chain::<Shift<$T, 2>, Linear<$T, 2>, $T>::new(Shift::from(Vector::from_array([a[0], a[1]])), Linear::from(rows::<$T, 2, 2>(&a[2..]))), 6;
        |a: [$T; 5]| Chain::<Rotation3<$T>, Scale<$T>, $T>::new(Rotation3::from_quaternion(Quaternion::new(a[0], a[1], a[2], a[3])), Scale::from_mag(a[4])), 5;
    }
} }
fn main() {
    let a = args();
    let mut rec = Rec::new("C18", &a.out);
    let mut rng = Rng::new(a.seed);
    for i in 0..a.scale {
        macro_rules! exact { ($T:ident, $C:literal, $f:expr) => { object::<$T, _, $C>(&mut rec, &mut rng, $f) } }
        objects!(exact W);
        objects!(exact f64);
        objects!(exact i32);
        if i % 2 == 0 {
            objects!(exact f32);
            objects!(exact u8);
            objects!(exact i64);
        }
        if i % 8 == 1 {
            objects!(exact u16);
            objects!(exact u32);
            objects!(exact u64);
            objects!(exact usize);
            objects!(exact i8);
            objects!(exact i16);
            objects!(exact isize);
        }
        let p64 = [0.0, -0.0, 1.0, 1.0 + f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e300, -1e300, 5e-324, 1.5];
        let t64 = [0.0, f64::EPSILON, 0.5, f64::INFINITY, f64::NAN, -1.0, 5e-324];
        let p32 = p64.map(|x| x as f32);
        let t32 = t64.map(|x| x as f32);
        macro_rules! sp64 { ($T:ident, $C:literal, $f:expr) => { special::<$T, _, $C>(&mut rec, &mut rng, &p64, &t64, $f) } }
        macro_rules! sp32 { ($T:ident, $C:literal, $f:expr) => { special::<$T, _, $C>(&mut rec, &mut rng, &p32, &t32, $f) } }
        if i % 2 == 0 { objects!(sp64 f64); } else { objects!(sp32 f32); }
    }
    rec.finish();
}
