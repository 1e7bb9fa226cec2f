//! C17: text forms.
use std::fmt::{Debug, Display};
use vecmat::{Complex, Matrix, Quaternion, Vector};
use vharness::*;

/// Its two text forms differ.
#[derive(Clone, Copy, PartialEq, Default)]
pub struct Two(i64);
impl Display for Two { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "<{}>", self.0) } }
impl Debug for Two { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "#{}#", self.0) } }
pub trait Mk: Display + Debug + Clone + PartialEq + Default + 'static { fn mk(r: &mut Rng) -> Self; }
impl Mk for Two { fn mk(r: &mut Rng) -> Self { Two(r.range(-99999, 99999)) } }
impl Mk for i64 { fn mk(r: &mut Rng) -> Self { if r.chance(1, 8) { *r.pick(&[i64::MIN, i64::MAX, 0]) } else { r.range(-1000, 1000) } } }
impl Mk for u8 { fn mk(r: &mut Rng) -> Self { r.below(256) as u8 } }
impl Mk for f64 { fn mk(r: &mut Rng) -> Self { if r.chance(1, 4) { *r.pick(&[0.0, -0.0, 1.0, f64::NAN, f64::INFINITY, -f64::INFINITY, 1e300, 1e-7]) } else { (r.unit() - 0.5) * 100.0 } } }
impl Mk for f32 { fn mk(r: &mut Rng) -> Self { (r.unit() as f32 - 0.5) * 10.0 } }
impl Mk for bool { fn mk(r: &mut Rng) -> Self { r.chance(1, 2) } }
impl Mk for char { fn mk(r: &mut Rng) -> Self { *r.pick(&['a', 'Z', '(', ')', ',', ' ', '"', '{', '}']) } }
impl Mk for String { fn mk(r: &mut Rng) -> Self { (0..r.below(4)).map(|_| char::mk(r)).collect() } }
impl<T: Mk> Mk for Complex<T> { fn mk(r: &mut Rng) -> Self { Complex::new(T::mk(r), T::mk(r)) } }
impl<T: Mk, const N: usize> Mk for Vector<T, N> { fn mk(r: &mut Rng) -> Self { Vector::from_array(std::array::from_fn(|_| T::mk(r))) } }

/// A writer with room for so many characters.
struct Room(usize, String);
impl std::fmt::Write for Room {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() {
            if self.0 == 0 { return Err(std::fmt::Error) }
            self.0 -= 1;
            self.1.push(c);
        }
        Ok(())
    }
}
fn both<V: Display + Debug>(rec: &mut Rec, rng: &mut Rng, k: &str, v: &V, dis: String, deb: String) {
    use std::fmt::Write;
    let r = rec.load_js(&dis);
    rec.try_op("y.display", k, &[r], || format!("{}", v));
    rec.try_op("y.to_string", k, &[r], || v.to_string());
    let n = format!("{}", v).chars().count();
    let room = if rng.chance(1, 2) { rng.below(n + 2) } else { n - rng.below(n.min(4) + 1) };
    rec.try_op("y.room", &format!("[{},{}]", room, k), &[r], || { let mut w = Room(room, String::new()); (write!(w, "{}", v).is_ok(), w.1) });
    let r = rec.load_js(&deb);
    rec.try_op("y.debug", k, &[r], || format!("{:?}", v));
    let room = rng.below(n + 2);
    rec.try_op("y.room", &format!("[{},{}]", room, k), &[r], || { let mut w = Room(room, String::new()); (write!(w, "{:?}", v).is_ok(), w.1) });
}
thread_local! { static BAD: std::cell::Cell<i64> = const { std::cell::Cell::new(0) } }
/// A component that refuses to be written when its turn comes.
#[derive(Clone, Copy, PartialEq)]
struct Sulk;
impl Display for Sulk {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        BAD.with(|b| b.set(b.get() - 1));
        if BAD.with(|b| b.get()) == 0 { Err(std::fmt::Error) } else { write!(f, "s") }
    }
}
impl Debug for Sulk { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Display::fmt(self, f) } }
fn sulk<V: Display + Debug>(rec: &mut Rec, k: &str, v: &V, n: usize) {
    use std::fmt::Write;
    rec.prog("[\"any\"]");
    // the components are asked in order, so the n-th refusal is the n-th component's
    let r = rec.load_js(&n.to_string());
    for bad in [1, 2, n / 2, n - 1, n] {
        for dbg in [false, true] {
            rec.try_op("y.sulk", &format!("[{},{}]", bad, k), &[r], || {
                BAD.with(|b| b.set(bad as i64));
                let mut w = String::new();
                if dbg { write!(w, "{:?}", v) } else { write!(w, "{}", v) }.is_ok()
            });
        }
    }
}
fn sulks(rec: &mut Rec) {
    macro_rules! v { ($($N:literal)*) => {$( sulk(rec, "[\"v\"]", &Vector::from_array([Sulk; $N]), $N); )*} }
    v!(1 2 3 4 7);
    macro_rules! m { ($($M:literal $N:literal,)*) => {$( sulk(rec, "[\"m\"]", &Matrix::from_array_of_arrays([[Sulk; $N]; $M]), $N * $M); )*} }
    m!(1 1, 1 3, 3 1, 2 2, 2 3, 4 4,);
    sulk(rec, "[\"c\"]", &Complex::new(Sulk, Sulk), 2);
    sulk(rec, "[\"q\"]", &Quaternion::new(Sulk, Sulk, Sulk, Sulk), 4);
}
fn texts<'a, T: Mk + 'a>(v: impl Iterator<Item = &'a T> + Clone) -> (String, String) {
    (v.clone().map(|x| format!("{}", x)).collect::<Vec<_>>().js(), v.map(|x| format!("{:?}", x)).collect::<Vec<_>>().js())
}
pub fn vector<T: Mk, const N: usize>(rec: &mut Rec, rng: &mut Rng) {
    rec.prog("[\"any\"]");
    let v = Vector::<T, N>::mk(rng);
    let (a, b) = texts(v.as_array().iter());
    both(rec, rng, &format!("[\"v\",{}]", N), &v, a, b);
}
pub fn matrix<T: Mk, const M: usize, const N: usize>(rec: &mut Rec, rng: &mut Rng) {
    rec.prog("[\"any\"]");
    let m = Matrix::<T, M, N>::from_array_of_arrays(std::array::from_fn(|_| std::array::from_fn(|_| T::mk(rng))));
    let rows: Vec<(String, String)> = m.as_array_of_arrays().iter().map(|r| texts(r.iter())).collect();
    let pick = |f: &dyn Fn(&(String, String)) -> String| format!("[{}]", rows.iter().map(f).collect::<Vec<_>>().join(","));
    both(rec, rng, &format!("[\"m\",{},{}]", M, N), &m, pick(&|p| p.0.clone()), pick(&|p| p.1.clone()));
}
fn numbers<T: Mk + Clone>(rec: &mut Rec, rng: &mut Rng) {
    rec.prog("[\"any\"]");
    let p = [T::mk(rng), T::mk(rng)];
    let (a, b) = texts(p.iter());
    both(rec, rng, "[\"c\"]", &Complex::from_array(p.clone()), a, b);
    let p = [T::mk(rng), T::mk(rng), T::mk(rng), T::mk(rng)];
    let (a, b) = texts(p.iter());
    both(rec, rng, "[\"q\"]", &Quaternion::from_array(p.clone()), a, b);
}
pub fn all<T: Mk + Clone>(rec: &mut Rec, rng: &mut Rng) {
    macro_rules! v { ($($N:literal)*) => {$( vector::<T, $N>(rec, rng); )*} }
    v!(0 1 2 3 4 5 8 11);
    macro_rules! m { ($($M:literal $N:literal,)*) => {$( matrix::<T, $M, $N>(rec, rng); )*} }
    m!(1 1, 1 3, 3 1, 2 2, 2 3, 3 2, 3 3, 4 4, 2 5, 0 0, 0 2, 2 0, 1 12, 10 1,);
    numbers::<T>(rec, rng);
}
/// long ones
fn long<T: Mk>(rec: &mut Rec, rng: &mut Rng) {
    macro_rules! v { ($($N:literal)*) => {$( vector::<T, $N>(rec, rng); )*} }
    v!(16 17 20 26 32 33 40 64 65 100 129 257);
    macro_rules! m { ($($M:literal $N:literal,)*) => {$( matrix::<T, $M, $N>(rec, rng); )*} }
    m!(1 40, 40 1, 6 6, 8 8, 10 10, 16 16, 17 17, 33 2, 2 33, 12 11, 100 3,);
}
fn main() {
    let a = args();
    let mut rec = Rec::new("C17", &a.out);
    let mut rng = Rng::new(a.seed);
    sulks(&mut rec);
    for _ in 0..a.scale {
        all::<Two>(&mut rec, &mut rng);
        all::<i64>(&mut rec, &mut rng);
        long::<i64>(&mut rec, &mut rng);
        long::<Two>(&mut rec, &mut rng);
        all::<u8>(&mut rec, &mut rng);
        all::<f64>(&mut rec, &mut rng);
        all::<f32>(&mut rec, &mut rng);
        all::<bool>(&mut rec, &mut rng);
        all::<char>(&mut rec, &mut rng);
        all::<String>(&mut rec, &mut rng);
        all::<Complex<i64>>(&mut rec, &mut rng);
        all::<Vector<Two, 2>>(&mut rec, &mut rng);
    }
    rec.finish();
}
