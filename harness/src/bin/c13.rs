//! C13: derivatives, directions and normals.
use vecmat::{prelude::*, transform::*, Vector};
use vharness::{xf::*, *};

/// scales a unit vector of one axis: a vector that is far from unit length
fn deriv<T: Sc, X: Tr<T, N>, const N: usize>(rec: &mut Rec, r: &mut Rng) {
    let lane = T::lane();
    let k = nk(N, &X::desc());
    let k = k.as_str();
    rec.prog(&lane);
    let (f, g) = (X::gen(r), X::gen(r));
    let (x, y, d, e) = (vec::<T, N>(r), vec::<T, N>(r), vec::<T, N>(r), vec::<T, N>(r));
    let z = Vector::<T, N>::from_array([T::zero(); N]);
    let (rf, rg, rx, ry, rz, rd, re) = (rec.load(&f), rec.load(&g), rec.load(&x), rec.load(&y), rec.load(&z), rec.load(&d), rec.load(&e));
    let fd = rec.op("x.deriv", k, &[rf, rx, rd], || f.deriv(x, d));
    rec.op("x.deriv", k, &[rf, ry, rd], || f.deriv(y, d));
    rec.op("x.deriv", k, &[rf, rz, re], || f.deriv(z, e));
    rec.op("x.deriv", k, &[rf, rx, rz], || f.deriv(x, z));
    let (s, t) = (T::pow2(r), T::pow2(r));
    let ti = T::one() / t;
    rec.op("x.deriv", k, &[rf, rx, rd], || f.rescaled(s).deriv(x * s, d * t) * ti);
    for i in 0..N {
        let u = Vector::<T, N>::from_array(std::array::from_fn(|j| if i == j { T::one() } else { T::zero() }));
        let ru = rec.load(&u);
        rec.op("x.deriv", k, &[rf, rx, ru], || f.deriv(x, u));
    }
    // chain rule: through the composite and step by step
    if let Some((rd1, d1)) = rec.op("x.deriv", k, &[rg, rx, rd], || g.deriv(x, d)) {
        if let Some((rx1, x1)) = rec.op("x.apply", k, &[rg, rx], || g.apply(x)) {
            if small(&d1, &lane) && small(&x1, &lane) {
                rec.op("x.deriv", k, &[rf, rx1, rd1], || f.deriv(x1, d1));
            }
        }
    }
    if let Some((rfg, fg)) = rec.op("x.chain", k, &[rf, rg], || f.chain(g)) {
        if small(&fg, &lane) {
            rec.op("x.deriv", k, &[rfg, rx, rd], || fg.deriv(x, d));
        }
    }
    if let (Some((ri, i)), Some((rfd, fd))) = (rec.op("x.inv", k, &[rf], || f.inv()), fd) {
        if small(&i, &lane) && small(&fd, &lane) {
            rec.op("x.deriv", k, &[ri, rx, rfd], || i.deriv(x, fd));
        }
    }
}
fn dirs<T: Sc, X: Tr<T, N> + Directional<Vector<T, N>>, const N: usize>(rec: &mut Rec, r: &mut Rng) {
    let lane = T::lane();
    let k = nk(N, &X::desc());
    let k = k.as_str();
    rec.prog(&lane);
    let f = X::gen(r);
    let x = vec::<T, N>(r);
    let (rf, rx) = (rec.load(&f), rec.load(&x));
    // over the finite field half of the lengths have no root: several tries
    for i in 0..if lane.contains("fx") { 3 } else { 8 } {
        let d = uvec::<T, N>(r);
        let s = T::pow2(r);
        let rd = rec.load(&d);
        if let Some((ry, y)) = rec.op("x.applydir", k, &[rf, rx, rd], || f.apply_dir(x, d)) {
            let _ = (ry, y);
        }
        rec.op("x.applydir", k, &[rf, rx, rd], || f.rescaled(s).apply_dir(x * s, d));
        rec.op("x.applynormal", k, &[rf, rx, rd], || f.apply_normal(x, d));
        if i % 2 == 0 {
            rec.op("x.applynormal", k, &[rf, rx, rd], || f.rescaled(s).apply_normal(x * s, d));
        }
    }
}
fn normal<T: Sc, const N: usize>(rec: &mut Rec, r: &mut Rng)
where
    vecmat::Matrix<T, N, N>: num_traits::Inv<Output = vecmat::Matrix<T, N, N>>,
{
    rec.prog(&T::lane());
    for _ in 0..4 {
        let f = Linear::<T, N>::gen(r);
        let rf = rec.load(&f);
        rec.op("x.normaltransform", &nk(N, "[\"li\"]"), &[rf], || f.normal_transform());
    }
}
/// linear maps of all scales: directions do not depend on it
fn scaled<T: Sc, const N: usize>(rec: &mut Rec, r: &mut Rng)
where
    vecmat::Matrix<T, N, N>: num_traits::Inv<Output = vecmat::Matrix<T, N, N>>,
{
    rec.prog(&T::lane());
    let k = nk(N, "[\"li\"]");
    let f = Linear::<T, N>::gen(r);
    let x = vec::<T, N>(r);
    let (rf, rx) = (rec.load(&f), rec.load(&x));
    for _ in 0..6 {
        let d = uvec::<T, N>(r);
        let s = T::pow2(r);
        // in GF a power of two is a square, hence positive
        let fs = Linear::from(f.into_matrix() * s);
        let rd = rec.load(&d);
        rec.op("x.applydir", &k, &[rf, rx, rd], || fs.apply_dir(x, d));
        rec.op("x.applynormal", &k, &[rf, rx, rd], || fs.apply_normal(x, d));
    }
}
fn main() {
    let a = args();
    let mut rec = Rec::new("C13", &a.out);
    let mut r = Rng::new(a.seed);
    set_scale(FX);
    for round in 0..a.scale {
        macro_rules! one { ($T:ty, $N:literal, $X:ty) => {
            deriv::<$T, $X, $N>(&mut rec, &mut r);
            dirs::<$T, $X, $N>(&mut rec, &mut r);
        } }
        macro_rules! all { ($T:ty) => {
            xforms!($T; one);
            normal::<$T, 1>(&mut rec, &mut r); normal::<$T, 2>(&mut rec, &mut r); normal::<$T, 3>(&mut rec, &mut r); normal::<$T, 4>(&mut rec, &mut r);
            scaled::<$T, 1>(&mut rec, &mut r); scaled::<$T, 2>(&mut rec, &mut r); scaled::<$T, 3>(&mut rec, &mut r); scaled::<$T, 4>(&mut rec, &mut r);
        } }
        all!(GB);
        nonlinear!(slopes(&mut rec, &mut r));
        nonlinear!(slopes(&mut rec, &mut r));
        all!(f64);
        if round % 2 == 0 { all!(f32); }
    }
    rec.finish();
}
