//! C08: dot, cross, outer and matrix products.
use num_traits::{One, Zero};
use std::ops::*;
use vecmat::{prelude::*, Matrix, Quaternion, Vector};
use vharness::*;

type QG = Quaternion<GB>;

pub use vharness::Fat as Sc;

pub fn mm<T: Sc, const Q: usize, const M: usize, const N: usize>(rec: &mut Rec, lane: &str, g: &mut dyn FnMut() -> T) {
    rec.prog(lane);
    let (a, b) = (Matrix::<T, Q, M>::gen(g), Matrix::<T, M, N>::gen(g));
    let (v, w) = (Vector::<T, Q>::gen(g), Vector::<T, M>::gen(g));
    let (ra, rb, rv, rw) = (rec.load(&a), rec.load(&b), rec.load(&v), rec.load(&w));
    let (sm, sn, sl) = (M.to_string(), N.to_string(), Q.to_string());
    let ab = rec.op("l.matmat", &sn, &[ra, rb], || a.dot(b));
    rec.op("l.matvec", "0", &[ra, rw], || a.dot(w));
    rec.op("l.vecmat", &sm, &[rv, ra], || v.dot(a));
    let aw = rec.op("l.outer", "0", &[rv, rw], || v.outer(w));
    let at = rec.op("l.transpose", &sm, &[ra], || a.transpose());
    let bt = rec.op("l.transpose", &sn, &[rb], || b.transpose());
    // longer histories: results are operands again
    if let (Some((rat, at)), Some((rbt, bt)), Some((rab, ab))) = (at, bt, ab) {
        rec.op("l.matmat", &sl, &[rbt, rat], || bt.dot(at));
        rec.op("l.transpose", &sn, &[rab], || ab.transpose());
        rec.op("l.matmat", &sm, &[rab, rbt], || ab.dot(bt));
        rec.op("l.transpose", &sl, &[rat], || at.transpose());
        rec.op("l.matvec", "0", &[rat, rv], || at.dot(v));
        if let Some((rw2, aw)) = aw {
            rec.op("l.matmat", &sl, &[rw2, rat], || aw.dot(at));
        }
    }
    // identity on both sides
    let il = rec.op("l.ident", &sl, &[], || Matrix::<T, Q, Q>::one());
    let im = rec.op("l.ident", &sm, &[], || Matrix::<T, M, M>::one());
    if let (Some((r, i)), Some((r2, j))) = (il, im) {
        rec.op("l.matmat", &sm, &[r, ra], || i.dot(a));
        rec.op("l.matmat", &sm, &[ra, r2], || a.dot(j));
        rec.op("l.matvec", "0", &[r, rv], || i.dot(v));
    }
    // unit matrices: every entry of the product is a single term
    let mut n = 0;
    let e = Matrix::<T, Q, M>::gen(&mut || { n += 1; if n % (M + 1) == 1 { T::one() } else { T::zero() } });
    let re = rec.load(&e);
    rec.op("l.matmat", &sn, &[re, rb], || e.dot(b));
    rec.op("l.matvec", "0", &[re, rw], || e.dot(w));
    rec.op("l.vecmat", &sm, &[rv, re], || v.dot(e));
}
pub fn vv<T: Sc, const N: usize>(rec: &mut Rec, lane: &str, g: &mut dyn FnMut() -> T) {
    rec.prog(lane);
    let (a, b) = (Vector::<T, N>::gen(g), Vector::<T, N>::gen(g));
    let (ra, rb) = (rec.load(&a), rec.load(&b));
    rec.op("l.dot", "0", &[ra, rb], || a.dot(b));
    rec.op("l.dot", "0", &[rb, ra], || b.dot(a));
    rec.op("l.dot", "0", &[ra, ra], || a.dot(a));
    // every pair of axes
    let axis = |i: usize| { let mut n = 0; Vector::<T, N>::gen(&mut || { n += 1; if n == i + 1 { T::one() } else { T::zero() } }) };
    for i in 0..N {
        let e = axis(i);
        let re = rec.load(&e);
        rec.op("l.dot", "0", &[re, rb], || e.dot(b));
        rec.op("l.dot", "0", &[rb, re], || b.dot(e));
    }
}
fn cross<T: Sc>(rec: &mut Rec, lane: &str, g: &mut dyn FnMut() -> T) {
    rec.prog(lane);
    macro_rules! c { ($N:literal, $op:literal) => {
        let (a, b) = (Vector::<T, $N>::gen(g), Vector::<T, $N>::gen(g));
        let (ra, rb) = (rec.load(&a), rec.load(&b));
        let r = rec.op($op, "0", &[ra, rb], || a.cross(b));
        rec.op($op, "0", &[rb, ra], || b.cross(a));
        rec.op($op, "0", &[ra, ra], || a.cross(a));
        let _ = r;
        for i in 0..$N {
            for j in 0..$N {
                let ax = |k: usize| { let mut n = 0; Vector::<T, $N>::gen(&mut || { n += 1; if n == k + 1 { T::one() } else { T::zero() } }) };
                let (e, f) = (ax(i), ax(j));
                let (re, rf) = (rec.load(&e), rec.load(&f));
                rec.op($op, "0", &[re, rf], || e.cross(f));
            }
        }
    } }
    c!(2, "l.cross2");
    c!(3, "l.cross3");
    c!(4, "l.cross4");
    let (a, b) = (Vector::<T, 3>::gen(g), Vector::<T, 3>::gen(g));
    let (ra, rb) = (rec.load(&a), rec.load(&b));
    if let Some((rc, c)) = rec.op("l.cross3", "0", &[ra, rb], || a.cross(b)) {
        rec.op("l.cross3", "0", &[rc, ra], || c.cross(a));
        rec.op("l.dot", "0", &[rc, ra], || c.dot(a));
    }
}
macro_rules! mats { ($rec:ident, $lane:expr, $T:ty, $g:expr; $(($Q:literal, $M:literal, $N:literal))*) => {$(
    mm::<$T, $Q, $M, $N>($rec, $lane, &mut $g);
)*} }
macro_rules! all { ($rec:ident, $lane:expr, $T:ty, $g:expr) => {
    mats!($rec, $lane, $T, $g; (1,1,1)(1,1,2)(1,2,1)(2,1,1)(2,2,1)(2,1,2)(1,2,2)(2,2,2)(1,3,1)(3,1,3)(3,2,1)(1,3,2)(2,3,4)(4,3,2)(3,3,3)(3,4,2)(4,2,3)(2,4,3)(4,4,4)(1,4,1)(4,1,4)(5,3,2)(2,5,5)(3,2,6)(5,5,5)(8,8,8)(1,17,1)(9,2,7));
    vv::<$T, 1>($rec, $lane, &mut $g); vv::<$T, 2>($rec, $lane, &mut $g); vv::<$T, 3>($rec, $lane, &mut $g); vv::<$T, 4>($rec, $lane, &mut $g);
    vv::<$T, 5>($rec, $lane, &mut $g); vv::<$T, 8>($rec, $lane, &mut $g); vv::<$T, 13>($rec, $lane, &mut $g); vv::<$T, 33>($rec, $lane, &mut $g);
    for _ in 0..3 { cross::<$T>($rec, $lane, &mut $g); }
} }

fn main() {
    let a = args();
    let mut rec = Rec::new("C08", &a.out);
    let rec = &mut rec;
    let mut rng = Rng::new(a.seed);
    let rng = &mut rng;
    macro_rules! big { ($lane:expr, $T:ty, $g:expr) => {
        mats!(rec, $lane, $T, $g; (16,17,16)(1,70,1)(70,1,2)(2,70,3)(1,3,70));
        vv::<$T, 70>(rec, $lane, &mut $g);
        vv::<$T, 260>(rec, $lane, &mut $g);
    } }
    big!("[\"p\",35279]", GB, || GB::new(rng.range(0, 35278)));
    big!("[\"q\",[\"p\",35279]]", QG, || { let mut h = || GB::new(rng.range(0, 35278)); QG::new(h(), h(), h(), h()) });
    big!("[\"z\",-1000000000,1000000000]", i32, || rng.range(-6, 6) as i32);
    for rep in 0..a.scale {
        all!(rec, "[\"p\",35279]", GB, || GB::new(rng.range(0, 35278)));
        // a scalar type whose multiplication does not commute: operand order is visible
        all!(rec, "[\"q\",[\"p\",35279]]", QG, || { let mut h = || GB::new(rng.range(0, 35278)); QG::new(h(), h(), h(), h()) });
        if rep % 2 == 0 {
            all!(rec, "[\"z\",-1000000000,1000000000]", i32, || rng.range(-6, 6) as i32);
        } else {
            all!(rec, "[\"zf\"]", f64, || rng.range(-6, 6) as f64);
            all!(rec, "[\"zf\"]", f32, || rng.range(-6, 6) as f32);
        }
    }
    rec.finish();
}
