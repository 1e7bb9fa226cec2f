//! C09: determinant, cofactors, adjugate and inverse.
use num_traits::{Inv, Num, One, Zero};
use std::ops::*;
use vecmat::{Complex, Matrix, Vector};
use vharness::*;

pub use vharness::Fat as Sc;
type CG = Complex<GB>;

pub fn sq<T: Sc, const N: usize>(rec: &mut Rec, a: Matrix<T, N, N>, adj: bool, inv: bool) {
    let ra = rec.load(&a);
    rec.try_op("l.det", "0", &[ra], || a.det());
    if adj {
        for i in 0..N {
            for j in 0..N {
                rec.try_op("l.cofactor", &format!("[{},{}]", i, j), &[ra], || a.cofactor(i, j));
            }
        }
        for (i, j) in [(N, 0), (0, N), (N + 3, N), (usize::MAX / 2147483648 / 4, 0)] {
            if i < 2147483647 {
                rec.try_op("l.cofactor", &format!("[{},{}]", i, j), &[ra], || a.cofactor(i, j));
            }
        }
        rec.try_op("l.adj", "0", &[ra], || a.adj());
    }
    if inv {
        if let Some((ri, b)) = rec.try_op("l.inv", "0", &[ra], || a.inv()) {
            rec.try_op("l.det", "0", &[ri], || b.det());
        }
        rec.try_op("l.inv", "0", &[ra], || Inv::inv(a));
    }
}
fn gens<T: Sc, const N: usize>(rec: &mut Rec, lane: &str, adj: bool, inv: bool, rng: &mut Rng, g: &mut dyn FnMut() -> T, nz: &mut dyn FnMut() -> T) {
    rec.prog(lane);
    // dense
    sq(rec, Matrix::<T, N, N>::gen(g), adj, inv);
    // sparse
    let m = Matrix::<T, N, N>::gen(&mut || if rng.chance(1, 2) { T::zero() } else { g() });
    sq(rec, m, adj, inv);
    rec.prog(lane);
    // triangular
    let up = rng.chance(1, 2);
    let mut n = 0;
    let m = Matrix::<T, N, N>::gen(&mut || { let (i, j) = (n / N, n % N); n += 1; if i == j { nz() } else if (i < j) == up { g() } else { T::zero() } });
    sq(rec, m, adj, inv);
    // one term of the permutation sum only
    let mut p: Vec<usize> = (0..N).collect();
    for i in (1..N).rev() { p.swap(i, rng.below(i + 1)); }
    let mut n = 0;
    let m = Matrix::<T, N, N>::gen(&mut || { let (i, j) = (n / N, n % N); n += 1; if p[i] == j { nz() } else { T::zero() } });
    sq(rec, m, adj, inv);
    rec.prog(lane);
    // singular: one row is a multiple of another, or zero
    let mut m = Matrix::<T, N, N>::gen(g);
    let (i, j) = (rng.below(N), rng.below(N));
    let f = g();
    for k in 0..N { let v = if i == j { T::zero() } else { m[(j, k)] * f }; m[(i, k)] = v; }
    sq(rec, m, adj, inv);
    // diagonal and identity
    let v = Vector::<T, N>::gen(g);
    let rv = rec.load(&v);
    rec.try_op("l.diag", "0", &[rv], || Matrix::diagonal(v));
    let m = Matrix::<T, N, N>::one();
    rec.try_op("l.ident", &N.to_string(), &[], || Matrix::<T, N, N>::one());
    sq(rec, m, adj, inv);
}
/// Every (or every `step`-th) N x N matrix over a field of `P` elements.
fn exhaust<const P: u32, const N: usize>(rec: &mut Rec, step: u32, from: u32) {
    let lane = format!("[\"p\",{}]", P);
    let mut n = from % step;
    let mut k = 0;
    while n < P.pow((N * N) as u32) {
        if k % 40 == 0 { rec.prog(&lane); }
        k += 1;
        let mut d = n;
        let m = Matrix::<G<P>, N, N>::gen(&mut || { let x = d % P; d /= P; G(x) });
        let r = rec.load(&m);
        rec.try_op("l.det", "0", &[r], || m.det());
        rec.try_op("l.adj", "0", &[r], || m.adj());
        rec.try_op("l.inv", "0", &[r], || m.inv());
        rec.try_op("l.inv", "0", &[r], || Inv::inv(m));
        n += step;
    }
}
fn main() {
    let a = args();
    let mut rec = Rec::new("C09", &a.out);
    let rec = &mut rec;
    let mut rng0 = Rng::new(a.seed);
    let rng = &mut rng0;
    for rep in 0..a.scale {
        let r2 = std::cell::RefCell::new(Rng::new(rng.u()));
        let b = |x: i64, y: i64| r2.borrow_mut().range(x, y);
        macro_rules! s { ($T:ty, $lane:expr, $adj:expr, $inv:expr, $g:expr, $nz:expr; $($N:literal)*) => {$(
            gens::<$T, $N>(rec, $lane, $adj, $inv, rng, &mut $g, &mut $nz);
        )*} }
        s!(GB, "[\"p\",35279]", true, true, || GB::new(b(0, 35278)), || GB::new(b(1, 35278)); 1 2 3 4 5);
        s!(GB, "[\"p\",35279]", false, false, || GB::new(b(0, 35278)), || GB::new(b(1, 35278)); 7);
        s!(GB, "[\"p\",35279]", false, true, || GB::new(b(0, 35278)), || GB::new(b(1, 35278)); 6);
        s!(G<7>, "[\"p\",7]", true, true, || G::<7>::new(b(0, 6)), || G::<7>::new(b(1, 6)); 1 2 3 4);
        s!(G<2>, "[\"p\",2]", true, true, || G::<2>::new(b(0, 1)), || G::<2>::new(1); 2 3 4);
        s!(CG, "[\"c\",[\"p\",35279]]", true, true, || CG::new(GB::new(b(0, 35278)), GB::new(b(0, 35278))), || CG::new(GB::new(b(1, 9)), GB::new(b(0, 35278))); 1 2 3 4);
        s!(i64, "[\"z\",-1000000000,1000000000]", true, false, || b(-7, 7), || b(1, 7); 1 2 3 4);
        s!(i32, "[\"z\",-1000000000,1000000000]", false, false, || b(-7, 7) as i32, || b(1, 7) as i32; 5);
        set_exact(1.0);
        s!(f64, "[\"zf\"]", true, false, || b(-7, 7) as f64, || b(1, 7) as f64; 1 2 3 4);
        s!(f32, "[\"zf\"]", true, false, || b(-3, 3) as f32, || b(1, 3) as f32; 2 3);
        if rep % 2 == 0 {
            s!(f64, "[\"zf\"]", false, false, || b(-7, 7) as f64, || b(1, 7) as f64; 5);
        }
        // inverses of floating-point matrices that are far from singular, of any magnitude
        macro_rules! fx { ($T:ident, $lane:expr, $emax:expr; $($N:literal)*) => {$(
            rec.prog($lane);
            for _ in 0..2 {
                let mut n = 0;
                let mut p: Vec<usize> = (0..$N).collect();
                for i in (1..$N).rev() { p.swap(i, b(0, i as i64) as usize); }
                let u = (2.0f64).powi(b(-$emax, $emax) as i32);
                let m = Matrix::<$T, $N, $N>::gen(&mut || { let (i, j) = (n / $N, n % $N); n += 1;
                    let d = b(-64, 64) as f64 / 512.0;
                    ((if p[i] == j { (if b(0, 1) == 0 { -1.0 } else { 1.0 }) + d } else { d }) * u) as $T });
                set_scale(FX / u);
                let r = rec.load(&m);
                set_scale(FX * u);
                rec.try_op("l.inv", "0", &[r], || m.inv());
                rec.try_op("l.inv", "0", &[r], || Inv::inv(m));
            }
        )*} }
        fx!(f64, "[\"fx\",16384,12]", 40; 1 2 3 4 5);
        fx!(f32, "[\"fx\",16384,24]", 6; 1 2 3 4);
    }
    // sizes whose permutations take longer
    macro_rules! big { ($N:literal, $($i:expr, $j:expr);*) => {
        rec.prog("[\"p\",35279]");
        let m = Matrix::<GB, $N, $N>::gen(&mut || GB::new(rng.range(0, 35278)));
        let r = rec.load(&m);
        if $N < 10 { rec.try_op("l.det", "0", &[r], || m.det()); }
        $( rec.try_op("l.cofactor", &format!("[{},{}]", $i, $j), &[r], || m.cofactor($i, $j)); )*
    } }
    big!(8, 0, 7; 7, 0; 3, 4; 7, 7);
    big!(9, 0, 8; 8, 0; 8, 8; 5, 2);
    big!(10, 9, 8);
    let _ = Vector::<u8, 1>::zero();
    let (s, deep) = (a.seed as u32, a.scale >= 10);
    exhaust::<5, 1>(rec, 1, 0);
    exhaust::<3, 2>(rec, 1, 0);
    exhaust::<5, 2>(rec, 1, 0);
    exhaust::<2, 3>(rec, 1, 0);
    exhaust::<3, 3>(rec, if deep { 10 } else { 17 }, s);
    if deep { exhaust::<7, 2>(rec, 1, 0); exhaust::<2, 4>(rec, 5, s); }
    rec.finish();
}
