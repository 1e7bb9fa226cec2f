//! C20: shapes with a dimension of zero or one.  Runs the drivers of the other properties on these shapes, and the reductions
//! and products that other drivers do not attempt on empty operands.
#![allow(dead_code, private_bounds, private_interfaces)]
#[path = "c02.rs"] mod c02;
#[path = "c03.rs"] mod c03;
#[path = "c04.rs"] mod c04;
#[path = "c05.rs"] mod c05;
#[path = "c06.rs"] mod c06;
#[path = "c08.rs"] mod c08;
#[path = "c09.rs"] mod c09;
#[path = "c17.rs"] mod c17;
#[path = "c18.rs"] mod c18;
use num_traits::{Bounded, Inv, Num, One, Signed, Zero};
use std::ops::*;
use vecmat::{prelude::*, Matrix, Vector};
use vharness::*;

macro_rules! vecs { ($m:ident) => { $m!(0); $m!(1); } }
macro_rules! mats { ($m:ident) => {
    $m!(0, 0); $m!(0, 1); $m!(1, 0); $m!(0, 2); $m!(2, 0); $m!(0, 5); $m!(5, 0); $m!(1, 1); $m!(1, 2); $m!(2, 1); $m!(1, 4); $m!(4, 1); $m!(1, 7); $m!(7, 1);
} }

macro_rules! sums { ($rec:ident, $T:ty, $C:ty, $k:ident, $g:ident) => {
    for n in [0usize, 1, 3] {
        let shape = <$C>::gen($g);
        let cs: Vec<$C> = (0..n).map(|_| <$C>::gen($g)).collect();
        let mut rs = vec![$rec.load(&shape)];
        rs.extend(cs.iter().map(|c| $rec.load(c)));
        let (os, op) = if n == 0 { ("r.isum0", "r.iprod0") } else { ("r.isum", "r.iprod") };
        $rec.try_op(os, $k, &rs, || cs.iter().copied().sum::<$C>());
        $rec.try_op(op, $k, &rs, || cs.iter().copied().product::<$C>());
    }
    let z0 = <$C>::gen(&mut || <$T>::zero());
    let r0 = $rec.load(&z0);
    $rec.try_op("r.zero", $k, &[r0], || <$C>::zero());
    $rec.try_op("r.iszero", $k, &[r0], || z0.is_zero());
    let v = <$C>::gen($g);
    let r = $rec.load(&v);
    $rec.try_op("r.iszero", $k, &[r], || v.is_zero());
} }
macro_rules! reductions { ($rec:ident, $k:ident, $a:ident, $r:ident) => {
    $rec.try_op("r.sum", $k, &[$r], || $a.sum());
    $rec.try_op("r.max", $k, &[$r], || $a.max());
    $rec.try_op("r.min", $k, &[$r], || $a.min());
    $rec.try_op("r.norml1", $k, &[$r], || $a.norm_l1());
    $rec.try_op("r.norminf", $k, &[$r], || $a.norm_l_inf());
} }
trait Int: FatLine + Signed + PartialOrd + Bounded {}
impl Int for i32 {}
impl Int for i64 {}
macro_rules! red { ($T:ident, $rec:ident, $rng:ident) => {{
    let mut h = || $rng.range(-9, 9) as $T;
    let g: &mut dyn FnMut() -> $T = &mut h;
    macro_rules! v { ($N:literal) => {{
        $rec.prog("[\"z\",-1000000000,1000000000]");
        let k = "1";
        let a = Vector::<$T, $N>::gen(g);
        let r = $rec.load(&a);
        reductions!($rec, k, a, r);
        sums!($rec, $T, Vector<$T, $N>, k, g);
    }} }
    vecs!(v);
    macro_rules! m { ($M:literal, $N:literal) => {{
        $rec.prog("[\"z\",-1000000000,1000000000]");
        let k = "2";
        let a = Matrix::<$T, $M, $N>::gen(g);
        let r = $rec.load(&a);
        reductions!($rec, k, a, r);
        sums!($rec, $T, Matrix<$T, $M, $N>, k, g);
    }} }
    mats!(m);
}} }
fn euclid(rec: &mut Rec, rng: &mut Rng) {
    let mut h = || rng.range(-9, 9) as f64;
    let g: &mut dyn FnMut() -> f64 = &mut h;
    set_exact(1.0);
    macro_rules! v { ($N:literal) => {{
        rec.prog("[\"zf\"]");
        let a = Vector::<f64, $N>::gen(g);
        let r = rec.load(&a);
        rec.try_op("r.norml2sqr", "1", &[r], || a.norm_l2_sqr());
        rec.try_op("r.norml2", "1", &[r], || a.norm_l2());
        rec.try_op("r.sqlen", "1", &[r], || a.square_length());
        rec.try_op("r.length", "1", &[r], || a.length());
        let b = Vector::<f64, $N>::gen(&mut || if g() < 0.0 { -3.0 } else { 1.0 });
        let r = rec.load(&b);
        if $N == 1 {
            rec.prog("[\"fx\",16384,4]");
            set_scale(FX);
            let b = Vector::<f64, $N>::gen(&mut || if g() < 0.0 { -1.5 } else { 0.25 });
            let r = rec.load(&b);
            rec.try_op("r.normalize", "1", &[r], || b.normalize());
            rec.try_op("r.normalize", "1", &[r], || Normalize::normalize(b));
            set_exact(1.0);
        } else {
            rec.try_op("r.normalize", "1", &[r], || b.normalize());
        }
    }} }
    vecs!(v);
    macro_rules! m { ($M:literal, $N:literal) => {{
        // all zero but one: the norm is an integer
        rec.prog("[\"zf\"]");
        let mut n = 0;
        let c = g();
        let a = Matrix::<f64, $M, $N>::gen(&mut || { n += 1; if n == 1 { c } else { 0.0 } });
        let r = rec.load(&a);
        rec.try_op("r.norml2sqr", "2", &[r], || a.norm_l2_sqr());
        rec.try_op("r.norml2", "2", &[r], || a.norm_l2());
    }} }
    mats!(m);
}

fn products<const Q: usize, const M: usize, const N: usize>(rec: &mut Rec, rng: &mut Rng) {
    rec.prog("[\"p\",35279]");
    let mut h = || GB::new(rng.range(0, 35278));
    let g: &mut dyn FnMut() -> GB = &mut h;
    let (a, b) = (Matrix::<GB, Q, M>::gen(g), Matrix::<GB, M, N>::gen(g));
    let (v, w) = (Vector::<GB, Q>::gen(g), Vector::<GB, M>::gen(g));
    let (ra, rb, rv, rw) = (rec.load(&a), rec.load(&b), rec.load(&v), rec.load(&w));
    let (sm, sn, sl) = (M.to_string(), N.to_string(), Q.to_string());
    rec.try_op("l.matmat", &sn, &[ra, rb], || a.dot(b));
    rec.try_op("l.matvec", "0", &[ra, rw], || a.dot(w));
    rec.try_op("l.vecmat", &sm, &[rv, ra], || v.dot(a));
    rec.try_op("l.dot", "0", &[rv, rv], || v.dot(v));
    rec.try_op("l.outer", "0", &[rv, rw], || v.outer(w));
    rec.try_op("l.outer", "0", &[rw, rv], || w.outer(v));
    if let Some((rat, at)) = rec.try_op("l.transpose", &sm, &[ra], || a.transpose()) {
        rec.try_op("l.transpose", &sl, &[rat], || at.transpose());
        rec.try_op("l.matmat", &sm, &[rat, ra], || at.dot(a));
        rec.try_op("l.matvec", "0", &[rat, rv], || at.dot(v));
    }
    rec.try_op("l.ident", &sl, &[], || Matrix::<GB, Q, Q>::one());
    rec.try_op("l.diag", "0", &[rv], || Matrix::diagonal(v));
}
fn square<const N: usize>(rec: &mut Rec, rng: &mut Rng) {
    rec.prog("[\"p\",35279]");
    let a = Matrix::<GB, N, N>::gen(&mut || GB::new(rng.range(1, 35278)));
    c09::sq(rec, a, true, true);
    rec.prog("[\"z\",-1000000000,1000000000]");
    let a = Matrix::<i64, N, N>::gen(&mut || rng.range(-99, 99));
    c09::sq(rec, a, true, false);
    rec.prog("[\"zf\"]");
    set_exact(1.0);
    let a = Matrix::<f64, N, N>::gen(&mut || rng.range(0, 1) as f64 * 2.0 - 1.0);
    c09::sq(rec, a, true, true);
    rec.try_op("l.ident", &N.to_string(), &[], || Matrix::<f64, N, N>::one());
    let r = rec.load(&a);
    rec.try_op("l.inv", "0", &[r], || Inv::inv(a));
}

fn main() {
    let a = args();
    let mut rec = Rec::new("C20", &a.out);
    let rec = &mut rec;
    let mut rng0 = Rng::new(a.seed);
    let rng = &mut rng0;
    const I32: &str = "[\"z\",-1000000000,1000000000]";
    for rep in 0..a.scale {
        // traversals and sequences
        macro_rules! seqs { ($T:ty, $C:ty) => {
            c03::drive::<$C>(rec, rng);
        } }
        macro_rules! seqs_i { ($C:ty) => {
            c03::drive::<$C>(rec, rng);
            c03::copies::<$C>(rec, rng);
            for n in 0..<$C as Ct>::cells() + 3 { c02::iter_of::<$C>(rec, rng, n) }
        } }
        macro_rules! v { ($N:literal) => {
            seqs_i!(Vector<i64, $N>);
            seqs!(String, Vector<String, $N>);
            c03::vec_iters::<$N>(rec, rng);
            c04::vector::<i64, $N>(rec, rng, 4);
            c04::vector::<String, $N>(rec, rng, 3);
            c06::qvec::<$N>(rec, rng);
            c17::vector::<i64, $N>(rec, rng);
            c17::vector::<String, $N>(rec, rng);
            c17::vector::<f64, $N>(rec, rng);
        } }
        vecs!(v);
        macro_rules! m { ($M:literal, $N:literal) => {
            seqs_i!(Matrix<i64, $M, $N>);
            if rep % 3 == 0 { seqs!(String, Matrix<String, $M, $N>); } else { seqs!((u8, u32), Matrix<(u8, u32), $M, $N>); }
            c02::rows_of::<$M, $N>(rec, rng);
            if rep % 3 == 1 { c04::matrix::<String, $M, $N>(rec, rng, 2) } else { c04::matrix::<i64, $M, $N>(rec, rng, 2) }
            c04::matrix_copy::<$M, $N>(rec, rng);
            c06::qmat::<$M, $N>(rec, rng);
            c17::matrix::<c17::Two, $M, $N>(rec, rng);
            c17::matrix::<f64, $M, $N>(rec, rng);
            c17::matrix::<Vector<i64, 0>, $M, $N>(rec, rng);
        } }
        mats!(m);
        // operators
        macro_rules! ops { ($rank:literal, $cmp:ident, $int:ident, $bool:ident, $C:ident, [$($N:literal),*]) => {
            let mut n = 0;
            reset_terms();
            let mut f = || { n += 1; sym(&format!("x{}", n)) };
            let mut n2 = 0;
            let mut f2 = || { n2 += 1; sym(&format!("y{}", n2)) };
            c05::ring::<Sym, $C<Sym, $($N),*>>(rec, "[\"t\"]", &mut f);
            c05::divs::<Sym, $C<Sym, $($N),*>>(rec, "[\"t\"]", rep % 2 == 0, &mut f, &mut f2);
            c05::bits::<Sym, $C<Sym, $($N),*>>(rec, "[\"t\"]", &mut f);
            let mut f = || rng.range(-99, 99) as i32;
            c05::ring::<i32, $C<i32, $($N),*>>(rec, I32, &mut f);
            c05::divs::<i32, $C<i32, $($N),*>>(rec, I32, rep % 2 == 0, &mut f, &mut || 3);
            // division by a scalar zero panics where there is something to divide only
            c05::divs::<i32, $C<i32, $($N),*>>(rec, I32, rep % 2 == 0, &mut f, &mut || 0);
            c05::$int::<i32, $($N),*>(rec, I32, &mut f, &mut || -7);
            let mut f = || rng.range(0, 1) as i32;
            c05::$cmp::<i32, $($N),*>(rec, I32, &mut f);
            c05::$bool::<$($N),*>(rec, rng, 2);
        } }
        macro_rules! v { ($N:literal) => { ops!(1, cmp_v, int_v, bool_v, Vector, [$N]); } }
        macro_rules! m { ($M:literal, $N:literal) => { ops!(2, cmp_m, int_m, bool_m, Matrix, [$M, $N]); } }
        vecs!(v);
        mats!(m);
        red!(i32, rec, rng);
        red!(i64, rec, rng);
        euclid(rec, rng);
        // products
        macro_rules! p { ($($Q:literal $M:literal $N:literal,)*) => {$( products::<$Q, $M, $N>(rec, rng); )*} }
        p!(0 0 0, 0 0 1, 0 1 0, 1 0 0, 0 1 1, 1 0 1, 1 1 0, 1 1 1, 0 2 3, 2 0 3, 2 3 0, 0 3 0, 3 0 0, 0 0 3, 1 3 1, 3 1 3, 1 1 4, 4 1 1, 1 5 2, 2 5 1,);
        square::<0>(rec, rng);
        square::<1>(rec, rng);
        // approximate equality
        macro_rules! m { ($M:literal, $N:literal) => {
            c18::object::<f64, _, { $M * $N }>(rec, rng, |a: [f64; $M * $N]| Matrix::<f64, $M, $N>::from_array_of_arrays(std::array::from_fn(|i| std::array::from_fn(|j| a[i * $N + j]))));
        } }
        if rep % 3 == 0 { mats!(m); }
        c18::object::<f64, _, 0>(rec, rng, |a: [f64; 0]| Vector::<f64, 0>::from_array(a));
        c18::object::<f64, _, 1>(rec, rng, |a: [f64; 1]| Vector::<f64, 1>::from_array(a));
        c04::transforms::<1>(rec, rng);
    }
    rec.finish();
}
