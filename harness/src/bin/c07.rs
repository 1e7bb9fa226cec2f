//! C07: reductions, norms, normalisation, sums and products over iterators, zero and its test.
use num_traits::Zero;
use vecmat::{prelude::*, Matrix, Quaternion, Vector};
use vharness::*;

macro_rules! iters { ($rec:ident, $T:ty, $C:ty, $g:expr) => {
    for n in [0usize, 1, 2, 3, 5] {
        let mut g = $g;
        let k = &<$C as Cont<$T>>::RANK.to_string();
        let shape = <$C>::gen(&mut g);
        let cs: Vec<$C> = (0..n).map(|_| <$C>::gen(&mut g)).collect();
        let mut rs = vec![$rec.load(&shape)];
        rs.extend(cs.iter().map(|c| $rec.load(c)));
        let (os, op) = if n == 0 { ("r.isum0", "r.iprod0") } else { ("r.isum", "r.iprod") };
        $rec.try_op(os, k, &rs, || cs.iter().copied().sum::<$C>());
        $rec.try_op(op, k, &rs, || cs.iter().copied().product::<$C>());
        for how in [n, n + 3] {
            $rec.try_op(os, k, &rs, || vague(cs.clone(), how).sum::<$C>());
            $rec.try_op(op, k, &rs, || vague(cs.clone(), how).product::<$C>());
        }
    }
} }
macro_rules! zeros { ($rec:ident, $T:ty, $C:ty, $rank:expr, $one:expr) => {{
    let k = &$rank.to_string();
    let z0 = <$C>::gen(&mut || <$T>::zero());
    let r0 = $rec.load(&z0);
    $rec.try_op("r.zero", k, &[r0], || <$C>::zero());
    $rec.try_op("r.iszero", k, &[r0], || z0.is_zero());
    let n = std::cell::Cell::new(0usize);
    let mut total = 1;
    let mut i = 0;
    // exactly one component differs from zero, at every position
    while i < total {
        n.set(0);
        let v = <$C>::gen(&mut || { let j = n.get(); n.set(j + 1); if i == j { $one } else { <$T>::zero() } });
        total = n.get();
        let r = $rec.load(&v);
        $rec.try_op("r.iszero", k, &[r], || v.is_zero());
        i += 1;
    }
}} }
macro_rules! norms { ($rec:ident, $k:ident, $a:ident, $r:ident) => {
    $rec.try_op("r.norml1", $k, &[$r], || $a.norm_l1());
    $rec.try_op("r.norminf", $k, &[$r], || $a.norm_l_inf());
    mm!($rec, $k, $a, $r);
} }
macro_rules! mm { ($rec:ident, $k:ident, $a:ident, $r:ident) => {
    $rec.try_op("r.sum", $k, &[$r], || $a.sum());
    $rec.try_op("r.max", $k, &[$r], || $a.max());
    $rec.try_op("r.min", $k, &[$r], || $a.min());
} }
fn count<T: Zero, C: Cont<T>>() -> usize {
    let n = std::cell::Cell::new(0usize);
    C::gen(&mut || { n.set(n.get() + 1); T::zero() });
    n.get()
}
macro_rules! vec_sizes { ($m:ident) => { $m!(1); $m!(2); $m!(3); $m!(4); $m!(5); $m!(6); $m!(7); $m!(8); $m!(12); $m!(16); } }

fn main() {
    let a = args();
    let mut rec = Rec::new("C07", &a.out);
    let rec = &mut rec;
    let mut rng0 = Rng::new(a.seed);
    let rng = &mut rng0;
    for rep in 0..a.scale {
        // integers: distinct values, ties, extremes at every position
        macro_rules! ints { ($T:ident, $lane:expr, $lo:expr, $hi:expr) => {
            macro_rules! m { ($TT:ty, $C:ty) => {
                rec.prog($lane);
                set_exact(1.0);
                let k = &<$C as Cont<$TT>>::RANK.to_string();
                // no total leaves the type, however many components there are
                let top = ($hi as i64).min($T::MAX.to_string().parse::<i64>().unwrap_or(i64::MAX) / count::<$TT, $C>() as i64);
                let low = if $lo < 0 { -top } else { 0 };
                let span = if rep % 3 == 0 { top.min(2) } else { top };
                let lo = (-span).max(low);
                let a = <$C>::gen(&mut || rng.range(lo, span) as $T);
                let r = rec.load(&a);
                norms!(rec, k, a, r);
                // all negative, all positive: nothing outside the container may enter
                let b = <$C>::gen(&mut || rng.range(if $lo < 0 { low } else { 1 }, if $lo < 0 { -1 } else { top }) as $T);
                let r = rec.load(&b);
                norms!(rec, k, b, r);
                let c = <$C>::gen(&mut || rng.range(1, top) as $T);
                let r = rec.load(&c);
                norms!(rec, k, c, r);
                zeros!(rec, $T, $C, <$C as Cont<$TT>>::RANK, *rng.pick(&[1, $hi, if $lo < 0 { -1 } else { 2 }]) as $T);
                let (ilo, ihi) = (if $lo < 0 { -2 } else { 0 }, 2);
                iters!(rec, $T, $C, || rng.range(ilo, ihi) as $T);
            } }
            shapes!($T; m);
            if rep == 0 && $T::MAX as u64 > 100000 { big_shapes!($T; m); }
            macro_rules! v { ($N:literal) => {{
                rec.prog($lane);
                set_exact(1.0);
                let k = "1";
                let a = Vector::<$T, $N>::gen(&mut || rng.range($lo, $hi) as $T);
                let r = rec.load(&a);
                norms!(rec, k, a, r);
                let s = Vector::<$T, $N>::gen(&mut || rng.range(($lo).max(-2), 2) as $T);
                let r = rec.load(&s);
                rec.try_op("r.sqlen", k, &[r], || s.square_length());
                if $N < 100 { zeros!(rec, $T, Vector<$T, $N>, 1, 1 as $T); }
            }} }
            vec_sizes!(v);
            if rep == 0 && $T::MAX as u64 > 100000 { v!(70); v!(260); }
        } }
        ints!(i8, "[\"z\",-128,127]", -5, 5);
        ints!(u8, "[\"z\",0,255]", 0, 12);
        ints!(i32, "[\"z\",-1000000000,1000000000]", -100000, 100000);
        ints!(u64, "[\"z\",0,1000000000]", 0, 100000);
        // floats holding integral values times a power of two
        macro_rules! flts { ($T:ident, $emax:expr) => {
            macro_rules! m { ($TT:ty, $C:ty) => {
                rec.prog("[\"zf\"]");
                let e = if rep % 2 == 0 { 0 } else { rng.range(-$emax, $emax) as i32 };
                let u = (2.0f64).powi(e);
                set_exact(1.0 / u);
                let k = &<$C as Cont<$TT>>::RANK.to_string();
                let a = <$C>::gen(&mut || (rng.range(-300, 300) as f64 * u) as $T);
                let r = rec.load(&a);
                norms!(rec, k, a, r);
                set_exact(1.0 / u / u);
                rec.try_op("r.norml2sqr", k, &[r], || a.norm_l2_sqr());
                set_exact(1.0 / u);
                zeros!(rec, $T, $C, <$C as Cont<$TT>>::RANK, u as $T);
                set_exact(1.0);
                iters!(rec, $T, $C, || rng.range(-2, 2) as $T);
                // a value with an exact length: squares added until the total is a square
                let total = { let n = std::cell::Cell::new(0usize); <$C>::gen(&mut || { n.set(n.get() + 1); 0.0 as $T }); n.get() };
                let comps = exact_len(rng, total);
                set_exact(1.0 / u);
                let mut it = comps.iter();
                let b = <$C>::gen(&mut || (*it.next().unwrap() as f64 * u) as $T);
                let r = rec.load(&b);
                rec.try_op("r.norml2", k, &[r], || b.norm_l2());
                // any value, within a tolerance
                rec.prog("[\"fx\",16384,4]");
                let b = <$C>::gen(&mut || (rng.range(-8, 8) as f64 / 16.0 * u) as $T);
                set_scale(FX / u);
                let r = rec.load(&b);
                rec.try_op("r.norml2", k, &[r], || b.norm_l2());
            } }
            shapes!($T; m);
            if rep == 0 { big_shapes!($T; m); }
            macro_rules! v { ($N:literal) => {{
                rec.prog("[\"zf\"]");
                let k = "1";
                let u = (2.0f64).powi(if rep % 2 == 0 { 0 } else { rng.range(-$emax, $emax) as i32 });
                set_exact(1.0 / u);
                let a = Vector::<$T, $N>::gen(&mut || (rng.range(-300, 300) as f64 * u) as $T);
                let r = rec.load(&a);
                norms!(rec, k, a, r);
                set_exact(1.0 / u / u);
                rec.try_op("r.norml2sqr", k, &[r], || a.norm_l2_sqr());
                rec.try_op("r.sqlen", k, &[r], || a.square_length());
                let comps = exact_len(rng, $N);
                let mut it = comps.iter();
                let b = Vector::<$T, $N>::gen(&mut || (*it.next().unwrap() as f64 * u) as $T);
                set_exact(1.0 / u);
                let r = rec.load(&b);
                rec.try_op("r.length", k, &[r], || b.length());
                // the same direction at unit length, however long or short the vector is
                // rounding each component by half a unit moves the sum of N squares by at most sqrt(N),
                // rounding the N squares themselves by N / 2
                rec.prog(&format!("[\"fx\",16384,{}]", ($N as usize).max(4)));
                // (the fixed-point sum of many squares is too coarse; long vectors: the exact field below)
                for _ in 0..(if $N > 16 { 0 } else { 3 }) {
                    let v = Vector::<$T, $N>::gen(&mut || (if rng.chance(1, 4) { 0.0 } else { rng.range(-16, 16) as f64 / 16.0 } * u) as $T);
                    if v.iter().all(|x| *x == 0.0) { continue; }
                    set_scale(FX / u);
                    let r = rec.load(&v);
                    set_scale(FX);
                    rec.try_op("r.normalize", k, &[r], || v.normalize());
                    rec.try_op("r.normalize", k, &[r], || Normalize::normalize(v));
                }
            }} }
            vec_sizes!(v);
            if rep == 0 { v!(70); v!(260); }
        } }
        flts!(f64, 150);
        flts!(f32, 20);
        // any commutative field
        macro_rules! m { ($T:ty, $C:ty) => {
            rec.prog("[\"p\",35279]");
            let k = &<$C as Cont<$T>>::RANK.to_string();
            let a = <$C>::gen(&mut || GB::new(rng.range(0, 35278)));
            let total = count::<GB, $C>();
            let r = rec.load(&a);
            rec.try_op("r.sum", k, &[r], || a.sum());
            rec.try_op("r.norml1", k, &[r], || a.norm_l1());
            rec.try_op("r.norml2sqr", k, &[r], || a.norm_l2_sqr());
            rec.try_op("r.norml2", k, &[r], || a.norm_l2());
            zeros!(rec, GB, $C, <$C as Cont<$T>>::RANK, GB::new(rng.range(1, 35278)));
            iters!(rec, GB, $C, || GB::new(rng.range(0, 35278)));
            // many of them, from iterators that do not tell how many
            if total < 40 {
                let shape = <$C>::gen(&mut || GB::new(0));
                let cs: Vec<$C> = (0..40).map(|_| <$C>::gen(&mut || GB::new(rng.range(0, 35278)))).collect();
                let mut rs = vec![rec.load(&shape)];
                rs.extend(cs.iter().map(|c| rec.load(c)));
                for how in 0..6 {
                    rec.try_op("r.isum", k, &rs, || vague(cs.clone(), how).sum::<$C>());
                    rec.try_op("r.iprod", k, &rs, || vague(cs.clone(), how).product::<$C>());
                }
            }
        } }
        shapes!(GB; m);
        if rep == 0 { big_shapes!(GB; m); }
        // components whose products depend on the order
        macro_rules! m { ($T:ty, $C:ty) => {
            rec.prog("[\"q\",[\"p\",35279]]");
            iters!(rec, $T, $C, || { let mut g = || GB::new(rng.range(0, 35278)); Quaternion::new(g(), g(), g(), g()) });
        } }
        shapes!(Quaternion<GB>; m);
        macro_rules! v { ($N:literal) => {{
            rec.prog("[\"p\",35279]");
            let k = "1";
            for _ in 0..3 {
                let a = Vector::<GB, $N>::gen(&mut || GB::new(rng.range(0, 35278)));
                let r = rec.load(&a);
                rec.try_op("r.sum", k, &[r], || a.sum());
                rec.try_op("r.norml1", k, &[r], || a.norm_l1());
                rec.try_op("r.norml2sqr", k, &[r], || a.norm_l2_sqr());
                rec.try_op("r.sqlen", k, &[r], || a.square_length());
                rec.try_op("r.length", k, &[r], || a.length());
                if a.square_length() != GB::new(0) {
                    rec.try_op("r.normalize", k, &[r], || a.normalize());
                    rec.try_op("r.normalize", k, &[r], || Normalize::normalize(a));
                }
            }
        }} }
        vec_sizes!(v);
        if rep == 0 { v!(33); v!(64); v!(70); v!(100); v!(260); }
    }
    // reductions of an empty container have no value (C20 covers the rest of the empty shapes)
    rec.finish();
}
/// n integers whose squares add up to a square
fn exact_len(rng: &mut Rng, n: usize) -> Vec<i64> {
    loop {
        let mut v: Vec<i64> = (0..n).map(|_| rng.range(-12, 12)).collect();
        for x in 0..40i64 {
            v[n - 1] = x;
            let s: i64 = v.iter().map(|x| x * x).sum();
            let q = (s as f64).sqrt().round() as i64;
            if q * q == s {
                let i = rng.below(n);
                v.swap(i, n - 1);
                return v;
            }
        }
    }
}
