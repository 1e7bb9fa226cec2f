//! C10: complex numbers.
use num_traits::{Float, Num, One, Zero};
use std::ops::*;
use vecmat::{prelude::*, Complex};
use vharness::*;

use vharness::Fat as Sc;
const CC: &str = "[\"c\",\"c\"]";
const CS: &str = "[\"c\",\"s\"]";
const SC: &str = "[\"s\",\"c\"]";
const C: &str = "[\"c\",0]";

fn ring<T: Sc>(rec: &mut Rec, g: &mut dyn FnMut() -> T) {
    let (a, b, s) = (Complex::new(g(), g()), Complex::new(g(), g()), g());
    let (ra, rb, rs) = (rec.load(&a), rec.load(&b), rec.load(&s));
    macro_rules! bin { ($rec:ident; $($n:literal $op:tt $asg:tt;)*) => {$(
        $rec.op($n, CC, &[ra, rb], || a $op b);
        $rec.op($n, CC, &[ra, ra], || a $op a);
        $rec.op($n, CS, &[ra, rs], || a $op s);
        let mut x = a; let rx = $rec.load(&x);
        $rec.op_to(rx, $n, CC, &[rx, rb], || { x $asg b; x });
        $rec.op_to(rx, $n, CS, &[rx, rs], || { x $asg s; x });
        $rec.op_to(rx, $n, CC, &[rx, ra], || { x $asg a; x });
    )*} }
    bin! { rec; "h.add" + +=; "h.sub" - -=; "h.mul" * *=; }
    rec.op("h.neg", C, &[ra], || -a);
    rec.op("h.conj", C, &[ra], || a.conj());
    rec.op("h.conj", C, &[rb], || Conj::conj(b));
    rec.op("h.normsqr", C, &[ra], || a.norm_sqr());
    rec.op("h.dot", CC, &[ra, rb], || a.dot(b));
    rec.op("h.matrix", C, &[ra], || a.into_matrix());
    rec.op("h.const", "[\"c\",1]", &[], || Complex::<T>::one());
    rec.op("h.const", "[\"c\",2]", &[], || Complex::<T>::i());
    if let Some((rz, z)) = rec.op("h.zero", C, &[], || Complex::<T>::zero()) {
        rec.op("h.iszero", C, &[rz], || z.is_zero());
    }
    rec.op("h.iszero", C, &[ra], || a.is_zero());
    for z in [Complex::new(s, T::zero()), Complex::new(T::zero(), s)] {
        let r = rec.load(&z);
        rec.op("h.iszero", C, &[r], || z.is_zero());
        rec.op("h.mul", CC, &[r, ra], || z * a);
        rec.op("h.conj", C, &[r], || z.conj());
    }
}
fn iters<T: Sc>(rec: &mut Rec, g: &mut dyn FnMut() -> T) {
    for n in [0usize, 1, 2, 4] {
        let v: Vec<Complex<T>> = (0..n).map(|_| Complex::new(g(), g())).collect();
        let r: Vec<Reg> = v.iter().map(|x| rec.load(x)).collect();
        rec.op("h.sum", C, &r, || v.iter().copied().sum::<Complex<T>>());
        rec.op("h.prod", C, &r, || v.iter().copied().product::<Complex<T>>());
    }
}
fn field<T: Sc>(rec: &mut Rec, g: &mut dyn FnMut() -> T) {
    let (a, b, s) = (Complex::new(g(), g()), Complex::new(g(), g()), g());
    let (ra, rb, rs) = (rec.load(&a), rec.load(&b), rec.load(&s));
    rec.op("h.div", CC, &[ra, rb], || a / b);
    rec.op("h.div", CC, &[rb, ra], || b / a);
    rec.op("h.div", CC, &[rb, rb], || b / b);
    rec.op("h.div", CS, &[ra, rs], || a / s);
    rec.op("h.inv", C, &[ra], || a.inv());
    let mut x = a;
    let rx = rec.load(&x);
    rec.op_to(rx, "h.div", CC, &[rx, rb], || { x /= b; x });
    rec.op_to(rx, "h.div", CS, &[rx, rs], || { x /= s; x });
    for z in [Complex::new(s, T::zero()), Complex::new(T::zero(), s)] {
        let r = rec.load(&z);
        rec.op("h.inv", C, &[r], || z.inv());
        rec.op("h.div", CC, &[ra, r], || a / z);
    }
    if let Some((rq, q)) = rec.op("h.div", CC, &[ra, rb], || a / b) {
        rec.op("h.mul", CC, &[rq, rb], || q * b);
        rec.op("h.normsqr", C, &[rq], || q.norm_sqr());
    }
}
fn pows<T: Sc>(rec: &mut Rec, g: &mut dyn FnMut() -> T, big: &[i64]) {
    let a = Complex::new(g(), g());
    let ra = rec.load(&a);
    for e in [0, 1, 2, 3, 4, 5, 7, 8, 11].iter().chain(big) {
        let k = format!("[\"c\",{}]", e);
        rec.op("h.pow", &k, &[ra], || a.powu(*e as u32));
        if *e <= i32::MAX as i64 {
            rec.op("h.pow", &k, &[ra], || a.powi(*e as i32));
        }
    }
}
fn npows<T: Sc>(rec: &mut Rec, g: &mut dyn FnMut() -> T, big: &[i64]) {
    let a = Complex::new(g(), g());
    let ra = rec.load(&a);
    for e in [1, 2, 3, 4, 6].iter().chain(big) {
        rec.op("h.pow", &format!("[\"c\",{}]", -e), &[ra], || a.powi(-*e as i32));
    }
}
fn float<T: Float + FatLine>(rec: &mut Rec, g: &mut dyn FnMut() -> T)
where Complex<T>: num_traits::Inv<Output = Complex<T>> + NormL2<Output = T> + Normalize {
    let a = Complex::new(g(), g());
    let ra = rec.load(&a);
    rec.op("h.inv", C, &[ra], || num_traits::Inv::inv(a));
    rec.op("h.norm", C, &[ra], || a.norm());
    rec.op("h.norm", C, &[ra], || a.norm_l2());
    rec.op("h.normsqr", C, &[ra], || a.norm_l2_sqr());
    if !a.is_zero() {
        rec.op("h.normalize", C, &[ra], || a.normalize());
        rec.op("h.normalize", C, &[ra], || Normalize::normalize(a));
    }
}
/// A random history whose intermediate results are operands of later calls.
fn walk<T: Sc>(rec: &mut Rec, rng: &mut Rng, len: usize, g: &mut dyn FnMut() -> T) {
    let mut v: Vec<(Reg, Complex<T>)> = vec![];
    for _ in 0..3 {
        let z = Complex::new(g(), g());
        v.push((rec.load(&z), z));
    }
    for _ in 0..len {
        let (ra, a) = *rng.pick(&v);
        let (rb, b) = *rng.pick(&v);
        let r = match rng.below(9) {
            0 => rec.op("h.add", CC, &[ra, rb], || a + b),
            1 => rec.op("h.sub", CC, &[ra, rb], || a - b),
            2 | 3 => rec.op("h.mul", CC, &[ra, rb], || a * b),
            4 => rec.op("h.div", CC, &[ra, rb], || a / b),
            5 => rec.op("h.inv", C, &[ra], || a.inv()),
            6 => rec.op("h.conj", C, &[ra], || a.conj()),
            7 => rec.op("h.neg", C, &[ra], || -a),
            _ => {
                let i = rng.below(v.len());
                let rd = v[i].0;
                let mut x = v[i].1;
                let r = match rng.below(3) {
                    0 => rec.op_to(rd, "h.add", CC, &[rd, ra], || { x += a; x }),
                    1 => rec.op_to(rd, "h.mul", CC, &[rd, ra], || { x *= a; x }),
                    _ => rec.op_to(rd, "h.div", CC, &[rd, ra], || { x /= a; x }),
                };
                if let Some((_, y)) = r { v[i].1 = y; }
                continue;
            }
        };
        match r {
            Some(x) => v.push(x),
            None => return,
        }
    }
}
/// Sums and products of long sequences.
fn many(rec: &mut Rec, rng: &mut Rng) {
    for n in [7usize, 33, 130, 270] {
        rec.prog("[\"p\",35279]");
        let mut g = || GB::new(rng.range(0, 35278));
        let v: Vec<Complex<GB>> = (0..n).map(|_| Complex::new(g(), g())).collect();
        let r: Vec<Reg> = v.iter().map(|x| rec.load(x)).collect();
        rec.op("h.sum", C, &r, || v.iter().copied().sum::<Complex<GB>>());
        rec.op("h.prod", C, &r, || v.iter().copied().product::<Complex<GB>>());
        for how in 0..6 {
            rec.op("h.sum", C, &r, || vague(v.clone(), how).sum::<Complex<GB>>());
            rec.op("h.prod", C, &r, || vague(v.clone(), how).product::<Complex<GB>>());
        }
    }
}
/// Every pair of elements of the algebra over a field of `P` elements.
fn exhaust<const P: u32>(rec: &mut Rec, lane: &str) {
    let all: Vec<Complex<G<P>>> = (0..P * P).map(|n| Complex::new(G(n / P), G(n % P))).collect();
    for a in &all {
        rec.prog(lane);
        let a = *a;
        let ra = rec.load(&a);
        rec.op("h.neg", C, &[ra], || -a);
        rec.op("h.conj", C, &[ra], || a.conj());
        rec.op("h.normsqr", C, &[ra], || a.norm_sqr());
        rec.op("h.iszero", C, &[ra], || a.is_zero());
        rec.op("h.inv", C, &[ra], || a.inv());
        rec.op("h.inv", C, &[ra], || num_traits::Inv::inv(a));
        for e in 0..7 { rec.op("h.pow", &format!("[\"c\",{}]", e), &[ra], || a.powu(e)); }
        for e in -3..0 { rec.op("h.pow", &format!("[\"c\",{}]", e), &[ra], || a.powi(e)); }
        for b in &all {
            let b = *b;
            let rb = rec.load(&b);
            rec.op("h.add", CC, &[ra, rb], || a + b);
            rec.op("h.sub", CC, &[ra, rb], || a - b);
            rec.op("h.mul", CC, &[ra, rb], || a * b);
            rec.op("h.div", CC, &[ra, rb], || a / b);
            rec.op("h.dot", CC, &[ra, rb], || a.dot(b));
            let mut x = a;
            let rx = rec.load(&x);
            rec.op_to(rx, "h.mul", CC, &[rx, rb], || { x *= b; x });
            let mut x = a;
            let rx = rec.load(&x);
            rec.op_to(rx, "h.div", CC, &[rx, rb], || { x /= b; x });
        }
        for s in 0..P {
            let s = G::<P>(s);
            let rs = rec.load(&s);
            rec.op("h.mul", CS, &[ra, rs], || a * s);
            rec.op("h.div", CS, &[ra, rs], || a / s);
            rec.op("h.add", CS, &[ra, rs], || a + s);
            rec.op("h.sub", CS, &[ra, rs], || a - s);
        }
    }
}
macro_rules! rev { ($rec:ident, $T:ident, $g:expr; $($n:literal $op:tt;)*) => {
    let (a, s) = (Complex::<$T>::new($g, $g), $g);
    let (ra, rs) = ($rec.load(&a), $rec.load(&s));
    $( $rec.op($n, SC, &[rs, ra], || s $op a); )*
} }
fn main() {
    let a = args();
    let mut rec = Rec::new("C10", &a.out);
    let rec = &mut rec;
    let mut rng = Rng::new(a.seed);
    let rng = &mut rng;
    for rep in 0..a.scale {
        macro_rules! lane { ($T:ty, $lane:expr, $g:expr) => {{
            let r2 = std::cell::RefCell::new(Rng::new(rng.u()));
            let b = |x: i64, y: i64| r2.borrow_mut().range(x, y);
            let gg = $g;
            let mut g = || gg(&b);
            rec.prog($lane); ring::<$T>(rec, &mut g);
            rec.prog($lane); iters::<$T>(rec, &mut g);
            rec.prog($lane); field::<$T>(rec, &mut g);
            rec.prog($lane); pows::<$T>(rec, &mut g, &[35278, 65537, 2147483647]);
            rec.prog($lane); npows::<$T>(rec, &mut g, &[35280, 2147483647]);
            rec.prog($lane); walk::<$T>(rec, rng, 14, &mut g);
        }} }
        lane!(GB, "[\"p\",35279]", |b: &dyn Fn(i64, i64) -> i64| GB::new(b(0, 35278)));
        lane!(G<5>, "[\"p\",5]", |b: &dyn Fn(i64, i64) -> i64| G::<5>::new(b(0, 4)));
        lane!(Complex<GB>, "[\"c\",[\"p\",35279]]", |b: &dyn Fn(i64, i64) -> i64| Complex::new(GB::new(b(0, 35278)), GB::new(b(0, 35278))));
        rec.prog("[\"p\",35279]");
        for _ in 0..4 {
            float::<GB>(rec, &mut || GB::new(rng.range(0, 35278)));
            let z = Complex::new(GB::new(rng.range(0, 35278)), GB::new(rng.range(0, 35278)));
            let r = rec.load(&z);
            rec.op("h.norml1", C, &[r], || z.norm_l1());
        }
        // machine integers
        rec.prog("[\"z\",-1000000000,1000000000]");
        ring::<i32>(rec, &mut || rng.range(-20, 20) as i32);
        iters::<i64>(rec, &mut || rng.range(-9, 9));
        pows::<i32>(rec, &mut || rng.range(-3, 3) as i32, &[]);
        for _ in 0..6 {
            let (x, y) = (Complex::new(rng.range(-50, 50), rng.range(-50, 50)), Complex::new(rng.range(-9, 9), rng.range(1, 9)));
            let (rx, ry) = (rec.load(&x), rec.load(&y));
            rec.op("h.rem", CC, &[rx, ry], || x % y);
            rec.op("h.norml1", C, &[rx], || x.norm_l1());
        }
        macro_rules! flt { ($T:ident, $tol:expr) => {
            rec.prog("[\"zf\"]");
            set_exact(1.0);
            ring::<$T>(rec, &mut || rng.range(-20, 20) as $T);
            iters::<$T>(rec, &mut || rng.range(-9, 9) as $T);
            pows::<$T>(rec, &mut || rng.range(-2, 2) as $T, &[]);
            for _ in 0..4 { rev!(rec, $T, rng.range(-30, 30) as $T; "h.add" +; "h.sub" -; "h.mul" *;); }
            set_scale(FX);
            for _ in 0..4 {
                let mut g = || { let v = rng.range(32, 96) as $T / 64.0; if rng.chance(1, 2) { v } else { -v } };
                rec.prog(&format!("[\"fx\",16384,{}]", $tol));
                rev!(rec, $T, g(); "h.add" +; "h.sub" -; "h.mul" *; "h.div" /;);
                field::<$T>(rec, &mut g);
                float::<$T>(rec, &mut g);
                npows::<$T>(rec, &mut || *rng.pick(&[1.0, -1.0, 0.5, -0.5]) as $T, &[]);
            }
            // length and direction do not depend on the magnitude
            for _ in 0..4 {
                let u = (2.0 as $T).powi(rng.range(-20, 20) as i32);
                let z = Complex::<$T>::new(u * rng.range(-9, 9) as $T / 8.0, u * rng.range(1, 9) as $T / 8.0);
                set_scale(FX / u as f64);
                let r = rec.load(&z);
                rec.op("h.norm", C, &[r], || z.norm());
                set_scale(FX);
                rec.op("h.normalize", C, &[r], || z.normalize());
                rec.op("h.normalize", C, &[r], || Normalize::normalize(z));
            }
        } }
        flt!(f64, 12);
        flt!(f32, 12);
        let _ = rep;
    }
    many(rec, rng);
    exhaust::<3>(rec, "[\"p\",3]");
    exhaust::<5>(rec, "[\"p\",5]");
    exhaust::<7>(rec, "[\"p\",7]");
    rec.finish();
}
