//! C11: quaternions, alone and mixed with complex numbers and scalars.
use num_traits::{Float, Num, One, Zero};
use std::ops::*;
use vecmat::{prelude::*, Complex, Quaternion};
use vharness::*;

use vharness::Fat as Sc;
const QQ: &str = "[\"q\",\"q\"]";
const QC: &str = "[\"q\",\"c\"]";
const CQ: &str = "[\"c\",\"q\"]";
const QS: &str = "[\"q\",\"s\"]";
const SQ: &str = "[\"s\",\"q\"]";
const Q: &str = "[\"q\",0]";

fn quat<T>(g: &mut dyn FnMut() -> T) -> Quaternion<T> { Quaternion::new(g(), g(), g(), g()) }
fn unit<T: Sc>(i: usize) -> Quaternion<T> { let f = |j| if i == j { T::one() } else { T::zero() }; Quaternion::new(f(0), f(1), f(2), f(3)) }

fn ring<T: Sc>(rec: &mut Rec, lane: &str, g: &mut dyn FnMut() -> T) {
    rec.prog(lane);
    let (a, b, c, s) = (quat(g), quat(g), Complex::new(g(), g()), g());
    let (ra, rb, rc, rs) = (rec.load(&a), rec.load(&b), rec.load(&c), rec.load(&s));
    macro_rules! bin { ($rec:ident; $($n:literal $op:tt $asg:tt;)*) => {$(
        $rec.op($n, QQ, &[ra, rb], || a $op b);
        $rec.op($n, QQ, &[rb, ra], || b $op a);
        $rec.op($n, QQ, &[ra, ra], || a $op a);
        $rec.op($n, QC, &[ra, rc], || a $op c);
        $rec.op($n, QS, &[ra, rs], || a $op s);
        let mut x = a; let rx = $rec.load(&x);
        $rec.op_to(rx, $n, QQ, &[rx, rb], || { x $asg b; x });
        $rec.op_to(rx, $n, QC, &[rx, rc], || { x $asg c; x });
        $rec.op_to(rx, $n, QS, &[rx, rs], || { x $asg s; x });
    )*} }
    bin! { rec; "h.add" + +=; "h.sub" - -=; "h.mul" * *=; }
    rec.op("h.mul", CQ, &[rc, ra], || c * a);
    rec.op("h.neg", Q, &[ra], || -a);
    rec.op("h.conj", Q, &[ra], || a.conj());
    rec.op("h.conj", Q, &[rb], || Conj::conj(b));
    rec.op("h.normsqr", Q, &[ra], || a.norm_sqr());
    rec.op("h.dot", QQ, &[ra, rb], || a.dot(b));
    rec.op("h.matrix", Q, &[ra], || a.into_matrix());
    // basis: all products of units, on both sides and with complex units
    rec.prog(lane);
    let (ra, rc) = (rec.load(&a), rec.load(&c));
    let mut u = vec![];
    for i in 0..4 {
        let k = format!("[\"q\",{}]", i + 1);
        let r = match i {
            0 => rec.op("h.const", &k, &[], || Quaternion::<T>::one()),
            1 => rec.op("h.const", &k, &[], || Quaternion::<T>::i()),
            2 => rec.op("h.const", &k, &[], || Quaternion::<T>::j()),
            _ => rec.op("h.const", &k, &[], || Quaternion::<T>::k()),
        };
        if let Some((_, v)) = r { let _ = v; }
        let e = unit::<T>(i);
        u.push((rec.load(&e), e));
    }
    for (r1, x) in &u {
        for (r2, y) in &u {
            rec.op("h.mul", QQ, &[*r1, *r2], || *x * *y);
        }
        rec.op("h.mul", QQ, &[*r1, ra], || *x * a);
        rec.op("h.mul", QQ, &[ra, *r1], || a * *x);
        rec.op("h.mul", QC, &[*r1, rc], || *x * c);
        rec.op("h.mul", CQ, &[rc, *r1], || c * *x);
        rec.op("h.conj", Q, &[*r1], || x.conj());
        rec.op("h.matrix", Q, &[*r1], || x.into_matrix());
        rec.op("h.iszero", Q, &[*r1], || x.is_zero());
    }
    if let Some((rz, z)) = rec.op("h.zero", Q, &[], || Quaternion::<T>::zero()) {
        rec.op("h.iszero", Q, &[rz], || z.is_zero());
    }
}
fn iters<T: Sc>(rec: &mut Rec, lane: &str, g: &mut dyn FnMut() -> T) {
    rec.prog(lane);
    for n in [0usize, 1, 2, 4] {
        let v: Vec<Quaternion<T>> = (0..n).map(|_| quat(g)).collect();
        let r: Vec<Reg> = v.iter().map(|x| rec.load(x)).collect();
        rec.op("h.sum", Q, &r, || v.iter().copied().sum::<Quaternion<T>>());
        rec.op("h.prod", Q, &r, || v.iter().copied().product::<Quaternion<T>>());
    }
}
fn field<T: Sc>(rec: &mut Rec, lane: &str, g: &mut dyn FnMut() -> T) {
    rec.prog(lane);
    let (a, b, c, s) = (quat(g), quat(g), Complex::new(g(), g()), g());
    let (ra, rb, rc, rs) = (rec.load(&a), rec.load(&b), rec.load(&c), rec.load(&s));
    rec.op("h.div", QQ, &[ra, rb], || a / b);
    rec.op("h.div", QQ, &[rb, ra], || b / a);
    rec.op("h.div", QC, &[ra, rc], || a / c);
    rec.op("h.div", CQ, &[rc, ra], || c / a);
    rec.op("h.div", QS, &[ra, rs], || a / s);
    rec.op("h.inv", Q, &[ra], || a.inv());
    let mut x = a;
    let rx = rec.load(&x);
    rec.op_to(rx, "h.div", QQ, &[rx, rb], || { x /= b; x });
    rec.op_to(rx, "h.div", QC, &[rx, rc], || { x /= c; x });
    rec.op_to(rx, "h.div", QS, &[rx, rs], || { x /= s; x });
    for i in 0..4 {
        let e = unit::<T>(i);
        let re = rec.load(&e);
        rec.op("h.inv", Q, &[re], || e.inv());
        rec.op("h.div", QQ, &[ra, re], || a / e);
        rec.op("h.div", QQ, &[re, ra], || e / a);
        rec.op("h.div", CQ, &[rc, re], || c / e);
        rec.op("h.div", QC, &[re, rc], || e / c);
    }
}
fn float<T: Float + FatLine>(rec: &mut Rec, g: &mut dyn FnMut() -> T) {
    let a = quat(g);
    let ra = rec.load(&a);
    rec.op("h.inv", Q, &[ra], || num_traits::Inv::inv(a));
    rec.op("h.norm", Q, &[ra], || a.norm());
    rec.op("h.norm", Q, &[ra], || a.norm_l2());
    rec.op("h.normsqr", Q, &[ra], || a.norm_l2_sqr());
    if !a.norm_sqr().is_zero() {
        rec.op("h.normalize", Q, &[ra], || a.normalize());
        rec.op("h.normalize", Q, &[ra], || Normalize::normalize(a));
    }
}
/// Sums and products of long sequences.
fn many(rec: &mut Rec, rng: &mut Rng) {
    for n in [7usize, 33, 130, 270] {
        rec.prog("[\"p\",35279]");
        let mut g = || GB::new(rng.range(0, 35278));
        let v: Vec<Quaternion<GB>> = (0..n).map(|_| Quaternion::new(g(), g(), g(), g())).collect();
        let r: Vec<Reg> = v.iter().map(|x| rec.load(x)).collect();
        rec.op("h.sum", Q, &r, || v.iter().copied().sum::<Quaternion<GB>>());
        rec.op("h.prod", Q, &r, || v.iter().copied().product::<Quaternion<GB>>());
        for how in 0..6 {
            rec.op("h.sum", Q, &r, || vague(v.clone(), how).sum::<Quaternion<GB>>());
            rec.op("h.prod", Q, &r, || vague(v.clone(), how).product::<Quaternion<GB>>());
        }
    }
}
/// Every pair of elements of the algebra over a field of `P` elements (every `step`-th quaternion).
fn exhaust<const P: u32>(rec: &mut Rec, lane: &str, step: usize, from: usize) {
    let q = |n: u32| Quaternion::new(G::<P>(n / P / P / P), G(n / P / P % P), G(n / P % P), G(n % P));
    let all: Vec<Quaternion<G<P>>> = (0..P * P * P * P).map(q).collect();
    for a in all.iter().skip(from % step).step_by(step) {
        rec.prog(lane);
        let a = *a;
        let ra = rec.load(&a);
        rec.op("h.neg", Q, &[ra], || -a);
        rec.op("h.conj", Q, &[ra], || a.conj());
        rec.op("h.normsqr", Q, &[ra], || a.norm_sqr());
        rec.op("h.iszero", Q, &[ra], || a.is_zero());
        rec.op("h.matrix", Q, &[ra], || a.into_matrix());
        rec.op("h.inv", Q, &[ra], || a.inv());
        rec.op("h.inv", Q, &[ra], || num_traits::Inv::inv(a));
        for b in &all {
            let b = *b;
            let rb = rec.load(&b);
            rec.op("h.mul", QQ, &[ra, rb], || a * b);
            rec.op("h.div", QQ, &[ra, rb], || a / b);
        }
        rec.prog(lane);
        let ra = rec.load(&a);
        for n in 0..P * P {
            let c = Complex::new(G::<P>(n / P), G(n % P));
            let rc = rec.load(&c);
            rec.op("h.add", QC, &[ra, rc], || a + c);
            rec.op("h.sub", QC, &[ra, rc], || a - c);
            rec.op("h.mul", QC, &[ra, rc], || a * c);
            rec.op("h.mul", CQ, &[rc, ra], || c * a);
            rec.op("h.div", QC, &[ra, rc], || a / c);
            rec.op("h.div", CQ, &[rc, ra], || c / a);
        }
        for s in 0..P {
            let s = G::<P>(s);
            let rs = rec.load(&s);
            rec.op("h.mul", QS, &[ra, rs], || a * s);
            rec.op("h.div", QS, &[ra, rs], || a / s);
            rec.op("h.add", QS, &[ra, rs], || a + s);
            rec.op("h.sub", QS, &[ra, rs], || a - s);
        }
    }
}
/// What concerns one quaternion only, for all of them.
fn units<const P: u32>(rec: &mut Rec, lane: &str) {
    for n in 0..P * P * P * P {
        if n % 60 == 0 { rec.prog(lane); }
        let q = Quaternion::new(G::<P>(n / P / P / P), G(n / P / P % P), G(n / P % P), G(n % P));
        let r = rec.load(&q);
        rec.op("h.inv", Q, &[r], || q.inv());
        rec.op("h.normsqr", Q, &[r], || q.norm_sqr());
        rec.op("h.matrix", Q, &[r], || q.into_matrix());
    }
}
fn walk<T: Sc>(rec: &mut Rec, lane: &str, rng: &mut Rng, len: usize, g: &mut dyn FnMut() -> T) {
    rec.prog(lane);
    let mut v: Vec<(Reg, Quaternion<T>)> = vec![];
    for _ in 0..3 {
        let z = quat(g);
        v.push((rec.load(&z), z));
    }
    for _ in 0..len {
        let (ra, a) = *rng.pick(&v);
        let (rb, b) = *rng.pick(&v);
        let r = match rng.below(11) {
            0 => rec.op("h.add", QQ, &[ra, rb], || a + b),
            1 => rec.op("h.sub", QQ, &[ra, rb], || a - b),
            2 | 3 => rec.op("h.mul", QQ, &[ra, rb], || a * b),
            4 => rec.op("h.div", QQ, &[ra, rb], || a / b),
            5 => rec.op("h.inv", Q, &[ra], || a.inv()),
            6 => rec.op("h.conj", Q, &[ra], || a.conj()),
            7 => rec.op("h.neg", Q, &[ra], || -a),
            8 | 9 => {
                let c = Complex::new(g(), g());
                let rc = rec.load(&c);
                match rng.below(6) {
                    0 => rec.op("h.add", QC, &[ra, rc], || a + c),
                    1 => rec.op("h.sub", QC, &[ra, rc], || a - c),
                    2 => rec.op("h.mul", QC, &[ra, rc], || a * c),
                    3 => rec.op("h.mul", CQ, &[rc, ra], || c * a),
                    4 => rec.op("h.div", QC, &[ra, rc], || a / c),
                    _ => rec.op("h.div", CQ, &[rc, ra], || c / a),
                }
            }
            _ => {
                let i = rng.below(v.len());
                let rd = v[i].0;
                let mut x = v[i].1;
                let r = match rng.below(3) {
                    0 => rec.op_to(rd, "h.sub", QQ, &[rd, ra], || { x -= a; x }),
                    1 => rec.op_to(rd, "h.mul", QQ, &[rd, ra], || { x *= a; x }),
                    _ => rec.op_to(rd, "h.div", QQ, &[rd, ra], || { x /= a; x }),
                };
                if let Some((_, y)) = r { v[i].1 = y; }
                continue;
            }
        };
        match r {
            Some(x) => v.push(x),
            None => return,
        }
    }
}
macro_rules! rev { ($rec:ident, $T:ident, $g:expr; $($n:literal $op:tt $c:tt;)*) => {
    let (a, s, z) = (Quaternion::<$T>::new($g, $g, $g, $g), $g, Complex::<$T>::new($g, $g));
    let (ra, rs, rz) = ($rec.load(&a), $rec.load(&s), $rec.load(&z));
    $( $rec.op($n, SQ, &[rs, ra], || s $op a); rev!(@ $c $rec $n $op rz ra z a); )*
};
(@ 1 $rec:ident $n:literal $op:tt $rz:ident $ra:ident $z:ident $a:ident) => { $rec.op($n, CQ, &[$rz, $ra], || $z $op $a); };
(@ 0 $($x:tt)*) => {}; }
fn main() {
    let a = args();
    let mut rec = Rec::new("C11", &a.out);
    let rec = &mut rec;
    let mut rng = Rng::new(a.seed);
    let rng = &mut rng;
    for _ in 0..a.scale {
        macro_rules! lane { ($T:ty, $lane:expr, $g:expr) => {{
            let r2 = std::cell::RefCell::new(Rng::new(rng.u()));
            let b = |x: i64, y: i64| r2.borrow_mut().range(x, y);
            let gg = $g;
            let mut g = || gg(&b);
            ring::<$T>(rec, $lane, &mut g);
            iters::<$T>(rec, $lane, &mut g);
            field::<$T>(rec, $lane, &mut g);
            walk::<$T>(rec, $lane, rng, 14, &mut g);
            walk::<$T>(rec, $lane, rng, 14, &mut g);
        }} }
        lane!(GB, "[\"p\",35279]", |b: &dyn Fn(i64, i64) -> i64| GB::new(b(0, 35278)));
        lane!(G<5>, "[\"p\",5]", |b: &dyn Fn(i64, i64) -> i64| G::<5>::new(b(0, 4)));
        lane!(Complex<GB>, "[\"c\",[\"p\",35279]]", |b: &dyn Fn(i64, i64) -> i64| Complex::new(GB::new(b(0, 35278)), GB::new(b(0, 35278))));
        rec.prog("[\"p\",35279]");
        for _ in 0..4 {
            float::<GB>(rec, &mut || GB::new(rng.range(0, 35278)));
            let z = quat(&mut || GB::new(rng.range(0, 35278)));
            let r = rec.load(&z);
            rec.op("h.norml1", Q, &[r], || z.norm_l1());
        }
        ring::<i32>(rec, "[\"z\",-1000000000,1000000000]", &mut || rng.range(-20, 20) as i32);
        iters::<i64>(rec, "[\"z\",-1000000000,1000000000]", &mut || rng.range(-9, 9));
        macro_rules! flt { ($T:ident, $tol:expr) => {
            set_exact(1.0);
            ring::<$T>(rec, "[\"zf\"]", &mut || rng.range(-20, 20) as $T);
            iters::<$T>(rec, "[\"zf\"]", &mut || rng.range(-9, 9) as $T);
            rec.prog("[\"zf\"]");
            for _ in 0..4 { rev!(rec, $T, rng.range(-30, 30) as $T; "h.add" + 1; "h.sub" - 1; "h.mul" * 1;); }
            set_scale(FX);
            for _ in 0..4 {
                let mut g = || { let v = rng.range(24, 80) as $T / 64.0; if rng.chance(1, 2) { v } else { -v } };
                let lane = &format!("[\"fx\",16384,{}]", $tol);
                rec.prog(lane);
                rev!(rec, $T, g(); "h.add" + 1; "h.sub" - 1; "h.mul" * 1; "h.div" / 1;);
                float::<$T>(rec, &mut g);
                field::<$T>(rec, lane, &mut g);
            }
            for _ in 0..4 {
                let u = (2.0 as $T).powi(rng.range(-20, 20) as i32);
                let mut g = || u * rng.range(-9, 9) as $T / 8.0;
                let z = quat(&mut g) + u;
                if z.is_zero() { continue; }
                set_scale(FX / u as f64);
                let r = rec.load(&z);
                rec.op("h.norm", Q, &[r], || z.norm());
                set_scale(FX);
                rec.op("h.normalize", Q, &[r], || z.normalize());
                rec.op("h.normalize", Q, &[r], || Normalize::normalize(z));
            }
        } }
        flt!(f64, 12);
        flt!(f32, 12);
    }
    units::<5>(rec, "[\"p\",5]");
    units::<7>(rec, "[\"p\",7]");
    many(rec, rng);
    exhaust::<2>(rec, "[\"p\",2]", 1, 0);
    exhaust::<3>(rec, "[\"p\",3]", 1, 0);
    rec.finish();
}
