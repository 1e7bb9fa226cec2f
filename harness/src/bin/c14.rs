//! C14: rotations: angle, axis, isometry, linear form, look-at.
use num_traits::{FloatConst, NumCast};
use vecmat::{prelude::*, transform::*, Vector};
use vharness::{xf::*, *};

const R2: &str = "[2,[\"r2\"]]";
const R3: &str = "[3,[\"r3\"]]";
const LI: &str = "[3,[\"li\"]]";
fn lin(n: usize) -> String { nk(n, "[\"li\"]") }

fn rot2<T: Sc>(rec: &mut Rec, r: &mut Rng, a: T) {
    let lane = T::lane();
    rec.prog(&lane);
    let ra = rec.load(&a);
    let x = vec::<T, 2>(r);
    let rx = rec.load(&x);
    let Some((rf, f)) = rec.op("x.new2", R2, &[ra], || Rotation2::new(a)) else { return };
    rec.op("x.angle2", R2, &[rf], || f.angle());
    check2(rec, r, rf, f, rx, x);
    // a rotation and its inverse and composites with others
    let b = T::angle(r);
    let rb = rec.load(&b);
    if let Some((rg, g)) = rec.op("x.new2", R2, &[rb], || Rotation2::new(b)) {
        if let Some((rh, h)) = rec.op("x.chain", R2, &[rf, rg], || f.chain(g)) {
            rec.op("x.angle2", R2, &[rh], || h.angle());
            check2(rec, r, rh, h, rx, x);
        }
    }
    if let Some((ri, i)) = rec.op("x.inv", R2, &[rf], || f.inv()) {
        rec.op("x.angle2", R2, &[ri], || i.angle());
        check2(rec, r, ri, i, rx, x);
    }
}
fn check2<T: Sc>(rec: &mut Rec, _: &mut Rng, rf: Reg, f: Rotation2<T>, rx: Reg, x: Vector<T, 2>) {
    rec.op("x.apply", R2, &[rf, rx], || f.apply(x));
    rec.op("x.samelen", R2, &[rx], || f.apply(x));
    if let Some((rl, l)) = rec.op("x.tolinear", R2, &[rf], || f.to_linear()) {
        rec.op("x.apply", &lin(2), &[rl, rx], || l.apply(x));
    }
    rec.op("x.rotation", R2, &[rf], || f.to_linear());
}
fn check3<T: Sc + NumCast>(rec: &mut Rec, rf: Reg, f: Rotation3<T>, rx: Reg, x: Vector<T, 3>) {
    rec.op("x.apply", R3, &[rf, rx], || f.apply(x));
    rec.op("x.samelen", R3, &[rx], || f.apply(x));
    if let Some((rl, l)) = rec.op("x.tolinear", R3, &[rf], || f.to_linear()) {
        rec.op("x.apply", &lin(3), &[rl, rx], || l.apply(x));
    }
    rec.op("x.rotation", R3, &[rf], || f.to_linear());
    rec.op("x.angle3", R3, &[rf], || f.angle());
    // the identity has no axis
    let q = f.into_quaternion();
    let v = q.x() * q.x() + q.y() * q.y() + q.z() * q.z();
    if !(v.abs() <= <T as NumCast>::from(1.0 / 65536.0).unwrap_or(T::zero())) {
        rec.op("x.axisangle", R3, &[rf], || (f.axis(), f.angle()));
    }
}
fn rot3<T: Sc + NumCast>(rec: &mut Rec, r: &mut Rng, a: T) {
    let lane = T::lane();
    rec.prog(&lane);
    let u = uvec::<T, 3>(r);
    let (ra, ru) = (rec.load(&a), rec.load(&u));
    let x = vec::<T, 3>(r);
    let rx = rec.load(&x);
    let Some((rf, f)) = rec.op("x.new3", R3, &[ru, ra], || Rotation3::new(u, a)) else { return };
    rec.op("x.apply", R3, &[rf, ru], || f.apply(u));
    rec.op("x.fixed", R3, &[ru], || f.apply(u));
    check3(rec, rf, f, rx, x);
    if let Some((ri, i)) = rec.op("x.inv", R3, &[rf], || f.inv()) {
        check3(rec, ri, i, rx, x);
    }
    // same axis: angles add; other axis: a proper composite
    let (b, w) = (T::angle(r), uvec::<T, 3>(r));
    let (rb, rw) = (rec.load(&b), rec.load(&w));
    if let Some((rg, g)) = rec.op("x.new3", R3, &[ru, rb], || Rotation3::new(u, b)) {
        if let Some((rh, h)) = rec.op("x.chain", R3, &[rf, rg], || f.chain(g)) {
            check3(rec, rh, h, rx, x);
        }
    }
    if let Some((rg, g)) = rec.op("x.new3", R3, &[rw, rb], || Rotation3::new(w, b)) {
        if let Some((rh, h)) = rec.op("x.chain", R3, &[rf, rg], || f.chain(g)) {
            check3(rec, rh, h, rx, x);
        }
    }
    // any unit quaternion
    let q = Rotation3::from_quaternion(uquat::<T>(r));
    let rq = rec.load(&q);
    check3(rec, rq, q, rx, x);
}
/// Rotations by very small angles, and quaternions whose real part was rounded to just above one.
macro_rules! tiny { ($T:ident, $rec:expr, $r:expr, $emax:literal) => {
    for e in 10..=$emax {
        $rec.prog(&<$T as Sc>::lane());
        let unit = (2.0 as $T).powi(-e);
        let u = uvec::<$T, 3>($r);
        let t = unit * (1.0 + $r.unit() as $T);
        set_scale(FX / unit as f64);
        let rt = $rec.load(&t);
        $rec.op("x.tinyangle", R2, &[rt], || Rotation2::new(t).angle());
        $rec.op("x.tinyangle", R2, &[rt], || -Rotation2::new(-t).angle());
        $rec.op("x.tinyangle", R3, &[rt], || Rotation3::new(u, t).angle());
        for j in 0..4 {
            let v = u * (t / 2.0).sin();
            let w = 1.0 + (j as $T - 1.0) * $T::EPSILON;
            $rec.op("x.tinyangle", R3, &[rt], || Rotation3::from_quaternion(vecmat::Quaternion::new(w, v[0], v[1], v[2])).angle());
        }
        set_scale(FX);
        let ru = $rec.load(&u);
        $rec.op("x.tinyaxis", R3, &[ru], || Rotation3::new(u, t).axis());
        $rec.op("x.tinyaxis", R3, &[ru], || { let q = Rotation3::new(u, t / 2.0); q.chain(q).axis() });
        for w in [1.0, 1.0 + $T::EPSILON, 1.0 - $T::EPSILON, -1.0, -1.0 - $T::EPSILON] {
            for v in [0.0, unit / 2.0] {
                let q = Rotation3::from_quaternion(vecmat::Quaternion::new(w, u[0] * v, u[1] * v, u[2] * v));
                let rq = $rec.load(&q);
                $rec.op("x.angle3", R3, &[rq], || q.angle());
            }
        }
    }
} }
fn look<T: Sc>(rec: &mut Rec, r: &mut Rng, d: Vector<T, 3>) {
    rec.prog(&T::lane());
    let rd = rec.load(&d);
    let fx = T::lane().contains("fx");
    for _ in 0..if fx { 2 } else { 4 } {
        let up = if r.chance(1, 2) { uvec::<T, 3>(r) } else { vec::<T, 3>(r) };
        let up = Vector::from_array(up.into_array());
        let c = d.cross(up);
        let c2 = c.dot(c);
        if fx && c2 < <T as NumCast>::from(0.1).unwrap() {
            continue;
        }
        let ru = rec.load(&up);
        let s = T::pow2(r);
        rec.op("x.lookat", LI, &[rd, ru], || Linear::look_at(d, up));
        rec.op("x.lookat", LI, &[rd, ru], || Linear::look_at(d, up * s));
    }
}
fn look_any<T: Sc + FloatConst + NumCast>(rec: &mut Rec, d: Vector<T, 3>) {
    rec.prog(&T::lane());
    let rd = rec.load(&d);
    rec.op("x.lookatany", LI, &[rd], || Linear::look_at_any(d));
    rec.op("x.lookatany", R3, &[rd], || Rotation3::look_at_any(d));
}
fn main() {
    let a = args();
    let mut rec = Rec::new("C14", &a.out);
    let mut r = Rng::new(a.seed);
    set_scale(FX);
    let mut r2 = Rng::new(a.seed + 77);
    // exact: every angle that is a multiple of a degree, in both directions
    for k in -360..=360i32 {
        if a.scale > 3 || k % 15 == 0 || (k + 720) % 3 == (a.seed % 3) as i32 {
            rot2(&mut rec, &mut r, angle(2 * k));
            rot3(&mut rec, &mut r, angle(2 * k));
        }
    }
    macro_rules! fl { ($T:ty) => {
        for k in -8..=8 {
            let t = (k as f64 * std::f64::consts::FRAC_PI_4) as $T;
            rot2::<$T>(&mut rec, &mut r, t);
            rot3::<$T>(&mut rec, &mut r, t);
            rot2::<$T>(&mut rec, &mut r, t + 1e-3);
            rot3::<$T>(&mut rec, &mut r, t - 1e-3);
        }
        // the 26 lattice directions, the poles with either sign of zero, and their neighbourhoods
        for i in -1..=1 { for j in -1..=1 { for k in -1..=1 {
            if (i, j, k) == (0, 0, 0) { continue; }
            for e in [0.0, 1e-9, -1e-9, 1e-5, -1e-5, 1e-3, -1e-3, 0.05, -0.05] {
                for s in [0.0, -0.0] {
                    let v = [i as f64 + s + e, j as f64 + s - e / 2.0, k as f64 + s + e / 3.0];
                    let v = if s.is_sign_negative() && e == 0.0 { v.map(|x| if x == 0.0 { -0.0 } else { x }) } else { v };
                    let l = v.iter().map(|x| x * x).sum::<f64>().sqrt();
                    let d = Vector::from_array(v.map(|x| (x / l) as $T));
                    look_any::<$T>(&mut rec, d);
                    if e == 0.0 { look::<$T>(&mut rec, &mut r, d); }
                }
            }
        } } }
        for _ in 0..a.scale * 40 {
            rot2::<$T>(&mut rec, &mut r, (<$T as Sc>::angle)(&mut r2));
            rot3::<$T>(&mut rec, &mut r, (<$T as Sc>::angle)(&mut r2));
            let d = uvec::<$T, 3>(&mut r);
            look_any::<$T>(&mut rec, d);
            look::<$T>(&mut rec, &mut r, d);
        }
    } }
    for _ in 0..a.scale * 60 {
        let d = uvec::<GB, 3>(&mut r);
        look::<GB>(&mut rec, &mut r, d);
        let k = <GB as Sc>::angle(&mut r);
        rot3::<GB>(&mut rec, &mut r, k);
    }
    fl!(f64);
    fl!(f32);
    tiny!(f64, rec, &mut r, 40);
    tiny!(f32, rec, &mut r, 20);
    rec.finish();
}
