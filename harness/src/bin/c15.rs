//! C15: Moebius maps.
use num_traits::{Num, NumCast};
use std::ops::{Add, Div, Mul, Neg};
use vecmat::{complex::Moebius, prelude::*, transform::*, Complex, Quaternion};
use vharness::{xf::{small, Sc}, *};

trait Kind: Fat { const K: &'static str; }
impl<T: FatLine> Kind for Complex<T> { const K: &'static str = "c"; }
impl<T: FatLine> Kind for Quaternion<T> { const K: &'static str = "q"; }
macro_rules! sk { ($($T:ty)*) => {$( impl Kind for $T { const K: &'static str = "s"; } )*} }
sk! { GB f64 f32 G<3> G<5> G<7> }
fn kk(a: &str, b: &str) -> String { format!("[\"{}\",\"{}\"]", a, b) }

fn any<T: Sc>(r: &mut Rng) -> T { if r.chance(1, 6) { T::zero() } else { T::any(r) } }
fn comp<T: Sc>(r: &mut Rng) -> Complex<T> { Complex::new(any(r), any(r)) }
fn quat<T: Sc>(r: &mut Rng) -> Quaternion<T> { Quaternion::new(any(r), any(r), any(r), any(r)) }
/// coefficients: anything, or one with zero or unit entries in special places
fn mob<C: Copy + Num + Neg<Output = C>>(r: &mut Rng, g: &mut dyn FnMut(&mut Rng) -> C) -> Moebius<C> {
    let (z, o) = (C::zero(), C::one());
    match r.below(8) {
        0 => Moebius::new(g(r), g(r), z, o),
        1 => Moebius::new(z, o, o, z),
        2 => Moebius::new(z, g(r), g(r), g(r)),
        3 => Moebius::new(g(r), z, z, g(r)),
        4 => Moebius::new(o, g(r), z, o),
        5 => Moebius::new(o, z, g(r), o),
        _ => Moebius::new(g(r), g(r), g(r), g(r)),
    }
}
fn apply<C, U>(rec: &mut Rec, m: Moebius<C>, rm: Reg, x: U)
where
    C: Kind + Mul<U, Output = U>,
    U: Kind + Add<C, Output = U> + Div<Output = U>,
{
    let rx = rec.load(&x);
    let y = rec.op("m.apply", &kk(C::K, U::K), &[rm, rx], || m.apply(x));
    let _ = y;
}
/// group structure over coefficients `C`, images of points of type `U`
fn group<C, U>(rec: &mut Rec, r: &mut Rng, lane: &str, g: &mut dyn FnMut(&mut Rng) -> C, p: &mut dyn FnMut(&mut Rng) -> U)
where
    C: Kind + Mul<U, Output = U>,
    U: Kind + Add<C, Output = U> + Div<Output = U>,
{
    let k = kk(C::K, U::K);
    rec.prog(lane);
    let (m, n, x) = (mob(r, g), mob(r, g), p(r));
    let (rm, rn, rx) = (rec.load(&m), rec.load(&n), rec.load(&x));
    let mx = rec.op("m.apply", &k, &[rm, rx], || m.apply(x));
    rec.op("m.det", &k, &[rm], || m.det());
    if let Some((re, e)) = rec.op("m.ident", &k, &[rm], || Moebius::<C>::identity()) {
        rec.op("m.apply", &k, &[re, rx], || e.apply(x));
        rec.op("m.chain", &k, &[rm, re], || m.chain(e));
    }
    if let Some((rq, q)) = rec.op("m.normalize", &k, &[rm], || m.normalize()) {
        if small(&q, lane) { rec.op("m.apply", &k, &[rq, rx], || q.apply(x)); }
    }
    if let Some((ri, i)) = rec.op("m.inv", &k, &[rm], || m.inv()) {
        if let (true, Some((ry, y))) = (small(&i, lane), mx) {
            if small(&y, lane) { rec.op("m.apply", &k, &[ri, ry], || i.apply(y)); }
        }
    }
    if let Some((rc, c)) = rec.op("m.chain", &k, &[rm, rn], || m.chain(n)) {
        if small(&c, lane) { rec.op("m.apply", &k, &[rc, rx], || c.apply(x)); }
    }
    // a history of compositions, inversions and normalisations
    let mut v = vec![(rm, m), (rn, n)];
    for _ in 0..6 {
        let (ra, a) = v[v.len() - 1 - r.below(2)];
        let q = match r.below(5) {
            0 => rec.op("m.inv", &k, &[ra], || a.inv()),
            1 => rec.op("m.normalize", &k, &[ra], || a.normalize()),
            _ => { let (rb, b) = v[r.below(v.len())]; rec.op("m.chain", &k, &[ra, rb], || a.chain(b)) }
        };
        let Some((rq, q)) = q else { break };
        if !small(&q, lane) { break; }
        rec.op("m.apply", &k, &[rq, rx], || q.apply(x));
        v.push((rq, q));
    }
}
/// maps of complex coefficients as transformations of complex points and quaternions
fn calculus<T: Sc + NumCast>(rec: &mut Rec, r: &mut Rng) {
    let lane = T::lane();
    let (cc, cq) = (kk("c", "c"), kk("c", "q"));
    rec.prog(&lane);
    let m = mob(r, &mut comp::<T>);
    let n = mob(r, &mut comp::<T>);
    let (rm, rn) = (rec.load(&m), rec.load(&n));
    let (x, v) = (comp::<T>(r), comp::<T>(r));
    let (rx, rv) = (rec.load(&x), rec.load(&v));
    rec.op("m.deriv", &cc, &[rm, rx], || m.deriv(x));
    type CT<T> = Complex<T>;
    type QT<T> = Quaternion<T>;
    rec.op("m.derivdir", &cc, &[rm, rx, rv], || Transform::<CT<T>>::deriv(&m, x, v));
    rec.op("m.apply", &cc, &[rm, rx], || Transform::<CT<T>>::apply(&m, x));
    rec.op("m.chain", &cc, &[rm, rn], || Transform::<CT<T>>::chain(m, n));
    rec.op("m.inv", &cc, &[rm], || Transform::<CT<T>>::inv(m));
    rec.op("m.ident", &cc, &[rm], || <Moebius<CT<T>> as Transform<CT<T>>>::identity());
    let tries = if lane.contains("fx") { 2 } else { 5 };
    for i in 0..tries {
        let (x, v) = (comp::<T>(r), if i == 0 { Complex::new(T::zero(), T::one()) } else { comp::<T>(r) });
        if v.norm_sqr().is_zero() { continue; }
        let (rx, rv) = (rec.load(&x), rec.load(&v));
        rec.op("m.applydir", &cc, &[rm, rx, rv], || m.apply_dir(x, v));
        rec.op("m.applydir", &cc, &[rm, rx, rv], || m.apply_normal(x, v));
    }
    let z = T::zero();
    for i in 0..tries {
        let x = match i { 0 => Quaternion::new(any(r), any(r), z, z), 1 => Quaternion::new(z, z, any(r), T::inv_able(r)), _ => quat::<T>(r) };
        let rx = rec.load(&x);
        rec.op("m.apply", &cq, &[rm, rx], || Transform::<QT<T>>::apply(&m, x));
        if i == 0 {
            rec.op("m.chain", &cq, &[rm, rn], || Transform::<QT<T>>::chain(m, n));
            rec.op("m.inv", &cq, &[rm], || Transform::<QT<T>>::inv(m));
            rec.op("m.ident", &cq, &[rm], || <Moebius<CT<T>> as Transform<QT<T>>>::identity());
        }
        for j in 0..5 {
            let o = |a: usize| if a == j { T::one() } else { z };
            let v = if j < 4 { Quaternion::new(o(0), o(1), o(2), o(3)) } else { quat::<T>(r) };
            if v.norm_sqr().is_zero() { continue; }
            let rv = rec.load(&v);
            rec.op("m.derivdir", &cq, &[rm, rx, rv], || m.deriv_dir(x, v));
            rec.op("m.derivdir", &cq, &[rm, rx, rv], || Transform::<QT<T>>::deriv(&m, x, v));
            rec.op("m.applydir", &cq, &[rm, rx, rv], || m.apply_dir(x, v));
            rec.op("m.applydir", &cq, &[rm, rx, rv], || m.apply_normal(x, v));
        }
    }
    // chain rule for quaternion points
    let (x, v) = (quat::<T>(r), quat::<T>(r));
    let (rx, rv) = (rec.load(&x), rec.load(&v));
    if let (Some((ry, y)), Some((rw, w))) = (rec.op("m.apply", &cq, &[rn, rx], || Transform::<QT<T>>::apply(&n, x)), rec.op("m.derivdir", &cq, &[rn, rx, rv], || n.deriv_dir(x, v))) {
        if small(&y, &lane) && small(&w, &lane) {
            rec.op("m.derivdir", &cq, &[rm, ry, rw], || m.deriv_dir(y, w));
        }
    }
    if let Some((rc, c)) = rec.op("m.chain", &cq, &[rm, rn], || m.chain(n)) {
        if small(&c, &lane) { rec.op("m.derivdir", &cq, &[rc, rx, rv], || c.deriv_dir(x, v)); }
    }
}
/// coefficients of any algebra, only applied and composed
fn plain<T: Sc + NumCast>(rec: &mut Rec, r: &mut Rng) {
    let lane = T::lane();
    rec.prog(&lane);
    let f = &mut |r: &mut Rng| quat::<T>(r);
    let m = Moebius::new(f(r), f(r), f(r), f(r));
    let n = Moebius::new(f(r), f(r), f(r), f(r));
    let (rm, rn) = (rec.load(&m), rec.load(&n));
    apply(rec, m, rm, quat::<T>(r));
    if let Some((rc, c)) = rec.op("m.chain", &kk("q", "q"), &[rm, rn], || m.chain(n)) {
        if small(&c, &lane) { apply(rec, c, rc, quat::<T>(r)); }
    }
}
macro_rules! real { ($T:ty, $rec:ident, $r:ident) => {{
    group::<$T, $T>(&mut $rec, &mut $r, &<$T as Sc>::lane(), &mut any::<$T>, &mut any::<$T>);
    group::<$T, Complex<$T>>(&mut $rec, &mut $r, &<$T as Sc>::lane(), &mut any::<$T>, &mut comp::<$T>);
    group::<$T, Quaternion<$T>>(&mut $rec, &mut $r, &<$T as Sc>::lane(), &mut any::<$T>, &mut quat::<$T>);
}} }
/// Every map with coefficients in a finite field (every `step`-th from `from` on) at every point.
fn exhaust<C, U>(rec: &mut Rec, lane: &str, all: &[C], points: &[U], step: usize, from: usize)
where
    C: Kind + Mul<U, Output = U>,
    U: Kind + Add<C, Output = U> + Div<Output = U>,
{
    let k = kk(C::K, U::K);
    let n = all.len();
    let mut i = from % step;
    let mut last: Option<Moebius<C>> = None;
    while i < n * n * n * n {
        rec.prog(lane);
        let m = Moebius::new(all[i / n / n / n], all[i / n / n % n], all[i / n % n], all[i % n]);
        let rm = rec.load(&m);
        for x in points {
            let rx = rec.load(x);
            rec.op("m.apply", &k, &[rm, rx], || m.apply(*x));
        }
        rec.op("m.det", &k, &[rm], || m.det());
        rec.op("m.normalize", &k, &[rm], || m.normalize());
        rec.op("m.inv", &k, &[rm], || m.inv());
        if let Some(l) = last {
            let rl = rec.load(&l);
            rec.op("m.chain", &k, &[rm, rl], || m.chain(l));
        }
        last = Some(m);
        i += step;
    }
}
fn finite(rec: &mut Rec, seed: usize, deep: bool) {
    fn nums<const P: u32>() -> Vec<G<P>> { (0..P).map(G).collect() }
    fn comps<const P: u32>() -> Vec<Complex<G<P>>> { (0..P * P).map(|n| Complex::new(G(n / P), G(n % P))).collect() }
    exhaust(rec, "[\"p\",5]", &nums::<5>(), &nums::<5>(), 1, 0);
    exhaust(rec, "[\"p\",3]", &nums::<3>(), &nums::<3>(), 1, 0);
    exhaust(rec, "[\"p\",3]", &comps::<3>(), &comps::<3>(), if deep { 9 } else { 29 }, seed);
    let q: Vec<Quaternion<G<3>>> = (0..81).filter(|n| n % 3 == seed as u32 % 3).map(|n| Quaternion::new(G(n / 27), G(n / 9 % 3), G(n / 3 % 3), G(n % 3))).collect();
    exhaust(rec, "[\"p\",3]", &comps::<3>(), &q, if deep { 61 } else { 131 }, seed);
    // derivatives, at every point along every direction
    let all = comps::<3>();
    let step = if deep { 97 } else { 211 };
    let mut i = seed % step;
    while i < 6561 {
        rec.prog("[\"p\",3]");
        let m = Moebius::new(all[i / 729], all[i / 81 % 9], all[i / 9 % 9], all[i % 9]);
        let rm = rec.load(&m);
        let mut rng = Rng::new((seed * 10000 + i) as u64);
        for x in &all {
            let rx = rec.load(x);
            rec.op("m.deriv", &kk("c", "c"), &[rm, rx], || m.deriv(*x));
            let v = *rng.pick(&all);
            let rv = rec.load(&v);
            rec.op("m.derivdir", &kk("c", "c"), &[rm, rx, rv], || Transform::deriv(&m, *x, v));
        }
        for x in &q {
            let rx = rec.load(x);
            let v = *rng.pick(&q);
            let rv = rec.load(&v);
            rec.op("m.derivdir", &kk("c", "q"), &[rm, rx, rv], || m.deriv_dir(*x, v));
        }
        i += step;
    }
}
fn main() {
    let a = args();
    let mut rec = Rec::new("C15", &a.out);
    let mut r = Rng::new(a.seed);
    set_scale(FX);
    macro_rules! all { ($T:ty) => {
        group::<Complex<$T>, Complex<$T>>(&mut rec, &mut r, &<$T as Sc>::lane(), &mut comp::<$T>, &mut comp::<$T>);
        group::<Complex<$T>, Quaternion<$T>>(&mut rec, &mut r, &<$T as Sc>::lane(), &mut comp::<$T>, &mut quat::<$T>);
        calculus::<$T>(&mut rec, &mut r);
        plain::<$T>(&mut rec, &mut r);
    } }
    for i in 0..a.scale * 10 {
        all!(GB);
        all!(GB);
        group::<GB, GB>(&mut rec, &mut r, &GB::lane(), &mut any::<GB>, &mut any::<GB>);
        all!(f64);
        real!(f64, rec, r);
        if i % 2 == 0 {
            all!(f32);
            real!(f32, rec, r);
        }
    }
    finite(&mut rec, a.seed as usize, a.scale >= 20);
    rec.finish();
}
