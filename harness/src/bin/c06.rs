//! C06: math functions act on each component; further arguments broadcast.
use num_traits::Float;
use std::collections::BTreeMap;
use vecmat::{traits::Broadcast, Matrix, Vector};
use vharness::*;

/// An argument: the value passed, and its scalars.
struct Arg<'a, T> { kind: &'a str, reg: Reg, vals: &'a [T] }
struct Facts(BTreeMap<String, String>);
impl Facts {
    fn new() -> Self { Facts(BTreeMap::from([("none".to_string(), "\"\"".to_string())])) }
    fn js(&self) -> String { format!("{{{}}}", self.0.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")) }
}
fn kk(rank: usize, kinds: &[&str], f: &Facts) -> String { format!("[{},{:?},{}]", rank, kinds, f.js()) }
fn facts1<T: Txt + Copy, R: Show>(a: &[T], f: impl Fn(T) -> R) -> Facts {
    let mut m = Facts::new();
    for &x in a { m.0.insert(x.txt(), f(x).show().0); }
    m
}
fn facts2<T: Txt + Copy, U: Txt + Copy, R: Show>(a: &[T], b: &[U], f: impl Fn(T, U) -> R) -> Facts {
    let mut m = Facts::new();
    for &x in a { for &y in b { m.0.insert(format!("{},{}", x.txt(), y.txt()), f(x, y).show().0); } }
    m
}
fn facts3<T: Txt + Copy, R: Show>(a: &[T], b: &[T], c: &[T], f: impl Fn(T, T, T) -> R) -> Facts {
    let mut m = Facts::new();
    for &x in a { for &y in b { for &z in c { m.0.insert(format!("{},{},{}", x.txt(), y.txt(), z.txt()), f(x, y, z).show().0); } } }
    m
}
macro_rules! one { ($rec:ident, $rank:expr, $c:ident $rc:ident $vals:ident $T:ident; $($f:ident)*) => {$({
    let k = kk($rank, &["v"], &facts1(&$vals, |x: $T| <$T as Float>::$f(x)));
    $rec.try_op(concat!("f.", stringify!($f)), &k, &[$rc], || $c.$f().show());
})*} }
macro_rules! two { ($rec:ident, $rank:expr, $c:ident $rc:ident $vals:ident $T:ident, $arg:expr, $b:expr; $($f:ident $sf:ident)*) => {$({
    let k = kk($rank, &["v", $b.kind], &facts2(&$vals, $b.vals, |x: $T, y| <$T as Float>::$sf(x, y)));
    $rec.try_op(concat!("f.", stringify!($f)), &k, &[$rc, $b.reg], || $c.$f($arg).show());
})*} }
macro_rules! three { ($rec:ident, $rank:expr, $c:ident $rc:ident $vals:ident $T:ident, $x:expr, $b:expr, $y:expr, $d:expr) => { {
    let k = kk($rank, &["v", $b.kind, $d.kind], &facts3(&$vals, $b.vals, $d.vals, |x: $T, y, z| <$T as Float>::mul_add(x, y, z)));
    $rec.try_op("f.mul_add", &k, &[$rc, $b.reg, $d.reg], || $c.mul_add($x, $y).show());
    let k = kk($rank, &["v", $b.kind, $d.kind], &facts3(&$vals, $b.vals, $d.vals, |x: $T, y, z| if !x.is_nan() && y <= z { <$T as Float>::min(<$T as Float>::max(x, y), z).show() } else { Tx("\"*\"".into()) }));
    $rec.try_op("f.clamp", &k, &[$rc, $b.reg, $d.reg], || $c.clamp($x, $y).show());
} } }
/// Integer exponents, the extreme ones included.
fn expo(rng: &mut Rng) -> i32 { if rng.chance(1, 5) { *rng.pick(&[i32::MIN, i32::MAX, i32::MIN + 1, 31, -31, 64, 1023, -1074]) } else { rng.range(-3, 4) as i32 } }
macro_rules! funcs { ($name:ident, $T:ident, $C:ident [$($g:ident)*], $CI:ty, $CF:ty, $rank:expr, $($row:tt)*) => {
    pub fn $name<$(const $g: usize),*>(rec: &mut Rec, f: &mut dyn FnMut() -> $T, small: &mut dyn FnMut() -> $T, rng: &mut Rng) {
        rec.prog("[\"any\"]");
        let mut vals = Vec::new();
        let c = <$CF as Cont<$T>>::gen(&mut || { let x = f(); vals.push(x); x });
        let rc = rec.load(&c.show());
        one! { rec, $rank, c rc vals $T;
            abs signum cbrt sqrt acos asin atan cosh sinh tan tanh log2 exp ln sin cos asinh acosh atanh
            floor ceil round trunc fract recip exp2 log10 exp_m1 ln_1p sin_cos }
        let s = f();
        let sb = Arg { kind: "s", reg: rec.load(&s.show()), vals: &[s] };
        let mut bv = Vec::new();
        let b = <$CF as Cont<$T>>::gen(&mut || { let x = f(); bv.push(x); x });
        let vb = Arg { kind: "v", reg: rec.load(&b.show()), vals: &bv };
        two! { rec, $rank, c rc vals $T, s, sb; atan2 atan2 hypot hypot powf powf log log abs_sub abs_sub }
        two! { rec, $rank, c rc vals $T, b, vb; atan2 atan2 hypot hypot powf powf log log abs_sub abs_sub }
        let n = expo(rng);
        let sn = Arg { kind: "s", reg: rec.load(&n.show()), vals: &[n] };
        let mut nv = Vec::new();
        let ns = <$CI as Cont<i32>>::gen(&mut || { let x = expo(rng); nv.push(x); x });
        let vn = Arg { kind: "v", reg: rec.load(&ns.show()), vals: &nv };
        two! { rec, $rank, c rc vals $T, n, sn; powi powi }
        two! { rec, $rank, c rc vals $T, ns, vn; powi powi }
        // Here zeros have no sign: which of two zeros is the larger one is nobody's concern.
        let mut vals = Vec::new();
        // Lower bounds are mostly negative (side -1), upper ones mostly positive (1): few pairs cross.
        let (side, nth) = (std::cell::Cell::new(0), std::cell::Cell::new(0));
        let mut f = || -> $T {
            let x = small();
            nth.set(nth.get() + 1);
            if x == 0.0 || nth.get() % 5 == 0 { x } else { match side.get() { -1 => -<$T>::abs(x), 1 => <$T>::abs(x), _ => x } }
        };
        let c = <$CF as Cont<$T>>::gen(&mut || { let x = f(); vals.push(x); x });
        let rc = rec.load(&c.show());
        side.set(-1);
        let s = f();
        let sb = Arg { kind: "s", reg: rec.load(&s.show()), vals: &[s] };
        let mut bv = Vec::new();
        let b = <$CF as Cont<$T>>::gen(&mut || { let x = f(); bv.push(x); x });
        let vb = Arg { kind: "v", reg: rec.load(&b.show()), vals: &bv };
        side.set(1);
        let s2 = f();
        let sb2 = Arg { kind: "s", reg: rec.load(&s2.show()), vals: &[s2] };
        let mut dv = Vec::new();
        let d = <$CF as Cont<$T>>::gen(&mut || { let x = f(); dv.push(x); x });
        let vd = Arg { kind: "v", reg: rec.load(&d.show()), vals: &dv };
        two! { rec, $rank, c rc vals $T, s, sb; vmin min vmax max }
        two! { rec, $rank, c rc vals $T, b, vb; vmin min vmax max }
        if vals.len() <= 6 {
            three!(rec, $rank, c rc vals $T, s, sb, s2, sb2);
            three!(rec, $rank, c rc vals $T, s, sb, d, vd);
            three!(rec, $rank, c rc vals $T, b, vb, s2, sb2);
            three!(rec, $rank, c rc vals $T, b, vb, d, vd);
        }
        funcs!(@row $($row)* rec, f, rng, c, rc, vals, $T, $rank, s, sb, b, vb, s2, sb2, d, vd, side);
    }
};
(@row norow $($r:tt)*) => {};
(@row row [$R:ty] [$RI:ty] $rec:ident, $f:ident, $rng:ident, $c:ident, $rc:ident, $vals:ident, $T:ident, $rank:expr, $s:ident, $sb:ident, $b:ident, $vb:ident, $s2:ident, $sb2:ident, $d:ident, $vd:ident, $side:ident) => {
    $side.set(-1);
    let mut rv = Vec::new();
    let row = <$R as Cont<$T>>::gen(&mut || { let x = $f(); rv.push(x); x });
    let rb = Arg { kind: "r", reg: $rec.load(&row.show()), vals: &rv };
    $side.set(1);
    let mut rv2 = Vec::new();
    let row2 = <$R as Cont<$T>>::gen(&mut || { let x = $f(); rv2.push(x); x });
    let rb2 = Arg { kind: "r", reg: $rec.load(&row2.show()), vals: &rv2 };
    let mut nv = Vec::new();
    let nrow = <$RI as Cont<i32>>::gen(&mut || { let x = expo($rng); nv.push(x); x });
    let rn = Arg { kind: "r", reg: $rec.load(&nrow.show()), vals: &nv };
    two! { $rec, $rank, $c $rc $vals $T, row, rb; vmin min vmax max atan2 atan2 hypot hypot powf powf log log abs_sub abs_sub }
    two! { $rec, $rank, $c $rc $vals $T, nrow, rn; powi powi }
    if $vals.len() <= 6 {
        three!($rec, $rank, $c $rc $vals $T, row, rb, row2, rb2);
        three!($rec, $rank, $c $rc $vals $T, row, rb, $s2, $sb2);
        three!($rec, $rank, $c $rc $vals $T, $s, $sb, row2, rb2);
        three!($rec, $rank, $c $rc $vals $T, $b, $vb, row2, rb2);
        three!($rec, $rank, $c $rc $vals $T, row, rb, $d, $vd);
    }
};
}
funcs!(vec64, f64, Vector [N], Vector<i32, N>, Vector<f64, N>, 1, norow);
funcs!(vec32, f32, Vector [N], Vector<i32, N>, Vector<f32, N>, 1, norow);
funcs!(mat64, f64, Matrix [M N], Matrix<i32, M, N>, Matrix<f64, M, N>, 2, row [Vector<f64, N>] [Vector<i32, N>]);
funcs!(mat32, f32, Matrix [M N], Matrix<i32, M, N>, Matrix<f32, M, N>, 2, row [Vector<f32, N>] [Vector<i32, N>]);

// ---- multiples of 1/4: the specification computes the values itself ----
fn kq(rank: usize, kinds: &[&str]) -> String { format!("[{},{:?},0]", rank, kinds) }
macro_rules! q1 { ($rec:ident, $rank:expr, $c:expr, $rc:expr; $($f:ident)*) => {$( $rec.try_op(concat!("i.", stringify!($f)), &kq($rank, &["v"]), &[$rc], || $c.$f()); )*} }
macro_rules! q2 { ($rec:ident, $rank:expr, $c:expr, $rc:expr, $kind:expr, $b:expr, $rb:expr; $($f:ident)*) => {$(
    $rec.try_op(concat!("i.", stringify!($f)), &kq($rank, &["v", $kind]), &[$rc, $rb], || $c.$f($b));
)*} }
macro_rules! q3 { ($rec:ident, $rank:expr, $c:expr, $rc:expr, $k1:expr, $b:expr, $rb:expr, $k2:expr, $d:expr, $rd:expr; $($f:ident)*) => {$(
    $rec.try_op(concat!("i.", stringify!($f)), &kq($rank, &["v", $k1, $k2]), &[$rc, $rb, $rd], || $c.$f($b, $d));
)*} }
macro_rules! quarters { ($rec:ident, $rng:ident, $C:ty, $rank:expr) => { {
    $rec.prog("[\"zf\"]");
    set_exact(4.0);
    let c = <$C as Cont<f64>>::gen(&mut || $rng.range(-30, 30) as f64 / 4.0);
    let rc = $rec.load(&c);
    q1!($rec, $rank, c, rc; abs signum floor ceil round trunc fract);
    let c = <$C as Cont<f64>>::gen(&mut || { let m = $rng.range(0, 20) as f64; m * m / 4.0 });
    let rc = $rec.load(&c);
    q1!($rec, $rank, c, rc; sqrt);
    let mut f = || $rng.range(-14, 14) as f64 / 2.0;
    let c = <$C as Cont<f64>>::gen(&mut f);
    let mut lo = || $rng.range(-14, 2) as f64 / 2.0;
    let (b, s) = (<$C as Cont<f64>>::gen(&mut lo), lo());
    let mut hi = || $rng.range(-2, 14) as f64 / 2.0;
    let (d, t) = (<$C as Cont<f64>>::gen(&mut hi), hi());
    let (rc, rb, rd, rs, rt) = ($rec.load(&c), $rec.load(&b), $rec.load(&d), $rec.load(&s), $rec.load(&t));
    q2!($rec, $rank, c, rc, "v", b, rb; vmin vmax abs_sub);
    q2!($rec, $rank, c, rc, "s", s, rs; vmin vmax abs_sub);
    q3!($rec, $rank, c, rc, "v", b, rb, "v", d, rd; clamp mul_add);
    q3!($rec, $rank, c, rc, "s", s, rs, "v", d, rd; clamp mul_add);
    q3!($rec, $rank, c, rc, "v", b, rb, "s", t, rt; clamp mul_add);
    q3!($rec, $rank, c, rc, "s", s, rs, "s", t, rt; clamp mul_add);
    let bc: $C = s.broadcast();
    $rec.try_op("i.bc", &kq($rank, &["v", "s"]), &[rc, rs], || bc);
    let bc: $C = b.broadcast();
    $rec.try_op("i.bc", &kq($rank, &["v", "v"]), &[rc, rb], || bc);
    (c, rc, s, rs, d, rd, t, rt)
} } }
pub fn qvec<const N: usize>(rec: &mut Rec, rng: &mut Rng) { quarters!(rec, rng, Vector<f64, N>, 1); }
pub fn qmat<const M: usize, const N: usize>(rec: &mut Rec, rng: &mut Rng) {
    let (c, rc, s, rs, d, rd, t, rt) = quarters!(rec, rng, Matrix<f64, M, N>, 2);
    let u = <Vector<f64, N> as Cont<f64>>::gen(&mut || rng.range(-14, 2) as f64 / 2.0);
    let v = <Vector<f64, N> as Cont<f64>>::gen(&mut || rng.range(-2, 14) as f64 / 2.0);
    let (ru, rv) = (rec.load(&u), rec.load(&v));
    q2!(rec, 2, c, rc, "r", u, ru; vmin vmax abs_sub);
    q3!(rec, 2, c, rc, "r", u, ru, "r", v, rv; clamp mul_add);
    q3!(rec, 2, c, rc, "r", u, ru, "s", t, rt; clamp mul_add);
    q3!(rec, 2, c, rc, "s", s, rs, "r", v, rv; clamp mul_add);
    q3!(rec, 2, c, rc, "r", u, ru, "v", d, rd; clamp mul_add);
    q3!(rec, 2, c, rc, "v", c, rc, "r", v, rv; clamp mul_add);
    let bc: Matrix<f64, M, N> = u.broadcast();
    rec.try_op("i.bc", &kq(2, &["v", "r"]), &[rc, ru], || bc);
}
fn main() {
    let a = args();
    let mut rec = Rec::new("C06", &a.out);
    let mut rng = Rng::new(a.seed);
    let mut r2 = Rng::new(a.seed + 99);
    for i in 0..a.scale {
        let special = i % 2 == 0;
        let mut f = || if special && r2.chance(1, 4) {
            *r2.pick(&[0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.5, -0.5, 1.5, 2.5, 1e300, 5e-324, 2.0, -2.0])
        } else if r2.chance(1, 2) { r2.unit() * 2.0 - 1.0 } else { (r2.unit() * 2.0 - 1.0) * 10.0 };
        let pool: Vec<f64> = (0..997).map(|_| f()).collect();
        let (mut n, mut m) = (0, 500);
        let mut all = || { n += 1; pool[n % 997] };
        let mut pos = || { m += 1; let x = pool[m % 997]; if x == 0.0 { 0.0 } else { x } };
        macro_rules! v { ($($N:literal)*) => {$(
            vec64::<$N>(&mut rec, &mut all, &mut pos, &mut rng);
            vec32::<$N>(&mut rec, &mut || all() as f32, &mut || { let x = pos() as f32; if x == 0.0 { 0.0 } else { x } }, &mut rng);
            qvec::<$N>(&mut rec, &mut rng);
        )*} }
        v!(0 1 2 3 4 5 8 17);
        if i == 0 { v!(70 260); }
        macro_rules! m { ($($M:literal $N:literal,)*) => {$(
            mat64::<$M, $N>(&mut rec, &mut all, &mut pos, &mut rng);
            mat32::<$M, $N>(&mut rec, &mut || all() as f32, &mut || { let x = pos() as f32; if x == 0.0 { 0.0 } else { x } }, &mut rng);
            qmat::<$M, $N>(&mut rec, &mut rng);
        )*} }
        if i == 1 { m!(17 16, 3 90, 90 3,); }
        m!(1 1, 1 3, 3 1, 2 2, 2 3, 3 2, 3 3, 4 4, 2 5, 0 2, 2 0, 5 4, 8 9,);
    }
    rec.finish();
}
