//! C19: primitive numbers implement the shared traits consistently.
use vecmat::traits::{Conj, Dot, Epsilon, NormL1, NormL2, NormLInf};
use vharness::*;

struct Raw(String);
impl J for Raw { fn j(&self, o: &mut String) { o.push_str(&self.0) } }
fn big(x: i128) -> Raw {
    let mut s = format!("[{}", (x < 0) as u8);
    let mut m = x.unsigned_abs();
    while m > 0 { s += &format!(",{}", m % 1000); m /= 1000; }
    Raw(s + "]")
}
fn one<T: Copy>(rec: &mut Rec, name: &str, x: T, show: &dyn Fn(T) -> Raw, k: &dyn Fn() -> String, f: impl Fn(T) -> T) {
    let r = rec.load(&show(x));
    rec.try_op(&format!("p.{}", name), &k(), &[r], || show(f(x)));
}
fn int<T>(rec: &mut Rec, lo: i128, hi: i128, show: &dyn Fn(T) -> Raw, xs: &[T], ys: &[T])
where T: Copy + Dot<Output = T> + NormL1<Output = T> + NormL2<Output = T> + NormLInf<Output = T> {
    let z = || "0".to_string();
    rec.prog(&format!("[\"w\",{},{}]", big(lo).0, big(hi).0));
    for (i, &x) in xs.iter().enumerate() {
        if i % 60 == 59 { rec.prog(&format!("[\"w\",{},{}]", big(lo).0, big(hi).0)) }
        one(rec, "norm_l1", x, show, &z, |x| x.norm_l1());
        one(rec, "norm_l2", x, show, &z, |x| x.norm_l2());
        one(rec, "norm_l_inf", x, show, &z, |x| x.norm_l_inf());
        one(rec, "norm_l2_sqr", x, show, &z, |x| x.norm_l2_sqr());
        let y = ys[i % ys.len()];
        let (r, q) = (rec.load(&show(x)), rec.load(&show(y)));
        rec.try_op("p.dot", "0", &[r, q], || show(x.dot(y)));
    }
}
macro_rules! ints { ($rec:ident, $rng:ident, $n:expr; $($T:ident)*) => {$({
    let (lo, hi) = ($T::MIN as i128, $T::MAX as i128);
    let mut xs: Vec<$T> = vec![$T::MIN, $T::MAX, 0, 1, $T::MIN + 1, $T::MAX - 1, 2, 10, $T::MAX / 2];
    if lo < 0 { xs.extend([(0 as $T).wrapping_sub(1), (0 as $T).wrapping_sub(2), (0 as $T).wrapping_sub(11)]) }
    if hi < 300 { xs.extend((lo..=hi).map(|x| x as $T)) }
    // products close to the limits
    let root = (hi as f64).sqrt() as i128;
    let near = |r: &mut Rng, m: i128| { let x = r.range((m * 3 / 4) as i64, (m * 3 / 2 + 1) as i64) as $T; if lo < 0 && r.chance(1, 2) { (0 as $T).wrapping_sub(x) } else { x } };
    for _ in 0..$n { xs.push($rng.u() as $T); xs.push(near(&mut $rng, root)); xs.push(near(&mut $rng, 40)); }
    let mut ys: Vec<$T> = xs.clone();
    for i in (1..ys.len()).rev() { let j = $rng.below(i + 1); ys.swap(i, j); }
    ys.extend((0..$n).map(|_| near(&mut $rng, root)));
    int(&mut $rec, lo, hi, &|x: $T| big(x as i128), &xs, &ys);
})*} }
macro_rules! floats { ($rec:ident, $rng:ident, $n:expr; $($T:ident $B:ident)*) => {$({
    let show = |x: $T| if x.is_nan() { Raw("[0,\"nan\"]".into()) } else { Raw(format!("[{},\"{:x}\"]", x.is_sign_negative() as u8, x.abs().to_bits())) };
    let mut xs: Vec<$T> = vec![0.0, -0.0, 1.0, -1.0, $T::INFINITY, $T::NEG_INFINITY, $T::NAN, $T::MAX, $T::MIN, $T::MIN_POSITIVE, -$T::MIN_POSITIVE, $T::from_bits(1), $T::EPSILON, -$T::EPSILON, 1.5, -2.5];
    for _ in 0..$n { xs.push($T::from_bits($rng.u() as $B)); xs.push((($rng.unit() - 0.5) * 10.0) as $T); }
    $rec.prog("[\"f\"]");
    for (i, &x) in xs.iter().enumerate() {
        if i % 60 == 59 { $rec.prog("[\"f\"]") }
        let z = || "0".to_string();
        one(&mut $rec, "norm_l1", x, &show, &z, |x| x.norm_l1());
        one(&mut $rec, "norm_l2", x, &show, &z, |x| x.norm_l2());
        one(&mut $rec, "norm_l_inf", x, &show, &z, |x| x.norm_l_inf());
        one(&mut $rec, "conj", x, &show, &z, |x| x.conj());
        one(&mut $rec, "norm_l2_sqr", x, &show, &|| show(x * x).0, |x| x.norm_l2_sqr());
        let y = *$rng.pick(&xs);
        let (r, q) = ($rec.load(&show(x)), $rec.load(&show(y)));
        $rec.try_op("p.dot", &show(x * y).0, &[r, q], || show(x.dot(y)));
        let big = x.abs() > 2.0 * $T::EPSILON || x.is_nan();
        if big { $rec.try_op("p.is_epsilon_as", "false", &[r], || x.is_epsilon()); }
    }
    // around the machine epsilon
    $rec.prog("[\"zf\"]");
    set_exact(8.0 / $T::EPSILON as f64);
    for n in -20..=20 {
        let x = n as $T * $T::EPSILON / 8.0;
        let r = $rec.load(&x);
        $rec.try_op("p.is_epsilon", "0", &[r], || x.is_epsilon());
    }
    for s in [1.0 as $T, -1.0] {
        let (e, n) = (s * $T::EPSILON, "0");
        let up = $T::from_bits(e.to_bits() + 1);
        let down = $T::from_bits(e.to_bits() - 1);
        let r = $rec.load(&n);
        $rec.try_op("p.is_epsilon_as", "false", &[r], || up.is_epsilon());
        $rec.try_op("p.is_epsilon_as", "true", &[r], || down.is_epsilon());
        $rec.try_op("p.is_epsilon_as", "true", &[r], || (s * $T::from_bits(1)).is_epsilon());
        $rec.try_op("p.is_epsilon_as", "true", &[r], || (s * $T::MIN_POSITIVE).is_epsilon());
        $rec.try_op("p.is_epsilon_as", "true", &[r], || (s * 0.0).is_epsilon());
        for x in [$T::INFINITY, $T::NAN, 1.0, 0.001, $T::MAX] { $rec.try_op("p.is_epsilon_as", "false", &[r], || (s * x).is_epsilon()); }
    }
})*} }
fn main() {
    let a = args();
    let mut rec = Rec::new("C19", &a.out);
    let mut rng = Rng::new(a.seed);
    let n = 40 * a.scale;
    ints!(rec, rng, n; u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
    floats!(rec, rng, n; f32 u32 f64 u64);
    rec.finish();
}
