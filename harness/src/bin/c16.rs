//! C16: random samples satisfy what their distribution promises.
use rand_::{distributions::Distribution, Rng as _};
use vecmat::{
    complex::Moebius,
    distr::{Invertible, NonZero, Normal, Uniform, Unit},
    matrix::MatrixDistribution,
    transform::{Affine, Linear, Rotation2, Rotation3, Scale, Shift},
    vector::VectorDistribution,
    Complex, Matrix, Quaternion, Vector,
};
use vharness::*;

fn fx(x: W) -> i64 { (x.0 * 1024.0).round() as i64 }
/// One sampling call on a script; the result says how many draws it took.
macro_rules! draw { ($rec:ident, $name:expr, $k:expr, $script:expr, $r:expr, $e:expr) => {
    $rec.try_op(concat!("d.", $name), $k, &[$r], || { set_script($script); let x = $e; (drawn(), x) });
} }
fn det(m: &[f64], n: usize) -> f64 {
    if n == 0 { return 1.0; }
    (0..n).map(|j| {
        let sub: Vec<f64> = (1..n).flat_map(|i| (0..n).filter(move |&c| c != j).map(move |c| m[i * n + c])).collect();
        let d = m[j] * det(&sub, n - 1);
        if j % 2 == 0 { d } else { -d }
    }).sum()
}
/// Draws for attempts of the given size: some small, some on the edge, and a certain success at the end.
fn script(rng: &mut Rng, size: usize, fail: usize, matrix: usize) -> Vec<f64> {
    let mut s = Vec::new();
    for _ in 0..fail {
        let start = s.len();
        match rng.below(5) {
            0 => s.extend(vec![0.0; size]),
            1 => { let p = rng.below(size); s.extend((0..size).map(|i| if i == p { *rng.pick(&[4.0, -4.0, 5.0, -5.0, 3.0]) } else { 0.0 })) }
            2 => s.extend((0..size).map(|_| rng.range(-1, 1) as f64)),
            3 if matrix > 1 => { let row: Vec<f64> = (0..matrix).map(|_| rng.range(-5, 5) as f64).collect(); for _ in 0..matrix { s.extend(&row) } }
            _ => s.extend((0..size).map(|_| rng.range(-2, 2) as f64)),
        }
        // a determinant exactly on the edge only where it is found without rounding
        if matrix > 2 && det(&s[start..], matrix).abs() == 4.0 { s[start..].fill(0.0); }
    }
    if matrix > 0 { for i in 0..matrix { for j in 0..matrix { s.push(if i == j { 3.0 + 3.0 * (i == 0) as i64 as f64 } else { 0.0 }) } } }
    else { s.extend((0..size).map(|i| if i == 0 { 6.0 } else { rng.range(-9, 9) as f64 })) }
    s.extend((0..size).map(|_| rng.range(-9, 9) as f64));
    s
}
fn scripted<const N: usize>(rec: &mut Rec, rng: &mut Rng) {
    rec.prog("[\"z\",0,0]");
    set_exact(1.0);
    // every component its own draw
    let s: Vec<f64> = (0..N * N + N + 3).map(|i| (i + 1) as f64).collect();
    let r = rec.load(&s);
    let k = &format!("[\"plain\",{}]", N);
    draw!(rec, "normal_vector", k, &s, r, rng.sample::<Vector<W, N>, _>(&Normal));
    draw!(rec, "vector_distribution", k, &s, r, rng.sample::<Vector<W, N>, _>(&VectorDistribution::new(Scripted)));
    draw!(rec, "normal_shift", k, &s, r, rng.sample::<Shift<W, N>, _>(&Normal));
    draw!(rec, "string_vector", k, &s, r, rng.sample::<Vector<String, N>, _>(&VectorDistribution::new(Scripted)).map(|x| x.parse::<i64>().unwrap()));
    let k = &format!("[\"matrix\",{},{}]", N, N);
    draw!(rec, "normal_matrix", k, &s, r, rng.sample::<Matrix<W, N, N>, _>(&Normal));
    draw!(rec, "matrix_distribution", k, &s, r, rng.sample::<Matrix<W, N, N>, _>(&MatrixDistribution::new(Scripted)));
    draw!(rec, "normal_linear", k, &s, r, rng.sample::<Linear<W, N>, _>(&Normal));
    let k = &format!("[\"affine\",{}]", N);
    draw!(rec, "normal_affine", k, &s, r, rng.sample::<Affine<W, N>, _>(&Normal));
    let k = &format!("[\"matrix\",{},2]", N);
    let s2: Vec<f64> = (0..2 * N + 3).map(|i| (i + 1) as f64).collect();
    let r2 = rec.load(&s2);
    draw!(rec, "normal_matrix", k, &s2, r2, rng.sample::<Matrix<W, N, 2>, _>(&Normal));
    draw!(rec, "string_matrix", k, &s2, r2, rng.sample::<Matrix<String, N, 2>, _>(&MatrixDistribution::new(Scripted)).map(|x| x.parse::<i64>().unwrap()));
    // conditions
    for fail in 0..6 {
        let s = script(rng, N, fail, 0);
        let r = rec.load(&s);
        draw!(rec, "nonzero_vector", &format!("[\"nonzero\",{}]", N), &s, r, rng.sample::<Vector<W, N>, _>(&NonZero));
        draw!(rec, "unit_vector", &format!("[\"unit\",{}]", N), &s, r, rng.sample::<Vector<W, N>, _>(&Unit).map(fx));
    }
    for fail in 0..5 {
        let s = script(rng, N * N, fail, N);
        let r = rec.load(&s);
        let k = &format!("[\"invertible\",{}]", N);
        draw!(rec, "invertible_matrix", k, &s, r, rng.sample::<Matrix<W, N, N>, _>(&Invertible));
        draw!(rec, "invertible_linear", k, &s, r, rng.sample::<Linear<W, N>, _>(&Invertible));
        let mut t: Vec<f64> = (0..N).map(|_| rng.range(-9, 9) as f64).collect();
        t.extend(s);
        t.extend((0..N * N).map(|i| if i % (N + 1) == 0 { 7.0 } else { 0.0 }));
        t.extend((0..N).map(|_| rng.range(-9, 9) as f64));
        let r = rec.load(&t);
        draw!(rec, "invertible_affine", &format!("[\"affine_invertible\",{}]", N), &t, r, rng.sample::<Affine<W, N>, _>(&Invertible));
    }
}
fn scripted_numbers(rec: &mut Rec, rng: &mut Rng) {
    rec.prog("[\"z\",0,0]");
    set_exact(1.0);
    let s: Vec<f64> = (0..6).map(|i| (i * i + 1) as f64).collect();
    let r = rec.load(&s);
    draw!(rec, "normal_complex", "[\"plain\",2]", &s, r, rng.sample::<Complex<W>, _>(&Normal));
    draw!(rec, "normal_quaternion", "[\"plain\",4]", &s, r, rng.sample::<Quaternion<W>, _>(&Normal));
    draw!(rec, "normal_scale", "[\"plain\",1]", &s, r, { let x = rng.sample::<Scale<W>, _>(&Normal); [x.into_mag()] });
    for fail in 0..6 {
        let s = script(rng, 2, fail, 0);
        let r = rec.load(&s);
        draw!(rec, "nonzero_complex", "[\"nonzero\",2]", &s, r, rng.sample::<Complex<W>, _>(&NonZero));
        draw!(rec, "unit_complex", "[\"unit\",2]", &s, r, rng.sample::<Complex<W>, _>(&Unit).into_vector().map(fx));
        let s = script(rng, 4, fail, 0);
        let r = rec.load(&s);
        draw!(rec, "nonzero_quaternion", "[\"nonzero\",4]", &s, r, rng.sample::<Quaternion<W>, _>(&NonZero));
        draw!(rec, "unit_quaternion", "[\"unit\",4]", &s, r, rng.sample::<Quaternion<W>, _>(&Unit).into_vector().map(fx));
        let s = script(rng, 4, fail, 2);
        let r = rec.load(&s);
        draw!(rec, "invertible_moebius", "[\"invertible\",2]", &s, r, rng.sample::<Moebius<W>, _>(&Invertible));
    }
}

// ---- statistics of the real generators ----
macro_rules! stats { ($name:ident, $T:ident) => { mod $name {
    use super::*;
    type T = $T;
    const TOL: &str = if std::mem::size_of::<$T>() == 4 { "20" } else { "2" };
    fn norms<const N: usize>(v: &[[T; N]]) -> (i64, i64, usize, usize) {
        let n = |x: &[T; N]| (x.iter().map(|&y| y as f64 * y as f64).sum::<f64>().sqrt() * 1e6).round() as i64;
        (v.iter().map(n).min().unwrap(), v.iter().map(n).max().unwrap(), v.iter().filter(|x| x.iter().all(|y| y.is_finite())).count(), v.len())
    }
    /// Counts of the sign patterns of components, and of the orders of neighbouring ones.
    fn signs<const N: usize>(v: &[[T; N]]) -> Vec<i64> {
        let mut c = vec![0; 1 << N];
        for x in v { c[(0..N).map(|i| ((x[i] > 0.0) as usize) << i).sum::<usize>()] += 1 }
        c
    }
    fn orders<const N: usize>(v: &[[T; N]]) -> Vec<i64> {
        let mut c = vec![0; 2];
        if N < 2 { return vec![v.len() as i64] }
        for x in v { c[(x[0] > x[N - 1]) as usize] += 1 }
        c
    }
    fn short<const N: usize>(v: &[[T; N]]) -> usize {
        v.iter().filter(|x| !(x.iter().map(|&y| y as f64 * y as f64).sum::<f64>().sqrt() > T::EPSILON as f64)).count()
    }
    fn take<V, D: Distribution<V>, const N: usize>(rng: &mut Rng, n: usize, d: D, f: impl Fn(V) -> [T; N]) -> Vec<[T; N]> {
        (0..n).map(|_| f(rng.sample(&d))).collect()
    }
    macro_rules! normal { ($rec:ident, $rng:ident, $n:expr, $V:ty, $f:expr) => {
        $rec.try_op("s.even", $n, &[], || { let v = take::<$V, _, _>($rng, $n.parse().unwrap(), Normal, $f); signs(&v) });
        $rec.try_op("s.even", $n, &[], || { let v = take::<$V, _, _>($rng, $n.parse().unwrap(), Normal, $f); orders(&v) });
    } }
    macro_rules! nonzero { ($rec:ident, $rng:ident, $n:expr, $V:ty, $f:expr) => {
        $rec.try_op("s.even", $n, &[], || { let v = take::<$V, _, _>($rng, $n.parse().unwrap(), NonZero, $f); signs(&v) });
        $rec.try_op("s.none", "0", &[], || { let v = take::<$V, _, _>($rng, $n.parse().unwrap(), NonZero, $f); short(&v) });
        $rec.try_op("s.even", $n, &[], || { let v = take::<$V, _, _>($rng, $n.parse().unwrap(), Unit, $f); signs(&v) });
        $rec.try_op("s.norm", TOL, &[], || { let v = take::<$V, _, _>($rng, $n.parse().unwrap(), Unit, $f); norms(&v) });
    } }
    pub fn run(rec: &mut Rec, rng: &mut Rng) {
        rec.prog("[\"any\"]");
        let n = 100000;
        let draws: Vec<f64> = { let mut d = vec![]; rec.try_op("s.draws", "0", &[], || { d = (0..n).map(|_| rng.sample::<T, _>(&Normal) as f64).collect(); 0 }); d };
        rec.try_op("s.bins", "0", &[], || {
            let mut b = [0i64; 14];
            for x in &draws { b[((x * 2.0).floor() as i64 + 7).clamp(0, 13) as usize] += 1 }
            b
        });
        let m = |p: i32| (draws.iter().map(|x| x.powi(p)).sum::<f64>() / n as f64 * 1000.0).round() as i64;
        rec.try_op("s.moments", "0", &[], || [m(1), m(2), m(3)]);
        // neighbouring draws are not related
        rec.try_op("s.even", "50000", &[], || { let mut c = [0; 4]; for w in draws.chunks(2) { c[(w[0] > 0.0) as usize * 2 + (w[1] > 0.0) as usize] += 1 } c });
        rec.try_op("s.even", "50000", &[], || { let mut c = [0; 2]; for w in draws.chunks(2) { c[(w[0] > w[1]) as usize] += 1 } c });
        // extreme words of the generator
        for (i, &a) in [0, u64::MAX, 1 << 63, (1 << 63) - 1, 1, 1 << 11].iter().enumerate() {
            for &b in &[0, u64::MAX, 1 << 63, 1 << 62] {
                rec.try_op("s.none", "0", &[], || {
                    let mut e = Edges(vec![a, b], 0, Rng::new(i as u64));
                    !(e.sample::<T, _>(&Normal)).is_finite() as usize
                });
                rec.try_op("s.none", "0", &[], || {
                    let mut e = Edges(vec![a, b, a, b, b, a], 0, Rng::new(i as u64));
                    let (u, v) = (e.sample::<Vector<T, 3>, _>(&NonZero), e.sample::<Complex<T>, _>(&Unit));
                    short(&[u.into_array()]) + short(&[v.into_array()])
                });
                rec.try_op("s.norm", TOL, &[], || {
                    let mut e = Edges(vec![a, b, a], 0, Rng::new(i as u64));
                    norms(&[e.sample::<Rotation3<T>, _>(&Uniform).into_quaternion().into_array()])
                });
                rec.try_op("s.norm", TOL, &[], || {
                    let mut e = Edges(vec![a, b, a], 0, Rng::new(i as u64));
                    norms(&[e.sample::<Rotation2<T>, _>(&Uniform).into_complex().into_array()])
                });
            }
        }
        rec.prog("[\"any\"]");
        normal!(rec, rng, "16000", Vector<T, 1>, |v| v.into_array());
        normal!(rec, rng, "16000", Vector<T, 2>, |v| v.into_array());
        normal!(rec, rng, "16000", Vector<T, 3>, |v| v.into_array());
        normal!(rec, rng, "16000", Vector<T, 4>, |v| v.into_array());
        normal!(rec, rng, "16000", Complex<T>, |v| v.into_array());
        normal!(rec, rng, "16000", Quaternion<T>, |v| v.into_array());
        normal!(rec, rng, "16000", Matrix<T, 2, 2>, |v: Matrix<T, 2, 2>| { let v = v.into_array_of_arrays(); [v[0][0], v[0][1], v[1][0], v[1][1]] });
        normal!(rec, rng, "16000", Scale<T>, |v: Scale<T>| [v.into_mag()]);
        normal!(rec, rng, "16000", Shift<T, 2>, |v: Shift<T, 2>| v.into_vector().into_array());
        normal!(rec, rng, "16000", Linear<T, 2>, |v: Linear<T, 2>| { let v = v.into_matrix().into_array_of_arrays(); [v[0][0], v[0][1], v[1][0], v[1][1]] });
        rec.prog("[\"any\"]");
        nonzero!(rec, rng, "16000", Vector<T, 1>, |v| v.into_array());
        nonzero!(rec, rng, "16000", Vector<T, 2>, |v| v.into_array());
        nonzero!(rec, rng, "16000", Vector<T, 3>, |v| v.into_array());
        nonzero!(rec, rng, "16000", Vector<T, 4>, |v| v.into_array());
        nonzero!(rec, rng, "16000", Complex<T>, |v| v.into_array());
        nonzero!(rec, rng, "16000", Quaternion<T>, |v| v.into_array());
        rec.prog("[\"any\"]");
        rec.try_op("s.none", "0", &[], || (0..4000).filter(|_| !(rng.sample::<Matrix<T, 2, 2>, _>(&Invertible).det().abs() > T::EPSILON)).count());
        rec.try_op("s.none", "0", &[], || (0..4000).filter(|_| !(rng.sample::<Linear<T, 3>, _>(&Invertible).into_matrix().det().abs() > T::EPSILON)).count());
        rec.try_op("s.none", "0", &[], || (0..4000).filter(|_| !(rng.sample::<Affine<T, 2>, _>(&Invertible).inner().into_matrix().det().abs() > T::EPSILON)).count());
        rec.try_op("s.none", "0", &[], || (0..4000).filter(|_| !(rng.sample::<Moebius<T>, _>(&Invertible).into_matrix().det().abs() > T::EPSILON)).count());
        // rotations
        rec.prog("[\"any\"]");
        let turn = 2.0 * std::f64::consts::PI;
        let class = |a: f64, n: usize| ((a.rem_euclid(turn) / turn * n as f64) as usize).min(n - 1);
        let r2 = { let mut d = vec![]; rec.try_op("s.draws", "0", &[], || { d = take::<Rotation2<T>, _, _>(rng, 24000, Uniform, |r| r.into_complex().into_array()); 0 }); d };
        if r2.len() > 0 {
            rec.try_op("s.norm", TOL, &[], || norms(&r2));
            rec.try_op("s.even", "24000", &[], || { let mut c = [0; 24]; for v in &r2 { c[class((v[1] as f64).atan2(v[0] as f64), 24)] += 1 } c });
        }
        let r3 = { let mut d = vec![]; rec.try_op("s.draws", "0", &[], || { d = take::<Rotation3<T>, _, _>(rng, 32000, Uniform, |r| r.into_quaternion().into_array()); 0 }); d };
        if r3.len() > 0 {
            rec.try_op("s.norm", TOL, &[], || norms(&r3));
            // half of the angle is between 0 and half a turn
            rec.try_op("s.reached", "0", &[], || { let mut c = [0; 24]; for v in &r3 { c[class(2.0 * (v[0] as f64).clamp(-1.0, 1.0).acos().min(turn / 2.0 - 1e-9), 24)] += 1 } c });
            rec.try_op("s.even", "32000", &[], || { let mut c = vec![0; 8]; for v in &r3 { c[(1..4).map(|i| ((v[i] > 0.0) as usize) << (i - 1)).sum::<usize>()] += 1 } c });
        }
    }
} } }
stats!(s64, f64);
stats!(s32, f32);

fn main() {
    let a = args();
    let mut rec = Rec::new("C16", &a.out);
    let mut rng = Rng::new(a.seed);
    for i in 0..a.scale {
        if i == 0 {
            s64::run(&mut rec, &mut rng);
            s32::run(&mut rec, &mut rng);
        }
        scripted::<1>(&mut rec, &mut rng);
        scripted::<2>(&mut rec, &mut rng);
        scripted::<3>(&mut rec, &mut rng);
        scripted::<4>(&mut rec, &mut rng);
        scripted::<5>(&mut rec, &mut rng);
        scripted_numbers(&mut rec, &mut rng);
    }
    rec.finish();
}
