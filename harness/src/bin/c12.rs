//! C12: transformations compose, invert, have an identity and can be reordered.
use vecmat::{prelude::*, transform::*, Matrix, Vector};
use vharness::{xf::*, *};

fn laws<T: Sc, X: Tr<T, N>, const N: usize>(rec: &mut Rec, r: &mut Rng) {
    let lane = T::lane();
    let k = nk(N, &X::desc());
    let k = k.as_str();
    rec.prog(&lane);
    let (f, g, h, x) = (X::gen(r), X::gen(r), X::gen(r), vec::<T, N>(r));
    let (rf, rg, rh, rx) = (rec.load(&f), rec.load(&g), rec.load(&h), rec.load(&x));
    let fx = rec.op("x.apply", k, &[rf, rx], || f.apply(x));
    // the same maps in other units of length
    let s = T::pow2(r);
    let si = T::one() / s;
    rec.op("x.apply", k, &[rf, rx], || f.rescaled(s).apply(x * s) * si);
    rec.op("x.inv", k, &[rf], || f.rescaled(s).inv().rescaled(si));
    rec.op("x.chain", k, &[rf, rg], || f.rescaled(s).chain(g.rescaled(s)).rescaled(si));
    let e = rec.op("x.ident", k, &[rf], || X::identity());
    if let Some((re, e)) = e {
        rec.op("x.apply", k, &[re, rx], || e.apply(x));
        rec.op("x.chain", k, &[rf, re], || f.chain(e));
        rec.op("x.chain", k, &[re, rf], || e.chain(f));
        rec.op("x.inv", k, &[re], || e.inv());
    }
    if let Some((ri, i)) = rec.op("x.inv", k, &[rf], || f.inv()) {
        if small(&i, &lane) {
            rec.op("x.apply", k, &[ri, rx], || i.apply(x));
            if let Some((ry, y)) = fx {
                if small(&y, &lane) {
                    rec.op("x.apply", k, &[ri, ry], || i.apply(y));
                }
            }
            rec.op("x.chain", k, &[rf, ri], || f.chain(i));
            rec.op("x.chain", k, &[ri, rf], || i.chain(f));
            rec.op("x.inv", k, &[ri], || i.inv());
        }
    }
    if let Some((r1, fg)) = rec.op("x.chain", k, &[rf, rg], || f.chain(g)) {
        if small(&fg, &lane) {
            rec.op("x.apply", k, &[r1, rx], || fg.apply(x));
            rec.op("x.inv", k, &[r1], || fg.inv());
            rec.op("x.chain", k, &[r1, rh], || fg.chain(h));
        }
    }
    if let Some((r1, gh)) = rec.op("x.chain", k, &[rg, rh], || g.chain(h)) {
        if small(&gh, &lane) {
            rec.op("x.chain", k, &[rf, r1], || f.chain(gh));
        }
    }
}
/// A sequence of compositions and inversions; `step` chooses the operands among the results so far.
fn word<T: Sc, X: Tr<T, N>, const N: usize>(rec: &mut Rec, r: &mut Rng, len: usize, step: &mut dyn FnMut(&mut Rng, usize, usize) -> Vec<usize>) {
    let lane = T::lane();
    let k = nk(N, &X::desc());
    let k = k.as_str();
    rec.prog(&lane);
    let x = vec::<T, N>(r);
    let mut v: Vec<(Reg, X)> = (0..2).map(|_| { let t = X::gen(r); (rec.load(&t), t) }).collect();
    let rx = rec.load(&x);
    for s in 0..len {
        let w = step(r, s, v.len());
        let q = if w.len() == 1 {
            let (ra, a) = v[w[0]];
            rec.op("x.inv", k, &[ra], || a.inv())
        } else {
            let ((ra, a), (rb, b)) = (v[w[0]], v[w[1]]);
            rec.op("x.chain", k, &[ra, rb], || a.chain(b))
        };
        match q {
            Some((rq, q)) if small(&q, &lane) => {
                if s + 1 == len {
                    rec.op("x.apply", k, &[rq, rx], || q.apply(x));
                }
                v.push((rq, q))
            }
            _ => return,
        }
    }
}
fn reord<T: Sc, A: Tr<T, N> + Reorder<B, Vector<T, N>>, B: Tr<T, N> + Reorder<A, Vector<T, N>>, const N: usize>(rec: &mut Rec, r: &mut Rng) {
    let lane = T::lane();
    let (ta, tb) = (A::desc(), B::desc());
    let (kab, kba) = (format!("[{},{},{}]", N, ta, tb), format!("[{},{},{}]", N, tb, ta));
    let (a, b, c, d) = (A::gen(r), B::gen(r), A::gen(r), B::gen(r));
    rec.prog(&lane);
    let (ra, rb, rc, rd) = (rec.load(&a), rec.load(&b), rec.load(&c), rec.load(&d));
    rec.op("x.reorder", &kab, &[ra, rb], || a.reorder(b));
    rec.op("x.reorder", &kba, &[rb, ra], || b.reorder(a));
    // the parts of a chain, through every accessor
    type C<A, B, T, const N: usize> = Chain<A, B, Vector<T, N>>;
    let k = nk(N, &C::<A, B, T, N>::desc());
    let ch = C::<A, B, T, N>::new(a, b);
    let rch = rec.load_js(&format!("[{},{}]", a.js(), b.js()));
    rec.op("x.parts", &k, &[rch], || C::<A, B, T, N>::new(a, b));
    rec.op("x.parts", &k, &[rch], || C::<A, B, T, N>::from((a, b)));
    rec.op("x.parts", &k, &[rch], || ch.split());
    rec.op("x.parts", &k, &[rch], || Into::<(A, B)>::into(ch));
    rec.op("x.parts", &k, &[rch], || (*ch.outer(), *ch.inner()));
    rec.op("x.setparts", &k, &[rch, rc, rd], || { let mut x = ch; *x.outer_mut() = c; *x.inner_mut() = d; x });
    rec.op("x.setparts", &k, &[rch, rc, rb], || { let mut x = ch; *x.outer_mut() = c; x.split() });
    rec.op("x.setparts", &k, &[rch, ra, rd], || { let mut x = ch; *x.inner_mut() = d; (*x.outer(), *x.inner()) });
}
fn affine<T: Sc, const N: usize>(rec: &mut Rec, r: &mut Rng) {
    let ch = Affine::<T, N>::gen(r);
    let k = nk(N, &Affine::<T, N>::desc());
    rec.prog(&T::lane());
    let rc = rec.load(&ch);
    rec.op("x.parts", &k, &[rc], || (ch.shift(), ch.linear()));
    rec.op("x.parts", &k, &[rc], || (Shift::from(Vector::from(*ch.outer())), Linear::from(Matrix::from(*ch.inner()))));
    rec.op("x.parts", &k, &[rc], || Affine::new(Vector::from(ch.shift()).into(), Matrix::from(ch.linear()).into()));
}

/// All of a finite set of maps of a finite space: every map on every point, every inverse, every
/// composition (of every `step`-th map with every map).
fn exhaust<const P: u32, const N: usize, X: Transform<Vector<G<P>, N>> + Copy + J>(rec: &mut Rec, desc: &str, maps: &[X], step: usize) {
    let lane = format!("[\"p\",{}]", P);
    let k = nk(N, desc);
    let k = k.as_str();
    for (i, f) in maps.iter().enumerate() {
        let f = *f;
        rec.prog(&lane);
        let rf = rec.load(&f);
        if i == 0 { rec.op("x.ident", k, &[rf], || X::identity()); }
        rec.op("x.inv", k, &[rf], || f.inv());
        for n in 0..P.pow(N as u32) {
            let mut d = n;
            let x = Vector::<G<P>, N>::from_array(std::array::from_fn(|_| { let x = d % P; d /= P; G(x) }));
            let rx = rec.load(&x);
            rec.op("x.apply", k, &[rf, rx], || f.apply(x));
            rec.op("x.apply", k, &[rf, rx], || f.deriv(x, x) + (f.apply(x) - f.deriv(x, x)));
        }
        if i % step != 0 { continue; }
        rec.prog(&lane);
        let rf = rec.load(&f);
        for g in maps {
            let g = *g;
            let rg = rec.load(&g);
            rec.op("x.chain", k, &[rf, rg], || f.chain(g));
        }
    }
}
fn finite(rec: &mut Rec) {
    fn nums<const P: u32>() -> Vec<G<P>> { (0..P).map(G).collect() }
    fn tuples<const P: u32, const K: usize>() -> Vec<[G<P>; K]> {
        (0..P.pow(K as u32)).map(|n| { let mut d = n; std::array::from_fn(|_| { let x = d % P; d /= P; G(x) }) }).collect()
    }
    let sh: Vec<_> = tuples::<5, 2>().into_iter().map(|v| Shift::from_vector(Vector::from_array(v))).collect();
    exhaust::<5, 2, _>(rec, "[\"sh\"]", &sh, 1);
    let sc: Vec<Scale<G<7>>> = nums::<7>()[1..].iter().map(|v| Scale::from_mag(*v)).collect();
    exhaust::<7, 1, _>(rec, "[\"sc\"]", &sc, 1);
    exhaust::<7, 2, _>(rec, "[\"sc\"]", &sc, 1);
    let gl: Vec<Linear<G<3>, 2>> = tuples::<3, 4>().into_iter().filter(|v| v[0] * v[3] != v[1] * v[2])
        .map(|v| Linear::from_matrix(Matrix::from_array_of_arrays([[v[0], v[1]], [v[2], v[3]]]))).collect();
    exhaust::<3, 2, _>(rec, "[\"li\"]", &gl, 1);
    let so: Vec<Rotation2<G<7>>> = tuples::<7, 2>().into_iter().filter(|v| v[0] * v[0] + v[1] * v[1] == G(1))
        .map(|v| Rotation2::from_complex(vecmat::Complex::new(v[0], v[1]))).collect();
    exhaust::<7, 2, _>(rec, "[\"r2\"]", &so, 1);
    let q: Vec<Rotation3<G<3>>> = tuples::<3, 4>().into_iter().filter(|v| v.iter().fold(G(0), |a, x| a + *x * *x) == G(1))
        .map(|v| Rotation3::from_quaternion(vecmat::Quaternion::new(v[0], v[1], v[2], v[3]))).collect();
    exhaust::<3, 3, _>(rec, "[\"r3\"]", &q, 1);
    let a1: Vec<Affine<G<5>, 1>> = tuples::<5, 2>().into_iter().filter(|v| v[1] != G(0))
        .map(|v| Affine::new(Vector::from_array([v[0]]).into(), Matrix::from_array_of_arrays([[v[1]]]).into())).collect();
    exhaust::<5, 1, _>(rec, "[\"ch\",[\"sh\"],[\"li\"]]", &a1, 1);
    let a2: Vec<Affine<G<3>, 2>> = tuples::<3, 2>().into_iter().flat_map(|t| gl.iter().map(move |g| Affine::new(Vector::from_array(t).into(), *g))).collect();
    exhaust::<3, 2, _>(rec, "[\"ch\",[\"sh\"],[\"li\"]]", &a2, 40);
}

fn main() {
    let a = args();
    let mut rec = Rec::new("C12", &a.out);
    let mut r = Rng::new(a.seed);
    set_scale(FX);
    let scen: Vec<Vec<Vec<usize>>> = std::fs::read_to_string(a.scen.as_ref().expect("scenarios")).unwrap().lines().filter(|l| !l.is_empty())
        .map(|l| l.trim_matches(|c| c == '[' || c == ']').split("],[").map(|s| s.split(',').map(|n| n.parse::<usize>().unwrap() - 1).collect()).collect()).collect();
    let mut free = |r: &mut Rng, _: usize, n: usize| if r.chance(1, 3) { vec![n - 1 - r.below(2)] } else if r.chance(1, 2) { vec![n - 1, r.below(n)] } else { vec![r.below(n), n - 1] };
    for round in 0..a.scale {
        macro_rules! one { ($T:ty, $N:literal, $X:ty) => {
            laws::<$T, $X, $N>(&mut rec, &mut r);
            word::<$T, $X, $N>(&mut rec, &mut r, 10, &mut free);
        } }
        macro_rules! re { ($T:ty; $($N:literal $A:ty, $B:ty;)*) => {$( reord::<$T, $A, $B, $N>(&mut rec, &mut r); reord::<$T, $B, $A, $N>(&mut rec, &mut r); )*} }
        macro_rules! all { ($T:ty) => {
            xforms!($T; one);
            re! { $T; 1 Shift<$T, 1>, Linear<$T, 1>; 2 Shift<$T, 2>, Linear<$T, 2>; 3 Shift<$T, 3>, Linear<$T, 3>; 4 Shift<$T, 4>, Linear<$T, 4>;
                  1 Shift<$T, 1>, Scale<$T>; 2 Shift<$T, 2>, Scale<$T>; 3 Shift<$T, 3>, Scale<$T>; 4 Shift<$T, 4>, Scale<$T>;
                  2 Shift<$T, 2>, Rotation2<$T>; 3 Shift<$T, 3>, Rotation3<$T>; }
            affine::<$T, 1>(&mut rec, &mut r); affine::<$T, 2>(&mut rec, &mut r); affine::<$T, 3>(&mut rec, &mut r); affine::<$T, 4>(&mut rec, &mut r);
        } }
        all!(GB);
        all!(GB);
        nonlinear!(group(&mut rec, &mut r));
        nonlinear!(group(&mut rec, &mut r));
        all!(f64);
        if round % 2 == 0 { all!(f32); }
    }
    // every history the specification generates, over the exact field
    let mut ty = 0;
    macro_rules! hist { ($T:ty, $N:literal, $X:ty) => {
        ty += 1;
        for (i, s) in scen.iter().enumerate() {
            // each type replays its share; all types together replay every history several times
            if (i + ty) % 6 == 0 {
                word::<$T, $X, $N>(&mut rec, &mut r, s.len(), &mut |_, j, _| s[j].clone());
            }
        }
    } }
    xforms!(GB; hist);
    finite(&mut rec);
    rec.finish();
}
