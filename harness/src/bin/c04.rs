//! C04: views, accessors and conversions all denote the same elements.
//! Objects are written through one view after the other; after every write all the others are read.
use num_complex::Complex as NumComplex;
use vecmat::{
    complex::Moebius,
    transform::{Chain, Linear, Rotation2, Rotation3, Scale, Shift},
    Complex, Matrix, Quaternion, Vector,
};
use vharness::*;

fn k(what: &str, rank: usize, i: usize, j: usize) -> String { format!("[\"{}\",{},{},{}]", what, rank, i.min(1000), j.min(1000)) }
macro_rules! reads { ($rec:ident, $k:expr, $r:expr; $($name:literal => $e:expr;)*) => {$(
    $rec.try_op(concat!("v.", $name), $k, &[$r], || $e);
)*} }
/// One write of `x` at a position through a view chosen by number.
macro_rules! write_by { ($rec:ident, $rng:ident, $k:expr, $r:expr, $rx:expr; $($name:literal => $e:expr;)*) => { {
    let names = [$($name),*];
    let pick = *$rng.pick(&names);
    $(if pick == $name { $rec.try_op(concat!("w.", $name), $k, &[$r, $rx], || { $e; }); })*
} } }
const BAD: [usize; 5] = [0, 1, 7, 1 << 40, usize::MAX];

pub fn vector<T: El, const N: usize>(rec: &mut Rec, rng: &mut Rng, len: usize) {
    rec.prog("[\"any\"]");
    let a: [T; N] = std::array::from_fn(|_| T::mk(rng.range(0, 999)));
    let r = rec.load(&a);
    let all = &k("all", 1, 0, 0);
    let mut v = Vector::from_array(a.clone());
    reads!(rec, all, r; "from" => Vector::<T, N>::from(a.clone()); "from_array" => Vector::<T, N>::from_array(a.clone()););
    for step in 0..len {
        reads! { rec, all, r;
            "as_array" => v.as_array().clone();
            "into_array" => v.clone().into_array();
            "clone" => v.clone();
            "array_from" => <[T; N]>::from(v.clone());
            "array_ref_from" => <&[T; N]>::from(&v).clone();
            "as_ref" => AsRef::<[T; N]>::as_ref(&v).clone();
            "iter" => v.iter().cloned().collect::<Vec<_>>();
            "into_iter" => v.clone().into_iter().collect::<Vec<_>>();
            "ref_into_iter" => (&v).into_iter().cloned().collect::<Vec<_>>();
            "as_ptr" => (0..N).map(|i| unsafe { (*v.as_ptr().add(i)).clone() }).collect::<Vec<_>>();
            "get_unchecked" => (0..N).map(|i| unsafe { v.get_unchecked(i).clone() }).collect::<Vec<_>>();
        }
        for i in (0..N).chain(BAD.map(|b| N.saturating_add(b))) {
            let kk = &k("at", 1, i, 0);
            reads!(rec, kk, r; "index" => v[i].clone(););
            if i >= N {
                let x = T::mk(1);
                let rx = rec.load(&x);
                rec.try_op("w.index_mut", &k("set", 1, i, 0), &[r, rx], || { v[i] = x.clone(); });
            }
        }
        if step + 1 == len || N == 0 { break }
        let i = rng.below(N);
        let x = T::mk(rng.range(0, 999));
        let rx = rec.load(&x);
        let kk = &k("set", 1, i, 0);
        write_by! { rec, rng, kk, r, rx;
            "index_mut" => v[i] = x.clone();
            "as_mut_array" => v.as_mut_array()[i] = x.clone();
            "as_mut" => AsMut::<[T; N]>::as_mut(&mut v)[i] = x.clone();
            "mut_array_from" => <&mut [T; N]>::from(&mut v)[i] = x.clone();
            "iter_mut" => *v.iter_mut().nth(i).unwrap() = x.clone();
            "mut_into_iter" => for (j, y) in (&mut v).into_iter().enumerate() { if i == j { *y = x.clone() } };
            "as_mut_ptr" => unsafe { *v.as_mut_ptr().add(i) = x.clone() };
            "get_unchecked_mut" => unsafe { *v.get_unchecked_mut(i) = x.clone() };
        }
        let w = Vector::from_array(v.as_array().clone());
        let rw = rec.load(w.as_array());
        rec.try_op("v.eq", &k("eq", 1, 0, 0), &[r, rw], || v == w);
        rec.try_op("v.ne", &k("ne", 1, 0, 0), &[r, rw], || v != w);
        let mut w = w;
        w.as_mut_array()[rng.below(N)] = T::mk(rng.range(0, 999));
        let rw = rec.load(w.as_array());
        rec.try_op("v.eq", &k("eq", 1, 0, 0), &[r, rw], || v == w);
        rec.try_op("v.ne", &k("ne", 1, 0, 0), &[rw, r], || w != v);
    }
}
macro_rules! named { ($name:ident, $N:literal, $tup:ty, [$($c:ident $cr:ident $cm:ident $i:literal),*]) => {
    pub fn $name(rec: &mut Rec, rng: &mut Rng, len: usize) {
        rec.prog("[\"any\"]");
        let mut next = 0;
        let mut num = |rng: &mut Rng| { next += 1000; next + rng.range(0, 999) };
        let a: [i64; $N] = std::array::from_fn(|_| num(rng));
        let r = rec.load(&a);
        let all = &k("all", 1, 0, 0);
        let [$($c),*] = a;
        let mut v = Vector::<i64, $N>::from_array(a);
        reads! { rec, all, r;
            "from_tuple" => Vector::<i64, $N>::from_tuple(($($c),*));
            "from" => Vector::<i64, $N>::from(($($c),*));
            "from_ref" => Vector::<i64, $N>::from(&a);
        }
        for _ in 0..len {
            reads! { rec, all, r;
                "into_tuple" => { let ($($c),*) = v.into_tuple(); [$($c),*] };
                "tuple_from" => { let ($($c),*) = <$tup>::from(v); [$($c),*] };
                "xyzw" => [$(v.$c()),*];
                "xyzw_ref" => [$(*v.$cr()),*];
                "xyzw_mut" => { let mut w = v; [$(*w.$cm()),*] };
            }
            $(reads!(rec, &k("at", 1, $i, 0), r; "component" => v.$c(); "component_ref" => *v.$cr(););)*
            let i = rng.below($N);
            let x = num(rng);
            let rx = rec.load(&x);
            rec.try_op("w.component_mut", &k("set", 1, i, 0), &[r, rx], || { match i { $($i => *v.$cm() = x,)* _ => unreachable!() } });
            rec.try_op("v.index", all, &[r], || { let mut b = [0; $N]; for i in 0..$N { b[i] = v[i] } b });
        }
    }
} }
named!(named2, 2, (i64, i64), [x x_ref x_mut 0, y y_ref y_mut 1]);
named!(named3, 3, (i64, i64, i64), [x x_ref x_mut 0, y y_ref y_mut 1, z z_ref z_mut 2]);
named!(named4, 4, (i64, i64, i64, i64), [x x_ref x_mut 0, y y_ref y_mut 1, z z_ref z_mut 2, w w_ref w_mut 3]);

pub fn matrix<T: El, const M: usize, const N: usize>(rec: &mut Rec, rng: &mut Rng, len: usize) {
    rec.prog("[\"any\"]");
    let a: [[T; N]; M] = std::array::from_fn(|_| std::array::from_fn(|_| T::mk(rng.range(0, 999))));
    let r = rec.load(&a);
    let all = &k("all", 2, 0, 0);
    let flat = &k("flat", 2, 0, 0);
    let rows = || -> [Vector<T, N>; M] { std::array::from_fn(|i| Vector::from_array(a[i].clone())) };
    let mut m = Matrix::from_array_of_arrays(a.clone());
    let list: Vec<T> = a.iter().flatten().cloned().collect();
    reads! { rec, all, r;
        "from" => Matrix::<T, M, N>::from(a.clone());
        "from_rows" => Matrix::<T, M, N>::from(rows());
        "from_vec_vec" => Matrix::<T, M, N>::from(Vector::from_array(rows()));
        "from_array_of_arrays" => Matrix::<T, M, N>::from_array_of_arrays(a.clone());
        "from_array_of_vectors" => Matrix::<T, M, N>::from_array_of_vectors(rows());
        "from_vector_of_vectors" => Matrix::<T, M, N>::from_vector_of_vectors(Vector::from_array(rows()));
    }
    let rl = rec.load(&list);
    rec.try_op("v.try_from_iter", &k("unflat", 2, M, N), &[rl], || Matrix::<T, M, N>::try_from_iter(list.clone().into_iter()).unwrap());
    for step in 0..len {
        reads! { rec, all, r;
            "as_vector_of_vectors" => m.as_vector_of_vectors().clone();
            "as_array_of_vectors" => m.as_array_of_vectors().clone();
            "as_array_of_arrays" => m.as_array_of_arrays().clone();
            "into_vector_of_vectors" => m.clone().into_vector_of_vectors();
            "into_array_of_vectors" => m.clone().into_array_of_vectors();
            "into_array_of_arrays" => m.clone().into_array_of_arrays();
            "clone" => m.clone();
            "vec_vec_from" => Vector::<Vector<T, N>, M>::from(m.clone());
            "array_vec_from" => <[Vector<T, N>; M]>::from(m.clone());
            "array_array_from" => <[[T; N]; M]>::from(m.clone());
            "vec_vec_ref_from" => <&Vector<Vector<T, N>, M>>::from(&m).clone();
            "array_array_ref_from" => <&[[T; N]; M]>::from(&m).clone();
            "as_ref" => AsRef::<Vector<Vector<T, N>, M>>::as_ref(&m).clone();
            "rows_ref" => (0..M).map(|i| m.row_ref(i).clone()).collect::<Vec<_>>();
            "as_ptr" => (0..M).map(|i| (0..N).map(|j| unsafe { (*m.as_ptr().add(i * N + j)).clone() }).collect()).collect::<Vec<Vec<T>>>();
            "get_unchecked" => (0..M).map(|i| (0..N).map(|j| unsafe { m.get_unchecked(i, j).clone() }).collect()).collect::<Vec<Vec<T>>>();
            "as_mut_array_of_arrays" => m.as_mut_array_of_arrays().clone();
        }
        reads! { rec, flat, r;
            "iter" => m.iter().cloned().collect::<Vec<_>>();
            "into_iter" => m.clone().into_iter().collect::<Vec<_>>();
            "ref_into_iter" => (&m).into_iter().cloned().collect::<Vec<_>>();
            "iter_mut" => m.iter_mut().map(|x| x.clone()).collect::<Vec<_>>();
        }
        rec.try_op("v.transpose", &k("tr", 2, M, N), &[r], || m.clone().transpose());
        rec.try_op("v.transpose_twice", all, &[r], || m.clone().transpose().transpose());
        for i in (0..M).chain(BAD.map(|b| M.saturating_add(b))) {
            for j in (0..N).chain(BAD.map(|b| N.saturating_add(b))) {
                reads!(rec, &k("at", 2, i, j), r; "index" => m[(i, j)].clone(););
                if i >= M || j >= N {
                    let x = T::mk(1);
                    let rx = rec.load(&x);
                    rec.try_op("w.index_mut", &k("set", 2, i, j), &[r, rx], || { m[(i, j)] = x.clone(); });
                }
            }
            reads!(rec, &k("row", 2, i, 0), r; "row_ref" => m.row_ref(i).clone(); "row_mut" => m.row_mut(i).clone(););
        }
        if step + 1 == len || N * M == 0 { break }
        let (i, j) = (rng.below(M), rng.below(N));
        if rng.chance(1, 5) {
            let x: [T; N] = std::array::from_fn(|_| T::mk(rng.range(0, 999)));
            let rx = rec.load(&x);
            let kk = &k("setrow", 2, i, 0);
            let x = || Vector::from_array(x.clone());
            write_by! { rec, rng, kk, r, rx;
                "row_mut" => *m.row_mut(i) = x();
                "rows_of_arrays" => m.as_mut_array_of_arrays()[i] = x().into_array();
                "rows_of_vectors" => m.as_mut_array_of_vectors()[i] = x();
                "rows_of_vec_vec" => m.as_mut_vector_of_vectors()[i] = x();
            }
        } else {
            let x = T::mk(rng.range(0, 999));
            let rx = rec.load(&x);
            let kk = &k("set", 2, i, j);
            write_by! { rec, rng, kk, r, rx;
                "index_mut" => m[(i, j)] = x.clone();
                "row_mut_index" => m.row_mut(i)[j] = x.clone();
                "as_mut_array_of_arrays" => m.as_mut_array_of_arrays()[i][j] = x.clone();
                "as_mut_array_of_vectors" => m.as_mut_array_of_vectors()[i][j] = x.clone();
                "as_mut_vector_of_vectors" => m.as_mut_vector_of_vectors()[i][j] = x.clone();
                "as_mut" => AsMut::<Vector<Vector<T, N>, M>>::as_mut(&mut m)[i][j] = x.clone();
                "mut_vec_vec_from" => <&mut Vector<Vector<T, N>, M>>::from(&mut m)[i][j] = x.clone();
                "mut_array_array_from" => <&mut [[T; N]; M]>::from(&mut m)[i][j] = x.clone();
                "iter_mut" => *m.iter_mut().nth(i * N + j).unwrap() = x.clone();
                "mut_into_iter" => for (q, y) in (&mut m).into_iter().enumerate() { if q == i * N + j { *y = x.clone() } };
                "as_mut_ptr" => unsafe { *m.as_mut_ptr().add(i * N + j) = x.clone() };
                "get_unchecked_mut" => unsafe { *m.get_unchecked_mut(i, j) = x.clone() };
            }
        }
        let w = Matrix::from_array_of_arrays(m.as_array_of_arrays().clone());
        let rw = rec.load(w.as_array_of_arrays());
        rec.try_op("v.eq", &k("eq", 2, 0, 0), &[r, rw], || m == w);
        let mut w = w;
        w.as_mut_array_of_arrays()[rng.below(M)][rng.below(N)] = T::mk(rng.range(0, 999));
        let rw = rec.load(w.as_array_of_arrays());
        rec.try_op("v.eq", &k("eq", 2, 0, 0), &[r, rw], || m == w);
        rec.try_op("v.ne", &k("ne", 2, 0, 0), &[r, rw], || m != w);
    }
}
/// What needs elements that can be copied.
pub fn matrix_copy<const M: usize, const N: usize>(rec: &mut Rec, rng: &mut Rng) {
    rec.prog("[\"any\"]");
    let a: [[i64; N]; M] = std::array::from_fn(|_| std::array::from_fn(|_| rng.range(0, 9999)));
    let r = rec.load(&a);
    let rows: [Vector<i64, N>; M] = std::array::from_fn(|i| Vector::from_array(a[i]));
    let m = Matrix::from_array_of_arrays(a);
    let all = &k("all", 2, 0, 0);
    reads! { rec, all, r;
        "from_ref" => Matrix::<i64, M, N>::from(&a);
        "from_rows_ref" => Matrix::<i64, M, N>::from(&rows);
        "from_vec_vec_ref" => Matrix::<i64, M, N>::from(&Vector::from_array(rows));
        "copy" => { let b = m; b };
    }
    for i in (0..M).chain(BAD.map(|b| M.saturating_add(b))) { reads!(rec, &k("row", 2, i, 0), r; "row" => m.row(i);); }
    for i in (0..N).chain(BAD.map(|b| N.saturating_add(b))) { reads!(rec, &k("col", 2, i, 0), r; "col" => m.col(i);); }
}
fn complex(rec: &mut Rec, rng: &mut Rng, len: usize) {
    rec.prog("[\"any\"]");
    let a = [rng.range(0, 99), rng.range(100, 199)];
    let r = rec.load(&a);
    let all = &k("all", 1, 0, 0);
    let mut c = Complex::new(a[0], a[1]);
    reads! { rec, all, r;
        "new" => Complex::new(a[0], a[1]);
        "from_vector" => Complex::from_vector(Vector::from_array(a));
        "from_array" => Complex::from_array(a);
        "from_tuple" => Complex::from_tuple((a[0], a[1]));
        "from_num" => Complex::from_num(NumComplex { re: a[0], im: a[1] });
        "from" => Complex::from(a);
        "vec_into" => Complex::from(Vector::from_array(a));
        "tuple_into" => Complex::from((a[0], a[1]));
        "num_into" => Complex::from(NumComplex { re: a[0], im: a[1] });
        "default" => { let z = Complex::<i64>::default(); [a[0] + z.re(), a[1] + z.im()] };
    }
    for _ in 0..len {
        reads! { rec, all, r;
            "into_vector" => c.into_vector();
            "into_array" => c.into_array();
            "into_tuple" => { let t = c.into_tuple(); [t.0, t.1] };
            "into_num" => { let t = c.into_num(); [t.re, t.im] };
            "vector_from" => Vector::<i64, 2>::from(c);
            "array_from" => <[i64; 2]>::from(c);
            "tuple_from" => { let t = <(i64, i64)>::from(c); [t.0, t.1] };
            "num_from" => { let t = NumComplex::<i64>::from(c); [t.re, t.im] };
            "re_im" => [c.re(), c.im()];
            "re_im_ref" => [*c.re_ref(), *c.im_ref()];
            "re_im_mut" => { let mut d = c; [*d.re_mut(), *d.im_mut()] };
            "rotation" => Rotation2::from_complex(c).into_complex();
        }
        let i = rng.below(2);
        let x = rng.range(0, 999);
        let rx = rec.load(&x);
        rec.try_op("w.re_im_mut", &k("set", 1, i, 0), &[r, rx], || { if i == 0 { *c.re_mut() = x } else { *c.im_mut() = x } });
        let d = Complex::new(if rng.chance(1, 2) { c.re() } else { 5000 }, if rng.chance(1, 2) { c.im() } else { 6000 });
        let rd = rec.load(&[*d.re_ref(), *d.im_ref()]);
        rec.try_op("v.eq", &k("eq", 1, 0, 0), &[r, rd], || c == d);
    }
}
fn quaternion(rec: &mut Rec, rng: &mut Rng, len: usize) {
    rec.prog("[\"any\"]");
    let a = [rng.range(0, 99), rng.range(100, 199), rng.range(200, 299), rng.range(300, 399)];
    let [w, x, y, z] = a;
    let r = rec.load(&a);
    let all = &k("all", 1, 0, 0);
    let mut q = Quaternion::new(w, x, y, z);
    let v3 = Vector::<i64, 3>::from_array([x, y, z]);
    reads! { rec, all, r;
        "new" => Quaternion::new(w, x, y, z);
        "from_vector" => Quaternion::from_vector(Vector::from_array(a));
        "from_array" => Quaternion::from_array(a);
        "from_tuple" => Quaternion::from_tuple((w, x, y, z));
        "from_scalar_and_vector3" => Quaternion::from_scalar_and_vector3(w, v3);
        "from" => Quaternion::from(a);
        "vec_into" => Quaternion::from(Vector::from_array(a));
        "tuple_into" => Quaternion::from((w, x, y, z));
        "scalar_vec_into" => Quaternion::from((w, v3));
    }
    for _ in 0..len {
        reads! { rec, all, r;
            "into_vector" => q.into_vector();
            "into_array" => q.into_array();
            "into_tuple" => { let t = q.into_tuple(); [t.0, t.1, t.2, t.3] };
            "vector_from" => Vector::<i64, 4>::from(q);
            "array_from" => <[i64; 4]>::from(q);
            "tuple_from" => { let t = <(i64, i64, i64, i64)>::from(q); [t.0, t.1, t.2, t.3] };
            "wxyz" => [q.w(), q.x(), q.y(), q.z()];
            "wxyz_ref" => [*q.w_ref(), *q.x_ref(), *q.y_ref(), *q.z_ref()];
            "wxyz_mut" => { let mut d = q; [*d.w_mut(), *d.x_mut(), *d.y_mut(), *d.z_mut()] };
            "rotation" => Rotation3::from_quaternion(q).into_quaternion();
        }
        reads! { rec, &k("split", 1, 0, 0), r;
            "into_scalar_and_vector3" => q.into_scalar_and_vector3();
            "scalar_vec_from" => <(i64, Vector<i64, 3>)>::from(q);
        }
        reads!(rec, &k("tail", 1, 0, 0), r; "xyz" => q.xyz(););
        let i = rng.below(4);
        let x = rng.range(0, 999);
        let rx = rec.load(&x);
        rec.try_op("w.wxyz_mut", &k("set", 1, i, 0), &[r, rx], || match i { 0 => *q.w_mut() = x, 1 => *q.x_mut() = x, 2 => *q.y_mut() = x, _ => *q.z_mut() = x });
        let mut b = [*q.w_ref(), *q.x_ref(), *q.y_ref(), *q.z_ref()];
        if rng.chance(1, 2) { b[rng.below(4)] += 1 }
        let rd = rec.load(&b);
        rec.try_op("v.eq", &k("eq", 1, 0, 0), &[r, rd], || q == Quaternion::from_array(b));
    }
}
fn moebius(rec: &mut Rec, rng: &mut Rng, len: usize) {
    rec.prog("[\"any\"]");
    let g = [[rng.range(0, 99), rng.range(100, 199)], [rng.range(200, 299), rng.range(300, 399)]];
    let [[a, b], [c, d]] = g;
    let r = rec.load(&g);
    let all = &k("all", 2, 0, 0);
    let flat = &k("flat", 2, 0, 0);
    let mat = || Matrix::<i64, 2, 2>::from_array_of_arrays(g);
    let mut m = Moebius::new(a, b, c, d);
    reads! { rec, all, r;
        "new" => Moebius::new(a, b, c, d);
        "from_matrix" => Moebius::from_matrix(mat());
        "from_array" => Moebius::from_array(g);
        "from_tuple" => Moebius::from_tuple((a, b, c, d));
        "from" => Moebius::from(g);
        "matrix_into" => Moebius::from(mat());
    }
    for _ in 0..len {
        reads! { rec, all, r;
            "into_matrix" => m.into_matrix();
            "as_matrix" => *m.as_matrix();
            "into_array" => m.into_array();
            "as_array_of_arrays" => *m.as_array_of_arrays();
            "matrix_from" => Matrix::<i64, 2, 2>::from(m);
            "matrix_ref_from" => *<&Matrix<i64, 2, 2>>::from(&m);
            "array_from" => <[[i64; 2]; 2]>::from(m);
            "array_ref_from" => *<&[[i64; 2]; 2]>::from(&m);
            "abcd" => [[m.a(), m.b()], [m.c(), m.d()]];
            "abcd_ref" => [[*m.a_ref(), *m.b_ref()], [*m.c_ref(), *m.d_ref()]];
        }
        reads! { rec, flat, r;
            "into_tuple" => { let t = m.into_tuple(); [t.0, t.1, t.2, t.3] };
        }
        let (i, j) = (rng.below(2), rng.below(2));
        let x = rng.range(0, 999);
        let rx = rec.load(&x);
        let kk = &k("set", 2, i, j);
        write_by! { rec, rng, kk, r, rx;
            "abcd_mut" => match (i, j) { (0, 0) => *m.a_mut() = x, (0, 1) => *m.b_mut() = x, (1, 0) => *m.c_mut() = x, _ => *m.d_mut() = x };
            "as_mut_matrix" => m.as_mut_matrix()[(i, j)] = x;
            "as_mut_array_of_arrays" => m.as_mut_array_of_arrays()[i][j] = x;
            "mut_matrix_from" => <&mut Matrix<i64, 2, 2>>::from(&mut m)[(i, j)] = x;
            "mut_array_from" => <&mut [[i64; 2]; 2]>::from(&mut m)[i][j] = x;
        }
        let mut b = [[*m.a_ref(), *m.b_ref()], [*m.c_ref(), *m.d_ref()]];
        if rng.chance(1, 2) { b[rng.below(2)][rng.below(2)] += 1 }
        let rd = rec.load(&b);
        rec.try_op("v.eq", &k("eq", 1, 0, 0), &[r, rd], || m == Moebius::from_array(b));
    }
}
/// Transformations hold what they were made from.
pub fn transforms<const N: usize>(rec: &mut Rec, rng: &mut Rng) {
    rec.prog("[\"any\"]");
    let v: [i64; N] = std::array::from_fn(|_| rng.range(0, 999));
    let g: [[i64; N]; N] = std::array::from_fn(|_| std::array::from_fn(|_| rng.range(0, 999)));
    let (rv, rg) = (rec.load(&v), rec.load(&g));
    let rs = rec.load(&v[..1].to_vec());
    let all = &k("all", 1, 0, 0);
    let vec = Vector::<i64, N>::from_array(v);
    let mat = Matrix::<i64, N, N>::from_array_of_arrays(g);
    reads!(rec, all, rv; "shift" => Shift::from_vector(vec).into_vector(); "shift_into" => Vector::<i64, N>::from(Shift::from(vec)););
    reads!(rec, all, rg; "linear" => Linear::from_matrix(mat).into_matrix(); "linear_into" => Matrix::<i64, N, N>::from(Linear::from(mat)););
    let mut w = v;
    w[rng.below(N)] += rng.range(0, 1);
    let rw = rec.load(&w);
    rec.try_op("v.shift_eq", &k("eq", 1, 0, 0), &[rv, rw], || Shift::from_vector(vec) == Shift::from_vector(Vector::from_array(w)));
    let mut h = g;
    h[rng.below(N)][rng.below(N)] += rng.range(0, 1);
    let rh = rec.load(&h);
    rec.try_op("v.linear_eq", &k("eq", 1, 0, 0), &[rg, rh], || Linear::from_matrix(mat) == Linear::from_matrix(Matrix::from_array_of_arrays(h)));
    // A chain is the pair of its parts.
    type Ch<const N: usize> = Chain<Shift<i64, N>, Linear<i64, N>, Vector<i64, N>>;
    let (a, b) = (Shift::from_vector(vec), Linear::from_matrix(mat));
    let parts = |c: &Ch<N>| (c.outer().into_vector(), c.inner().into_matrix());
    let both = |c: (Shift<i64, N>, Linear<i64, N>)| (c.0.into_vector(), c.1.into_matrix());
    rec.prog("[\"any\"]");
    let rc = rec.load(&(vec, mat));
    let mut c = Ch::<N>::new(a, b);
    reads! { rec, all, rc;
        "chain_new" => both(Ch::<N>::new(a, b).split());
        "chain_parts" => parts(&Ch::<N>::new(a, b));
        "chain_from" => parts(&Ch::<N>::from((a, b)));
        "chain_into" => both(<(Shift<i64, N>, Linear<i64, N>)>::from(c));
    }
    let (rw, rh) = (rec.load(&w), rec.load(&h));
    rec.try_op("w.chain_outer", &k("set", 1, 0, 0), &[rc, rw], || *c.outer_mut() = Shift::from(Vector::from_array(w)));
    reads!(rec, all, rc; "chain_parts" => parts(&c); "chain_split" => both(c.split()););
    rec.try_op("w.chain_inner", &k("set", 1, 1, 0), &[rc, rh], || *c.inner_mut() = Linear::from(Matrix::from_array_of_arrays(h)));
    reads!(rec, all, rc; "chain_parts" => parts(&c); "chain_split" => both(c.split()););
    let rd = rec.load(&(vec, mat));
    rec.try_op("v.chain_eq", &k("eq", 1, 0, 0), &[rc, rd], || c == Ch::<N>::new(a, b));
    let rs = rec.load(&v[..1].to_vec());
    reads!(rec, all, rs; "scale" => [Scale::from_mag(v[0]).into_mag()]; "scale_from" => [Scale::from(v[0]).into_mag()];);
}
fn main() {
    let a = args();
    let mut rec = Rec::new("C04", &a.out);
    let mut rng = Rng::new(a.seed);
    vector::<i64, 70>(&mut rec, &mut rng, 6); vector::<String, 260>(&mut rec, &mut rng, 6); vector::<u8, 260>(&mut rec, &mut rng, 6);
    matrix::<i64, 17, 16>(&mut rec, &mut rng, 5); matrix::<String, 3, 90>(&mut rec, &mut rng, 5); matrix::<(u8, u32), 90, 3>(&mut rec, &mut rng, 5);
    matrix_copy::<3, 90>(&mut rec, &mut rng); matrix_copy::<90, 3>(&mut rec, &mut rng); matrix_copy::<16, 17>(&mut rec, &mut rng);
    for i in 0..a.scale {
        let n = 2 + i % 9;
        macro_rules! v { ($($N:literal)*) => {$( vector::<i64, $N>(&mut rec, &mut rng, n); vector::<String, $N>(&mut rec, &mut rng, 3); vector::<u8, $N>(&mut rec, &mut rng, 3); )*} }
        v!(0 1 2 3 4 5 8 9 17);
        named2(&mut rec, &mut rng, n);
        named3(&mut rec, &mut rng, n);
        named4(&mut rec, &mut rng, n);
        macro_rules! m { ($($M:literal $N:literal,)*) => {$(
            matrix::<i64, $M, $N>(&mut rec, &mut rng, n.min(5)); matrix::<String, $M, $N>(&mut rec, &mut rng, 2); matrix::<(u8, u32), $M, $N>(&mut rec, &mut rng, 2);
            matrix_copy::<$M, $N>(&mut rec, &mut rng);
        )*} }
        m!(1 1, 1 3, 3 1, 2 2, 2 3, 3 2, 3 3, 4 4, 2 5, 0 2, 2 0, 5 4, 8 9, 17 2, 1 16,);
        if i < 3 {
            macro_rules! m { ($($M:literal $N:literal,)*) => {$( matrix::<i64, $M, $N>(&mut rec, &mut rng, 3); matrix_copy::<$M, $N>(&mut rec, &mut rng); )*} }
            m!(2 7, 7 2, 6 6, 1 7, 7 1, 4 8,);
        }
        complex(&mut rec, &mut rng, n);
        quaternion(&mut rec, &mut rng, n);
        moebius(&mut rec, &mut rng, n);
        transforms::<1>(&mut rec, &mut rng);
        transforms::<2>(&mut rec, &mut rng);
        transforms::<3>(&mut rec, &mut rng);
    }
    rec.finish();
}
