//! C03: traversals and combinators visit every element once, in order.
use std::cell::RefCell;
use vharness::*;

/// Steps over an iterator at random; the specification follows what is left.
fn walk<T: J>(rec: &mut Rec, rng: &mut Rng, ri: usize, it: impl Iterator<Item = T>) {
    let mut it = it;
    loop {
        if !rec.alive() { return }
        match rng.below(8) {
            0 => { let m = *rng.pick(&[3, 3, 12, 80]); let k = rng.below(m); rec.op("n.nth", &k.to_string(), &[ri], || it.nth(k)); }
            1 => { rec.op("n.size", "0", &[ri], || it.size_hint()); }
            2 | 3 => match rng.below(4) {
                0 => { rec.op("n.count", "0", &[ri], || it.count()); return }
                1 => { rec.op("n.last", "0", &[ri], || it.last()); return }
                2 => { let v = RefCell::new(Vec::new()); rec.op("n.rest", "0", &[ri], || { it.for_each(|x| v.borrow_mut().push(x)); v.take() }); return }
                _ => { rec.op("n.rest", "0", &[ri], || it.by_ref().collect::<Vec<_>>()); rec.op("n.next", "0", &[ri], || it.next()); return }
            },
            _ => { rec.op("n.next", "0", &[ri], || it.next()); }
        }
    }
}
/// The same for iterators that also go backwards.
fn walk2<T: J>(rec: &mut Rec, rng: &mut Rng, ri: usize, it: impl DoubleEndedIterator<Item = T> + ExactSizeIterator) {
    let mut it = it;
    for _ in 0..12 {
        if !rec.alive() { return }
        match rng.below(4) {
            0 => { rec.op("n.back", "0", &[ri], || it.next_back()); }
            1 => { rec.op("n.len", "0", &[ri], || it.len()); }
            2 => { let k = rng.below(2); rec.op("n.nth", &k.to_string(), &[ri], || it.nth(k)); }
            _ => { rec.op("n.next", "0", &[ri], || it.next()); }
        }
    }
}
/// A word of calls generated by the specification (MC_IterWords); two-ended calls only where there are two ends.
fn word<T: J>(rec: &mut Rec, w: &[(char, usize)], ri: usize, it: impl Iterator<Item = T>) {
    let mut it = it;
    for &(c, k) in w {
        if !rec.alive() { return }
        match c {
            'n' => { rec.op("n.next", "0", &[ri], || it.next()); }
            'k' => { rec.op("n.nth", &k.to_string(), &[ri], || it.nth(k)); }
            's' => { rec.op("n.size", "0", &[ri], || it.size_hint()); }
            'c' => { rec.op("n.count", "0", &[ri], || it.count()); return }
            'l' => { rec.op("n.last", "0", &[ri], || it.last()); return }
            'r' => { rec.op("n.rest", "0", &[ri], || it.by_ref().collect::<Vec<_>>()); rec.op("n.next", "0", &[ri], || it.next()); return }
            'f' => { rec.op("n.rest", "0", &[ri], || it.fold(Vec::new(), |mut v, x| { v.push(x); v })); return }
            _ => return,
        }
    }
}
fn word2<T: J>(rec: &mut Rec, w: &[(char, usize)], ri: usize, it: impl DoubleEndedIterator<Item = T> + ExactSizeIterator) {
    let mut it = it;
    for (i, &(c, _)) in w.iter().enumerate() {
        if !rec.alive() { return }
        match c {
            'b' => { rec.op("n.back", "0", &[ri], || it.next_back()); }
            's' => { rec.op("n.len", "0", &[ri], || it.len()); }
            'v' => { rec.op("n.rev", "0", &[ri], || it.rev().collect::<Vec<_>>()); return }
            'n' | 'k' => word(rec, &w[i..i + 1], ri, it.by_ref()),
            _ => return word(rec, &w[i..], ri, it),
        }
    }
}
fn two_ended(w: &[(char, usize)]) -> bool { w.iter().any(|x| x.0 == 'b' || x.0 == 'v') }
fn word_on<C: Ct<E = i64>>(rec: &mut Rec, w: &[(char, usize)]) {
    if two_ended(w) { return }
    let k = &C::k();
    let l: Vec<i64> = (1..=C::cells() as i64).collect();
    let c = || C::build(l.clone());
    for how in 0..3 {
        rec.prog("[\"any\"]");
        let ra = rec.load_js(&C::un(c()).js());
        let Some((ri, _)) = rec.op("t.open", k, &[ra], || l.clone()) else { return };
        match how {
            0 => word(rec, w, ri, C::into_it(c())),
            1 => word(rec, w, ri, C::it(&c()).copied()),
            _ => word(rec, w, ri, C::it_mut(&mut c()).map(|x| *x)),
        }
    }
}
fn word_on_vec<const N: usize>(rec: &mut Rec, w: &[(char, usize)]) {
    let a: [i64; N] = std::array::from_fn(|i| i as i64 + 1);
    for how in 0..3 {
        rec.prog("[\"any\"]");
        let ra = rec.load(&a);
        let Some((ri, _)) = rec.op("t.open", &format!("[1,1,{}]", N), &[ra], || a.to_vec()) else { return };
        let mut v = vecmat::Vector::from_array(a);
        match how {
            0 => word2(rec, w, ri, v.into_iter()),
            1 => word2(rec, w, ri, v.iter().copied()),
            _ => word2(rec, w, ri, v.iter_mut().map(|x| *x)),
        }
    }
}
fn word_on_rows(rec: &mut Rec, w: &[(char, usize)], rows: &[&[i64]]) {
    if two_ended(w) { return }
    let rows: Vec<Vec<i64>> = rows.iter().map(|r| r.to_vec()).collect();
    rec.prog("[\"any\"]");
    let rr = rec.load(&rows);
    let all: Vec<i64> = rows.concat();
    let Some((ri, _)) = rec.op("t.openflat", "0", &[rr], || all) else { return };
    word(rec, w, ri, flat_iter(rows.into_iter()).unwrap());
}
pub fn drive<C: Ct>(rec: &mut Rec, rng: &mut Rng)
where
    C::E: El,
{
    let k = &C::k();
    let n = C::cells();
    let list = |rng: &mut Rng| -> Vec<C::E> { (0..n).map(|_| C::E::mk(rng.range(1, 60))).collect() };
    let js = |v: &[C::E]| C::un(C::build(v.to_vec())).js();
    rec.prog("[\"any\"]");
    let a = list(rng);
    let ra = rec.load_js(&js(&a));
    let c = || C::build(a.clone());
    rec.op("t.ident", k, &[ra], || C::un(c()));
    rec.op("t.init", k, &[], || { let mut i = 0i64; let r = C::init(|| { i += 1; i }); (C::un(r), i) });
    rec.op("t.map", k, &[ra], || {
        let mut seen = Vec::new();
        let r = C::map(c(), |x| { seen.push(x.clone()); (seen.len(), x) });
        (C::un(r), seen)
    });
    rec.op("t.foreach", k, &[ra], || { let mut seen = Vec::new(); C::for_each(c(), |x| seen.push(x)); seen });
    let b: Vec<i64> = (0..n).map(|_| rng.range(0, 99)).collect();
    let rb = rec.load_js(&C::un(C::build(b.clone())).js());
    if let Some((rz, z)) = rec.op("t.zip", k, &[ra, rb], || W(C::RANK, C::un(C::zip(c(), C::build(b.clone()))))) {
        let pairs: Vec<(C::E, i64)> = z.1 .1.into_iter().flatten().collect();
        rec.op("t.unzip", k, &[rz], || { let (x, y) = C::unzip(C::build(pairs)); (C::un(x), C::un(y)) });
    }
    rec.op("t.zip", k, &[rb, ra], || C::un(C::zip(C::build(b.clone()), c())));
    if C::RANK == 1 {
        rec.op("t.enumerate", k, &[ra], || C::un(C::enumerate(c()).unwrap()));
    }
    rec.op("t.indices", k, &[], || Raw(C::indices()));
    let z = C::E::mk(rng.range(1, 60));
    let rz = rec.load(&z);
    rec.op("t.fold", k, &[ra, rz], || C::fold(c(), vec![z.clone()], |mut s, x| { s.push(x); s }));
    rec.op("t.scan", k, &[ra, rz], || C::un(C::scan(c(), vec![z.clone()], |s: &mut Vec<C::E>, x| { s.push(x); s.clone() })));
    {
        let lists: Vec<Vec<C::E>> = a.iter().map(|x| vec![x.clone()]).collect();
        let rl = rec.load_js(&C::un(C::build(lists.clone())).js());
        rec.try_op("t.foldfirst", k, &[rl], || {
            let mut calls = Vec::new();
            let r = C::fold_first(C::build(lists), |mut x, y| { calls.push((x.clone(), y.clone())); x.extend(y); x });
            (r, calls)
        });
    }
    let w = list(rng);
    let rw = rec.load(&w);
    macro_rules! muts { ($f:ident) => { rec.op("t.itermut", k, &[ra, rw], || {
        let mut x = c();
        let mut seen = Vec::new();
        for (i, y) in C::$f(&mut x).enumerate() { seen.push(std::mem::replace(y, w[i].clone())); }
        (seen, C::un(x))
    }); } }
    muts!(it_mut);
    muts!(ref_it_mut);
    for how in 0..4 {
        let x = c();
        let mut y = c();
        let Some((ri, _)) = rec.op("t.open", k, &[ra], || match how {
            0 => C::into_it(c()).collect::<Vec<_>>(),
            1 => C::it(&x).cloned().collect(),
            2 => C::ref_it(&x).cloned().collect(),
            _ => C::it_mut(&mut y).map(|x| x.clone()).collect(),
        }) else { return };
        match how {
            0 => walk(rec, rng, ri, C::into_it(c())),
            1 => walk(rec, rng, ri, C::it(&x).cloned()),
            2 => walk(rec, rng, ri, C::ref_it(&x).cloned()),
            _ => walk(rec, rng, ri, C::ref_it_mut(&mut y).map(|x| x.clone())),
        }
    }
}
struct Raw(String);
impl J for Raw { fn j(&self, o: &mut String) { o.push_str(&self.0) } }
/// Keeps the elements next to their encoding.
struct W<U>(usize, L<U>);
impl<U: J> J for W<U> { fn j(&self, o: &mut String) { self.1.j(o) } }

/// Iterators of vectors are those of arrays: they also go backwards and know their length.
pub fn vec_iters<const N: usize>(rec: &mut Rec, rng: &mut Rng) {
    rec.prog("[\"any\"]");
    let k = &format!("[1,1,{}]", N);
    let a: [i64; N] = std::array::from_fn(|_| rng.range(0, 99));
    let ra = rec.load(&a);
    let v = vecmat::Vector::from_array(a);
    let mut w = v;
    for how in 0..3 {
        let Some((ri, _)) = rec.op("t.open", k, &[ra], || a.to_vec()) else { return };
        match how {
            0 => walk2(rec, rng, ri, v.into_iter()),
            1 => walk2(rec, rng, ri, v.iter()),
            _ => walk2(rec, rng, ri, w.iter_mut().map(|x| *x)),
        }
    }
}
pub fn copies<C: Ct<E = i64>>(rec: &mut Rec, rng: &mut Rng) {
    rec.prog("[\"any\"]");
    let k = &C::k();
    let x = rng.range(-99, 99);
    let rx = rec.load(&x);
    rec.op("t.fill", k, &[rx], || C::un(C::fill(x)));
    let r0 = rec.load(&0i64);
    rec.op("t.fill", k, &[r0], || C::un(C::default_::<i64>()));
    rec.op("t.fill", k, &[r0], || C::un(C::new_::<u8>()));
    let re = rec.load(&String::new());
    rec.op("t.fill", k, &[re], || C::un(C::default_::<String>()));
}
fn fill_ref(rec: &mut Rec) {
    rec.prog("[\"any\"]");
    let rx = rec.load(&7i64);
    rec.op("t.fill", "[2,2,3]", &[rx], || vecmat::Matrix::<i64, 2, 3>::fill_ref(&7));
    rec.op("t.fill", "[2,3,2]", &[rx], || vecmat::Matrix::<i64, 3, 2>::fill_ref(&7));
}
/// Flattening of arbitrary sequences of sequences.
pub fn flat(rec: &mut Rec, rng: &mut Rng, rows: Vec<Vec<i64>>) {
    rec.prog("[\"any\"]");
    let rr = rec.load(&rows);
    rec.op("t.flatnone", "0", &[rr], || flat_iter(rows.clone().into_iter()).is_none());
    if rows.is_empty() { return }
    rec.op("t.openflat", "0", &[rr], || { let mut v = Vec::new(); for x in flat_iter(rows.clone().into_iter()).unwrap() { v.push(x) } v });
    rec.op("t.openflat", "0", &[rr], || flat_iter(rows.clone().into_iter()).unwrap().fold(Vec::new(), |mut v, x| { v.push(x); v }));
    for _ in 0..2 {
        let Some((ri, _)) = rec.op("t.openflat", "0", &[rr], || flat_iter(rows.clone().into_iter()).unwrap().collect::<Vec<_>>()) else { return };
        walk(rec, rng, ri, flat_iter(rows.clone().into_iter()).unwrap());
    }
}
fn main() {
    let a = args();
    let mut rec = Rec::new("C03", &a.out);
    let mut rng = Rng::new(a.seed);
    fill_ref(&mut rec);
    // every pattern of inner lengths 0..2 up to four inner sequences
    for n in 0..5u32 {
        for code in 0..3usize.pow(n) {
            let mut x = 0;
            let rows = (0..n).map(|i| (0..code / 3usize.pow(i) % 3).map(|_| { x += 1; x }).collect()).collect();
            flat(&mut rec, &mut rng, rows);
        }
    }
    for line in std::fs::read_to_string(a.scen.as_ref().expect("scenarios")).unwrap().lines().filter(|l| !l.is_empty()) {
        let w: Vec<(char, usize)> = line.trim_matches(|c| c == '[' || c == ']').split("],[")
            .map(|s| (s.as_bytes()[1] as char, s[4..].parse().unwrap())).collect();
        word_on_vec::<0>(&mut rec, &w);
        word_on_vec::<1>(&mut rec, &w);
        word_on_vec::<3>(&mut rec, &w);
        word_on::<vecmat::Matrix<i64, 2, 2>>(&mut rec, &w);
        word_on::<vecmat::Matrix<i64, 3, 1>>(&mut rec, &w);
        word_on::<vecmat::Matrix<i64, 1, 3>>(&mut rec, &w);
        word_on::<vecmat::Matrix<i64, 2, 0>>(&mut rec, &w);
        word_on::<vecmat::Matrix<i64, 0, 2>>(&mut rec, &w);
        word_on_rows(&mut rec, &w, &[&[], &[1], &[], &[2, 3], &[]]);
        word_on_rows(&mut rec, &w, &[&[1, 2], &[], &[], &[3]]);
        word_on_rows(&mut rec, &w, &[&[1, 2, 3]]);
        word_on_rows(&mut rec, &w, &[&[], &[]]);
    }
    macro_rules! d { ($C:ty) => { drive::<$C>(&mut rec, &mut rng) } }
    macro_rules! c { ($C:ty) => { copies::<$C>(&mut rec, &mut rng) } }
    ct_big!(i64; d);
    ct_big!(i64; c);
    ct_big!(String; d);
    vec_iters::<260>(&mut rec, &mut rng);
    for i in 0..a.scale {
        macro_rules! d { ($C:ty) => { drive::<$C>(&mut rec, &mut rng) } }
        macro_rules! c { ($C:ty) => { copies::<$C>(&mut rec, &mut rng) } }
        ct_shapes!(i64; d);
        ct_shapes!(i64; c);
        ct_shapes!(String; d);
        if i % 2 == 0 {
            ct_shapes!((); d);
            ct_shapes!([i64; 9]; d);
        } else {
            ct_shapes!(u8; d);
            ct_shapes!((u8, u32); d);
        }
        vec_iters::<0>(&mut rec, &mut rng);
        vec_iters::<1>(&mut rec, &mut rng);
        vec_iters::<2>(&mut rec, &mut rng);
        vec_iters::<3>(&mut rec, &mut rng);
        vec_iters::<4>(&mut rec, &mut rng);
        vec_iters::<7>(&mut rec, &mut rng);
        let n = rng.below(6);
        let rows = (0..n).map(|_| (0..rng.below(4)).map(|_| rng.range(0, 99)).collect()).collect();
        flat(&mut rec, &mut rng, rows);
    }
    rec.finish();
}
