//! C02: sequences are consumed by count and filled in row-major order.
use std::convert::TryFrom;
use vecmat::{vector::GroupIter, Matrix, Vector};
use vharness::*;

/// A source of the given entries (`None`: an end it does not stick to), with a legal size hint of one of several kinds.
struct Src { v: Vec<Option<i64>>, at: usize, hint: usize }
impl Iterator for Src {
    type Item = i64;
    fn next(&mut self) -> Option<i64> {
        // a runaway consumer must come to an end
        assert!(self.at < self.v.len() + 1000, "source polled for ever");
        self.at += 1;
        self.v.get(self.at - 1).copied().flatten()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.v[self.at.min(self.v.len())..].iter().take_while(|x| x.is_some()).count();
        match self.hint % 4 {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, Some(n + 3)),
            _ => (0, Some(usize::MAX)),
        }
    }
}
fn src(rec: &mut Rec, rng: &mut Rng, n: usize, gap: bool) -> (usize, Src) {
    let mut v: Vec<Option<i64>> = (0..n).map(|_| Some(rng.range(0, 999))).collect();
    if gap && n > 0 { v[rng.below(n)] = None; }
    let r = rec.load(&v);
    (r, Src { v, at: 0, hint: rng.below(4) })
}
pub fn drain(rec: &mut Rec, r: usize, s: &mut Src) {
    for _ in 0..3 { rec.op("n.pull", "0", &[r], || s.next()); }
}
pub fn iter_of<C: Ct<E = i64>>(rec: &mut Rec, rng: &mut Rng, n: usize) {
    let k = &C::k();
    // by reference, several times in a row, until the source is exhausted
    rec.prog("[\"any\"]");
    let gap = rng.chance(1, 4);
    let (r, mut s) = src(rec, rng, n, gap);
    for _ in 0..3 { rec.op("n.fromiter", k, &[r], || C::try_from_iter(&mut s).map(C::un)); }
    drain(rec, r, &mut s);
    // by value, from sources of the standard library
    rec.prog("[\"any\"]");
    let l: Vec<i64> = (0..n as i64).collect();
    let opts: Vec<Option<i64>> = l.iter().map(|x| Some(*x)).collect();
    let new = |rec: &mut Rec| rec.load(&opts);
    let r = new(rec);
    rec.op("n.fromiter", k, &[r], || C::try_from_iter(l.clone().into_iter()).map(C::un));
    let r = new(rec);
    rec.op("n.fromiter", k, &[r], || C::try_from_iter(l.iter().copied()).map(C::un));
    let r = new(rec);
    rec.op("n.fromiter", k, &[r], || C::try_from_iter(0..n as i64).map(C::un));
    let r = new(rec);
    let mut it = l.iter();
    rec.op("n.fromiter", k, &[r], || C::try_from_iter(it.by_ref().copied()).map(C::un));
    rec.op("n.pull", "0", &[r], || it.next().copied());
    let r = new(rec);
    let mut it = l.clone().into_iter();
    rec.op("n.fromiter", k, &[r], || C::try_from_iter(it.by_ref()).map(C::un));
    rec.op("n.pull", "0", &[r], || it.next());
    let r = new(rec);
    let mut it = 0..n as i64;
    rec.op("n.fromiter", k, &[r], || C::try_from_iter(&mut it).map(C::un));
    rec.op("n.pull", "0", &[r], || it.next());
    // elements that own memory
    let strs: Vec<String> = l.iter().map(|i| String::mk(*i)).collect();
    let so: Vec<Option<String>> = strs.iter().cloned().map(Some).collect();
    let r = rec.load(&so);
    let mut it = strs.into_iter();
    rec.op("n.fromiter", k, &[r], || C::try_from_iter(&mut it).map(C::un));
    rec.op("n.pull", "0", &[r], || it.next());
    // elements without a size
    let r = rec.load(&vec![Some(()); n]);
    rec.op("n.fromiter", k, &[r], || C::try_from_iter(std::iter::repeat(()).take(n)).map(C::un));
    // slices
    rec.prog("[\"any\"]");
    let r = rec.load(&l);
    rec.try_op("t.fromslice", k, &[r], || C::try_from_slice(&l).map(C::un));
    let l: Vec<i64> = l.iter().map(|x| 255 - x % 251).collect();
    let r = rec.load(&l);
    let u: Vec<u8> = l.iter().map(|x| *x as u8).collect();
    rec.try_op("t.fromslice", k, &[r], || C::try_from_slice(&u).map(C::un));
}
pub fn rows_of<const M: usize, const N: usize>(rec: &mut Rec, rng: &mut Rng) {
    let k = &format!("[2,{},{}]", M, N);
    for n in 0..M + 3 {
        rec.prog("[\"any\"]");
        let v: Vec<Vector<i64, N>> = (0..n).map(|_| Vector::gen(&mut || rng.range(0, 99))).collect();
        let r = rec.load(&v);
        rec.try_op("t.fromrows", k, &[r], || Matrix::<i64, M, N>::try_from(&v[..]));
        let opts: Vec<Option<Vector<i64, N>>> = v.iter().map(|x| Some(*x)).collect();
        let r = rec.load(&opts);
        let mut it = v.into_iter();
        for _ in 0..2 { rec.op("n.fromvecs", k, &[r], || Matrix::<i64, M, N>::try_from_iter_of_vectors(&mut it)); }
        rec.op("n.pull", "0", &[r], || it.next());
    }
}
pub fn group<const N: usize>(rec: &mut Rec, rng: &mut Rng) {
    for n in 0..3 * N + 2 {
        rec.prog("[\"any\"]");
        let (r, mut s) = src(rec, rng, n, false);
        {
            let mut g = GroupIter::<_, N>::new(&mut s);
            for _ in 0..rng.below(6) { rec.op("n.group", &N.to_string(), &[r], || g.next()); }
        }
        drain(rec, r, &mut s);
        let v: Vec<Option<String>> = (0..n as i64).map(|i| Some(String::mk(i))).collect();
        let r = rec.load(&v);
        let mut g = GroupIter::<_, N>::new(v.into_iter().flatten());
        loop {
            match rec.op("n.group", &N.to_string(), &[r], || g.next()) { Some((_, Some(_))) => (), _ => break }
        }
        rec.op("n.group", &N.to_string(), &[r], || g.next());
    }
}
fn main() {
    let a = args();
    let mut rec = Rec::new("C02", &a.out);
    let mut rng = Rng::new(a.seed);
    macro_rules! d { ($C:ty) => { { let c = <$C as Ct>::cells(); for n in [c / 2, c - 1, c, c + 1, 2 * c] { iter_of::<$C>(&mut rec, &mut rng, n) } } } }
    ct_big!(i64; d);
    rows_of::<3, 90>(&mut rec, &mut rng);
    rows_of::<40, 4>(&mut rec, &mut rng);
    group::<70>(&mut rec, &mut rng);
    for _ in 0..a.scale {
        macro_rules! d { ($C:ty) => { for n in 0..<$C as Ct>::cells() + 4 { iter_of::<$C>(&mut rec, &mut rng, n) } iter_of::<$C>(&mut rec, &mut rng, 3 * <$C as Ct>::cells() + 1); } }
        ct_shapes!(i64; d);
        rows_of::<1, 1>(&mut rec, &mut rng);
        rows_of::<1, 3>(&mut rec, &mut rng);
        rows_of::<3, 1>(&mut rec, &mut rng);
        rows_of::<2, 2>(&mut rec, &mut rng);
        rows_of::<2, 3>(&mut rec, &mut rng);
        rows_of::<3, 2>(&mut rec, &mut rng);
        rows_of::<4, 4>(&mut rec, &mut rng);
        rows_of::<2, 6>(&mut rec, &mut rng);
        rows_of::<0, 2>(&mut rec, &mut rng);
        rows_of::<2, 0>(&mut rec, &mut rng);
        group::<1>(&mut rec, &mut rng);
        group::<2>(&mut rec, &mut rng);
        group::<3>(&mut rec, &mut rng);
        group::<4>(&mut rec, &mut rng);
        group::<7>(&mut rec, &mut rng);
    }
    rec.finish();
}
