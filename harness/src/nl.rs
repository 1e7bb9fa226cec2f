//! Transformations a user could define, that are not affine: their derivative depends on the position.
use crate::{gf::GB, rec::*, rng::Rng, xf::*};
use vecmat::{traits::Normalize, transform::*, Transform, Vector};

type V = Vector<GB, 2>;
fn v(x: GB, y: GB) -> V { Vector::from_array([x, y]) }
/// (x, y) -> (x, y + a x + b x^2)
#[derive(Clone, Copy)]
pub struct Bend(pub GB, pub GB);
/// (x, y) -> (u x, w y)
#[derive(Clone, Copy)]
pub struct Diag(pub GB, pub GB);
impl J for Bend { fn j(&self, o: &mut String) { (self.0, self.1).j(o) } }
impl J for Diag { fn j(&self, o: &mut String) { (self.0, self.1).j(o) } }
impl Transform<V> for Bend {
    fn identity() -> Self { Bend(GB::new(0), GB::new(0)) }
    fn inv(self) -> Self { Bend(-self.0, -self.1) }
    fn apply(&self, p: V) -> V { v(p[0], p[1] + self.0 * p[0] + self.1 * p[0] * p[0]) }
    fn deriv(&self, p: V, d: V) -> V { v(d[0], d[1] + (self.0 + (self.1 + self.1) * p[0]) * d[0]) }
    fn chain(self, o: Self) -> Self { Bend(self.0 + o.0, self.1 + o.1) }
}
impl Directional<V> for Bend {
    fn apply_dir(&self, p: V, d: V) -> V { self.deriv(p, d).normalize() }
    fn apply_normal(&self, p: V, n: V) -> V { v(n[0] - (self.0 + (self.1 + self.1) * p[0]) * n[1], n[1]).normalize() }
}
impl Transform<V> for Diag {
    fn identity() -> Self { Diag(GB::new(1), GB::new(1)) }
    fn inv(self) -> Self { Diag(GB::new(1) / self.0, GB::new(1) / self.1) }
    fn apply(&self, p: V) -> V { v(p[0] * self.0, p[1] * self.1) }
    fn deriv(&self, _: V, d: V) -> V { v(d[0] * self.0, d[1] * self.1) }
    fn chain(self, o: Self) -> Self { Diag(self.0 * o.0, self.1 * o.1) }
}
impl Directional<V> for Diag {
    fn apply_dir(&self, p: V, d: V) -> V { self.deriv(p, d).normalize() }
    fn apply_normal(&self, _: V, n: V) -> V { v(n[0] / self.0, n[1] / self.1).normalize() }
}
// A B = B' A'
impl Reorder<Diag, V> for Bend {
    fn reorder(self, d: Diag) -> (Diag, Bend) { (d, Bend(self.0 * d.0 / d.1, self.1 * d.0 * d.0 / d.1)) }
}
impl Reorder<Bend, V> for Diag {
    fn reorder(self, b: Bend) -> (Bend, Diag) { (Bend(b.0 * self.1 / self.0, b.1 * self.1 / (self.0 * self.0)), self) }
}
impl Reorder<Shift<GB, 2>, V> for Bend {
    fn reorder(self, s: Shift<GB, 2>) -> (Shift<GB, 2>, Bend) {
        let p = s.into_vector();
        (Shift::from_vector(self.apply(p)), Bend(self.0 + (self.1 + self.1) * p[0], self.1))
    }
}
impl Reorder<Bend, V> for Shift<GB, 2> {
    fn reorder(self, b: Bend) -> (Bend, Shift<GB, 2>) {
        // b' (x + s) = b(x) + s
        let p = self.into_vector();
        let c = Bend(b.0 - (b.1 + b.1) * p[0], b.1);
        (c, Shift::from_vector(v(p[0], p[1] - c.apply(v(p[0], GB::new(0)))[1])))
    }
}
pub trait Nl: Directional<V> + Copy + J { fn desc() -> String; fn gen(r: &mut Rng) -> Self; }
impl Nl for Bend { fn desc() -> String { "[\"be\"]".into() } fn gen(r: &mut Rng) -> Self { Bend(GB::any(r), GB::any(r)) } }
impl Nl for Diag { fn desc() -> String { "[\"di\"]".into() } fn gen(r: &mut Rng) -> Self { Diag(GB::inv_able(r), GB::inv_able(r)) } }
impl Nl for Shift<GB, 2> { fn desc() -> String { "[\"sh\"]".into() } fn gen(r: &mut Rng) -> Self { <Self as Tr<GB, 2>>::gen(r) } }
impl<A: Nl + Reorder<B, V>, B: Nl + Reorder<A, V>> Nl for Chain<A, B, V> where Self: Directional<V> {
    fn desc() -> String { format!("[\"ch\",{},{}]", A::desc(), B::desc()) }
    fn gen(r: &mut Rng) -> Self { Chain::new(A::gen(r), B::gen(r)) }
}
pub fn group<X: Nl>(rec: &mut Rec, r: &mut Rng) {
    let k = nk(2, &X::desc());
    let k = k.as_str();
    rec.prog(&GB::lane());
    let (f, g, x, y) = (X::gen(r), X::gen(r), vec::<GB, 2>(r), vec::<GB, 2>(r));
    let (rf, rg, rx, ry) = (rec.load(&f), rec.load(&g), rec.load(&x), rec.load(&y));
    rec.op("x.qapply", k, &[rf, rx], || f.apply(x));
    rec.op("x.qapply", k, &[rf, ry], || f.apply(y));
    if let Some((re, e)) = rec.op("x.qident", k, &[rf], || X::identity()) {
        rec.op("x.qchain", k, &[rf, re], || f.chain(e));
        rec.op("x.qchain", k, &[re, rf], || e.chain(f));
    }
    if let Some((ri, i)) = rec.op("x.qinv", k, &[rf], || f.inv()) {
        rec.op("x.qchain", k, &[rf, ri], || f.chain(i));
        rec.op("x.qinv", k, &[ri], || i.inv());
    }
    if let Some((rc, c)) = rec.op("x.qchain", k, &[rf, rg], || f.chain(g)) {
        rec.op("x.qapply", k, &[rc, rx], || c.apply(x));
        rec.op("x.qinv", k, &[rc], || c.inv());
        rec.op("x.qchain", k, &[rc, rf], || c.chain(f));
    }
}
pub fn slopes<X: Nl>(rec: &mut Rec, r: &mut Rng) {
    let k = nk(2, &X::desc());
    let k = k.as_str();
    rec.prog(&GB::lane());
    let f = X::gen(r);
    let rf = rec.load(&f);
    for _ in 0..5 {
        let (x, d, u) = (vec::<GB, 2>(r), vec::<GB, 2>(r), uvec::<GB, 2>(r));
        let (rx, rd, ru) = (rec.load(&x), rec.load(&d), rec.load(&u));
        rec.op("x.qderiv", k, &[rf, rx, rd], || f.deriv(x, d));
        rec.op("x.qdir", k, &[rf, rx, ru], || f.apply_dir(x, u));
        rec.op("x.qnormal", k, &[rf, rx, ru], || f.apply_normal(x, u));
    }
}
#[macro_export]
macro_rules! nonlinear { ($f:ident($rec:expr, $r:expr)) => {
    nl::$f::<nl::Bend>($rec, $r);
    nl::$f::<nl::Diag>($rec, $r);
    nl::$f::<Chain<nl::Bend, nl::Diag, Vector<GB, 2>>>($rec, $r);
    nl::$f::<Chain<nl::Diag, nl::Bend, Vector<GB, 2>>>($rec, $r);
    nl::$f::<Chain<nl::Bend, Shift<GB, 2>, Vector<GB, 2>>>($rec, $r);
    nl::$f::<Chain<Shift<GB, 2>, nl::Bend, Vector<GB, 2>>>($rec, $r);
} }
