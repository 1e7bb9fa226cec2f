//! C01: every element is moved out or dropped exactly once.
//! Elements report their birth, death, use and every hand-over; the events are those of spec/Own.tla.
use num_integer::Integer;
use num_traits::{Num, One, Zero};
use std::{
    any::Any,
    cell::{Cell, RefCell},
    cmp::Ordering,
    fmt,
    mem::MaybeUninit,
    ops::*,
    panic::resume_unwind,
};
use vecmat::{complex::Moebius, matrix::FlatIter, traits::{Conj, Dot}, transform::{Chain, Linear, Rotation2, Rotation3, Scale, Shift}, vector::GroupIter, Complex, Matrix, Quaternion, Vector};
use vharness::{args, Rec, Rng};

thread_local! {
    static LOG: RefCell<Vec<(u8, i64)>> = const { RefCell::new(Vec::new()) };
    static NEXT: Cell<u32> = const { Cell::new(1) };
    /// callbacks so far in this call; the one that panics (0: none); whether it does so at its end
    static SEEN: Cell<u32> = const { Cell::new(0) };
    static PLAN: Cell<(u32, bool)> = const { Cell::new((0, false)) };
}
fn log(k: u8, id: i64) { LOG.with(|l| l.borrow_mut().push((k, id))) }
/// A user callback begins / has made its result.
fn enter() {
    let n = SEEN.with(|s| { s.set(s.get() + 1); s.get() });
    if PLAN.with(|p| p.get()) == (n, false) {
        resume_unwind(Box::new(()));
    }
}
fn leave() {
    if PLAN.with(|p| p.get()) == (SEEN.with(|s| s.get()), true) {
        resume_unwind(Box::new(()));
    }
}
pub struct Tok { id: u32, chk: u32 }
impl Tok {
    fn id(&self) -> i64 { if self.chk == !self.id && self.id != 0 { self.id as i64 } else { -1 } }
    /// Created by the program.
    fn new() -> Tok {
        let id = NEXT.with(|n| { n.set(n.get() + 1); n.get() - 1 });
        log(1, id as i64);
        Tok { id, chk: !id }
    }
    fn give(self) -> Tok { log(4, self.id()); self }
    fn take(self) -> Tok { log(5, self.id()); self }
    fn used(&self) { log(3, self.id()) }
    /// The result of a callback.
    fn fresh() -> Tok { let r = Tok::new(); leave(); r.give() }
}
impl Drop for Tok {
    fn drop(&mut self) { log(2, self.id()); self.chk = 0; }
}
impl Clone for Tok { fn clone(&self) -> Tok { enter(); self.used(); Tok::fresh() } }
impl Default for Tok { fn default() -> Tok { enter(); Tok::fresh() } }
impl PartialEq for Tok { fn eq(&self, o: &Tok) -> bool { enter(); self.used(); o.used(); self.id == o.id } }
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Tok) -> Option<Ordering> { enter(); self.used(); o.used(); Some((self.id * 7 % 11).cmp(&(o.id * 7 % 11))) }
}
impl Ord for Tok { fn cmp(&self, o: &Tok) -> Ordering { self.partial_cmp(o).unwrap() } }
impl fmt::Debug for Tok { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { enter(); self.used(); write!(f, "t") } }
impl fmt::Display for Tok { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { enter(); self.used(); write!(f, "t") } }
fn two(a: Tok, b: Tok) -> Tok { let _a = a.take(); let _b = b.take(); enter(); Tok::fresh() }
macro_rules! bin { ($($T:ident $f:ident, $TA:ident $fa:ident;)*) => {$(
    impl $T for Tok { type Output = Tok; fn $f(self, o: Tok) -> Tok { two(self, o) } }
    impl $TA for Tok { fn $fa(&mut self, o: Tok) {
        self.used();
        let _o = o.take();
        enter();
        let n = Tok::fresh();
        drop(std::mem::replace(self, n).take());
    } }
)*} }
bin! { Add add, AddAssign add_assign; Sub sub, SubAssign sub_assign; Mul mul, MulAssign mul_assign; Div div, DivAssign div_assign;
    Rem rem, RemAssign rem_assign; BitAnd bitand, BitAndAssign bitand_assign; BitOr bitor, BitOrAssign bitor_assign; BitXor bitxor, BitXorAssign bitxor_assign; }
impl Neg for Tok { type Output = Tok; fn neg(self) -> Tok { let _a = self.take(); enter(); Tok::fresh() } }
impl Not for Tok { type Output = Tok; fn not(self) -> Tok { let _a = self.take(); enter(); Tok::fresh() } }
impl Zero for Tok {
    fn zero() -> Tok { enter(); Tok::fresh() }
    fn is_zero(&self) -> bool { enter(); self.used(); self.id % 16 != 15 }
}
impl One for Tok { fn one() -> Tok { enter(); Tok::fresh() } }
impl Num for Tok {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Tok, ()> { Err(()) }
}
impl Integer for Tok {
    fn div_floor(&self, o: &Tok) -> Tok { enter(); self.used(); o.used(); Tok::fresh() }
    fn mod_floor(&self, o: &Tok) -> Tok { enter(); self.used(); o.used(); Tok::fresh() }
    fn div_mod_floor(&self, o: &Tok) -> (Tok, Tok) { enter(); self.used(); o.used(); let a = Tok::new(); let b = Tok::new(); leave(); (a.give(), b.give()) }
    fn gcd(&self, _: &Tok) -> Tok { unimplemented!() }
    fn lcm(&self, _: &Tok) -> Tok { unimplemented!() }
    fn is_multiple_of(&self, _: &Tok) -> bool { unimplemented!() }
    fn is_even(&self) -> bool { unimplemented!() }
    fn is_odd(&self) -> bool { unimplemented!() }
    fn div_rem(&self, o: &Tok) -> (Tok, Tok) { self.div_mod_floor(o) }
}
// the closures the drivers pass to the library
fn make() -> Tok { enter(); Tok::fresh() }
fn pass(t: Tok) -> Tok { let t = t.take(); enter(); leave(); t.give() }      // hands the same element back
fn change(t: Tok) -> Tok { let _t = t.take(); enter(); Tok::fresh() }        // makes another one
fn eat(t: Tok) { let _t = t.take(); enter(); leave(); }
/// An iterator that makes elements on demand; `size` is what its size hint claims.
struct Src { left: usize, size: u8 }
impl Iterator for Src {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        enter();
        if self.left == 0 { return None; }
        self.left -= 1;
        Some(Tok::fresh())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.size { 0 => (0, None), 1 => (self.left, Some(self.left)), _ => (self.left / 2, None) }
    }
}

/// What the driver needs of a container of elements.
trait Tc: Sized + Clone + Default + PartialEq + Zero + Neg<Output = Self> + Not<Output = Self> + Add<Output = Self> + Sub<Output = Self>
    + Mul<Output = Self> + Div<Output = Self> + Rem<Output = Self> + BitAnd<Output = Self> + BitOr<Output = Self> + BitXor<Output = Self>
    + AddAssign + SubAssign + MulAssign + DivAssign + RemAssign + BitAndAssign + BitOrAssign + BitXorAssign
    + fmt::Debug + fmt::Display + IntoIterator<Item = Tok> + std::iter::Sum + std::iter::Product + 'static
{
    type Tr: 'static;
    type Pair: 'static;
    const N: usize;
    fn ids(&self) -> Vec<i64>;
    fn tr_ids(t: &Self::Tr) -> Vec<i64>;
    fn pair_ids(t: &Self::Pair) -> Vec<i64>;
    fn make() -> Self;
    fn new_() -> Self;
    fn from_it<I: Iterator<Item = Tok>>(i: I) -> Option<Self>;
    fn group<I: Iterator<Item = Tok>>(i: I) -> Vec<Vec<Tok>>;
    fn uninit_fill(how: bool) -> Self;
    fn tr(self) -> Self::Tr;
    fn back(t: Self::Tr) -> Self;
    fn map_(self, f: fn(Tok) -> Tok) -> Self;
    fn zip_(self, o: Self) -> Self::Pair;
    fn unzip_(p: Self::Pair) -> (Self, Self);
    fn mappair(p: Self::Pair) -> Self;
    fn enumerate_(self) -> Self;
    fn fold_(self, s: Tok) -> Tok;
    fn fold_first_(self) -> Tok;
    fn scan_(self, s: Tok) -> Self;
    fn for_each_(self);
    fn sum_(self) -> Tok;
    fn max_(self) -> Tok;
    fn min_(self) -> Tok;
    fn dot_(self, o: Self) -> Option<Tok>;
    fn veq_(self, o: Self, how: usize) -> bool;
    fn divf(self, o: Self) -> Self;
    fn modf(self, o: Self) -> Self;
    fn divmodf(self, o: Self) -> (Self, Self);
    fn arr(self, how: usize) -> Self;
    fn conv(self, how: usize) -> Self;
    fn tuple(self) -> Self;
    fn look(&self);
    fn mutate(&mut self, how: bool);
}
fn swap_in(x: &mut Tok) {
    enter();
    let n = Tok::fresh();
    drop(std::mem::replace(x, n).take());
}
macro_rules! tuples { ($s:ident; $($N:literal)*) => { {
    let b: Box<dyn Any> = Box::new($s);
    $(let b = match b.downcast::<Vector<Tok, $N>>() {
        Ok(v) => {
            let v: Box<dyn Any> = Box::new(Vector::<Tok, $N>::from_tuple(v.into_tuple()));
            return *v.downcast::<Self>().unwrap_or_else(|_| unreachable!());
        }
        Err(b) => b,
    };)*
    *b.downcast::<Self>().unwrap_or_else(|_| unreachable!())
} } }
macro_rules! shared { () => {
    fn make() -> Self { Self::init(make) }
    fn new_() -> Self { Self::new() }
    fn from_it<I: Iterator<Item = Tok>>(i: I) -> Option<Self> { Self::try_from_iter(i) }
    fn map_(self, f: fn(Tok) -> Tok) -> Self { self.map(f) }
    fn zip_(self, o: Self) -> Self::Pair { self.zip(o) }
    fn unzip_(p: Self::Pair) -> (Self, Self) { p.unzip() }
    fn mappair(p: Self::Pair) -> Self { p.map(|(a, b)| two(a, b)) }
    fn fold_(self, s: Tok) -> Tok { self.fold(s, two) }
    fn fold_first_(self) -> Tok { self.fold_first(two) }
    fn scan_(self, s: Tok) -> Self {
        self.scan(s, |s: &mut Tok, x| {
            s.used();
            let _x = x.take();
            enter();
            let n = Tok::new().give();
            drop(std::mem::replace(s, n).take());
            Tok::fresh()
        })
    }
    fn for_each_(self) { self.for_each(eat) }
    fn sum_(self) -> Tok { self.sum() }
    fn max_(self) -> Tok { self.max() }
    fn min_(self) -> Tok { self.min() }
    fn veq_(self, o: Self, how: usize) -> bool {
        match how % 6 {
            0 => self.veq(o).any(), 1 => self.vne(o).all(), 2 => self.vlt(o).any(),
            3 => self.vle(o).all(), 4 => self.vgt(o).any(), _ => self.vge(o).all(),
        }
    }
    fn divf(self, o: Self) -> Self { self.div_floor(o) }
    fn modf(self, o: Self) -> Self { self.mod_floor(o) }
    fn divmodf(self, o: Self) -> (Self, Self) { self.div_mod_floor(o) }
    fn uninit_fill(how: bool) -> Self {
        let mut u = Self::uninit();
        if how {
            for x in u.iter_mut() { *x = MaybeUninit::new(make()); }
        } else {
            let p = u.as_mut_ptr();
            for i in 0..Self::N { unsafe { p.add(i).write(MaybeUninit::new(make())) } }
        }
        unsafe { u.assume_init() }
    }
    fn mutate(&mut self, how: bool) {
        if how { for x in self.iter_mut() { swap_in(x) } } else { for x in self { swap_in(x) } }
    }
} }
impl<const N: usize> Tc for Vector<Tok, N> {
    shared!();
    type Tr = [Tok; N];
    type Pair = Vector<(Tok, Tok), N>;
    const N: usize = N;
    fn ids(&self) -> Vec<i64> { self.as_array().iter().map(|t| t.id()).collect() }
    fn tr_ids(t: &Self::Tr) -> Vec<i64> { t.iter().map(|t| t.id()).collect() }
    fn pair_ids(t: &Self::Pair) -> Vec<i64> { t.as_array().iter().flat_map(|t| [t.0.id(), t.1.id()]).collect() }
    fn group<I: Iterator<Item = Tok>>(i: I) -> Vec<Vec<Tok>> {
        GroupIter::<_, N>::new(i).take(8).map(|v| v.into_iter().collect()).collect()
    }
    fn tr(self) -> [Tok; N] { self.into() }
    fn back(t: [Tok; N]) -> Self { t.into() }
    fn enumerate_(self) -> Self { self.enumerate().map(|(_, t)| pass(t)) }
    fn dot_(self, o: Self) -> Option<Tok> { Some(Dot::dot(self, o)) }
    fn arr(self, _: usize) -> Self { Vector::from_array(self.into_array()) }
    fn conv(self, _: usize) -> Self { Vector::from(<[Tok; N]>::from(self)) }
    fn tuple(self) -> Self { tuples!(self; 2 3 4) }
    fn look(&self) {
        for t in self.iter() { t.used() }
        for t in self { t.used() }
        for i in 0..N {
            self[i].used();
            unsafe { self.get_unchecked(i).used(); (*self.as_ptr().add(i)).used() }
        }
        for t in AsRef::<[Tok; N]>::as_ref(self) { t.used() }
        for t in <&[Tok; N]>::from(self) { t.used() }
    }
}
impl<const M: usize, const K: usize> Tc for Matrix<Tok, M, K> {
    shared!();
    type Tr = Matrix<Tok, K, M>;
    type Pair = Matrix<(Tok, Tok), M, K>;
    const N: usize = M * K;
    fn ids(&self) -> Vec<i64> { self.as_array_of_arrays().iter().flatten().map(|t| t.id()).collect() }
    fn tr_ids(t: &Self::Tr) -> Vec<i64> { t.as_array_of_arrays().iter().flatten().map(|t| t.id()).collect() }
    fn pair_ids(t: &Self::Pair) -> Vec<i64> { t.as_array_of_arrays().iter().flatten().flat_map(|t| [t.0.id(), t.1.id()]).collect() }
    fn group<I: Iterator<Item = Tok>>(i: I) -> Vec<Vec<Tok>> {
        GroupIter::<_, K>::new(i).take(8).map(|v| v.into_iter().collect()).collect()
    }
    fn tr(self) -> Self::Tr { self.transpose() }
    fn back(t: Self::Tr) -> Self { t.transpose() }
    fn enumerate_(self) -> Self { Matrix::indices().zip(self).map(|(_, t)| pass(t)) }
    fn dot_(self, _: Self) -> Option<Tok> { None }
    fn arr(self, how: usize) -> Self {
        match how % 3 {
            0 => Matrix::from_array_of_arrays(self.into_array_of_arrays()),
            1 => Matrix::from_array_of_vectors(self.into_array_of_vectors()),
            _ => Matrix::from_vector_of_vectors(self.into_vector_of_vectors()),
        }
    }
    fn conv(self, how: usize) -> Self {
        match how % 4 {
            0 => Matrix::from(<[[Tok; K]; M]>::from(self)),
            1 => Matrix::from(<[Vector<Tok, K>; M]>::from(self)),
            2 => Matrix::from(Vector::<Vector<Tok, K>, M>::from(self)),
            _ => Matrix::try_from_iter_of_vectors(self.into_vector_of_vectors().into_iter()).unwrap(),
        }
    }
    fn tuple(self) -> Self { self }
    fn look(&self) {
        for t in self.iter() { t.used() }
        for t in self { t.used() }
        for j in 0..M {
            for t in self.row_ref(j).iter() { t.used() }
            for i in 0..K {
                self[(j, i)].used();
                unsafe { self.get_unchecked(j, i).used(); (*self.as_ptr().add(j * K + i)).used() }
            }
        }
        for t in self.as_array_of_vectors().iter().flat_map(|v| v.iter()) { t.used() }
        for t in AsRef::<Vector<Vector<Tok, K>, M>>::as_ref(self).iter().flat_map(|v| v.iter()) { t.used() }
        for t in <&[[Tok; K]; M]>::from(self).iter().flatten() { t.used() }
    }
}

enum Slot<C: Tc> { Gone, C(C), T(C::Tr), P(C::Pair), I(C::IntoIter, Vec<i64>) }
/// What a call hands back.
enum Out<C: Tc> { Nil, Cs(Vec<C>), T(C::Tr), P(C::Pair), I(C::IntoIter, Vec<i64>), Toks(Vec<Tok>) }

const ALL: u32 = u32::MAX;
struct Run<'a, C: Tc> { rec: &'a mut Rec, slot: Vec<Slot<C>>, temp: usize, mid: u32 }
impl<'a, C: Tc> Run<'a, C> {
    fn flush(&mut self) -> Vec<(u8, i64)> {
        let l = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
        for (k, i) in &l { self.rec.raw(&format!("[{},{},[]]", k, i)); }
        l
    }
    /// Runs `f` as one call that takes over the registers in `regs`; `None` if it panicked.
    fn call(&mut self, name: &str, regs: &[usize], par: u8, f: impl FnOnce() -> Out<C>) -> Option<Out<C>> {
        self.rec.raw(&format!("[6,\"{}\",{:?}]", name, regs));
        let n = C::N as u32;
        SEEN.with(|s| s.set(0));
        PLAN.with(|p| p.set(match par { 0 => (0, false), 1 => (1, false), 2 => (self.mid % n.max(1) + 1, false), 3 => (n, false), _ => (n, true) }));
        let r = self.rec.guarded("[11,\"never returned\",[]]", f);
        PLAN.with(|p| p.set((0, false)));
        r.ok()
    }
    fn ret(&mut self, reg: usize, ids: &[i64]) { self.rec.raw(&format!("[7,{},{:?}]", reg, ids)); }
    /// Ends a call: its results go to new slots (or are dropped at once if `keep` is false).
    fn done(&mut self, r: Option<Out<C>>, keep: bool) {
        self.flush();
        let Some(out) = r else { self.rec.raw("[9,0,[]]"); return };
        let mut new: Vec<Slot<C>> = Vec::new();
        let mut ids = Vec::new();
        match out {
            Out::Nil => (),
            Out::Cs(v) => for c in v { ids.push(c.ids()); new.push(Slot::C(c)) },
            Out::T(t) => { ids.push(C::tr_ids(&t)); new.push(Slot::T(t)) }
            Out::P(p) => { ids.push(C::pair_ids(&p)); new.push(Slot::P(p)) }
            Out::I(i, l) => { ids.push(l.clone()); new.push(Slot::I(i, l)) }
            Out::Toks(t) => { let t: Vec<Tok> = t.into_iter().map(|t| t.take()).collect(); drop(t); self.flush(); }
        }
        let base = if keep { self.slot.len() } else { self.temp += 100; 1000 + self.temp };
        for (j, i) in ids.iter().enumerate() { self.ret(base + j + 1, i) }
        self.rec.raw("[8,0,[]]");
        if keep {
            self.slot.extend(new);
        } else {
            for (j, s) in new.into_iter().enumerate() { self.discard(base + j + 1, s) }
        }
    }
    fn discard(&mut self, reg: usize, s: Slot<C>) {
        let r = self.call("drop", &[reg], 0, || { drop(s); Out::Nil });
        self.done(r, true);
    }
    fn c(&mut self, i: usize) -> C {
        match std::mem::replace(&mut self.slot[i - 1], Slot::Gone) { Slot::C(c) => c, _ => panic!("scenario does not fit") }
    }
    fn step(&mut self, op: &str, s: &[usize], par: u8) {
        let fits = |i: &usize| matches!((self.slot.get(i - 1), op),
            (Some(Slot::T(_)), "trback" | "drop") | (Some(Slot::P(_)), "unzip" | "mappair" | "drop")
            | (Some(Slot::I(..)), "next" | "nth" | "rest" | "recollect" | "drop"))
            || matches!(self.slot.get(i - 1), Some(Slot::C(_))) && !matches!(op, "trback" | "unzip" | "mappair" | "next" | "nth" | "rest" | "recollect");
        if !s.iter().all(fits) {
            // an earlier call did not make what it should have made
            self.rec.raw("[11,\"missing result\",[]]");
            return;
        }
        let keep = par == 0;
        let how = self.slot.len() + s.iter().sum::<usize>() + par as usize;
        let n = C::N;
        macro_rules! go { ($regs:expr, $e:expr) => { { let r = self.call(op, $regs, par, || $e); self.done(r, keep) } } }
        macro_rules! one { ($f:expr) => { { let a = self.c(s[0]); go!(s, Out::Cs(vec![$f(a)])) } } }
        macro_rules! tok { ($f:expr) => { { let a = self.c(s[0]); go!(s, Out::Toks(vec![$f(a)])) } } }
        macro_rules! two { ($f:expr) => { { let a = self.c(s[0]); let b = self.c(s[1]); go!(s, $f(a, b)) } } }
        macro_rules! two_c { ($f:expr) => { two!(|a, b| Out::Cs(vec![$f(a, b)])) } }
        macro_rules! assign { ($o:tt) => { {
            let mut a = self.c(s[0]);
            let b = self.c(s[1]);
            let r = self.call(op, s, par, || { a $o b; Out::Nil });
            self.flush();
            let ids = a.ids();
            self.ret(s[0], &ids);
            self.done(r, keep);
            self.slot[s[0] - 1] = Slot::C(a);
        } } }
        macro_rules! look { ($f:expr) => { {
            let a = self.c(s[0]);
            let r = self.call(op, &[], par, || { $f(&a); Out::Nil });
            self.done(r, keep);
            self.slot[s[0] - 1] = Slot::C(a);
        } } }
        match op {
            "init" => go!(&[], Out::Cs(vec![C::make()])),
            "default" => go!(&[], Out::Cs(vec![if how % 2 == 0 { C::default() } else { C::new_() }])),
            "zero" => go!(&[], Out::Cs(vec![C::zero()])),
            "uninit" => go!(&[], Out::Cs(vec![C::uninit_fill(how % 2 == 0)])),
            "iter" => go!(&[], Out::Cs(C::from_it(Src { left: n, size: how as u8 % 3 }).into_iter().collect())),
            "itermore" => go!(&[], Out::Cs({
                let mut src = Src { left: n + 3, size: how as u8 % 3 };
                C::from_it(&mut src).into_iter().collect()
            })),
            "itervec" => {
                let mut v: Vec<Tok> = (0..n + how % 3).map(|_| Tok::new()).collect();
                self.flush();
                go!(&[], {
                    for t in &v { log(4, t.id()) }
                    let mut it = std::mem::take(&mut v).into_iter();
                    let r = if how % 2 == 0 { C::from_it(&mut it) } else { C::from_it(it) };
                    Out::Cs(r.into_iter().collect())
                })
            }
            "iterfew" => {
                let few = n.saturating_sub(1 + how % 3);
                let r = self.call(op, &[], par, || Out::Cs(C::from_it(Src { left: few, size: how as u8 % 3 }).into_iter().collect()));
                self.done(r, false);
            }
            "group" => go!(&[], Out::Toks(C::group(Src { left: 2 * n + 1, size: 0 }).into_iter().flatten().collect())),
            "map" => one!(|a: C| a.map_(if how % 2 == 0 { pass } else { change })),
            "neg" => one!(|a: C| -a),
            "not" => one!(|a: C| !a),
            "scan" => { let a = self.c(s[0]); let seed = Tok::new(); self.flush(); go!(s, Out::Cs(vec![a.scan_(seed.give())])) }
            "enumerate" => one!(C::enumerate_),
            "arr" => one!(|a: C| a.arr(how)),
            "conv" => one!(|a: C| a.conv(how)),
            "tuple" => one!(C::tuple),
            "fold" => { let a = self.c(s[0]); let seed = Tok::new(); self.flush(); go!(s, Out::Toks(vec![a.fold_(seed.give())])) }
            "foldfirst" if n > 0 => tok!(C::fold_first_),
            "sum" if n > 0 => tok!(C::sum_),
            "max" if n > 0 => tok!(C::max_),
            "min" if n > 0 => tok!(C::min_),
            "foldfirst" | "sum" | "max" | "min" => (),
            "foreach" => { let a = self.c(s[0]); go!(s, { a.for_each_(); Out::Nil }) }
            "viait" => { let a = self.c(s[0]); go!(s, { for t in a { eat(t) } Out::Nil }) }
            "clone" => {
                let a = self.c(s[0]);
                let r = self.call(op, &[], par, || Out::Cs(vec![a.clone()]));
                self.done(r, keep);
                self.slot[s[0] - 1] = Slot::C(a);
            }
            "iszero" => look!(|a: &C| a.is_zero()),
            "fmt" => look!(|a: &C| if how % 2 == 0 { format!("{:?}", a) } else { format!("{}", a) }),
            "view" => look!(C::look),
            "mutate" => {
                let mut a = self.c(s[0]);
                let r = self.call(op, s, par, || { a.mutate(how % 2 == 0); Out::Nil });
                self.flush();
                let ids = a.ids();
                self.ret(s[0], &ids);
                self.done(r, keep);
                self.slot[s[0] - 1] = Slot::C(a);
            }
            "tr" => { let a = self.c(s[0]); go!(s, Out::T(a.tr())) }
            "it" => { let a = self.c(s[0]); let ids = a.ids(); go!(s, Out::I(a.into_iter(), ids)) }
            "drop" => { let x = std::mem::replace(&mut self.slot[s[0] - 1], Slot::Gone); self.discard(s[0], x) }
            "zip" => two!(|a: C, b| Out::P(a.zip_(b))),
            "add" => two_c!(|a, b| a + b),
            "sub" => two_c!(|a, b| a - b),
            "mul" => two_c!(|a, b| a * b),
            "div" => two_c!(|a, b| a / b),
            "rem" => two_c!(|a, b| a % b),
            "and" => two_c!(|a, b| a & b),
            "or" => two_c!(|a, b| a | b),
            "xor" => two_c!(|a, b| a ^ b),
            "divfloor" => two_c!(C::divf),
            "modfloor" => two_c!(C::modf),
            "divmod" => two!(|a: C, b| { let (x, y) = a.divmodf(b); Out::Cs(vec![x, y]) }),
            "dot" => if n > 0 { two!(|a: C, b| Out::Toks(a.dot_(b).into_iter().collect())) },
            "veq" => two!(|a: C, b| { a.veq_(b, how % 2); Out::Nil }),
            "vlt" => two!(|a: C, b| { a.veq_(b, how % 4 + 2); Out::Nil }),
            "sumiter" => two!(|a: C, b| { let c: C = vec![a, b].into_iter().sum(); Out::Cs(vec![c]) }),
            "prod" => two!(|a: C, b| { let c: C = [a, b].into_iter().product(); Out::Cs(vec![c]) }),
            "add=" => assign!(+=),
            "sub=" => assign!(-=),
            "mul=" => assign!(*=),
            "div=" => assign!(/=),
            "rem=" => assign!(%=),
            "and=" => assign!(&=),
            "or=" => assign!(|=),
            "xor=" => assign!(^=),
            "eq" => {
                let (a, b) = (self.c(s[0]), self.c(s[1]));
                let r = self.call(op, &[], par, || { let _ = a == b; let _ = a != b; Out::Nil });
                self.done(r, keep);
                self.slot[s[0] - 1] = Slot::C(a);
                self.slot[s[1] - 1] = Slot::C(b);
            }
            "trback" => {
                let Slot::T(t) = std::mem::replace(&mut self.slot[s[0] - 1], Slot::Gone) else { panic!("scenario does not fit: {} {:?}", op, s) };
                go!(s, Out::Cs(vec![C::back(t)]))
            }
            "unzip" => {
                let Slot::P(t) = std::mem::replace(&mut self.slot[s[0] - 1], Slot::Gone) else { panic!("scenario does not fit: {} {:?}", op, s) };
                go!(s, { let (a, b) = C::unzip_(t); Out::Cs(vec![a, b]) })
            }
            "mappair" => {
                let Slot::P(t) = std::mem::replace(&mut self.slot[s[0] - 1], Slot::Gone) else { panic!("scenario does not fit: {} {:?}", op, s) };
                go!(s, Out::Cs(vec![C::mappair(t)]))
            }
            "next" | "nth" => {
                let Slot::I(mut it, ids) = std::mem::replace(&mut self.slot[s[0] - 1], Slot::Gone) else { panic!("scenario does not fit: {} {:?}", op, s) };
                let nth = op == "nth";
                let r = self.call(op, s, par, || Out::Toks(if nth { it.nth(1) } else { it.next() }.into_iter().collect()));
                let Some(Out::Toks(t)) = r else { self.done(None, keep); return };
                let got = t.len();
                let t: Vec<Tok> = t.into_iter().map(|t| t.take()).collect();
                drop(t);
                let log = self.flush();
                let left: Vec<i64> = ids.iter().copied().filter(|i| !log.contains(&(2, *i))).collect();
                // the outcome must be the right number of steps, too
                let steps = if nth { 2 } else { 1 };
                if got != (ids.len() >= steps) as usize || left.len() != ids.len().saturating_sub(steps) {
                    self.rec.raw("[11,\"wrong number of items\",[]]");
                }
                self.ret(s[0], &left);
                self.done(Some(Out::Nil), keep);
                self.slot[s[0] - 1] = Slot::I(it, left);
            }
            "rest" => {
                let Slot::I(it, _) = std::mem::replace(&mut self.slot[s[0] - 1], Slot::Gone) else { panic!("scenario does not fit: {} {:?}", op, s) };
                go!(s, Out::Toks(it.collect()))
            }
            "recollect" => {
                let Slot::I(it, _) = std::mem::replace(&mut self.slot[s[0] - 1], Slot::Gone) else { panic!("scenario does not fit: {} {:?}", op, s) };
                let r = self.call(op, s, par, || Out::Cs(C::from_it(it).into_iter().collect()));
                self.done(r, false);
            }
            o => panic!("unknown operation {}", o),
        }
    }
}
fn start(rec: &mut Rec) {
    rec.prog("[]");
    NEXT.with(|n| n.set(1));
    LOG.with(|l| l.borrow_mut().clear());
}
fn end(rec: &mut Rec) { rec.raw("[10,0,[]]") }
/// `mid` says which callback is the one in the middle.
fn run<C: Tc>(rec: &mut Rec, mid: u32, scn: &[(String, Vec<usize>, u8)]) {
    let n = C::N as u32;
    // the single calls are made with every position (of large containers some)
    let few = |m: &u32| n <= 10 || [2, 3, 4, 6, 7, 8, 10, 12, 16, 24, 32, 64].contains(m) || m + 3 > n;
    if mid == ALL {
        if scn.iter().any(|x| x.2 == 2) { for m in (1..n.saturating_sub(1)).filter(few) { run::<C>(rec, m, scn) } }
        return run::<C>(rec, n / 2, scn);
    }
    start(rec);
    let mut r = Run::<C> { rec, slot: Vec::new(), temp: 0, mid };
    for _ in 0..2 {
        let x = r.call("init", &[], 0, || Out::Cs(vec![C::make()]));
        r.done(x, true);
    }
    for (op, s, par) in scn { r.step(op, s, *par) }
    for i in 0..r.slot.len() {
        let s = std::mem::replace(&mut r.slot[i], Slot::Gone);
        if !matches!(s, Slot::Gone) { r.discard(i + 1, s) }
    }
    end(rec);
}
/// A public flattening iterator over containers, abandoned after `take` items.
fn flat<const N: usize>(rec: &mut Rec, outer: usize, take: usize, par: u8) {
    start(rec);
    let mut r = Run::<Vector<Tok, 1>> { rec, slot: Vec::new(), temp: 0, mid: 0 };
    let x = r.call("flat", &[], par, || {
        let vs: Vec<Vector<Tok, N>> = (0..outer).map(|_| Vector::init(make)).collect();
        let mut got = Vec::new();
        if let Some(mut it) = FlatIter::new(vs.into_iter()) {
            for _ in 0..take { enter(); got.extend(it.next()); }
        }
        Out::Toks(got)
    });
    r.done(x, true);
    end(rec);
}
/// Elements that own nothing, one or two of the counted ones, at any place and of any size.
trait Mx: Sized + 'static {
    fn raw() -> Self;
    fn each(&self, k: u8);
    fn mk() -> Self { enter(); let e = Self::raw(); leave(); e.gave() }
    fn gave(self) -> Self { self.each(4); self }
    fn took(self) -> Self { self.each(5); self }
}
impl Mx for Tok { fn raw() -> Tok { Tok::new() } fn each(&self, k: u8) { log(k, self.id()) } }
impl Mx for () { fn raw() {} fn each(&self, _: u8) {} }
impl Mx for u8 { fn raw() -> u8 { 7 } fn each(&self, _: u8) {} }
impl Mx for [u64; 3] { fn raw() -> Self { [7; 3] } fn each(&self, _: u8) {} }
impl Mx for Box<Tok> { fn raw() -> Self { Box::new(Tok::new()) } fn each(&self, k: u8) { (**self).each(k) } }
impl Mx for Option<Tok> { fn raw() -> Self { Some(Tok::new()) } fn each(&self, k: u8) { if let Some(t) = self { t.each(k) } } }
impl<A: Mx, B: Mx> Mx for (A, B) { fn raw() -> Self { (A::raw(), B::raw()) } fn each(&self, k: u8) { self.0.each(k); self.1.each(k) } }
thread_local! { static ZS: RefCell<std::collections::VecDeque<i64>> = const { RefCell::new(std::collections::VecDeque::new()) }; }
/// Without a size there is no room for an identity: the oldest one dies.
struct Zst;
impl Mx for Zst {
    fn raw() -> Zst {
        let id = NEXT.with(|n| { n.set(n.get() + 1); n.get() - 1 }) as i64;
        log(1, id);
        log(4, id);
        ZS.with(|z| z.borrow_mut().push_back(id));
        Zst
    }
    fn each(&self, _: u8) {}
}
impl Drop for Zst { fn drop(&mut self) { log(2, ZS.with(|z| z.borrow_mut().pop_front()).unwrap_or(-1)) } }

mod mix {
use super::*;
use vharness::ct::Ct;
/// A few whole lives of containers, from birth to death inside one call, with elements of two types.
pub fn mixed<C: Ct, A: Mx, B: Mx>(rec: &mut Rec, par: u8) {
    fn to<X: Mx, Y: Mx>(x: X) -> Y { let _x = x.took(); Y::mk() }
    fn eat<X: Mx>(x: X) { let _x = x.took(); enter(); leave(); }
    fn see<C: Ct, X: Mx>(c: &C::Of<X>) { for x in C::it(c) { x.each(3) } }
    let n = C::cells();
    for op in 0..16 {
        start(rec);
        ZS.with(|z| z.borrow_mut().clear());
        let mut r = Run::<Vector<Tok, 1>> { rec, slot: Vec::new(), temp: 0, mid: 0 };
        r.rec.raw(&format!("[6,\"mixed\",[]]"));
        SEEN.with(|s| s.set(0));
        let k = match par { 0 => 0, 1 => 1, 2 => n / 2 + 1, 3 => n, 4 => n + n / 2 + 1, 5 => 2 * n, _ => 2 * n + n / 2 + 1 };
        PLAN.with(|p| p.set((k as u32, par % 2 == 0)));
        let x = r.rec.guarded("[11,\"never returned\",[]]", || {
            let make = || C::init(A::mk);
            match op {
                0 => { let c = C::init(<(A, B)>::mk); let (a, b) = C::unzip(c); see::<C, A>(&a); see::<C, B>(&b); }
                1 => { let c = C::init(<(A, B)>::mk); let (a, b) = C::unzip(c); drop(a); see::<C, B>(&b); C::for_each(b, eat); }
                2 => { let c = C::zip(make(), C::init(B::mk)); see::<C, (A, B)>(&c); C::for_each(c, eat); }
                3 => { let c = C::zip(make(), C::init(B::mk)); let (a, b) = C::unzip(c); drop(C::zip::<B, A>(b, a)); }
                4 => { let c = C::map(make(), to::<A, B>); see::<C, B>(&c); }
                5 => { let c = C::map(C::map(make(), to::<A, B>), to::<B, A>); see::<C, A>(&c); }
                6 => { let mut s = B::mk().took(); let c = C::scan(make(), B::raw().gave(), |z, a| { z.each(3); s.each(3); s = B::raw(); to::<A, B>(a) }); drop(s); see::<C, B>(&c); }
                7 => { let mut v: Vec<A> = C::fold(make(), Vec::new(), |mut v, a| { enter(); v.push(a); v }); v.pop(); drop(v); }
                8 => { let b = C::fold(make(), B::mk(), |b, a| { b.took(); to::<A, B>(a) }); drop(b); }
                9 => { let mut i = C::into_it(C::zip(make(), C::init(B::mk))); if let Some(x) = i.next() { eat(x) } drop(i.nth(1)); }
                10 => { let mut i = C::into_it(C::init(<(B, A)>::mk)); drop(i.next()); enter(); let rest: Vec<_> = i.collect(); drop(rest); }
                11 => { let mut j = 0; drop(C::try_from_iter(std::iter::from_fn(|| { j += 1; if j < n { Some(<(A, B)>::mk()) } else { None } }))); }
                12 => { let mut c = make(); for x in C::it_mut(&mut c) { let y = A::mk(); drop(std::mem::replace(x, y)) } see::<C, A>(&c); }
                13 => { let c = C::fold_first(C::init(<(A, B)>::mk), |(a, _b), (c, d)| { enter(); drop(a); drop(d); (c, B::mk()) }); drop(c); }
                14 => if let Some(c) = C::enumerate(make()) { for (i, (j, x)) in C::it(&c).enumerate() { assert!(i == *j); x.each(3) } },
                _ => { let c: Vec<Vec<A>> = (0..3).map(|_| (0..n).map(|_| A::mk()).collect()).collect();
                       if let Some(mut i) = FlatIter::new(c.into_iter()) { let _ = i.next(); enter(); let _ = i.nth(n); } }
            }
            Out::<Vector<Tok, 1>>::Nil
        });
        PLAN.with(|p| p.set((0, false)));
        r.done(if n == 0 && op == 13 { None } else { x.ok() }, true);
        end(r.rec);
    }
}
}
use mix::mixed;
/// Numbers and transformations hold their components like containers do: whole lives of them, one call each.
fn composite(rec: &mut Rec, par: u8) {
    macro_rules! life { ($($e:expr;)*) => { $( {
        start(rec);
        let mut r = Run::<Vector<Tok, 1>> { rec, slot: Vec::new(), temp: 0, mid: 0 };
        r.rec.raw("[6,\"composite\",[]]");
        SEEN.with(|s| s.set(0));
        PLAN.with(|p| p.set(match par { 0 => (0, false), k => ((k as u32 + 1) / 2, k % 2 == 0) }));
        let x = r.rec.guarded("[11,\"never returned\",[]]", || { let v: Vec<Tok> = { $e }; Out::<Vector<Tok, 1>>::Toks(v) });
        PLAN.with(|p| p.set((0, false)));
        r.done(x.ok(), true);
        end(r.rec);
    } )* } }
    let c = || Complex::new(make(), make());
    let q = || Quaternion::new(make(), make(), make(), make());
    let v2 = || Vector::<Tok, 2>::init(make);
    let v3 = || Vector::<Tok, 3>::init(make);
    let m2 = || Matrix::<Tok, 2, 2>::init(make);
    let mo = || Moebius::new(make(), make(), make(), make());
    fn cv(c: Complex<Tok>) -> Vec<Tok> { c.into_array().into() }
    fn qv(q: Quaternion<Tok>) -> Vec<Tok> { q.into_array().into() }
    fn m(x: Matrix<Tok, 2, 2>) -> Vec<Tok> { x.into_iter().collect() }
    fn mv(x: Moebius<Tok>) -> Vec<Tok> { m(x.into_matrix()) }
    fn t2((a, b): (Tok, Tok)) -> Vec<Tok> { vec![a, b] }
    fn t4((a, b, c, d): (Tok, Tok, Tok, Tok)) -> Vec<Tok> { vec![a, b, c, d] }
    life! {
        cv(c());
        t2(c().into_tuple());
        c().into_vector().into_iter().collect();
        { let n = c().into_num(); let n = Complex::from_num(n); cv(n) };
        cv(Complex::from(num_complex::Complex::<Tok>::from(c())));
        cv(Complex::from(<(Tok, Tok)>::from(c())));
        cv(Complex::from(<[Tok; 2]>::from(c())));
        cv(Complex::from(Vector::<Tok, 2>::from(c())));
        cv(Complex::from_tuple((make(), make())));
        cv(Complex::from_vector(v2()));
        cv(c().conj());
        cv(Conj::conj(c()));
        cv(-c());
        cv(c() + c());
        cv(c() - c());
        cv(c() + make());
        cv(c() - make());
        { let mut a = c(); a += c(); a -= c(); cv(a) };
        { let mut a = c(); a += make(); a -= make(); cv(a) };
        { let z = Complex::<Tok>::zero(); let _ = z.is_zero(); cv(z) };
        { let a = Complex::<Tok>::i(); a.re_ref().used(); a.im_ref().used(); cv(a) };
        { let mut a = Complex::<Tok>::default(); swap_in(a.re_mut()); swap_in(a.im_mut()); cv(a) };
        { let a = c(); let b = a.clone(); let _ = a == b; cv(b) };
        { let a = c(); let _ = format!("{} {:?}", a, a); drop(a); vec![] };
        { let s: Complex<Tok> = [c(), c(), c()].into_iter().sum(); cv(s) };
        vec![c().dot(c())];
        qv(q());
        t4(q().into_tuple());
        q().into_vector().into_iter().collect();
        { let (w, v) = q().into_scalar_and_vector3(); let mut o: Vec<Tok> = v.into_iter().collect(); o.push(w); o };
        { let (w, v): (Tok, Vector<Tok, 3>) = q().into(); qv(Quaternion::from((w, v))) };
        { let (w, v): (Tok, Vector<Tok, 3>) = q().into(); drop(v); vec![w] };
        { let (w, v): (Tok, Vector<Tok, 3>) = q().into(); drop(w); v.into_iter().take(2).collect() };
        qv(Quaternion::from_scalar_and_vector3(make(), v3()));
        qv(Quaternion::from(<(Tok, Tok, Tok, Tok)>::from(q())));
        qv(Quaternion::from(<[Tok; 4]>::from(q())));
        qv(Quaternion::from(Vector::<Tok, 4>::from(q())));
        qv(Quaternion::from_tuple((make(), make(), make(), make())));
        qv(q().conj());
        qv(Conj::conj(q()));
        qv(-q());
        qv(q() + q());
        qv(q() - q());
        qv(q() + c());
        qv(q() - c());
        qv(q() + make());
        qv(q() - make());
        { let mut a = q(); a += q(); a -= q(); qv(a) };
        { let mut a = q(); a += c(); a -= c(); qv(a) };
        { let mut a = q(); a += make(); a -= make(); qv(a) };
        { let z = Quaternion::<Tok>::zero(); let _ = z.is_zero(); qv(z) };
        { let a = Quaternion::<Tok>::i(); for t in [a.w_ref(), a.x_ref(), a.y_ref(), a.z_ref()] { t.used() } qv(a) };
        { drop(Quaternion::<Tok>::j()); qv(Quaternion::k()) };
        { let mut a = Quaternion::<Tok>::default(); swap_in(a.w_mut()); swap_in(a.x_mut()); swap_in(a.y_mut()); swap_in(a.z_mut()); qv(a) };
        { let a = q(); let b = a.clone(); let _ = a == b; drop(a); qv(b) };
        { let a = q(); let _ = format!("{} {:?}", a, a); drop(a); vec![] };
        { let s: Quaternion<Tok> = [q(), q()].into_iter().sum(); qv(s) };
        vec![q().dot(q())];
        mv(mo());
        t4(mo().into_tuple());
        mo().into_array().into_iter().flatten().collect();
        mv(Moebius::from_matrix(m2()));
        mv(Moebius::from(Matrix::<Tok, 2, 2>::from(mo())));
        mv(Moebius::from(<[[Tok; 2]; 2]>::from(mo())));
        mv(Moebius::from_array([[make(), make()], [make(), make()]]));
        mv(Moebius::from_tuple((make(), make(), make(), make())));
        mv(Moebius::identity());
        { let a = mo(); for t in [a.a_ref(), a.b_ref(), a.c_ref(), a.d_ref()] { t.used() } let b = a.clone(); let _ = a == b; mv(a) };
        { let mut a = mo(); swap_in(a.a_mut()); swap_in(a.b_mut()); swap_in(a.c_mut()); swap_in(a.d_mut()); mv(a) };
        { let mut a = mo(); for r in a.as_mut_array_of_arrays() { for t in r { swap_in(t) } } for t in a.as_mut_matrix().iter_mut() { swap_in(t) } for t in a.as_matrix().iter() { t.used() } mv(a) };
        m(Linear::from_matrix(m2()).into_matrix());
        m(Matrix::from(Linear::from(m2())));
        Shift::from_vector(v2()).into_vector().into_iter().collect();
        Vector::from(Shift::from(v3())).into_iter().collect();
        vec![Scale::from_mag(make()).into_mag()];
        vec![Scale::from(make()).into_mag()];
        cv(Rotation2::from_complex(c()).into_complex());
        cv(Complex::from(Rotation2::from(c())));
        qv(Rotation3::from_quaternion(q()).into_quaternion());
        qv(Quaternion::from(Rotation3::from(q())));
        { let (a, b) = Chain::<_, _, ()>::new(Shift::from(v2()), Linear::from(m2())).split(); drop(a); m(b.into()) };
        { let (a, b) = <(Shift<Tok, 2>, Scale<Tok>)>::from(Chain::<_, _, ()>::from((Shift::from(v2()), Scale::from(make())))); drop(b); a.into_vector().into_iter().collect() };
        { let mut x = Chain::<_, _, ()>::new(Scale::from(make()), Shift::from(v2())); *x.outer_mut() = Scale::from(make()); *x.inner_mut() = Shift::from(v2()); drop(x); vec![] };
        { let x = Chain::<_, _, ()>::new(Scale::from(make()), Shift::from(v2())); let y = x.clone(); let _ = x == y; drop(x); vec![y.split().0.into_mag()] };
        m(Matrix::diagonal(v2()));
        Matrix::diagonal(v3()).into_iter().collect();
        Matrix::<Tok, 1, 1>::diagonal(Vector::init(make)).into_iter().collect();
        Matrix::<Tok, 0, 0>::diagonal(Vector::init(make)).into_iter().collect();
        Matrix::<Tok, 3, 3>::one().into_iter().collect();
    }
}
/// Containers of more elements than a byte counts: a few whole lives, one call each.
fn huge(rec: &mut Rec) {
    const N: usize = 261;
    macro_rules! life { ($($par:expr => $e:expr;)*) => { $( {
        start(rec);
        let mut r = Run::<Vector<Tok, 1>> { rec, slot: Vec::new(), temp: 0, mid: 0 };
        r.rec.raw("[6,\"huge\",[]]");
        SEEN.with(|s| s.set(0));
        PLAN.with(|p| p.set($par));
        let x = r.rec.guarded("[11,\"never returned\",[]]", || { let v: Vec<Tok> = { $e }; Out::<Vector<Tok, 1>>::Toks(v) });
        PLAN.with(|p| p.set((0, false)));
        r.done(x.ok(), true);
        end(r.rec);
    } )* } }
    fn some(n: usize) -> impl Iterator<Item = Tok> { let mut j = 0; std::iter::from_fn(move || { j += 1; if j <= n { Some(make()) } else { None } }) }
    type V = Vector<Tok, N>;
    type M = Matrix<Tok, 29, 9>;
    fn one(x: Tok) -> Tok { x.used(); let _x = x; make() }
    fn v<const K: usize>(x: Vector<Tok, K>) -> Vec<Tok> { x.into_iter().take(3).collect() }
    fn m<const J: usize, const K: usize>(x: Matrix<Tok, J, K>) -> Vec<Tok> { x.into_iter().take(3).collect() }
    let z = (0, false);
    life! {
        z => { drop(V::try_from_iter(some(N - 1))); vec![] };
        z => { drop(V::try_from_iter(some(257))); vec![] };
        z => { drop(V::try_from_iter(some(256))); vec![] };
        z => { drop(V::try_from_iter(some(130))); vec![] };
        z => V::try_from_iter(some(N + 2)).map_or(vec![], v);
        z => { drop(M::try_from_iter(some(N - 1))); vec![] };
        z => M::try_from_iter(some(N)).map_or(vec![], m);
        (N as u32 - 1, false) => { drop(V::try_from_iter(some(N))); vec![] };
        (258, true) => v(V::init(make));
        (258, true) => m(M::init(make));
        (N as u32 + 257, true) => v(V::init(make).map(one));
        z => v(V::init(make).map(one));
        (N as u32 + 258, false) => m(M::init(make).map(one));
        z => { let (a, b) = Vector::<(Tok, Tok), N>::init(|| (make(), make())).unzip(); drop(a); v(b) };
        z => { let (a, b) = V::init(make).zip(V::init(make)).unzip(); drop(b); v(a) };
        z => { let (a, b) = M::init(make).zip(M::init(make)).unzip(); drop(a); m(b) };
        z => m(M::init(make).transpose());
        z => { let mut i = V::init(make).into_iter(); drop(i.nth(256)); i.collect() };
        z => { let mut i = M::init(make).into_iter(); drop(i.nth(256)); i.collect() };
        z => { let mut i = GroupIter::<_, 70>::new(some(N - 1)); let mut o = vec![]; while let Some(x) = i.next() { o.extend(x.into_iter().skip(69)) } o };
    }
}
fn parse(line: &str) -> Vec<(String, Vec<usize>, u8)> {
    // [["op",[1,2],0],...]
    let mut out = Vec::new();
    for part in line.split("[\"").skip(1) {
        let (op, rest) = part.split_once('"').unwrap();
        let rest = rest.trim_start_matches(',').trim_start_matches('[');
        let (l, rest) = rest.split_once(']').unwrap();
        let par = rest.trim_start_matches(',').split(']').next().unwrap().parse().unwrap();
        out.push((op.to_string(), l.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(), par));
    }
    out
}
fn main() {
    let a = args();
    let mut rec = Rec::new("C01", &a.out);
    let mut rng = Rng::new(a.seed);
    let text = std::fs::read_to_string(a.scen.expect("scenarios")).unwrap();
    type V<const N: usize> = Vector<Tok, N>;
    type M<const J: usize, const K: usize> = Matrix<Tok, J, K>;
    let shapes: [fn(&mut Rec, u32, &[(String, Vec<usize>, u8)]); 24] = [
        run::<V<0>>, run::<V<1>>, run::<V<2>>, run::<V<3>>, run::<V<4>>, run::<V<5>>, run::<M<1, 1>>, run::<M<1, 3>>, run::<M<3, 1>>,
        run::<M<2, 2>>, run::<M<2, 3>>, run::<M<3, 2>>, run::<M<3, 3>>, run::<M<2, 0>>, run::<M<0, 2>>, run::<M<2, 4>>,
        run::<V<7>>, run::<V<9>>, run::<V<17>>, run::<M<4, 4>>, run::<M<3, 5>>, run::<M<7, 2>>,
        run::<V<67>>, run::<M<6, 11>>,
    ];
    for line in text.lines().filter(|l| !l.is_empty()) {
        let scn = parse(line);
        if scn.len() == 1 {
            for f in &shapes { f(&mut rec, ALL, &scn) }
        } else {
            for _ in 0..if scn.len() > 2 { a.scale } else { 1 } { {
                let i = if rng.chance(1, 60) { 22 + rng.below(2) } else { rng.below(22) };
                shapes[i](&mut rec, rng.below(67) as u32, &scn)
            } }
        }
    }
    for outer in 0..4 {
        for par in 0..5 {
            for take in 0..8 {
                flat::<0>(&mut rec, outer, take, par);
                flat::<1>(&mut rec, outer, take, par);
                flat::<2>(&mut rec, outer, take, par);
                flat::<3>(&mut rec, outer, take, par);
            }
        }
    }
    for par in 0..12 { composite(&mut rec, par) }
    huge(&mut rec);
    macro_rules! mix { ($($C:ty),*) => { for par in 0..7 { $(
        mixed::<$C, Tok, u8>(&mut rec, par);
        mixed::<$C, u8, Tok>(&mut rec, par);
        mixed::<$C, Tok, [u64; 3]>(&mut rec, par);
        mixed::<$C, (Tok, Tok), ()>(&mut rec, par);
        mixed::<$C, Box<Tok>, (u8, Tok)>(&mut rec, par);
        mixed::<$C, Option<Tok>, Box<Tok>>(&mut rec, par);
        mixed::<$C, Zst, Tok>(&mut rec, par);
        mixed::<$C, Zst, u8>(&mut rec, par);
        mixed::<$C, (), Zst>(&mut rec, par);
    )* } } }
    mix!(Vector<(), 0>, Vector<(), 1>, Vector<(), 2>, Vector<(), 5>, Matrix<(), 2, 2>, Matrix<(), 2, 3>, Matrix<(), 3, 1>, Matrix<(), 0, 2>, Vector<(), 8>, Vector<(), 17>, Matrix<(), 4, 4>, Matrix<(), 5, 3>);
    rec.finish();
}
