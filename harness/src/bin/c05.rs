//! C05: operators act on each component.
use num_integer::Integer;
use std::ops::*;
use vecmat::{Matrix, Vector};
use vharness::*;

macro_rules! two { ($rec:ident, $k:expr, $a:ident $ra:ident, $b:ident $rb:ident; $($name:literal $op:tt;)*) => {$(
    $rec.try_op(concat!("e.", $name), $k, &[$ra, $rb], || $a $op $b);
)*} }
macro_rules! assign { ($rec:ident, $k:expr, $a:ident, $b:ident $rb:ident; $($name:literal $op:tt;)*) => {$(
    let mut x = $a;
    let rx = $rec.load(&x);
    if $rec.try_op_to(rx, concat!("e.", $name), $k, &[rx, $rb], || { x $op $b; x }).is_some() {
        // once more on top of the result
        $rec.try_op_to(rx, concat!("e.", $name), $k, &[rx, $rb], || { x $op $b; x });
    }
)*} }

pub fn ring<T, C>(rec: &mut Rec, lane: &str, g: &mut dyn FnMut() -> T)
where
    T: J + Copy,
    C: Cont<T> + Copy + Add<Output = C> + Sub<Output = C> + Mul<Output = C> + Mul<T, Output = C> + Neg<Output = C>
        + AddAssign + SubAssign + MulAssign + MulAssign<T>,
{
    rec.prog(lane);
    let k = &C::RANK.to_string();
    let (a, b, s) = (C::gen(g), C::gen(g), g());
    let (ra, rb, rs) = (rec.load(&a), rec.load(&b), rec.load(&s));
    rec.try_op("e.neg", k, &[ra], || -a);
    two! { rec, k, a ra, b rb; "add" +; "sub" -; "mul" *; }
    two! { rec, k, a ra, s rs; "muls" *; }
    assign! { rec, k, a, b rb; "add" +=; "sub" -=; "mul" *=; }
    assign! { rec, k, a, s rs; "muls" *=; }
}
pub fn uring<T, C>(rec: &mut Rec, lane: &str, g: &mut dyn FnMut() -> T)
where
    T: J + Copy,
    C: Cont<T> + Copy + Add<Output = C> + Sub<Output = C> + Mul<Output = C> + Mul<T, Output = C>
        + AddAssign + SubAssign + MulAssign + MulAssign<T>,
{
    rec.prog(lane);
    let k = &C::RANK.to_string();
    let (a, b, s) = (C::gen(g), C::gen(g), g());
    let (ra, rb, rs) = (rec.load(&a), rec.load(&b), rec.load(&s));
    two! { rec, k, a ra, b rb; "add" +; "sub" -; "mul" *; }
    two! { rec, k, a ra, s rs; "muls" *; }
    assign! { rec, k, a, b rb; "add" +=; "sub" -=; "mul" *=; }
    assign! { rec, k, a, s rs; "muls" *=; }
}
pub fn divs<T, C>(rec: &mut Rec, lane: &str, rem: bool, ga: &mut dyn FnMut() -> T, gb: &mut dyn FnMut() -> T)
where
    T: J + Copy,
    C: Cont<T> + Copy + Div<Output = C> + Rem<Output = C> + Div<T, Output = C> + Rem<T, Output = C>
        + DivAssign + RemAssign + DivAssign<T> + RemAssign<T>,
{
    rec.prog(lane);
    let k = &C::RANK.to_string();
    let (a, b, s) = (C::gen(ga), C::gen(gb), gb());
    let (ra, rb, rs) = (rec.load(&a), rec.load(&b), rec.load(&s));
    if rem {
        two! { rec, k, a ra, b rb; "rem" %; }
        two! { rec, k, a ra, s rs; "rems" %; }
        assign! { rec, k, a, b rb; "rem" %=; }
        assign! { rec, k, a, s rs; "rems" %=; }
    } else {
        two! { rec, k, a ra, b rb; "div" /; }
        two! { rec, k, a ra, s rs; "divs" /; }
        let mut x = a;
        let rx = rec.load(&x);
        rec.try_op_to(rx, "e.div", k, &[rx, rb], || { x /= b; x });
        let mut x = a;
        let rx = rec.load(&x);
        rec.try_op_to(rx, "e.divs", k, &[rx, rs], || { x /= s; x });
    }
}
pub fn bits<T, C>(rec: &mut Rec, lane: &str, g: &mut dyn FnMut() -> T)
where
    T: J + Copy,
    C: Cont<T> + Copy + Not<Output = C> + BitAnd<Output = C> + BitOr<Output = C> + BitXor<Output = C>
        + BitAndAssign + BitOrAssign + BitXorAssign,
{
    rec.prog(lane);
    let k = &C::RANK.to_string();
    let (a, b) = (C::gen(g), C::gen(g));
    let (ra, rb) = (rec.load(&a), rec.load(&b));
    rec.try_op("e.not", k, &[ra], || !a);
    two! { rec, k, a ra, b rb; "and" &; "or" |; "xor" ^; }
    assign! { rec, k, a, b rb; "and" &=; "or" |=; "xor" ^=; }
}
macro_rules! cmp_fn { ($name:ident, [$($P:tt)*], $C:ty) => {
    pub fn $name<T: Plain + Copy + PartialOrd, $($P)*>(rec: &mut Rec, lane: &str, g: &mut dyn FnMut() -> T) {
        rec.prog(lane);
        let k = &<$C as Cont<T>>::RANK.to_string();
        let (a, b) = (<$C>::gen(g), <$C>::gen(g));
        let (ra, rb) = (rec.load(&a), rec.load(&b));
        macro_rules! c { ($n:literal $f:ident) => {
            if let Some((rr, r)) = rec.try_op(concat!("e.", $n), k, &[ra, rb], || a.$f(b)) {
                rec.try_op("e.any", k, &[rr], || r.any());
                rec.try_op("e.all", k, &[rr], || r.all());
            }
            rec.try_op(concat!("e.", $n), k, &[ra, ra], || a.$f(a));
        } }
        c!("veq" veq); c!("vne" vne); c!("vlt" vlt); c!("vle" vle); c!("vgt" vgt); c!("vge" vge);
    }
} }
cmp_fn!(cmp_v, [const N: usize], Vector<T, N>);
cmp_fn!(cmp_m, [const M: usize, const N: usize], Matrix<T, M, N>);
/// Sets of three, ordered by inclusion.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
struct Bits(u8);
impl J for Bits { fn j(&self, o: &mut String) { self.0.j(o) } }
impl PartialOrd for Bits {
    fn partial_cmp(&self, o: &Bits) -> Option<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        match (self.0 & o.0 == self.0, self.0 & o.0 == o.0) { (true, true) => Some(Equal), (true, _) => Some(Less), (_, true) => Some(Greater), _ => None }
    }
}
macro_rules! int_fn { ($name:ident, [$($P:tt)*], $C:ty) => {
    pub fn $name<T: Plain + Copy + std::fmt::Display + Integer + num_traits::NumAssignOps, $($P)*>(rec: &mut Rec, lane: &str, g: &mut dyn FnMut() -> T, gb: &mut dyn FnMut() -> T) {
        rec.prog(lane);
        let k = &<$C as Cont<T>>::RANK.to_string();
        let (a, b) = (<$C>::gen(g), <$C>::gen(gb));
        let (ra, rb) = (rec.load(&a), rec.load(&b));
        rec.try_op("e.divf", k, &[ra, rb], || a.div_floor(b));
        rec.try_op("e.modf", k, &[ra, rb], || a.mod_floor(b));
        rec.try_op("e.divmodf", k, &[ra, rb], || a.div_mod_floor(b));
    }
} }
int_fn!(int_v, [const N: usize], Vector<T, N>);
int_fn!(int_m, [const M: usize, const N: usize], Matrix<T, M, N>);
macro_rules! bool_fn { ($name:ident, [$($P:tt)*], $C:ty) => {
    pub fn $name<$($P)*>(rec: &mut Rec, rng: &mut Rng, reps: usize) {
        let k = &<$C as Cont<bool>>::RANK.to_string();
        // all-but-one patterns are where a wrong reduction shows
        for i in 0..reps + 24 {
            rec.prog("[\"b\"]");
            let n = std::cell::Cell::new(0);
            let a = <$C>::gen(&mut || { let j = n.get(); n.set(j + 1); if i < 12 { j != i } else if i < 24 { j + 12 == i } else { rng.chance(1, 2) } });
            let ra = rec.load(&a);
            rec.try_op("e.any", k, &[ra], || a.any());
            rec.try_op("e.all", k, &[ra], || a.all());
        }
    }
} }
bool_fn!(bool_v, [const N: usize], Vector<bool, N>);
bool_fn!(bool_m, [const M: usize, const N: usize], Matrix<bool, M, N>);

macro_rules! smul { ($rec:ident, $rng:ident, $lane:expr, $lo:expr, $hi:expr; $($T:ident)*) => {$(
    smul!(@ $rec, $rng, $lane, $lo, $hi, $T, 1); smul!(@ $rec, $rng, $lane, $lo, $hi, $T, 2); smul!(@ $rec, $rng, $lane, $lo, $hi, $T, 3);
    smul!(@ $rec, $rng, $lane, $lo, $hi, $T, 4); smul!(@ $rec, $rng, $lane, $lo, $hi, $T, 6);
)*};
(@ $rec:ident, $rng:ident, $lane:expr, $lo:expr, $hi:expr, $T:ident, $N:literal) => {
    $rec.prog($lane);
    let v = Vector::<$T, $N>::gen(&mut || $rng.range($lo, $hi) as $T);
    let s = $rng.range($lo, $hi) as $T;
    let (rv, rs) = ($rec.load(&v), $rec.load(&s));
    $rec.try_op("e.smul", "1", &[rs, rv], || s * v);
} }

fn main() {
    let a = args();
    let mut rec = Rec::new("C05", &a.out);
    let rec = &mut rec;
    let mut rng = Rng::new(a.seed);
    let rng = &mut rng;
    const I32: &str = "[\"z\",-1000000000,1000000000]";
    const U32: &str = "[\"z\",0,1000000000]";
    const I8: &str = "[\"z\",-128,127]";
    const U8: &str = "[\"z\",0,255]";
    macro_rules! m { ($T:ty, $C:ty) => {
        reset_terms();
        let mut n = 0;
        ring::<$T, $C>(rec, "[\"t\"]", &mut || { n += 1; sym(&format!("x{}", n)) });
        let mut n2 = 100;
        divs::<$T, $C>(rec, "[\"t\"]", true, &mut || { n += 1; sym(&format!("x{}", n)) }, &mut || { n2 += 1; sym(&format!("y{}", n2)) });
        bits::<$T, $C>(rec, "[\"t\"]", &mut || { n += 1; sym(&format!("x{}", n)) });
    } }
    big_shapes!(Sym; m);
    macro_rules! c { ($N:literal; $M:literal, $K:literal) => {
        int_v::<i32, $N>(rec, I32, &mut || rng.range(-99, 99) as i32, &mut || 7);
        int_m::<i32, $M, $K>(rec, I32, &mut || rng.range(-99, 99) as i32, &mut || -7);
        cmp_v::<i32, $N>(rec, I32, &mut || rng.range(0, 2) as i32);
        cmp_m::<i32, $M, $K>(rec, I32, &mut || rng.range(0, 2) as i32);
        bool_v::<$N>(rec, rng, 4);
        bool_m::<$M, $K>(rec, rng, 4);
    } }
    c!(70; 17, 16); c!(260; 3, 90); c!(130; 90, 3);
    for rep in 0..a.scale {
        let wide = rep % 4 == 3;
        // any element type: free terms
        macro_rules! m { ($T:ty, $C:ty) => {
            reset_terms();
            let mut n = 0;
            let mut g = || { n += 1; sym(&format!("x{}", n)) };
            ring::<$T, $C>(rec, "[\"t\"]", &mut g);
            let mut n2 = 100;
            let mut g2 = || { n2 += 1; sym(&format!("y{}", n2)) };
            divs::<$T, $C>(rec, "[\"t\"]", rep % 2 == 0, &mut g, &mut g2);
            bits::<$T, $C>(rec, "[\"t\"]", &mut g);
        } }
        shapes!(Sym; m);
        macro_rules! m { ($T:ty, $C:ty) => { ring::<$T, $C>(rec, "[\"p\",35279]", &mut || GB::new(rng.range(0, 35278)));
            divs::<$T, $C>(rec, "[\"p\",35279]", false, &mut || GB::new(rng.range(0, 35278)), &mut || GB::new(1)); } }
        shapes!(GB; m);
        macro_rules! ints {
            ($T:ident, $lane:expr, $lo:expr, $hi:expr, $ring:ident) => {
                macro_rules! m { ($TT:ty, $C:ty) => {
                    $ring::<$TT, $C>(rec, $lane, &mut || int_src(rng, $lo, $hi, wide) as $T);
                    let r2 = std::cell::RefCell::new(Rng::new(rng.u()));
                    divs::<$TT, $C>(rec, $lane, true, &mut || int_src(&mut r2.borrow_mut(), $lo, $hi, rep % 2 == 0) as $T, &mut || { let v = int_src(&mut r2.borrow_mut(), $lo, $hi, wide); (if v == 0 && !wide { 5 } else { v }) as $T });
                    divs::<$TT, $C>(rec, $lane, false, &mut || int_src(&mut r2.borrow_mut(), $lo, $hi, rep % 2 == 0) as $T, &mut || { let v = int_src(&mut r2.borrow_mut(), $lo, $hi, wide); (if v == 0 && !wide { 3 } else { v }) as $T });
                } }
                shapes!($T; m);
                macro_rules! c { ($f:ident, $g:ident, $N:literal; $M:literal, $K:literal) => {
                    let r2 = std::cell::RefCell::new(Rng::new(rng.u()));
                    let mut ga = || int_src(&mut r2.borrow_mut(), $lo, $hi, rep % 2 == 0) as $T;
                    let mut gb = || { let v = int_src(&mut r2.borrow_mut(), $lo, $hi, wide); (if v == 0 && !wide { 3 } else { v }) as $T };
                    int_v::<$T, $N>(rec, $lane, &mut ga, &mut gb);
                    int_m::<$T, $M, $K>(rec, $lane, &mut ga, &mut gb);
                    // few distinct values, so that equal components are frequent
                    let mut gc = || int_src(&mut r2.borrow_mut(), 0.max($lo), 2, false) as $T;
                    if rep % 2 == 0 {
                        cmp_v::<$T, $N>(rec, $lane, &mut gc);
                        cmp_m::<$T, $M, $K>(rec, $lane, &mut gc);
                    } else {
                        cmp_v::<$T, $N>(rec, $lane, &mut ga);
                        cmp_m::<$T, $M, $K>(rec, $lane, &mut ga);
                    }
                } }
                c!(cmp_v, cmp_m, 1; 1, 2); c!(cmp_v, cmp_m, 2; 2, 1); c!(cmp_v, cmp_m, 3; 2, 3); c!(cmp_v, cmp_m, 4; 3, 3); c!(cmp_v, cmp_m, 7; 4, 2);
            };
        }
        if !wide {
            // 32-bit results stay inside the lane for small values only
            ints!(i32, I32, -1000, 1000, ring);
            ints!(i64, I32, -1000, 1000, ring);
            ints!(u32, U32, 0, 1000, uring);
        }
        ints!(i8, I8, -128, 127, ring);
        ints!(u8, U8, 0, 255, uring);
        macro_rules! m { ($T:ty, $C:ty) => { bits::<$T, $C>(rec, I8, &mut || rng.range(-128, 127) as i8); } }
        shapes!(i8; m);
        macro_rules! m { ($T:ty, $C:ty) => { bits::<$T, $C>(rec, U8, &mut || rng.range(0, 255) as u8); } }
        shapes!(u8; m);
        for _ in 0..3 {
            smul!(rec, rng, "[\"z\",0,255]", 0, 15; u8);
            smul!(rec, rng, "[\"z\",0,65535]", 0, 255; u16);
            smul!(rec, rng, U32, 0, 30000; u32 u64);
            smul!(rec, rng, "[\"z\",-128,127]", -11, 11; i8);
            smul!(rec, rng, "[\"z\",-32768,32767]", -180, 180; i16);
            smul!(rec, rng, I32, -30000, 30000; i32 i64);
            smul!(rec, rng, "[\"zf\"]", -1000, 1000; f32 f64);
        }
        macro_rules! c { ($N:literal; $M:literal, $K:literal) => {
            cmp_v::<f64, $N>(rec, "[\"zf\"]", &mut || rng.range(-1, 1) as f64);
            cmp_m::<f64, $M, $K>(rec, "[\"zf\"]", &mut || rng.range(-1, 1) as f64);
            // partially ordered components
            cmp_v::<f64, $N>(rec, "[\"zf\"]", &mut || if rng.chance(1, 3) { f64::NAN } else { rng.range(-1, 1) as f64 });
            cmp_m::<f32, $M, $K>(rec, "[\"zf\"]", &mut || if rng.chance(1, 3) { f32::NAN } else { rng.range(-1, 1) as f32 });
            cmp_v::<Bits, $N>(rec, "[\"po\"]", &mut || Bits(rng.range(0, 7) as u8));
            cmp_m::<Bits, $M, $K>(rec, "[\"po\"]", &mut || Bits(rng.range(0, 7) as u8));
        } }
        c!(2; 2, 2); c!(3; 1, 3); c!(4; 3, 2);
        bool_v::<1>(rec, rng, 2); bool_v::<2>(rec, rng, 4); bool_v::<3>(rec, rng, 4); bool_v::<4>(rec, rng, 6); bool_v::<9>(rec, rng, 6);
        bool_m::<1, 1>(rec, rng, 2); bool_m::<2, 2>(rec, rng, 6); bool_m::<2, 3>(rec, rng, 6); bool_m::<3, 2>(rec, rng, 6); bool_m::<3, 4>(rec, rng, 6);
    }
    rec.finish();
}
