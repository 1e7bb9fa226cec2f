//! C21: polar form, powers and elementary functions of complex numbers.
use num_traits::{Float, Num};
use vecmat::Complex;
use vharness::*;

const CC: &str = "[\"c\",\"c\"]";

/// The plane without the neighbourhood of zero and of other excluded points: all quadrants, both axes, both sides of one.
fn point(rng: &mut Rng, lo: i64, hi: i64, avoid: &[(f64, f64)]) -> (f64, f64) {
    loop {
        let mut c = |rng: &mut Rng| (if rng.chance(1, 6) { 0.0 } else { rng.range(-hi, hi) as f64 }) / 64.0;
        let (x, y) = (c(rng), c(rng));
        let n = (x * x + y * y).sqrt();
        if n * 64.0 < lo as f64 || n * 64.0 > hi as f64 { continue }
        if avoid.iter().any(|a| (x - a.0).hypot(y - a.1) < 0.3) { continue }
        return (x, y);
    }
}
fn fx(x: f64) -> i64 { (x * FX).round() as i64 }

fn plane<T: Float + num_traits::FloatConst + FatLine>(rec: &mut Rec, rng: &mut Rng, lane: &str, emax: i64) {
    let t = |x: f64| T::from(x).unwrap();
    let c = |p: (f64, f64)| Complex::new(t(p.0), t(p.1));
    set_scale(FX);
    macro_rules! one { ($lo:expr, $hi:expr, $avoid:expr; $($name:literal $f:ident)*) => {$(
        rec.prog(lane);
        let z = c(point(rng, $lo, $hi, $avoid));
        let r = rec.load(&z);
        rec.try_op(concat!("z.", $name), "0", &[r], || z.$f());
    )*} }
    one!(0, 120, &[]; "exp" exp "sin" sin "cos" cos "sinh" sinh "cosh" cosh);
    one!(0, 90, &[]; "tan" tan "tanh" tanh);
    one!(0, 80, &[]; "asin" asin "acos" acos "asinh" asinh "acosh" acosh);
    one!(96, 200, &[]; "asin" asin "acos" acos "asinh" asinh "acosh" acosh);
    one!(0, 200, &[(0.0, 1.0), (0.0, -1.0)]; "atan" atan);
    one!(0, 200, &[(1.0, 0.0), (-1.0, 0.0)]; "atanh" atanh);
    one!(16, 256, &[]; "ln" ln "sqrt" sqrt "cbrt" cbrt "finv" finv "topolar" to_polar);
    // a function and its inverse, one after the other
    macro_rules! back { ($lo:expr, $hi:expr; $($n1:literal $f1:ident $n2:literal $f2:ident)*) => {$(
        rec.prog(lane);
        let z = c(point(rng, $lo, $hi, &[]));
        let r = rec.load(&z);
        if let Some((r1, w)) = rec.try_op(concat!("z.", $n1), "0", &[r], || z.$f1()) {
            rec.try_op(concat!("z.", $n2), "0", &[r1], || w.$f2());
        }
    )*} }
    back!(32, 150; "ln" ln "exp" exp);
    back!(8, 80; "exp" exp "ln" ln "sin" sin "asin" asin "sinh" sinh "asinh" asinh "asin" asin "sin" sin "acos" acos "cos" cos);
    back!(16, 128; "finv" finv "finv" finv);
    rec.prog(lane);
    // powers
    for _ in 0..3 {
        let p = point(rng, 32, 128, &[]);
        let z = c(p);
        let w = [fx(p.0.hypot(p.1).ln()), fx(p.1.atan2(p.0))];
        let k = format!("[[{},{}]]", w[0], w[1]);
        let r = rec.load(&z);
        let e = t(rng.range(-128, 128) as f64 / 64.0);
        let re = rec.load(&e);
        rec.try_op("z.powf", &k, &[r, re], || z.powf(e));
        let e = c(((rng.range(-64, 64) as f64) / 64.0, (rng.range(-32, 32) as f64) / 64.0));
        let re = rec.load(&e);
        rec.try_op("z.powc", &k, &[r, re], || z.powc(e));
        let b = if rng.chance(1, 2) { rng.range(16, 40) } else { rng.range(108, 256) } as f64 / 64.0;
        let rb = rec.load(&t(b));
        let k = format!("[[{},0]]", fx(b.ln()));
        rec.try_op("z.log", &k, &[r, rb], || z.log(t(b)));
        let y = c(point(rng, 4, 96, &[]));
        let r = rec.load(&y);
        rec.try_op("z.expf", &k, &[r, rb], || y.expf(t(b)));
    }
    for _ in 0..3 {
        rec.prog(lane);
        let z = c(point(rng, 24, 128, &[]));
        let y = c(point(rng, 24, 128, &[]));
        let (rz, ry) = (rec.load(&z), rec.load(&y));
        rec.try_op("z.fdiv", "0", &[rz, ry], || z.fdiv(y));
        rec.try_op("z.fdiv", "0", &[ry, rz], || y.fdiv(z));
        let n = rng.range(0, 256) as f64 / 64.0;
        let th = rng.range(-260, 260) as f64 / 64.0;
        let (rn, rt) = (rec.load(&t(n)), rec.load(&t(th)));
        if let Some((rp, p)) = rec.try_op("z.frompolar", "0", &[rn, rt], || Complex::from_polar(t(n), t(th))) {
            if n > 0.0 { rec.try_op("z.topolar", "0", &[rp], || p.to_polar()); }
        }
        if let Some((rp, (n, th))) = rec.try_op("z.topolar", "0", &[rz], || z.to_polar()) {
            let _ = rp;
            let (rn, rt) = (rec.load(&n), rec.load(&th));
            rec.try_op("z.frompolar", "0", &[rn, rt], || Complex::from_polar(n, th));
        }
        let p = point(rng, 50, 76, &[]);
        let z = c(p);
        let rz = rec.load(&z);
        for e in [0i32, 1, 2, 3, 5, 8] {
            rec.try_op("h.pow", &format!("[\"c\",{}]", e), &[rz], || z.powi(e));
            rec.try_op("h.pow", &format!("[\"c\",{}]", e), &[rz], || z.powu(e as u32));
            if e > 0 && e < 6 { rec.try_op("h.pow", &format!("[\"c\",{}]", -e), &[rz], || z.powi(-e)); }
        }
    }
    // any magnitude: direction and roots scale
    for _ in 0..3 {
        rec.prog(lane);
        let p = point(rng, 32, 128, &[]);
        let s = rng.range(-emax, emax) as i32;
        let u = 2f64.powi(s * 6);
        let z = c((p.0 * u, p.1 * u));
        set_scale(FX / u);
        let r = rec.load(&z);
        let rn = rec.load(&t(p.0.hypot(p.1) * u));
        set_scale(FX);
        rec.try_op("z.arg", "0", &[r, rn], || z.arg());
        rec.try_op("z.arg", "0", &[r, rn], || z.to_polar().1);
        rec.try_op("z.arg", "0", &[r, rn], || z.ln().im());
        set_scale(FX / u);
        rec.try_op("h.norm", "[\"c\",0]", &[r], || z.to_polar().0);
        set_scale(FX / 2f64.powi(s * 3));
        rec.try_op("z.sqrt", "0", &[r], || z.sqrt());
        set_scale(FX / 2f64.powi(s * 2));
        rec.try_op("z.cbrt", "0", &[r], || z.cbrt());
        set_scale(FX * u);
        rec.try_op("z.finv", "0", &[r], || z.finv());
        set_scale(FX);
    }
}
fn powers(rec: &mut Rec, rng: &mut Rng) {
    macro_rules! p { ($G:ty, $P:literal, $ord:expr) => {
        rec.prog(concat!("[\"p\",", $P, "]"));
        let z = loop {
            let z = Complex::new(<$G>::new(rng.range(0, $P - 1)), <$G>::new(rng.range(0, $P - 1)));
            if z.norm_sqr() != <$G>::new(0) { break z }
        };
        let r = rec.load(&z);
        // beyond the exponents TLC can count: the powers of an invertible element repeat
        let k = |e: i64| format!("[\"c\",{}]", if e.abs() < i32::MAX as i64 { e } else { e % $ord });
        for e in [i32::MIN, i32::MIN + 1, -65536, -12, -1, 0, 1, 2, 12, 65535, i32::MAX - 1, i32::MAX, rng.range(-2000000000, 2000000000) as i32] {
            rec.try_op("h.pow", &k(e as i64), &[r], || z.powi(e));
        }
        for e in [0, 1, 2, 3, 4, 16, 255, u32::MAX, 1 << 31, (1 << 31) - 1, rng.range(0, 4294967295) as u32] {
            rec.try_op("h.pow", &k(e as i64), &[r], || z.powu(e));
        }
    } }
    p!(G<5>, 5, 24i64);
    p!(G<7>, 7, 48i64);
    p!(GB, 35279, 35279i64 * 35279 - 1);
}
fn ints(rec: &mut Rec, rng: &mut Rng) {
    rec.prog("[\"z\",-1000000000,1000000000]");
    for _ in 0..6 {
        let (x, y) = (Complex::new(rng.range(-50, 50), rng.range(-50, 50)), Complex::new(rng.range(-9, 9), rng.range(-9, 9)));
        if y == Complex::new(0, 0) { continue }
        let (rx, ry) = (rec.load(&x), rec.load(&y));
        rec.try_op("h.rem", CC, &[rx, ry], || x % y);
    }
}
fn text(n: i64, radix: u32) -> String {
    let mut m = n.unsigned_abs();
    let mut d = vec![];
    loop {
        d.push(std::char::from_digit((m % radix as u64) as u32, radix).unwrap());
        m /= radix as u64;
        if m == 0 { break }
    }
    if n < 0 { d.push('-') }
    d.iter().rev().collect()
}
fn parse<T: Fat>(rec: &mut Rec, rng: &mut Rng) {
    rec.prog("[\"any\"]");
    let run = |t: &str, radix: u32| -> Vec<T> {
        match Complex::<T>::from_str_radix(t, radix) { Ok(z) => vec![T::one(), z.re(), z.im()], Err(_) => vec![T::zero()] }
    };
    for how in ["a+bi", "bi+a", "a", "bi"] {
        for radix in [10u32, 2, 8, 16, 3, 18] {
            let mut z = [rng.range(-500, 500), rng.range(-500, 500)];
            // one digit, zeros, round numbers
            if rng.chance(1, 3) { z = [rng.range(-9, 9), rng.range(-9, 9)] }
            if how == "a" { z[1] = 0 }
            if how == "bi" { z[0] = 0 }
            let u = if rng.chance(1, 2) { "i" } else { "j" };
            let signed = |n: i64| if n < 0 { text(n, radix) } else { format!("+{}", text(n, radix)) };
            let t = match how {
                "a+bi" => format!("{}{}{}", text(z[0], radix), signed(z[1]), u),
                "bi+a" => format!("{}{}{}", text(z[1], radix), u, signed(z[0])),
                "a" => text(z[0], radix),
                _ => format!("{}{}", text(z[1], radix), u),
            };
            // num-complex takes "e+" for an exponent in every radix
            if t.contains('e') { continue }
            let k = format!("[\"{}\",{},\"{}\"]", how, radix, u);
            let (rz, rt) = (rec.load(&z), rec.load(&t));
            rec.try_op("z.parse", &k, &[rz, rt], || run(&t, radix));
        }
    }
    let rz = rec.load(&[0i64, 0]);
    for t in ["", "x", "1+", "1+2", "i+j+k", "1+2k", "--1", "1..2", "+i+", "++1", "++i", "-", "+", "1i2", "ii", "1+2i+3", "1-2", "1,2", "(1,2)", "0x1"] {
        let rt = rec.load(&t.to_string());
        rec.try_op("z.parse", "[\"none\",10,\"i\"]", &[rz, rt], || run(t, 10));
    }
    let t = "12".to_string();
    let rt = rec.load(&t);
    rec.try_op("z.parse", "[\"none\",2,\"i\"]", &[rz, rt], || run(&t, 2));
}
fn main() {
    let a = args();
    let mut rec = Rec::new("C21", &a.out);
    let mut rng = Rng::new(a.seed);
    for i in 0..a.scale {
        plane::<f64>(&mut rec, &mut rng, "[\"fx\",16384,48]", 20);
        if i % 3 == 0 { plane::<f32>(&mut rec, &mut rng, "[\"fx\",16384,48]", 3); }
        if i % 4 == 0 {
            powers(&mut rec, &mut rng);
            ints(&mut rec, &mut rng);
            parse::<i64>(&mut rec, &mut rng);
            parse::<i32>(&mut rec, &mut rng);
        }
    }
    rec.finish();
}
