//! Encodings of floats: scaled integers ("fx", "zf" lanes).
use crate::rec::J;
use std::cell::Cell;
thread_local! {
    static SCALE: Cell<f64> = const { Cell::new(1.0) };
    static EXACT: Cell<bool> = const { Cell::new(true) };
}
/// Values are scaled and rounded ("fx" lane).
pub fn set_scale(s: f64) {
    SCALE.with(|c| c.set(s));
    EXACT.with(|c| c.set(false));
}
/// Values times `s` must be integral ("zf" lane).
pub fn set_exact(s: f64) {
    SCALE.with(|c| c.set(s));
    EXACT.with(|c| c.set(true));
}
pub const FX: f64 = 16384.0;
pub const NAN_CODE: i64 = 2000000001;
pub fn enc(v: f64) -> i64 {
    let s = SCALE.with(|c| c.get());
    if v.is_nan() {
        return NAN_CODE;
    }
    let w = v * s;
    if w.abs() >= 1e9 || (EXACT.with(|c| c.get()) && w != w.trunc()) {
        return if v > 0.0 { 2000000000 } else { -2000000000 };
    }
    w.round() as i64
}
impl J for f64 { fn j(&self, o: &mut String) { enc(*self).j(o) } }
impl J for f32 { fn j(&self, o: &mut String) { enc(*self as f64).j(o) } }
