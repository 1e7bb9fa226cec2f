//! Values as text: equal text, same value.
use crate::rec::J;
use vecmat::{Matrix, Vector};

/// A scalar as text: its bits, so that equal text means the same value.
pub trait Txt { fn txt(&self) -> String; }
impl Txt for f64 { fn txt(&self) -> String { if self.is_nan() { "nan".into() } else { format!("{:x}", self.to_bits()) } } }
impl Txt for f32 { fn txt(&self) -> String { if self.is_nan() { "nan".into() } else { format!("{:x}", self.to_bits()) } } }
impl Txt for i32 { fn txt(&self) -> String { format!("i{}", self) } }
/// Any value as nested lists of scalar texts.
pub struct Tx(pub String);
impl J for Tx { fn j(&self, o: &mut String) { o.push_str(&self.0) } }
pub trait Show { fn show(&self) -> Tx; }
pub fn list(v: impl Iterator<Item = String>) -> Tx { Tx(format!("[{}]", v.collect::<Vec<_>>().join(","))) }
impl<T: Txt, const N: usize> Show for Vector<T, N> { fn show(&self) -> Tx { list(self.as_array().iter().map(|x| format!("\"{}\"", x.txt()))) } }
impl<T: Txt, const M: usize, const N: usize> Show for Matrix<T, M, N> { fn show(&self) -> Tx { list(self.as_vector_of_vectors().as_array().iter().map(|x| x.show().0)) } }
impl Show for f64 { fn show(&self) -> Tx { Tx(format!("\"{}\"", self.txt())) } }
impl Show for f32 { fn show(&self) -> Tx { Tx(format!("\"{}\"", self.txt())) } }
impl Show for i32 { fn show(&self) -> Tx { Tx(format!("\"{}\"", self.txt())) } }
impl Show for Tx { fn show(&self) -> Tx { Tx(self.0.clone()) } }
impl<A: Show, B: Show> Show for (A, B) { fn show(&self) -> Tx { Tx(format!("[{},{}]", self.0.show().0, self.1.show().0)) } }

impl Txt for bool { fn txt(&self) -> String { format!("{}", self) } }
impl Show for bool { fn show(&self) -> Tx { Tx(self.txt()) } }
impl<T: Txt + Copy> Show for vecmat::Complex<T> { fn show(&self) -> Tx { self.into_vector().show() } }
impl<T: Txt + Copy> Show for vecmat::Quaternion<T> { fn show(&self) -> Tx { self.into_vector().show() } }
impl<T: Txt + Copy> Show for vecmat::complex::Moebius<T> { fn show(&self) -> Tx { self.into_matrix().show() } }
