//! The bounds of the generic drivers: everything an ordinary scalar has, so that they keep compiling
//! whichever of it the library asks for.
use crate::rec::J;
use num_traits::{Num, NumCast};
use std::{fmt::{Debug, Display}, iter::{Product, Sum}, ops::*};

pub trait Plain: J + Clone + Debug + Default + PartialEq + Send + Sync + 'static {}
impl<T: J + Clone + Debug + Default + PartialEq + Send + Sync + 'static> Plain for T {}
pub trait Fat: Plain + Copy + Display + Num + Neg<Output = Self> + AddAssign + SubAssign + MulAssign + DivAssign + Sum + Product {}
impl<T: Plain + Copy + Display + Num + Neg<Output = T> + AddAssign + SubAssign + MulAssign + DivAssign + Sum + Product> Fat for T {}
/// On a line.
pub trait FatLine: Fat + PartialOrd + NumCast {}
impl<T: Fat + PartialOrd + NumCast> FatLine for T {}
