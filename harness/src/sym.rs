//! Free terms: a scalar type without any algebraic law, so that operand order, pairing and
//! the choice of operator are all visible in the result.
use crate::rec::J;
use std::{cell::RefCell, ops::*};

thread_local! { static TERMS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) }; }

#[derive(Clone, Copy, PartialEq)]
pub struct Sym(u32);
pub fn sym(s: &str) -> Sym {
    TERMS.with(|t| {
        let mut t = t.borrow_mut();
        t.push(s.to_string());
        Sym((t.len() - 1) as u32)
    })
}
pub fn reset_terms() { TERMS.with(|t| t.borrow_mut().clear()) }
impl Sym {
    pub fn text(&self) -> String { TERMS.with(|t| t.borrow()[self.0 as usize].clone()) }
}
impl J for Sym {
    fn j(&self, o: &mut String) { self.text().as_str().j(o) }
}
macro_rules! bin { ($($Tr:ident $f:ident $TrA:ident $fa:ident $c:expr;)*) => {$(
    impl $Tr for Sym { type Output = Sym; fn $f(self, b: Sym) -> Sym { sym(&format!("({}{}{})", self.text(), $c, b.text())) } }
    impl $TrA for Sym { fn $fa(&mut self, b: Sym) { *self = self.$f(b); } }
)*} }
bin! {
    Add add AddAssign add_assign "+"; Sub sub SubAssign sub_assign "-"; Mul mul MulAssign mul_assign "*";
    Div div DivAssign div_assign "/"; Rem rem RemAssign rem_assign "%";
    BitAnd bitand BitAndAssign bitand_assign "&"; BitOr bitor BitOrAssign bitor_assign "|"; BitXor bitxor BitXorAssign bitxor_assign "^";
}
impl Neg for Sym { type Output = Sym; fn neg(self) -> Sym { sym(&format!("-{}", self.text())) } }
impl Not for Sym { type Output = Sym; fn not(self) -> Sym { sym(&format!("!{}", self.text())) } }
