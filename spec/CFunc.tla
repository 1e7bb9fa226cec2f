-------------------------------- MODULE CFunc --------------------------------
(* Polar form, powers and elementary functions of complex numbers (C21), in    *)
(* fixed point.  exp, sin, cos, sinh, cosh are specified by their values;       *)
(* their inverses and the powers by the equations that define them (and the     *)
(* branch they are taken from).  k[1] is, where a logarithm is needed, one the  *)
(* harness proposes: the specification accepts it only if its exponential is    *)
(* the argument.                                                               *)
EXTENDS Trig

FxHalfPi == FxPi \div 2
FxLn2x64 == 726817
\* 2^n * x
FxShift(x, n) == IF n >= 0 THEN x * 2 ^ n ELSE x \div 2 ^ (-n)
\* the exponential of x, |x| <= 3.4
FxExp0(y) == FxS + FxMul(y, FxS + FxMul(y, FxS + FxMul(y, FxS + FxMul(y, FxS + y \div 5) \div 4) \div 3) \div 2)
FxExp(x) ==
  IF Abs(x) > 56000 THEN 20000000
  ELSE LET n == (x * 64 + FxLn2x64 \div 2) \div FxLn2x64
           y == x * 64 - n * FxLn2x64           \* 2^20 units, |y| <= ln 2 / 2
       IN FxShift(FxExp0((y + 32) \div 64), n)
FxCosh(x) == (FxExp(x) + FxExp(-x)) \div 2
FxSinh(x) == (FxExp(x) - FxExp(-x)) \div 2
CScale(s, z) == <<FxMul(s, z[1]), FxMul(s, z[2])>>
CExp(z) == CScale(FxExp(z[1]), FxCs(z[2]))
CSin(z) == LET t == FxCs(z[1]) IN <<FxMul(t[2], FxCosh(z[2])), FxMul(t[1], FxSinh(z[2]))>>
CCos(z) == LET t == FxCs(z[1]) IN <<FxMul(t[1], FxCosh(z[2])), -FxMul(t[2], FxSinh(z[2]))>>
TimesI(z) == <<-z[2], z[1]>>
CSinh(z) == LET t == FxCs(z[2]) IN <<FxMul(t[1], FxSinh(z[1])), FxMul(t[2], FxCosh(z[1]))>>
CCosh(z) == LET t == FxCs(z[2]) IN <<FxMul(t[1], FxCosh(z[1])), FxMul(t[2], FxSinh(z[1]))>>

Fits(z) == \A i \in DOMAIN z : FxOk(z[i])
Small(z) == \A i \in DOMAIN z : Abs(z[i]) <= 55000
CClose(L, a, b) == Close(a[1], b[1], L[3]) /\ Close(a[2], b[2], L[3])
Within(L, x, lo, hi) == lo - L[3] <= x /\ x <= hi + L[3]
CTimes(L, a, b) == SMul(<<"c", L>>, a, b)
\* w is the principal logarithm of z
IsLog(L, w, z) == Small(w) /\ CClose(L, CExp(w), z) /\ Within(L, w[2], -FxPi, FxPi)

\* text of integers
Digit(d) == SubSeq("0123456789abcdefghijklmnopqrstuvwxyz", d + 1, d + 1)
RECURSIVE Digits(_, _)
Digits(n, radix) == IF n < radix THEN Digit(n) ELSE Digits(n \div radix, radix) \o Digit(n % radix)
TextNum(n, radix) == IF n < 0 THEN "-" \o Digits(-n, radix) ELSE Digits(n, radix)
Signed(n, radix) == IF n < 0 THEN TextNum(n, radix) ELSE "+" \o TextNum(n, radix)
\* the ways to write a + b i
Written(how, radix, z, u) ==
  CASE how = "a+bi" -> TextNum(z[1], radix) \o Signed(z[2], radix) \o u
    [] how = "bi+a" -> TextNum(z[2], radix) \o u \o Signed(z[1], radix)
    [] how = "a" -> IF z[2] = 0 THEN TextNum(z[1], radix) ELSE "?"
    [] how = "bi" -> IF z[1] = 0 THEN TextNum(z[2], radix) \o u ELSE "?"

CFuncPost(L, o, k, a, r) ==
  LET z == a[1] IN
  CASE o = "topolar" -> /\ IsRoot(L, r[1], NormSqr(L, z))
                        /\ Within(L, r[2], -FxPi, FxPi)
                        /\ CClose(L, CScale(r[1], FxCs(r[2])), z)
    \* a[2]: the length of a[1] to any scale; only direction and quadrant count
    [] o = "arg" -> Within(L, r, -FxPi, FxPi) /\ CClose(L, CScale(a[2], FxCs(r)), z)
    [] o = "frompolar" -> CClose(L, r, CScale(a[1], FxCs(a[2])))
    [] o = "exp" -> CClose(L, r, CExp(z))
    [] o = "ln" -> IsLog(L, r, z)
    [] o = "sqrt" -> Fits(r) /\ CClose(L, CTimes(L, r, r), z) /\ r[1] >= -2
    [] o = "cbrt" -> Fits(r) /\ CClose(L, CTimes(L, CTimes(L, r, r), r), z)
                     \* the root of least argument; either one of the two on the negative axis
                     /\ r[1] >= -2 /\ FxMul(r[2], r[2]) <= FxMul(3 * r[1], r[1]) + 4 * L[3]
    [] o = "powf" -> IsLog(L, k[1], z) /\ CClose(L, r, CExp(CScale(a[2], k[1])))
    [] o = "powc" -> IsLog(L, k[1], z) /\ CClose(L, r, CExp(CTimes(L, a[2], k[1])))
    [] o = "expf" -> IsLog(L, k[1], <<a[2], 0>>) /\ CClose(L, r, CExp(CTimes(L, z, k[1])))
    [] o = "log" -> IsLog(L, k[1], <<a[2], 0>>) /\ Fits(r) /\ IsLog(L, CScale(k[1][1], r), z)
    [] o = "sin" -> CClose(L, r, CSin(z))
    [] o = "cos" -> CClose(L, r, CCos(z))
    [] o = "sinh" -> CClose(L, r, CSinh(z))
    [] o = "cosh" -> CClose(L, r, CCosh(z))
    [] o = "tan" -> Fits(r) /\ CClose(L, CTimes(L, r, CCos(z)), CSin(z))
    [] o = "tanh" -> Fits(r) /\ CClose(L, CTimes(L, r, CCosh(z)), CSinh(z))
    [] o = "asin" -> Small(r) /\ CClose(L, CSin(r), z) /\ Within(L, r[1], -FxHalfPi, FxHalfPi)
    [] o = "acos" -> Small(r) /\ CClose(L, CCos(r), z) /\ Within(L, r[1], 0, FxPi)
    [] o = "atan" -> Small(r) /\ CClose(L, CTimes(L, z, CCos(r)), CSin(r)) /\ Within(L, r[1], -FxHalfPi, FxHalfPi)
    [] o = "asinh" -> Small(r) /\ CClose(L, CSinh(r), z) /\ Within(L, r[2], -FxHalfPi, FxHalfPi)
    [] o = "acosh" -> Small(r) /\ CClose(L, CCosh(r), z) /\ Within(L, r[1], 0, 60000) /\ Within(L, r[2], -FxPi, FxPi)
    [] o = "atanh" -> Small(r) /\ CClose(L, CTimes(L, z, CCosh(r)), CSinh(r)) /\ Within(L, r[2], -FxHalfPi, FxHalfPi)
    [] o = "finv" -> Fits(r) /\ CClose(L, CTimes(L, r, z), <<FxS, 0>>)
    [] o = "fdiv" -> Fits(r) /\ CClose(L, CTimes(L, r, a[2]), z)
    \* k = <<how, radix, unit>>; a[1] = <<re, im>>, a[2] = its text: r = <<1, re, im>>; a text that is no number: r = <<0>>
    [] o = "parse" -> IF k[1] = "none" THEN r = <<0>>
                      ELSE a[2] = Written(k[1], k[2], z, k[3]) /\ r = <<1, z[1], z[2]>>
=============================================================================
