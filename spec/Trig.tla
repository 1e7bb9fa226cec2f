-------------------------------- MODULE Trig --------------------------------
(* Exact and fixed-point trigonometry.                                        *)
(*  "p" lane (GF(35279)): (576, 12637) generates the group of 720 unit        *)
(*  complex numbers; the angle of k half-degrees is the element k * 24683.    *)
(*  "fx" lane: Taylor sums in fixed point.                                    *)
EXTENDS Hyper

TrigP == 35279
HalfDeg == 24683
HalfDegInv == PowMod(HalfDeg, TrigP - 2, TrigP)
\* k for an angle element, -1500..1500; 99999 if it is none
AngleIdx(g) == LET k == (g * HalfDegInv) % TrigP IN
               IF k <= 1500 THEN k ELSE IF k >= TrigP - 1500 THEN k - TrigP ELSE 99999
CsIdx(k) == SPow(<<"c", <<"p", TrigP>>>>, <<576, 12637>>, k % 720)

\* fixed point: sine and cosine of x for |x| <= pi/4
FxSin0(x) == LET x2 == FxMul(x, x) IN
  FxMul(x, FxS - FxMul(x2, FxS - FxMul(x2, FxS - x2 \div 42) \div 20) \div 6)
FxCos0(x) == LET x2 == FxMul(x, x) IN
  FxS - FxMul(x2, FxS - FxMul(x2, FxS - x2 \div 30) \div 12) \div 2
FxPi2x64 == 1647099     \* pi/2 * 2^14 * 64
FxPi == 51472
\* cosine and sine of x, |x| <= 32.0
FxCs(x) ==
  LET n == (x * 64 + FxPi2x64 \div 2) \div FxPi2x64
      y == (x * 64 - n * FxPi2x64) \div 64
      c == FxCos0(y)
      s == FxSin0(y)
  IN CASE n % 4 = 0 -> <<c, s>>
       [] n % 4 = 1 -> <<-s, c>>
       [] n % 4 = 2 -> <<-c, -s>>
       [] OTHER -> <<s, -c>>
IsAngle(L, g) == IF L[1] = "p" THEN L[2] = TrigP /\ AngleIdx(g) # 99999 ELSE FxOk(g)
\* cosine and sine of an angle
CosSin(L, g) == IF L[1] = "p" THEN CsIdx(AngleIdx(g)) ELSE FxCs(g)
=============================================================================
