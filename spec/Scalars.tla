------------------------------- MODULE Scalars -------------------------------
(* Exact scalar arithmetic ("lanes").  The library is generic over its scalar *)
(* type; the harness runs it over scalars whose arithmetic is one of these.   *)
(*                                                                            *)
(*   <<"z", lo, hi>>   machine integers (panic outside lo..hi)                *)
(*   <<"zf">>          floats holding integral values                         *)
(*   <<"p", P>>        the prime field GF(P)                                  *)
(*   <<"c", L>>        complex numbers over lane L (pairs)                    *)
(*   <<"q", L>>        quaternions over lane L (quadruples)                   *)
(*   <<"t">>           free terms (strings), no algebraic laws                *)
(*   <<"fx", S, tol>>  reals scaled by S = 2^14, compared up to tol units     *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
\* division of integers: truncating (Rust's / and %) and flooring
TDiv(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
TRem(a, b) == a - b * TDiv(a, b)
FDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
FMod(a, b) == a - b * FDiv(a, b)

RECURSIVE PowMod(_, _, _)
PowMod(b, e, P) ==
  IF e = 0 THEN 1 % P
  ELSE LET h == PowMod((b * b) % P, e \div 2, P)
       IN IF e % 2 = 1 THEN (h * b) % P ELSE h

\* reals scaled by S = 2^14
FxS == 16384
\* operands beyond 32.0 give a value that compares close to nothing
FxOk(a) == a \in -524288..524288
FxMul(a, b) == IF ~(FxOk(a) /\ FxOk(b)) THEN 20000000
               ELSE LET a1 == a \div FxS  a0 == a % FxS
                        b1 == b \div FxS  b0 == b % FxS
                    IN a1 * b + a0 * b1 + (a0 * b0 + FxS \div 2) \div FxS
\* a/b for |a| < 2 b, |b| >= 1/8
FxDiv(a, b) == IF ~(FxOk(a) /\ FxOk(b)) \/ b = 0 THEN 20000000 ELSE
               LET s == Sgn(a) * Sgn(b)  x == Abs(a)  y == Abs(b)
                   q1 == x \div y        r1 == x % y
                   q2 == (r1 * 128) \div y  r2 == (r1 * 128) % y
                   q3 == (r2 * 128) \div y
               IN IF q1 > 1000 THEN 20000000 ELSE s * (q1 * FxS + q2 * 128 + q3)

RECURSIVE SAdd(_,_,_), SNeg(_,_), SMul(_,_,_), SSub(_,_,_), SZero(_), SOne(_), SConj(_,_)
SZero(L) == CASE L[1] = "c" -> <<SZero(L[2]), SZero(L[2])>>
              [] L[1] = "q" -> <<SZero(L[2]), SZero(L[2]), SZero(L[2]), SZero(L[2])>>
              [] OTHER -> 0
SOne(L) == CASE L[1] = "c" -> <<SOne(L[2]), SZero(L[2])>>
             [] L[1] = "q" -> <<SOne(L[2]), SZero(L[2]), SZero(L[2]), SZero(L[2])>>
             [] L[1] = "fx" -> FxS
             [] L[1] = "p" -> 1 % L[2]
             [] OTHER -> 1
SAdd(L, a, b) ==
  CASE L[1] = "p" -> (a + b) % L[2]
    [] L[1] = "z" -> a + b
    [] L[1] = "t" -> "(" \o a \o "+" \o b \o ")"
    [] L[1] \in {"c", "q"} -> [i \in DOMAIN a |-> SAdd(L[2], a[i], b[i])]
    [] OTHER -> a + b
SNeg(L, a) ==
  CASE L[1] = "p" -> (L[2] - a) % L[2]
    [] L[1] = "t" -> "-" \o a
    [] L[1] \in {"c", "q"} -> [i \in DOMAIN a |-> SNeg(L[2], a[i])]
    [] OTHER -> -a
SSub(L, a, b) ==
  CASE L[1] = "p" -> (a + L[2] - b) % L[2]
    [] L[1] = "t" -> "(" \o a \o "-" \o b \o ")"
    [] L[1] \in {"c", "q"} -> [i \in DOMAIN a |-> SSub(L[2], a[i], b[i])]
    [] OTHER -> a - b
SMul(L, a, b) ==
  CASE L[1] = "p" -> (a * b) % L[2]
    [] L[1] = "z" -> a * b
    [] L[1] = "t" -> "(" \o a \o "*" \o b \o ")"
    [] L[1] = "fx" -> FxMul(a, b)
    [] L[1] = "c" ->
         LET B == L[2] IN
         <<SSub(B, SMul(B, a[1], b[1]), SMul(B, a[2], b[2])),
           SAdd(B, SMul(B, a[1], b[2]), SMul(B, a[2], b[1]))>>
    [] L[1] = "q" ->   \* Hamilton: i^2 = j^2 = k^2 = ijk = -1
         LET B == L[2]
             m(x, y) == SMul(B, a[x], b[y])
             p(x, y) == SAdd(B, x, y)
             s(x, y) == SSub(B, x, y)
         IN <<s(s(s(m(1,1), m(2,2)), m(3,3)), m(4,4)),
              s(p(p(m(1,2), m(2,1)), m(3,4)), m(4,3)),
              s(p(p(m(1,3), m(3,1)), m(4,2)), m(2,4)),
              s(p(p(m(1,4), m(4,1)), m(2,3)), m(3,2))>>
    [] OTHER -> a * b
SConj(L, a) == IF L[1] \in {"c", "q"} THEN [i \in DOMAIN a |-> IF i = 1 THEN a[1] ELSE SNeg(L[2], a[i])] ELSE a

SSum(L, s) == IF s = <<>> THEN SZero(L) ELSE FoldLeft(LAMBDA x, y : SAdd(L, x, y), Head(s), Tail(s))
SProd(L, s) == IF s = <<>> THEN SOne(L) ELSE FoldLeft(LAMBDA x, y : SMul(L, x, y), Head(s), Tail(s))
SInt(L, n) == CASE L[1] = "p" -> n % L[2]
                [] L[1] = "fx" -> n * FxS
                [] OTHER -> n

\* invertibility and inverses
RECURSIVE NormSqr(_, _), SInvertible(_, _), SInv(_, _)
NormSqr(B, a) == SSum(B, [i \in DOMAIN a |-> SMul(B, a[i], a[i])])
SInvertible(L, a) ==
  CASE L[1] = "p" -> a # 0
    [] L[1] \in {"c", "q"} -> SInvertible(L[2], NormSqr(L[2], a))
    [] OTHER -> a # 0
SInv(L, a) ==
  CASE L[1] = "p" -> PowMod(a, L[2] - 2, L[2])
    [] L[1] = "fx" -> FxDiv(FxS, a)
    [] L[1] \in {"c", "q"} -> LET n == SInv(L[2], NormSqr(L[2], a))  b == SConj(L, a)
                              IN [i \in DOMAIN b |-> SMul(L[2], b[i], n)]

\* equality of an observed value with the specified one
Close(a, b, tol) == /\ a \in -1073741824..1073741823
                    /\ b \in -1073741824..1073741823
                    /\ Abs(a - b) <= tol
RECURSIVE SEq(_, _, _)
SEq(L, a, b) == CASE L[1] = "fx" -> Close(a, b, L[3])
                  [] L[1] \in {"c", "q"} -> IF L[2][1] = "fx" THEN DOMAIN a = DOMAIN b /\ \A i \in DOMAIN a : SEq(L[2], a[i], b[i]) ELSE a = b
                  [] OTHER -> a = b
VEq(L, a, b) == IF L[1] \in {"p", "z", "zf", "t"} THEN a = b
                ELSE DOMAIN a = DOMAIN b /\ \A i \in DOMAIN a : SEq(L, a[i], b[i])
MEq(L, a, b) == IF L[1] \in {"p", "z", "zf", "t"} THEN a = b
                ELSE DOMAIN a = DOMAIN b /\ \A i \in DOMAIN a : VEq(L, a[i], b[i])

\* an observed value that the fx arithmetic can take as an operand
FxV(L, a) == L[1] = "fx" => \A i \in DOMAIN a : FxOk(a[i])
FxM(L, a) == L[1] = "fx" => \A i \in DOMAIN a : FxV(L, a[i])

\* the "positive" elements of GF(P), P % 4 = 3: exactly one of x, -x is a square
IsSquare(P, x) == x = 0 \/ PowMod(x, (P - 1) \div 2, P) = 1
SAbs(L, x) == CASE L[1] = "p" -> IF IsSquare(L[2], x) THEN x ELSE L[2] - x
                [] OTHER -> Abs(x)
\* r is the principal square root of x
IsRoot(L, r, x) ==
  CASE L[1] = "p" -> (r * r) % L[2] = x /\ IsSquare(L[2], r)
    [] L[1] = "fx" -> FxOk(r) /\ r >= 0 /\ Close(FxMul(r, r), x, 4 * L[3])
    [] OTHER -> r >= 0 /\ r * r = x
=============================================================================
