------------------------------- MODULE Hyper --------------------------------
(* Complex numbers and quaternions over a commutative lane L (C10, C11).      *)
(* Operands carry a kind: "s" scalar, "c" complex, "q" quaternion.  Mixed     *)
(* operations mean: embed both operands into the result's algebra, operate.   *)
EXTENDS Linalg

Alg(L, kind) == IF kind = "s" THEN L ELSE <<kind, L>>
Dim(kind) == CASE kind = "s" -> 1 [] kind = "c" -> 2 [] kind = "q" -> 4
Wider(k1, k2) == IF Dim(k1) >= Dim(k2) THEN k1 ELSE k2
Comp(kind, a) == IF kind = "s" THEN <<a>> ELSE a
Embed(L, from, to, a) ==
  IF from = to THEN a
  ELSE [i \in 1..Dim(to) |-> IF i <= Dim(from) THEN Comp(from, a)[i] ELSE SZero(L)]
UnitOf(L, kind, j) == [i \in 1..Dim(kind) |-> IF i = j THEN SOne(L) ELSE SZero(L)]

RECURSIVE SPow(_, _, _)
SPow(L, b, e) ==
  IF e = 0 THEN SOne(L)
  ELSE LET h == SPow(L, SMul(L, b, b), e \div 2) IN IF e % 2 = 1 THEN SMul(L, h, b) ELSE h

HSize(L, kind, a) == SSum(L, [i \in 1..Dim(kind) |-> SMul(L, Comp(kind, a)[i], Comp(kind, a)[i])])
AEq(L, kind, a, b) == SEq(Alg(L, kind), a, b)
HFx(L, kind, a) == L[1] = "fx" => \A i \in 1..Dim(kind) : FxOk(Comp(kind, a)[i])

\* integer overflow: every component of the exact result decides for + - and negation
HyperPanics(L, o, k, a) == FALSE
HyperPost(L, o, k, a, r) ==
  LET k1 == k[1]
      k2 == k[2]
      kr == Wider(k1, k2)
      A == Alg(L, kr)
      x == Embed(L, k1, kr, a[1])
      y == Embed(L, k2, kr, a[2])
      U == Alg(L, k1)
  IN
  CASE o = "add" -> SEq(A, r, SAdd(A, x, y))
    [] o = "sub" -> SEq(A, r, SSub(A, x, y))
    [] o = "mul" -> SEq(A, r, SMul(A, x, y))
    \* right division: a / b is the value that gives a when multiplied by b
    [] o = "div" -> SInvertible(A, y) =>
                       HFx(L, kr, r) /\ SEq(A, SMul(A, r, y), x) /\ SEq(A, r, SMul(A, x, SInv(A, y)))
    [] o = "rem" -> LET n == NormSqr(L, a[2])
                        t == <<TDiv(a[1][1] * a[2][1] + a[1][2] * a[2][2], n),
                               TDiv(a[1][2] * a[2][1] - a[1][1] * a[2][2], n)>>
                    IN r = SSub(U, a[1], SMul(U, a[2], t))
    [] o = "neg" -> SEq(U, r, SNeg(U, a[1]))
    [] o = "conj" -> SEq(U, r, SConj(U, a[1]))
    [] o = "inv" -> SInvertible(U, a[1]) =>
                       HFx(L, k1, r) /\ SEq(U, SMul(U, a[1], r), SOne(U)) /\ SEq(U, SMul(U, r, a[1]), SOne(U))
    [] o = "normsqr" -> SEq(L, r, HSize(L, k1, a[1]))
    [] o = "norm" -> IsRoot(L, r, HSize(L, k1, a[1]))
    [] o = "norml1" -> SEq(L, r, SSum(L, [i \in 1..Dim(k1) |-> SAbs(L, a[1][i])]))
    [] o = "dot" -> SEq(L, r, DotV(L, a[1], a[2]))
    [] o = "const" -> r = UnitOf(L, k1, k2)
    [] o = "zero" -> r = SZero(U)
    [] o = "iszero" -> r = (a[1] = SZero(U))
    [] o = "matrix" ->   \* column j is the image of the j-th unit under left multiplication
         LET n == Dim(k1)
             cols == [j \in 1..n |-> SMul(U, a[1], UnitOf(L, k1, j))]
         IN MEq(L, r, TransposeN(cols, n))
    [] o = "sum" -> SEq(U, r, SSum(U, a))
    [] o = "prod" -> SEq(U, r, SProd(U, a))
    [] o = "pow" -> IF k2 >= 0 THEN SEq(U, r, SPow(U, a[1], k2))
                    ELSE SInvertible(U, a[1]) => SEq(U, r, SPow(U, SInv(U, a[1]), -k2))
    [] o = "normalize" ->   \* unit length, a positive multiple of the operand
         LET s == SSum(L, [i \in DOMAIN r |-> SMul(L, r[i], a[1][i])]) IN
         /\ DOMAIN r = 1..Dim(k1)
         /\ HFx(L, k1, r)
         /\ SEq(L, HSize(L, k1, r), SOne(L))
         /\ \A i, j \in DOMAIN r : i < j => SEq(L, SMul(L, r[i], a[1][j]), SMul(L, r[j], a[1][i]))
         /\ IF L[1] = "p" THEN s # 0 /\ IsSquare(L[2], s) ELSE s > 0
=============================================================================
