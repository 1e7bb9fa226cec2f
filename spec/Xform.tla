-------------------------------- MODULE Xform --------------------------------
(* Transformations (C12, C13, C14).  A value of type t over an n-dimensional  *)
(* space denotes the affine map x |-> A x + b; operations are specified on    *)
(* that map, not on the representation.                                       *)
(*   t: <<"sh">> <<"sc">> <<"li">> <<"r2">> <<"r3">> <<"ch", outer, inner>>   *)
EXTENDS Trig

RotM(L, q) ==   \* x |-> q x q*, column by column
  LET QL == <<"q", L>>
      col(j) == LET e == [i \in 1..4 |-> IF i = j + 1 THEN SOne(L) ELSE SZero(L)]
                IN SubSeq(SMul(QL, SMul(QL, q, e), SConj(QL, q)), 2, 4)
  IN TransposeN(<<col(1), col(2), col(3)>>, 3)
ZeroV(L, n) == [i \in 1..n |-> SZero(L)]
RECURSIVE Den(_, _, _, _)
Den(L, n, t, x) ==
  CASE t[1] = "sh" -> [A |-> IdentM(L, n), b |-> x]
    [] t[1] = "sc" -> [A |-> MScale(L, IdentM(L, n), x), b |-> ZeroV(L, n)]
    [] t[1] = "li" -> [A |-> x, b |-> ZeroV(L, n)]
    [] t[1] = "r2" -> [A |-> <<<<x[1], SNeg(L, x[2])>>, <<x[2], x[1]>>>>, b |-> ZeroV(L, 2)]
    [] t[1] = "r3" -> [A |-> RotM(L, x), b |-> ZeroV(L, 3)]
    [] t[1] = "ch" -> LET o == Den(L, n, t[2], x[1])
                          i == Den(L, n, t[3], x[2])
                      IN [A |-> MatMat(L, o.A, i.A, n), b |-> VAdd(L, MatVec(L, o.A, i.b), o.b)]
Compose(L, n, f, g) == [A |-> MatMat(L, f.A, g.A, n), b |-> VAdd(L, MatVec(L, f.A, g.b), f.b)]
IdMap(L, n) == [A |-> IdentM(L, n), b |-> ZeroV(L, n)]
SameMap(L, f, g) == MEq(L, f.A, g.A) /\ VEq(L, f.b, g.b)
Image(L, f, v) == VAdd(L, MatVec(L, f.A, v), f.b)

\* invertible; in fixed point: so well conditioned that rounding stays below the tolerance
MInvertible(L, A) ==
  IF L[1] = "fx"
  THEN LET d == Abs(Det(L, A))  C == Adj(L, A) IN
       d >= FxS \div 8 /\ d <= 16 * FxS /\ \A i, j \in DOMAIN A : Abs(C[i][j]) <= 2 * d
  ELSE SInvertible(L, Det(L, A))
RECURSIVE FxT(_, _, _)
FxT(L, t, x) == L[1] # "fx" \/
  CASE t[1] \in {"sh", "r2", "r3"} -> FxV(L, x)
    [] t[1] = "sc" -> FxOk(x)
    [] t[1] = "li" -> FxM(L, x)
    [] t[1] = "ch" -> FxT(L, t[2], x[1]) /\ FxT(L, t[3], x[2])
LenSqr(L, v) == DotV(L, v, v)
\* r = v / |v|
IsUnitOf(L, r, v) ==
  /\ DOMAIN r = DOMAIN v
  /\ FxV(L, r)
  /\ SEq(L, LenSqr(L, r), SOne(L))
  /\ \A i, j \in DOMAIN v : i < j => SEq(L, SMul(L, r[i], v[j]), SMul(L, r[j], v[i]))
  /\ LET s == DotV(L, r, v) IN IF L[1] = "p" THEN s # 0 /\ IsSquare(L[2], s) ELSE s > 0
\* a positive multiple of the inverse transposed of A: det(A) (or its sign) times the cofactors
NormalMap(L, A) == LET n == Len(A)  d == Det(L, A) IN
  [i \in 1..n |-> [j \in 1..n |-> IF L[1] = "fx" THEN Sgn(d) * Cofactor(L, A, i, j) ELSE SMul(L, d, Cofactor(L, A, i, j))]]
IsProperIsometry(L, R) ==
  MEq(L, MatMat(L, R, TransposeN(R, Len(R)), Len(R)), IdentM(L, Len(R))) /\ SEq(L, Det(L, R), SOne(L))
\* rotation about the unit axis u with cosine c and sine s
Rodrigues(L, u, c, s) ==
  LET k == <<<<SZero(L), SNeg(L, u[3]), u[2]>>, <<u[3], SZero(L), SNeg(L, u[1])>>, <<SNeg(L, u[2]), u[1], SZero(L)>>>>
      oc == SSub(L, SOne(L), c)
  IN [i \in 1..3 |-> [j \in 1..3 |->
        SAdd(L, SAdd(L, IF i = j THEN c ELSE SZero(L), SMul(L, s, k[i][j])), SMul(L, oc, SMul(L, u[i], u[j])))]]
Forward(L) == <<SZero(L), SZero(L), SNeg(L, SOne(L))>>

\* user-defined, not affine:  <<"be">>  (x, y) |-> (x, y + a x + b x^2),  <<"di">>  (x, y) |-> (u x, w y)
RECURSIVE QMap(_, _, _, _), QJac(_, _, _, _)
QMap(L, t, x, v) ==
  CASE t[1] = "be" -> <<v[1], SAdd(L, v[2], SAdd(L, SMul(L, x[1], v[1]), SMul(L, x[2], SMul(L, v[1], v[1]))))>>
    [] t[1] = "di" -> <<SMul(L, x[1], v[1]), SMul(L, x[2], v[2])>>
    [] t[1] = "ch" -> QMap(L, t[2], x[1], QMap(L, t[3], x[2], v))
    [] OTHER -> Image(L, Den(L, 2, t, x), v)
QJac(L, t, x, v) ==     \* the derivative at v: a matrix
  CASE t[1] = "be" -> <<<<SOne(L), SZero(L)>>, <<SAdd(L, x[1], SMul(L, SInt(L, 2), SMul(L, x[2], v[1]))), SOne(L)>>>>
    [] t[1] = "di" -> DiagM(L, x)
    [] t[1] = "ch" -> MatMat(L, QJac(L, t[2], x[1], QMap(L, t[3], x[2], v)), QJac(L, t[3], x[2], v), 2)
    [] OTHER -> Den(L, 2, t, x).A
\* such maps agree everywhere if they agree here
QProbe(L) == {<<SInt(L, i), SInt(L, j)>> : i \in 0..3, j \in 0..1}
QPost(L, o, k, a, r) ==
  LET t == k[2] IN
  CASE o = "qapply" -> r = QMap(L, t, a[1], a[2])
    [] o = "qident" -> \A v \in QProbe(L) : QMap(L, t, r, v) = v
    [] o = "qchain" -> \A v \in QProbe(L) : QMap(L, t, r, v) = QMap(L, t, a[1], QMap(L, t, a[2], v))
    [] o = "qinv" -> \A v \in QProbe(L) : QMap(L, t, r, QMap(L, t, a[1], v)) = v /\ QMap(L, t, a[1], QMap(L, t, r, v)) = v
    [] o = "qderiv" -> r = MatVec(L, QJac(L, t, a[1], a[2]), a[3])
    [] o = "qdir" -> LET v == MatVec(L, QJac(L, t, a[1], a[2]), a[3]) IN SInvertible(L, LenSqr(L, v)) => IsUnitOf(L, r, v)
    [] o = "qnormal" -> LET v == MatVec(L, NormalMap(L, QJac(L, t, a[1], a[2])), a[3]) IN SInvertible(L, LenSqr(L, v)) => IsUnitOf(L, r, v)
QOps == {"qapply", "qident", "qchain", "qinv", "qderiv", "qdir", "qnormal"}

\* k = <<n, t>> or <<n, t, t2>>
APost(L, o, k, a, r) ==
  LET n == k[1]  t == k[2]  f == Den(L, n, t, a[1]) IN
  CASE o = "apply" -> VEq(L, r, Image(L, f, a[2]))
    [] o = "deriv" -> VEq(L, r, MatVec(L, f.A, a[3]))
    [] o = "ident" -> SameMap(L, Den(L, n, t, r), IdMap(L, n))
    [] o = "chain" -> FxT(L, t, r) /\ SameMap(L, Den(L, n, t, r), Compose(L, n, f, Den(L, n, t, a[2])))
    [] o = "inv" -> MInvertible(L, f.A) =>
                      /\ FxT(L, t, r)
                      /\ LET g == Den(L, n, t, r) IN
                         SameMap(L, Compose(L, n, f, g), IdMap(L, n)) /\ SameMap(L, Compose(L, n, g, f), IdMap(L, n))
    \* (x, y) |-> (y', x') with y' x' = x y
    [] o = "reorder" -> LET g == Den(L, n, k[3], a[2]) IN
         MInvertible(L, g.A) =>
           /\ FxT(L, k[3], r[1]) /\ FxT(L, t, r[2])
           /\ SameMap(L, Compose(L, n, Den(L, n, k[3], r[1]), Den(L, n, t, r[2])), Compose(L, n, f, g))
    [] o = "tolinear" -> MEq(L, r, f.A)
    [] o = "parts" -> r = a[1]          \* outer and inner part of a chain, however they are read
    [] o = "setparts" -> r = <<a[2], a[3]>>
    [] o = "normaltransform" -> MInvertible(L, f.A) => IsInverse(L, TransposeN(f.A, n), r)
    \* a[2] position, a[3] unit direction / unit normal
    [] o = "applydir" -> LET v == MatVec(L, f.A, a[3]) IN
         (MInvertible(L, f.A) /\ SInvertible(L, LenSqr(L, v))) => IsUnitOf(L, r, v)
    [] o = "applynormal" -> LET v == MatVec(L, NormalMap(L, f.A), a[3]) IN
         (MInvertible(L, f.A) /\ SInvertible(L, LenSqr(L, v))) => IsUnitOf(L, r, v)
    [] o = "lookat" -> /\ FxM(L, r)
                       /\ IsProperIsometry(L, r)
                       /\ VEq(L, MatVec(L, r, Forward(L)), a[1])
                       /\ SEq(L, DotV(L, Col(r, 1), a[2]), SZero(L))
                       /\ LET s == DotV(L, Col(r, 2), a[2]) IN IF L[1] = "p" THEN s # 0 /\ IsSquare(L[2], s) ELSE s > 0
    [] o = "lookatany" -> LET R == Den(L, 3, t, r).A IN
         FxT(L, t, r) /\ IsProperIsometry(L, R) /\ VEq(L, MatVec(L, R, Forward(L)), a[1])
         /\ (t[1] = "r3" => SEq(L, LenSqr(L, r), SOne(L)))
    [] o = "new2" -> VEq(L, r, CosSin(L, a[1]))
    [] o = "angle2" -> IsAngle(L, r) /\ VEq(L, CosSin(L, r), a[1])
    [] o = "new3" -> LET cs == CosSin(L, a[2]) IN
         FxV(L, r) /\ MEq(L, RotM(L, r), Rodrigues(L, a[1], cs[1], cs[2])) /\ SEq(L, LenSqr(L, r), SOne(L))
    [] o = "axisangle" -> /\ IsAngle(L, r[2]) /\ FxV(L, r[1])
                          /\ SEq(L, LenSqr(L, r[1]), SOne(L))
                          /\ LET cs == CosSin(L, r[2]) IN MEq(L, Rodrigues(L, r[1], cs[1], cs[2]), f.A)
    \* the angle alone: its cosine is 2 w^2 - 1, and as an angle between 0 and a full turn its half has the cosine w
    [] o = "angle3" -> /\ IsAngle(L, r)
                       /\ LET w == a[1][1] IN SEq(L, CosSin(L, r)[1], SSub(L, SMul(L, SInt(L, 2), SMul(L, w, w)), SOne(L)))
    \* very small rotations, in a unit as small as they are
    [] o = "tinyangle" -> SEq(L, r, a[1])
    [] o = "tinyaxis" -> VEq(L, r, a[1])
    \* the image of a[1] is as long as a[1]
    [] o = "samelen" -> FxV(L, r) /\ SEq(L, LenSqr(L, r), LenSqr(L, a[1]))
    \* the axis does not move
    [] o = "fixed" -> VEq(L, r, a[1])
    \* the matrix is orthogonal with determinant one
    [] o = "rotation" -> FxM(L, r) /\ IsProperIsometry(L, r)
XformPost(L, o, k, a, r) == IF o \in QOps THEN QPost(L, o, k, a, r) ELSE APost(L, o, k, a, r)
=============================================================================
