------------------------------- MODULE Mobius -------------------------------
(* Moebius maps (C15).  k = <<coefficient kind, point kind>> with kinds "s"    *)
(* (scalar), "c" (complex), "q" (quaternion); M = <<<<a, b>>, <<c, d>>>>.      *)
(* M denotes x |-> (a x + b) (c x + d)^-1; proportional matrices denote the    *)
(* same map.                                                                   *)
EXTENDS Xform

\* a denominator / determinant one can divide by; in fixed point: far from zero
MoOk(L, kind, x) == IF L[1] = "fx" THEN HSize(L, kind, x) >= FxS \div 2 ELSE SInvertible(Alg(L, kind), x)
MoDet(C, M) == SSub(C, SMul(C, M[1][1], M[2][2]), SMul(C, M[1][2], M[2][1]))
MoNum(L, k, M, x) == LET P == Alg(L, k[2])  e(z) == Embed(L, k[1], k[2], z)
                     IN SAdd(P, SMul(P, e(M[1][1]), x), e(M[1][2]))
MoDen(L, k, M, x) == LET P == Alg(L, k[2])  e(z) == Embed(L, k[1], k[2], z)
                     IN SAdd(P, SMul(P, e(M[2][1]), x), e(M[2][2]))
\* (a - f(x) c) v, which is the derivative at x along v times the denominator
MoDiffNum(L, k, M, x, v) ==
  LET P == Alg(L, k[2])  e(z) == Embed(L, k[1], k[2], z)
      fx == SMul(P, MoNum(L, k, M, x), SInv(P, MoDen(L, k, M, x)))
  IN SMul(P, SSub(P, e(M[1][1]), SMul(P, fx, e(M[2][1]))), v)
MoDiff(L, k, M, x, v) == LET P == Alg(L, k[2]) IN
  SMul(P, MoDiffNum(L, k, M, x, v), SInv(P, MoDen(L, k, M, x)))
\* a non-zero multiple of the identity
MoFlat(C, L, kind, M) == /\ SEq(C, M[1][2], SZero(C))
                         /\ SEq(C, M[2][1], SZero(C))
                         /\ SEq(C, M[1][1], M[2][2])
                         /\ IF L[1] = "fx" THEN HSize(L, kind, M[1][1]) >= FxS \div 64 ELSE SInvertible(C, M[1][1])
MoFx(L, kind, M) == \A i, j \in 1..2 : HFx(L, kind, M[i][j])

MoPost(L, o, k, a, r) ==
  LET C == Alg(L, k[1])  P == Alg(L, k[2])  M == a[1] IN
  CASE o = "apply" -> MoOk(L, k[2], MoDen(L, k, M, a[2])) =>
                         /\ HFx(L, k[2], r)
                         /\ SEq(P, SMul(P, r, MoDen(L, k, M, a[2])), MoNum(L, k, M, a[2]))
    [] o = "chain" -> MEq(C, r, MatMat(C, M, a[2], 2))
    [] o = "ident" -> MoFx(L, k[1], r) /\ MoFlat(C, L, k[1], r)
    [] o = "inv" -> MoOk(L, k[1], MoDet(C, M)) =>
                       /\ MoFx(L, k[1], r)
                       /\ MoFlat(C, L, k[1], MatMat(C, M, r, 2))
                       /\ MoFlat(C, L, k[1], MatMat(C, r, M, 2))
    [] o = "normalize" -> MoOk(L, k[1], MoDet(C, M)) =>
                       /\ MoFx(L, k[1], r)
                       /\ \A p, q \in (1..2) \X (1..2) :
                            SEq(C, SMul(C, r[p[1]][p[2]], M[q[1]][q[2]]), SMul(C, r[q[1]][q[2]], M[p[1]][p[2]]))
                       /\ (L[1] # "fx" => SInvertible(C, MoDet(C, r)))
                       /\ (L[1] = "fx" => ~SEq(C, MoDet(C, r), SZero(C)))
    [] o = "det" -> SEq(C, r, MoDet(C, M))
    \* complex derivative
    [] o = "deriv" -> LET d == MoDen(L, k, M, a[2]) IN
         MoOk(L, k[2], d) => HFx(L, k[2], r) /\ SEq(P, SMul(P, SMul(P, r, d), d), Embed(L, k[1], k[2], MoDet(C, M)))
    \* directional derivative
    [] o = "derivdir" -> LET d == MoDen(L, k, M, a[2]) IN
         MoOk(L, k[2], d) => HFx(L, k[2], r) /\ SEq(P, SMul(P, r, d), MoDiffNum(L, k, M, a[2], a[3]))
    [] o = "applydir" -> LET d == MoDen(L, k, M, a[2])  w == MoDiff(L, k, M, a[2], a[3]) IN
         (MoOk(L, k[2], d) /\ (IF L[1] = "fx" THEN HSize(L, k[2], w) >= FxS \div 16 /\ HSize(L, k[2], w) <= 64 * FxS ELSE SInvertible(L, LenSqr(L, w)))) => IsUnitOf(L, r, w)
=============================================================================
