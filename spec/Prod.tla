-------------------------------- MODULE Prod --------------------------------
(* Products (C08) and square matrices (C09).                                  *)
EXTENDS Linalg

ProdPanics(L, o, k, a) ==
  CASE o = "cofactor" -> k[1] >= Len(a[1]) \/ k[2] >= Len(a[1])
    [] OTHER -> FALSE
\* sums of no products
ProdMayPanic(L, o, k, a) ==
  CASE o = "dot" -> a[1] = <<>>
    [] o = "matmat" -> k > 0 /\ a[1] # <<>> /\ a[1][1] = <<>>
    [] o = "matvec" -> a[1] # <<>> /\ a[2] = <<>>
    [] o = "vecmat" -> k > 0 /\ a[1] = <<>>
    [] OTHER -> FALSE
\* k: number of columns of the right operand where it has no rows to show it
ProdPost(L, o, k, a, r) ==
  CASE o = "dot" -> SEq(L, r, DotV(L, a[1], a[2]))
    [] o = "matmat" -> MEq(L, r, MatMat(L, a[1], a[2], k))
    [] o = "matvec" -> VEq(L, r, MatVec(L, a[1], a[2]))
    [] o = "vecmat" -> VEq(L, r, VecMat(L, a[1], a[2], k))
    [] o = "outer" -> MEq(L, r, OuterV(L, a[1], a[2]))
    [] o = "cross2" -> SEq(L, r, Cross2(L, a[1], a[2]))
    [] o = "cross3" -> VEq(L, r, Cross3(L, a[1], a[2]))
    [] o = "cross4" -> VEq(L, r, Append(Cross3(L, a[1], a[2]), SZero(L)))
    [] o = "transpose" -> r = TransposeN(a[1], k)
    [] o = "ident" -> r = IdentM(L, k)
    [] o = "diag" -> r = DiagM(L, a[1])
    [] o = "det" -> SEq(L, r, Det(L, a[1]))
    [] o = "cofactor" -> SEq(L, r, Cofactor(L, a[1], k[1] + 1, k[2] + 1))
    [] o = "adj" -> MEq(L, r, Adj(L, a[1]))
    [] o = "inv" -> SInvertible(L, Det(L, a[1])) => IsInverse(L, a[1], r)
=============================================================================
