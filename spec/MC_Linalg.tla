------------------------------ MODULE MC_Linalg ------------------------------
(* Laws of the linear algebra of the specification (C08, C09), exhaustively    *)
(* for 2x2 matrices over GF(P), and for GDet (elimination) against the Leibniz *)
(* formula on all 3x3 matrices over GF(3) and on generated larger ones.        *)
EXTENDS Linalg
CONSTANT P
VARIABLES A, B, C
L == <<"p", P>>
F == 0..(P - 1)
M2 == {<<<<a, b>>, <<c, d>>>> : a, b, c, d \in F}
U2 == {<<<<1, 0>>, <<0, 0>>>>, <<<<0, 1>>, <<0, 0>>>>, <<<<0, 0>>, <<1, 0>>>>, <<<<0, 0>>, <<1, 1>>>>, <<<<1, 1>>, <<1, 0>>>>}
\* "ready" keeps initial states few, so that the workers share the pairs
Init == A \in M2 /\ B = <<>> /\ C = <<>>
Next == B = <<>> /\ A' = A /\ B' \in M2 /\ C' \in U2
Spec == Init /\ [][Next]_<<A, B, C>>
I == IdentM(L, 2)
Mul(x, y) == MatMat(L, x, y, 2)
Add(x, y) == [i \in 1..2 |-> VAdd(L, x[i], y[i])]
T(x) == TransposeN(x, 2)
Neutral == B = <<>> => Mul(A, I) = A /\ Mul(I, A) = A
Inverses == B = <<>> => LET d == Det(L, A)  J == Adj(L, A) IN
  /\ Mul(A, J) = MScale(L, I, d) /\ Mul(J, A) = MScale(L, I, d)
  /\ (d # 0 <=> \E r \in M2 : IsInverse(L, A, r))
  /\ (d # 0 => \A r \in M2 : IsInverse(L, A, r) <=> r = MScale(L, J, SInv(L, d)))
Products == B # <<>> =>
  LET AB == Mul(A, B) IN
  /\ Det(L, AB) = SMul(L, Det(L, A), Det(L, B))
  /\ T(AB) = Mul(T(B), T(A))
  /\ Mul(AB, C) = Mul(A, Mul(B, C))
  /\ Mul(A, Add(B, C)) = Add(AB, Mul(A, C))
  /\ Mul(Add(A, B), C) = Add(Mul(A, C), Mul(B, C))
  /\ MatVec(L, AB, C[1]) = MatVec(L, A, MatVec(L, B, C[1]))
  /\ VecMat(L, C[1], AB, 2) = VecMat(L, VecMat(L, C[1], A, 2), B, 2)
  /\ DotV(L, MatVec(L, A, C[1]), C[2]) = DotV(L, C[1], MatVec(L, T(A), C[2]))
  /\ Mul(OuterV(L, A[1], A[2]), B) = OuterV(L, A[1], VecMat(L, A[2], B, 2))
  /\ Cross2(L, A[1], A[2]) = Det(L, A)
=============================================================================
