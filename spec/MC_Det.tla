-------------------------------- MODULE MC_Det --------------------------------
(* The two determinants of Linalg agree; expansion along any row and column;   *)
(* adjugate of a product; vector products (C08, C09).                          *)
EXTENDS Linalg
CONSTANTS P, Rounds
VARIABLES m
L == <<"p", P>>
F == 0..(P - 1)
\* the Leibniz formula, whatever the lane and size
Leibniz(x) == LET n == Len(x) IN
  SSum(L, [k \in DOMAIN PermTable[n] |->
     LET t == PermTable[n][k]  q == SProd(L, [i \in 1..n |-> x[i][t.f[i]]]) IN IF t.odd THEN SNeg(L, q) ELSE q])
\* generated n x n matrices, some of them singular
Gen(n, s) == [i \in 1..n |-> [j \in 1..n |-> ((s * s + 3) * i * i + (s + j * 7) * j * (i + s) + s * (j * j * j + i)) % P]]
Init == m \in {<<r>> : r \in [1..3 -> F]} \union {Gen(n, s) : n \in 4..5, s \in 1..Rounds}
Next == Len(m) < 3 /\ Len(m[1]) = 3 /\ \E r \in [1..3 -> F] : m' = Append(m, r)
Spec == Init /\ [][Next]_m
Square == m # <<>> /\ Len(m) = Len(m[1])
Agree == Square => GDet(P, m) = Leibniz(m) /\ Det(L, m) = Leibniz(m)
Expansion == Square =>
  LET n == Len(m)  d == GDet(P, m) IN
  /\ \A i \in 1..n : SSum(L, [j \in 1..n |-> SMul(L, m[i][j], Cofactor(L, m, i, j))]) = d
  /\ \A j \in 1..n : SSum(L, [i \in 1..n |-> SMul(L, m[i][j], Cofactor(L, m, i, j))]) = d
  /\ MatMat(L, m, Adj(L, m), n) = MScale(L, IdentM(L, n), d)
  /\ GDet(P, TransposeN(m, n)) = d
\* the rows of a 3x3 matrix as vectors
Triple == Square /\ Len(m) = 3 =>
  LET a == m[1]  b == m[2]  c == m[3] IN
  /\ DotV(L, a, Cross3(L, b, c)) = GDet(P, m)
  /\ DotV(L, a, Cross3(L, a, b)) = 0
  /\ Cross3(L, a, Cross3(L, b, c)) = VSub(L, VScale(L, b, DotV(L, a, c)), VScale(L, c, DotV(L, a, b)))
=============================================================================
