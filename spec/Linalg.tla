------------------------------- MODULE Linalg -------------------------------
(* Vectors (sequences) and matrices (sequences of rows) over a lane.          *)
EXTENDS Scalars, FiniteSets

Row(m, i) == m[i]
Col(m, j) == [i \in DOMAIN m |-> m[i][j]]
NCols(m, n) == IF m = <<>> THEN n ELSE Len(m[1])
TransposeN(m, n) == [j \in 1..n |-> [i \in DOMAIN m |-> m[i][j]]]   \* m is Len(m) x n
Flat(m) == FlattenSeq(m)

DotV(L, a, b) == SSum(L, [i \in DOMAIN a |-> SMul(L, a[i], b[i])])
MatVec(L, m, v) == [i \in DOMAIN m |-> DotV(L, m[i], v)]
VecMat(L, v, m, n) == [j \in 1..n |-> DotV(L, v, Col(m, j))]
MatMat(L, a, b, n) == LET bt == TransposeN(b, n)
                      IN [i \in DOMAIN a |-> [j \in 1..n |-> DotV(L, a[i], bt[j])]]
OuterV(L, a, b) == [i \in DOMAIN a |-> [j \in DOMAIN b |-> SMul(L, a[i], b[j])]]
VAdd(L, a, b) == [i \in DOMAIN a |-> SAdd(L, a[i], b[i])]
VSub(L, a, b) == [i \in DOMAIN a |-> SSub(L, a[i], b[i])]
VNeg(L, a) == [i \in DOMAIN a |-> SNeg(L, a[i])]
VScale(L, a, s) == [i \in DOMAIN a |-> SMul(L, a[i], s)]
MScale(L, m, s) == [i \in DOMAIN m |-> VScale(L, m[i], s)]
IdentM(L, n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN SOne(L) ELSE SZero(L)]]
DiagM(L, v) == [i \in DOMAIN v |-> [j \in DOMAIN v |-> IF i = j THEN v[i] ELSE SZero(L)]]
Cross2(L, a, b) == SSub(L, SMul(L, a[1], b[2]), SMul(L, a[2], b[1]))
Cross3(L, a, b) ==
  LET c(i, j) == SSub(L, SMul(L, a[i], b[j]), SMul(L, a[j], b[i])) IN <<c(2,3), c(3,1), c(1,2)>>

\* Leibniz formula: the sum over all permutations
PermsOf(n) == LET S == 1..n IN {f \in [S -> S] : \A i, j \in S : i # j => f[i] # f[j]}
Inversions(n, f) == Cardinality({<<i, j>> \in (1..n) \X (1..n) : i < j /\ f[i] > f[j]})
PermTable == [n \in 1..5 |-> SetToSeq({[f |-> f, odd |-> Inversions(n, f) % 2 = 1] : f \in PermsOf(n)})]
\* over a prime field, larger sizes by elimination (MC_Linalg checks that the two agree)
RECURSIVE GDet(_, _)
GDet(P, m) ==
  LET n == Len(m) IN
  IF n = 0 THEN 1
  ELSE LET piv == {i \in 1..n : m[i][1] # 0} IN
       IF piv = {} THEN 0
       ELSE LET i == CHOOSE x \in piv : \A y \in piv : x <= y
                c == m[i][1]
                ci == PowMod(c, P - 2, P)
                rest == [a \in 1..(n - 1) |-> m[IF a < i THEN a ELSE a + 1]]
                f(a) == (rest[a][1] * ci) % P
                sub == [a \in 1..(n - 1) |-> [b \in 1..(n - 1) |-> (rest[a][b + 1] + P - ((f(a) * m[i][b + 1]) % P)) % P]]
                d == (c * GDet(P, sub)) % P
            IN IF i % 2 = 1 THEN d ELSE (P - d) % P
Det(L, m) ==
  LET n == Len(m) IN
  IF n = 0 THEN SOne(L)
  ELSE IF L[1] = "p" /\ n > 3 THEN GDet(L[2], m)
  ELSE SSum(L, [k \in DOMAIN PermTable[n] |->
          LET t == PermTable[n][k]
              q == SProd(L, [i \in 1..n |-> m[i][t.f[i]]])
          IN IF t.odd THEN SNeg(L, q) ELSE q])
Without(m, i, j) ==   \* m without row i and column j
  LET n == Len(m) IN
  [a \in 1..(n - 1) |-> [b \in 1..(n - 1) |-> m[IF a < i THEN a ELSE a + 1][IF b < j THEN b ELSE b + 1]]]
Cofactor(L, m, i, j) == LET d == Det(L, Without(m, i, j)) IN IF (i + j) % 2 = 0 THEN d ELSE SNeg(L, d)
Adj(L, m) == LET n == Len(m) IN [i \in 1..n |-> [j \in 1..n |-> Cofactor(L, m, j, i)]]
IsInverse(L, m, r) ==
  LET n == Len(m) IN FxM(L, r) /\ MEq(L, MatMat(L, m, r, n), IdentM(L, n)) /\ MEq(L, MatMat(L, r, m, n), IdentM(L, n))
=============================================================================
