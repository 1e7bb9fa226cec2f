------------------------------- MODULE MC_Hyper -------------------------------
(* Laws of complex numbers and quaternions over GF(P) (C10, C11): ring axioms,  *)
(* multiplicative norm, inverses, embeddings and matrix forms as               *)
(* homomorphisms; mixed operations are those of the embedded operands.         *)
EXTENDS Hyper
CONSTANTS P, Third      \* Third: all of the algebra, or a basis of it, as third factor
VARIABLES kind, a, b, c
L == <<"p", P>>
F == 0..(P - 1)
All(k) == [1..Dim(k) -> F]
Thirds(k) == IF Third = "all" THEN All(k) ELSE {UnitOf(L, k, j) : j \in 1..Dim(k)}
Init == kind \in {"c", "q"} /\ a \in All(kind) /\ b = <<>> /\ c = <<>>
Next == b = <<>> /\ b' \in All(kind) /\ c' \in Thirds(kind) /\ UNCHANGED <<kind, a>>
Spec == Init /\ [][Next]_<<kind, a, b, c>>
U == Alg(L, kind)
x(y, z) == SMul(U, y, z)
Norm(y) == NormSqr(L, y)
MatOf(y) == LET n == Dim(kind) IN TransposeN([j \in 1..n |-> SMul(U, y, UnitOf(L, kind, j))], n)
One == SOne(U)
Single == b = <<>> =>
  /\ x(a, One) = a /\ x(One, a) = a
  /\ x(a, SConj(U, a)) = Embed(L, "s", kind, Norm(a))
  /\ (SInvertible(U, a) <=> \E y \in All(kind) : x(a, y) = One)
  /\ (SInvertible(U, a) => x(a, SInv(U, a)) = One /\ x(SInv(U, a), a) = One)
  /\ MatOf(One) = IdentM(L, Dim(kind))
  /\ MatOf(SConj(U, a)) = TransposeN(MatOf(a), Dim(kind))
  /\ \A e \in 0..5 : SPow(U, a, e) = SProd(U, [i \in 1..e |-> a])
Pairs == b # <<>> =>
  LET ab == x(a, b) IN
  /\ Norm(ab) = (Norm(a) * Norm(b)) % P
  /\ SConj(U, ab) = x(SConj(U, b), SConj(U, a))
  /\ (kind = "c" => ab = x(b, a))
  /\ MatMat(L, MatOf(a), MatOf(b), Dim(kind)) = MatOf(ab)
  /\ (SInvertible(U, b) => x(x(a, SInv(U, b)), b) = a)
  /\ (kind = "c" => /\ SMul(<<"q", L>>, Embed(L, "c", "q", a), Embed(L, "c", "q", b)) = Embed(L, "c", "q", ab)
                    /\ SAdd(<<"q", L>>, Embed(L, "c", "q", a), Embed(L, "c", "q", b)) = Embed(L, "c", "q", SAdd(U, a, b)))
  \* the polarised norm is the dot product
  /\ Norm(SAdd(U, a, b)) = (Norm(a) + Norm(b) + 2 * DotV(L, a, b)) % P
Triples == b # <<>> =>
  /\ x(x(a, b), c) = x(a, x(b, c))
  /\ x(a, SAdd(U, b, c)) = SAdd(U, x(a, b), x(a, c))
  /\ x(SAdd(U, a, b), c) = SAdd(U, x(a, c), x(b, c))
=============================================================================
