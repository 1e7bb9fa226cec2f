------------------------------ MODULE MC_Mobius ------------------------------
(* Laws of the Moebius specification, exhaustively over a small field:         *)
(*  - composition of maps is the matrix product (for quaternion points),       *)
(*  - MoDiff is the derivative: over the dual numbers GF(P)[e]/(e^2) the map   *)
(*    sends x + v e to f(x) + MoDiff(x, v) e, that is                          *)
(*    (f(x) + w e) (D + (c v) e) = u + (a v) e.                                *)
EXTENDS Mobius
CONSTANT P
VARIABLES M, N, x, v
L == <<"p", P>>
K == <<"c", "q">>
QL == <<"q", L>>
CL == <<"c", L>>
Cs == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, P - 1>>}
Ms == {<<<<a, b>>, <<c, d>>>> : a \in Cs, b \in {<<0, 0>>, <<1, 1>>}, c \in Cs, d \in Cs}
Ns == {<<<<<<1, 0>>, <<0, 1>>>>, <<<<1, 1>>, <<1, 0>>>>>>, <<<<<<0, 0>>, <<1, 0>>>>, <<<<0, 1>>, <<1, 0>>>>>>}
Qs == [1..4 -> 0..(P - 1)]
Vs == {<<1, 0, 0, 0>>, <<0, 0, 1, 0>>, <<1, 1, 0, P - 1>>}
Init == M \in Ms /\ N \in Ns /\ x = <<>> /\ v = <<>>
Next == x = <<>> /\ x' \in Qs /\ v' \in Vs /\ UNCHANGED <<M, N>>
Spec == Init /\ [][Next]_<<M, N, x, v>>
e(z) == Embed(L, "c", "q", z)
Val(m, y) == SMul(QL, MoNum(L, K, m, y), SInv(QL, MoDen(L, K, m, y)))
Derivative == x # <<>> =>
  LET D == MoDen(L, K, M, x) IN
  SInvertible(QL, D) =>
    LET f == Val(M, x)  w == MoDiff(L, K, M, x, v) IN
    /\ SMul(QL, f, D) = MoNum(L, K, M, x)
    /\ SAdd(QL, SMul(QL, w, D), SMul(QL, f, SMul(QL, e(M[2][1]), v))) = SMul(QL, e(M[1][1]), v)
Composition == x # <<>> =>
  LET D == MoDen(L, K, N, x) IN
  SInvertible(QL, D) =>
    LET y == Val(N, x)  MN == MatMat(CL, M, N, 2) IN
    SInvertible(QL, MoDen(L, K, M, y)) =>
      /\ SInvertible(QL, MoDen(L, K, MN, x))
      /\ Val(M, y) = Val(MN, x)
=============================================================================
