------------------------------- MODULE MC_Reduce -------------------------------
(* Laws of reductions and normalisation (C07) over GF(P), P % 4 = 3, where the   *)
(* squares play the positive numbers; over integers for the norms.              *)
EXTENDS Reduce
CONSTANTS P, N
VARIABLES a, b
L == <<"p", P>>
Z == <<"z", -100, 100>>
V == [1..N -> 0..(P - 1)]
Init == a \in V /\ b = <<>>
Next == b = <<>> /\ a' = a /\ b' \in V
Spec == Init /\ [][Next]_<<a, b>>
Half == (P - 1) \div 2
Centred(v) == [i \in DOMAIN v |-> v[i] - Half]           \* the same as integers around zero
Sq == SSum(L, [i \in 1..N |-> SMul(L, a[i], a[i])])
\* of all vectors, the postcondition admits one direction of unit length at most, and one if the length exists
Unique == b = <<>> => LET S == {r \in V : ReducePost(L, "normalize", 1, <<a>>, r)} IN
  IF Sq # 0 /\ IsSquare(P, Sq)
  THEN \E r \in S : S = {r} /\ \E n \in 1..(P - 1) : IsRoot(L, n, Sq) /\ VScale(L, r, n) = a
  ELSE Cardinality(S) <= 1
Root == b = <<>> => Cardinality({r \in 0..(P - 1) : IsRoot(L, r, Sq)}) = (IF IsSquare(P, Sq) THEN 1 ELSE 0)
Value(o, v) == CHOOSE r \in 0..(N * P) : ReducePost(Z, o, 1, <<v>>, r)
Norms == b # <<>> => LET x == Centred(a)  y == Centred(b)  s == VAdd(Z, x, y) IN
  /\ Value("norminf", x) <= Value("norml1", x) /\ Value("norml1", x) <= N * Value("norminf", x)
  /\ \A o \in {"norml1", "norminf"} :
       /\ Value(o, s) <= Value(o, x) + Value(o, y)
       /\ (Value(o, x) = 0 <=> ReducePost(Z, "iszero", 1, <<x>>, TRUE))
       /\ Value(o, VNeg(Z, x)) = Value(o, x)
  /\ ReducePost(Z, "norml2sqr", 1, <<x>>, DotV(Z, x, x))
  /\ DotV(Z, x, y) * DotV(Z, x, y) <= DotV(Z, x, x) * DotV(Z, y, y)
\* no order of the components matters
Symmetric == b # <<>> => LET x == Centred(b)  y == [i \in 1..N |-> x[(i % N) + 1]] IN
  /\ \A o \in {"norml1", "norminf"} : Value(o, x) = Value(o, y)
  /\ MaxOf(x) = MaxOf(y) /\ MinOf(x) = -MaxOf(VNeg(Z, x)) /\ SSum(Z, x) = SSum(Z, y)
  /\ ReducePost(Z, "sum", 2, <<<<x, y>>>>, 2 * SSum(Z, x))
=============================================================================
