------------------------------- MODULE Reduce -------------------------------
(* Reductions, norms and normalisation (C07).  k = rank.                      *)
EXTENDS Linalg

Elems(k, a) == IF k = 2 THEN Flat(a) ELSE a
RAdd(L, k, a, b) == IF k = 2 THEN [i \in DOMAIN a |-> VAdd(L, a[i], b[i])] ELSE VAdd(L, a, b)
RMul(L, k, a, b) == IF k = 2 THEN [i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> SMul(L, a[i][j], b[i][j])]]
                    ELSE [i \in DOMAIN a |-> SMul(L, a[i], b[i])]
RFill(k, a, x) == IF k = 2 THEN [i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> x]] ELSE [i \in DOMAIN a |-> x]
ReduceMayPanic(L, o, k, a) ==
  o \in {"sum", "max", "min", "norml1", "norml2sqr", "norml2", "norminf", "sqlen", "length", "normalize"}
  /\ Elems(k, a[1]) = <<>>
MinOf(s) == CHOOSE x \in Range(s) : \A y \in Range(s) : x <= y
MaxOf(s) == CHOOSE x \in Range(s) : \A y \in Range(s) : x >= y
Positive(L, x) == IF L[1] = "p" THEN x # 0 /\ IsSquare(L[2], x) ELSE x > 0
ReducePost(L, o, k, a, r) ==
  LET s == Elems(k, a[1])
      sq == SSum(L, [i \in DOMAIN s |-> SMul(L, s[i], s[i])])
  IN
  CASE o = "sum" -> SEq(L, r, SSum(L, s))
    [] o = "max" -> s = <<>> \/ r = MaxOf(s)
    [] o = "min" -> s = <<>> \/ r = MinOf(s)
    [] o = "norml1" -> SEq(L, r, SSum(L, [i \in DOMAIN s |-> SAbs(L, s[i])]))
    [] o = "norminf" -> IF s = <<>> THEN r = 0 ELSE r = MaxOf([i \in DOMAIN s |-> Abs(s[i])])
    [] o \in {"norml2sqr", "sqlen"} -> SEq(L, r, sq)
    [] o \in {"norml2", "length"} -> IsRoot(L, r, sq)
    [] o = "zero" -> r = RFill(k, a[1], SZero(L))
    [] o = "iszero" -> r = (\A i \in DOMAIN s : s[i] = SZero(L))
    \* sum / product of an iterator of containers a[2..]; a[1] only fixes the shape
    [] o = "isum" -> r = FoldLeft(LAMBDA x, y : RAdd(L, k, x, y), a[2], SubSeq(a, 3, Len(a)))
    [] o = "iprod" -> r = FoldLeft(LAMBDA x, y : RMul(L, k, x, y), a[2], SubSeq(a, 3, Len(a)))
    [] o = "isum0" -> r = RFill(k, a[1], SZero(L))
    [] o = "iprod0" -> r = RFill(k, a[1], SOne(L))
    \* r = a / |a| : same direction, unit length
    [] o = "normalize" -> LET e == Elems(k, r) IN
         IF s = <<>> THEN e = <<>> ELSE
         /\ DOMAIN e = DOMAIN s
         /\ FxV(L, e)
         /\ SEq(L, SSum(L, [i \in DOMAIN e |-> SMul(L, e[i], e[i])]), SOne(L))
         /\ \A i, j \in DOMAIN s : i < j => SEq(L, SMul(L, e[i], s[j]), SMul(L, e[j], s[i]))
         /\ Positive(L, SSum(L, [i \in DOMAIN s |-> SMul(L, e[i], s[i])]))
=============================================================================
